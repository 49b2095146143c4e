#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the simulator from /repo's current tree, runs a fixed number of seeded simulated executions of the
property's world, and judges them.  Exit 0: held on everything explored.  Exit 1: a violation, minimised, replayed
in a fresh process and written to a replay file.  Anything else: the check itself could not give an answer."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
JOBS = max(2, min(16, len(os.sched_getaffinity(0))))
# flavour, depth (history length multiplier), runs
PLAN = {"quick": [("dbg", 1, 12000), ("rel", 1, 8000), ("dbg", 5, 1500)],
        "thorough": [("dbg", 1, 160000), ("rel", 1, 100000), ("dbg", 5, 24000), ("rel", 5, 16000), ("dbg", 14, 3000)]}
FACTOR = {"P12": 0.45, "P17": 0.4, "P25": 0.3}       # runs of these worlds cost more
LEVEL = "exploration"

def die(msg, code=3):
    print("ERROR: " + msg); sys.exit(code)

def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}

def known(prop):
    """(bit mask of all listed findings, the lines of this property)"""
    mask, mine = 0, []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) bit=(\d+) (.*)", l)
        if m:
            mask |= int(m.group(2))
            if m.group(1) == prop: mine.append((int(m.group(2)), m.group(3).strip()))
    return mask, mine

def sim(exe, args, env, timeout):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout

def main():
    if len(sys.argv) < 3: die("usage: check.py PROPERTY quick|thorough")
    prop, tier = sys.argv[1], sys.argv[2]
    if prop not in props(): die("unknown property " + prop)
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        exe, key = B.build()
    except B.BuildError as e:
        die("the tree does not build:\n" + str(e))
    tbuild = time.time() - t0
    mask, mine = known(prop)
    base_env = dict(os.environ, SIM_VERSION=".".join(B.version()), SIM_KNOWN=str(mask), SIM_EARLY="1")
    base_env.pop("SIM_DEEP", None)
    budget = 780 if tier == "quick" else 3600
    tot = {}; faults = {}; segs = []; fails = []; known_seen = 0; others = []; cov = {}; interl = distinct = states = 0
    s0 = (seed % 4000000) * 4000000
    for i, (fl, deep, n) in enumerate(PLAN[tier]):
        n = max(200, int(n * FACTOR.get(prop, 1)))
        left = budget - (time.time() - t0)
        first = s0 + i * 700000 + 1
        env = dict(base_env, SIM_DEEP=str(deep))
        rc, out = sim(exe[fl], ["run", prop, first, n, JOBS, max(20, left * 0.8)], env, max(60, left + 120))
        try:
            d = json.loads(out)
        except ValueError:
            die("the simulator gave no result (%s)" % rc)
        for k in ("runs", "steps", "switches", "bb", "ops", "kevents", "events", "checks", "nontrivial", "inconclusive", "fails", "sim_us"):
            tot[k] = tot.get(k, 0) + d[k]
        for k, v in d["faults"].items(): faults[k] = faults.get(k, 0) + v
        interl += d["interleavings"]; distinct += d["distinct"]; states += d["states"]; known_seen |= d["known"]
        cov[fl] = [max(cov.get(fl, [0, 0])[0], d["cov"]), d["cov_total"]]
        segs.append({"flavour": fl, "history_length_factor": deep, "first_seed": first, "runs": d["runs"], "wall_s": round(d["wall"], 1), "trace_hash_sum": d["sumhash"], "distinct_traces": d["distinct"], "distinct_interleavings": d["interleavings"], "model_states_reached": d["states"]})
        others += d["others"]
        if d["fails"]:
            fails += [dict(f, flavour=fl, deep=deep) for f in d["failing"]]
            break
        # determinism: a sample of the same seeds again, with another number of workers
        m = 150
        a = sim(exe[fl], ["run", prop, first, m, JOBS, 300], env, 400)[1]; b = sim(exe[fl], ["run", prop, first, m, 3, 300], env, 400)[1]
        try:
            da, db = json.loads(a), json.loads(b)
        except ValueError:
            die("the simulator gave no result on the repeated sample")
        if da["sumhash"] != db["sumhash"]: die("not deterministic: the same %d seeds gave different traces" % m)
        tot["repeated"] = tot.get("repeated", 0) + 2 * m
    viol = None; errors = []
    if fails:
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen_kind = set(); cand = []
        for f in fails:                       # one of each kind first, then more
            if f["kind"] == "no-answer": continue
            if f["kind"] not in seen_kind: seen_kind.add(f["kind"]); cand.append(f)
        cand += [f for f in fails if f not in cand and f["kind"] != "no-answer"]
        for f in cand[:6]:
            path = os.path.join(rd, "%s-%d-%s.replay" % (prop, f["seed"], f["flavour"]))
            env = dict(base_env, SIM_DEEP=str(f["deep"]))
            rc, out = sim(exe[f["flavour"]], ["min", prop, f["seed"], path, 40], env, 300)
            try: d = json.loads(out)
            except ValueError: d = {"error": "no answer from the minimiser"}
            if not d.get("ok"):
                errors.append("seed %d: %s" % (f["seed"], d.get("error"))); continue
            rc, out = sim(exe[f["flavour"]], ["replay", path], base_env, 120)     # a fresh process
            if rc != 1 or "REPRODUCED" not in out:
                errors.append("seed %d: the replay file does not reproduce the violation" % f["seed"]); continue
            with open(path, "a") as fh: fh.write("# replay with: python3 vk/replay.py %s\n" % path)
            viol = dict(f, replay=path, minimised=d); break
        if not viol and not errors: errors.append("runs that gave no answer: %s" % fails[0]["msg"])
    samples = []
    for fl, deep, k in (("dbg", 1, 1), ("rel", 1, 2)):
        env = dict(base_env, SIM_DEEP=str(deep)); sd = s0 + k
        rc, out = sim(exe[fl], ["one", prop, sd, "-v"], env, 100)
        ls = out.splitlines()
        if ls:
            try: last = json.loads(ls[-1])
            except ValueError: last = {}
            samples.append({"seed": sd, "flavour": fl, "trace_excerpt": [x[:150] for x in ls[max(0, len(ls) // 3):][:14]], "trace_lines": len(ls) - 1, "hash": last.get("hash"), "steps": last.get("steps"), "switches": last.get("switches"), "simulated_s": last.get("sim_ns", 0) / 1e9})
    wall = time.time() - t0; runwall = sum(s["wall_s"] for s in segs) or 1e-9
    seam = open(os.path.join(os.path.dirname(exe["dbg"]), "seam-dbg.txt")).read().splitlines()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "violations": 1 if viol else 0, "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": distinct,
              "rule": "one evaluation = one simulated execution decided by one seed (operations, schedule, delays, faults); non-trivial = the oracle judged at least one event, receipt, deadline or release for this property in it; distinct = different hash of the complete trace (every operation, system call result, context switch and kevent() result)",
              "samples": samples, "segments": segs,
              "runs_per_hour": int(tot["runs"] / runwall * 3600), "seeds_per_hour": int(tot["runs"] / runwall * 3600),
              "simulated_seconds": round(tot["sim_us"] / 1e6, 1), "scheduler_steps": tot["steps"], "context_switches": tot["switches"], "basic_block_yield_points": tot["bb"],
              "operations": tot["ops"], "kevent_calls": tot["kevents"], "events_delivered": tot["events"], "oracle_judgements": tot["nontrivial"],
              "distinct_interleavings": interl, "interleaving_measure": "hash of the sequence of (step, from-thread, to-thread) context switches of a run, summed over the segments",
              "distinct_model_states": states, "state_measure": "hash of the reference model's registrations (filter, flags, enabled, due) after each call, summed over the segments",
              "faults_injected": faults, "library_basic_blocks_reached": {k: "%d of %d" % tuple(v) for k, v in cov.items()},
              "runs_ended_by_a_deviation_that_belongs_to_another_property": tot["inconclusive"], "other_deviations": [o["what"][:160] for o in others[:4]],
              "determinism": "%d runs repeated under another worker count, equal trace hashes" % tot.get("repeated", 0),
              "real_code": B.sources(), "simulated_symbols": seam[0].replace("simulated: ", "").split() if seam else [], "passed_through": seam[1].replace("passed through: ", "").split() if len(seam) > 1 else [],
              "known_findings_seen": [t for b, t in mine if known_seen & b], "build_s": round(tbuild, 1), "workers": JOBS},
          "assumptions": ["the simulated kernel, C library and pthreads (sim/kernel.cpp, sim/libc.cpp, sim/core.cpp) behave as Linux and glibc document",
                          "sequentially consistent memory; preemption between basic blocks and at intercepted calls",
                          "sampling: a clean batch is evidence, not proof"]}
    if viol: ev["coverage"]["violation"] = viol
    if errors: ev["coverage"]["gate_errors"] = errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for b, t in mine:
        if known_seen & b: print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s %s: %d runs, %d distinct non-trivial, %d events, %.0f simulated s, %d faults, %.1f s" % (prop, tier, tot["runs"], distinct, tot["events"], tot["sim_us"] / 1e6, sum(faults.values()), wall))
    if viol:
        print("%s: %s" % (viol["kind"], viol["msg"]))
        print("minimised to %s operations, %s context switches, %s faults" % (viol["minimised"]["ops"], viol["minimised"]["switches"], viol["minimised"]["faults"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"])); sys.exit(1)
    if errors: die("; ".join(errors))
    if tot["inconclusive"]: print("%d runs ended early on a deviation judged by another property, e.g. %s" % (tot["inconclusive"], (others or [{"what": ""}])[0]["what"][:160]))
    if tot["runs"] == 0: die("no run")
    sys.exit(0)

if __name__ == "__main__":
    main()
