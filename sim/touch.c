/* compiled with -fsanitize=address: lets seam functions detect use of freed memory passed to them */
void asan_touch(void *p, int n) { volatile char *c = p; for (int i = 0; i < n; i++) (void)c[i]; }
