/* Caller of the results loader. Only analysed, never run. */
extern int sa_nondet(void);
extern void **sa_argv(int n);
extern void **sa_outv(int n);
extern void sa_begin(int op);
extern void sa_end(int op, int rc);
extern void mexFunction(int nlhs, void **plhs, int nrhs, const void **prhs);

int sa_driver(void) {
  int nl = sa_nondet(), nr = sa_nondet();
  if (nl < 0 || nr < 0) return 0;
  sa_begin(10);
  mexFunction(nl, sa_outv(nl + 1), nr, (const void **)sa_argv(nr));
  sa_end(10, 0);
  return 0;
}
