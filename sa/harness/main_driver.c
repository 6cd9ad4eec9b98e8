/* Caller of the text mode main program. Only analysed, never run. */
extern int sa_nondet(void);
extern char **sa_argv(int n);
extern void sa_begin(int op);
extern void sa_end(int op, int rc);
extern int main(int argc, char **argv);

int sa_driver(void) {
  int n = sa_nondet();
  int rc;
  if (n < 1) return 0;
  sa_begin(9);
  rc = main(n, sa_argv(n));
  sa_end(9, rc);
  return 0;
}
