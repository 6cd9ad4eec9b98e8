/* Most general client of a codec (interfaces/codec.h). Only analysed, never run. */
#include <stddef.h>
#include "interfaces/codec.h"

extern int sa_nondet(void);
extern double sa_double(void);
extern char *sa_params(void);
extern int *sa_info(int k);
extern double *sa_vector(int n);
extern void sa_begin(int op);
extern void sa_ready(void *inst);
extern void sa_end(int op, int rc);

int sa_driver(void) {
  void *inst = NULL;
  int rc, n, k;
  int *x;
  double *y;

  sa_begin(1);
  rc = cdc_init(sa_params(), &inst);
  sa_end(1, rc);
  if (rc != 0) {
    inst = NULL;
    cdc_close(inst);
    return -1;
  }
  sa_ready(inst);
  n = cdc_get_n(inst);
  k = cdc_get_k(inst);
  x = sa_info(k);
  y = sa_vector(n);
  while (sa_nondet()) {
#ifdef DEC_NEEDS_CSNRN
    cdc_set_csnrn(inst, sa_nondet());
#endif
#ifdef DEC_NEEDS_SIGMA
    cdc_set_sg(inst, sa_double());
#endif
    if (sa_nondet()) {
      sa_begin(7);
      rc = enc_bpsk(inst, x, y);
      sa_end(7, rc);
    }
    else {
      sa_begin(8);
      rc = dec_bpsk(inst, y, x);
      sa_end(8, rc);
    }
  }
  sa_begin(6);
  cdc_close(inst);
  sa_end(6, 0);
  return 0;
}
