/* Distinct call sites for every codec interface function. Only analysed, never run. */
#include <stddef.h>
#include "interfaces/codec.h"
extern char *sa_ptr_param(void);
extern int *sa_ptr_enc_in(void);
extern double *sa_ptr_enc_out(void);
extern double *sa_ptr_dec_in(void);
extern int *sa_ptr_dec_out(void);
void *sa_inst;
int sa_rc;
void sa_init(void) { sa_rc = cdc_init(sa_ptr_param(), &sa_inst); }
void sa_close(void) { cdc_close(sa_inst); }
void sa_get(void) { sa_rc = cdc_get_n(sa_inst); sa_rc = cdc_get_k(sa_inst); }
void sa_set(int s, double d) {
#ifdef DEC_NEEDS_CSNRN
  cdc_set_csnrn(sa_inst, s);
#endif
#ifdef DEC_NEEDS_SIGMA
  cdc_set_sg(sa_inst, d);
#endif
}
void sa_enc(void) { sa_rc = enc_bpsk(sa_inst, sa_ptr_enc_in(), sa_ptr_enc_out()); }
void sa_dec(void) { sa_rc = dec_bpsk(sa_inst, sa_ptr_dec_in(), sa_ptr_dec_out()); }
int sa_driver(int s, double d) {
  sa_init();
  sa_get();
  sa_set(s, d);
  sa_enc();
  sa_dec();
  sa_close();
  return 0;
}
