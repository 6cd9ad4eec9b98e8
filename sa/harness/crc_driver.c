/* Distinct call sites for the CRC functions. Only analysed, never run. */
#include "common/crc.h"
extern int *sa_ptr_data(void);
extern int *sa_ptr_poly(void);
extern int *sa_ptr_buf(void);
extern int sa_nondet(void);
int *sa_p;
int sa_rc;
void sa_calc(void) { sa_p = calc_crc(sa_ptr_data(), sa_nondet(), sa_ptr_poly(), sa_nondet(), sa_ptr_buf()); }
void sa_valid(void) { sa_rc = is_valid_crc(sa_ptr_data(), sa_nondet(), sa_ptr_poly(), sa_nondet(), sa_ptr_buf()); }
int sa_driver(int s, double d) {
  sa_calc();
  sa_valid();
  return 0;
}
