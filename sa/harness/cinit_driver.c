/* Most general client of a codec's constructor and destructor (interfaces/codec.h). Only analysed, never run. */
#include <stddef.h>
#include "interfaces/codec.h"

extern char *sa_params(void);
extern void sa_begin(int op);
extern void sa_end(int op, int rc);
extern void sa_ready(void *inst);

int sa_driver(void) {
  void *inst = NULL;
  int rc;

  sa_begin(1);
  rc = cdc_init(sa_params(), &inst);
  sa_end(1, rc);
  if (rc != 0) {
    cdc_close(NULL);
    return -1;
  }
  sa_ready(inst);
  sa_begin(6);
  cdc_close(inst);
  sa_end(6, 0);
  return 0;
}
