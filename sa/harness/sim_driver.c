/* Most general client of a simulator (interfaces/simul.h). Only analysed, never run. */
#include <stddef.h>
#include "interfaces/simul.h"

extern int sa_nondet(void);
extern char *sa_string(void);
extern void sa_begin(int op);
extern void sa_end(int op, int rc);
extern void sa_ready(void *inst);
extern void sa_norand(int asked);

int sa_driver(void) {
  sim_init_params sp;
  void *inst = NULL;
  char buf[16384];
  int rc;

  sp.spf_name = sa_string();
  sp.ret_int = sa_nondet();
  sp.dont_randomize = sa_nondet();
  sa_norand(sp.dont_randomize);
  sa_begin(1);
  rc = sim_init(&sp, &inst);
  sa_end(1, rc);
  if (rc != 0) return -1;
  sa_ready(inst);
  while (sa_nondet()) {
    switch (sa_nondet()) {
      case 0:
        sa_begin(2);
        rc = sim_run(inst);
        sa_end(2, rc);
        break;
      case 1:
        sa_begin(3);
        rc = sim_save_res(inst);
        sa_end(3, rc);
        break;
#ifdef SIM_TEXT
      case 2:
        sa_begin(4);
        sim_state_str(inst, buf);
        sa_end(4, 0);
        break;
      case 3:
        sa_begin(5);
        sim_cur_res_str(inst, buf);
        sa_end(5, 0);
        break;
#endif
    }
  }
  sa_begin(6);
  sim_close(inst);
  sa_end(6, 0);
  return 0;
}
