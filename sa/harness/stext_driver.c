/* The simulator's client that also asks for the texts shown. Only analysed, never run. */
#define SIM_TEXT
#include "sim_driver.c"
