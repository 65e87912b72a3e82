// The programs of h_prog.c through the AArch64 back end on a simulated processor.
#define SIM_A64
#include "h_prog.c"
