/* C32: the same for pomdp-tools. */
#define TOOLS
#include "h_opt.c"
