// The scenario "eight" with the fast path switched on (see meta_eight.cc).
#define EIGHT_NAME "eightm"
#define EIGHT_SYM kScenEightM
#define EIGHT_CUBIC 20000
#include "eight.cc"
