/* asserted conditions stay visible without being evaluated */
#undef assert
#define assert(e) ((void)sizeof((e) ? 1 : 0))
