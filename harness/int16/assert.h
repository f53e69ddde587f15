#undef assert
#define assert(x) ((void)0)
