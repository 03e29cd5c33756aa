// Common to all wrappers.  A wrapper only builds arguments and calls the real function.
#ifndef W_H
#define W_H
#ifdef NATIVE
// replay build only: a C++ exception or abort() is reported to the replayer
#include <setjmp.h>
extern jmp_buf nv_jmp;
extern int     nv_armed;
#define TRY                                   \
  if (nv_armed = 1, setjmp(nv_jmp) == 0) { try {
#define CATCH(x)                              \
  } catch (...) { nv_armed = 0; return x; } nv_armed = 0; } else { nv_armed = 0; return x; }
#else
#define TRY {
#define CATCH(x) }
#endif
#define ABORTED -77777
#define API extern "C"
#endif
