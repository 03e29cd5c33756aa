// replay build only (linked with --wrap=abort)
#include <setjmp.h>
#include <stdlib.h>
jmp_buf nv_jmp;
int     nv_armed = 0;
extern "C" void __real_abort();
extern "C" void
__wrap_abort()
{
  if (nv_armed) longjmp(nv_jmp, 1);
  __real_abort();
}
