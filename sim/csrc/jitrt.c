/* Entering compiled code, and leaving it from inside the run-time library. */
#include <setjmp.h>
#include <stdint.h>

static jmp_buf out;
static int inside;

int sim_guarded(int64_t (*f)(int64_t), int64_t arg, int64_t *ret) {
    inside = 1;
    if (setjmp(out)) {
        inside = 0;
        return 1;
    }
    *ret = f(arg);
    inside = 0;
    return 0;
}

_Noreturn void sim_leave(void) {
    if (!inside) __builtin_trap();
    longjmp(out, 1);
}
