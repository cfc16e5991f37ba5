// Native builds that use real threads.
extern "C" { void coro_on(int, int, int) {} void coro_off(void) {} int coro_alive(void) { return 0; } int coro_switches(void) { return 0; } void coro_spurious(int) {} int coro_yield(void) { return 0; } }
