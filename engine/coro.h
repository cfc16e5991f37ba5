#ifndef CORO_H
#define CORO_H
#ifdef __cplusplus
extern "C" {
#endif
void coro_on(int mode, int preemptions, int spurious);  // 1 deterministic, 2 explored through sym_choice
void coro_off(void);
int coro_alive(void);
int coro_switches(void);
int coro_points(void);
void coro_delay(int n, const int *at, const int *who);
void coro_spurious(int n);
int coro_yield(void);
#ifdef __cplusplus
}
#endif
#endif
