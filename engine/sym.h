// Harness interface.  The same harness is compiled twice: instrumented (solver-driven exploration) and natively
// (concrete replay of one assignment against the real, uninstrumented build).
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_make(void *p, size_t n);                 // n fresh symbolic bytes at p
unsigned char sym_byte(void);                     // one fresh symbolic byte
int  sym_choice(int n);                           // fresh symbolic value in [0,n); the path is split on it
void sym_assume(int cond);                        // restrict the input space
void sym_check(int cond, const char *label);      // the property
void sym_reach(const char *label);                // coverage witness: must be reached on some path
void sym_out(const void *p, size_t n);            // observable output: compared between the models and the real libraries
int  sym_vfd(const void *p, size_t n, int chunk);  // a descriptor whose content is n (symbolic) bytes, read at most chunk at a time
void sym_file(const char *name, const void *p, size_t n);   // a file (its name starts with vfs_ or @) with this content
long sym_slurp(const char *name, void *p, size_t n);        // copies the content of such a file, returns its size, -1 if there is none
int  sym_pipe(int *fds);                          // a pipe: a read at its end waits (lets other coroutines run) until it can no longer be written
int  sym_openfds(void);                           // descriptors open on such files
int  sym_concrete(void);                          // 1 in the native replay
void sym_note(const char *fmt, ...);              // printed in the native replay only
// harness side
extern const char *sym_config_name(int cfg);      // 0 when cfg is out of range
extern void sym_harness(int cfg);
extern void sym_setup(void);
#ifdef __cplusplus
}
#endif
#endif
