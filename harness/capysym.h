// Harness interface.  Under the symbolic executor these are engine primitives; in a replay build
// they are provided by replay_rt.cpp, which reads the solver's values from a file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t capysym_sym(const char *name, unsigned bits);           // fresh symbolic bit-vector
void capysym_bytes(void *p, size_t n, const char *name);         // n fresh symbolic bytes at p
int64_t capysym_range(const char *name, int64_t lo, int64_t hi); // fresh symbolic integer in [lo,hi]
void capysym_assume(int cond);
void capysym_check(int cond, const char *label);                 // the property
void capysym_fail(const char *label) __attribute__((noreturn));
void capysym_reach(const char *label);                           // reachability witness
void capysym_note(const char *label);
uint64_t capysym_pick(uint64_t v);                               // split the path on the value of v
int capysym_symbolic_mode(void);
int capysym_mem_symbolic(const void *p, size_t n);
void capysym_log(const char *s, uint64_t v);
void capysym_logs(const char *p, size_t n);
void capysym_numtokens(int on);                                    // write symbolic doubles as opaque number tokens
void capysym_end(void) __attribute__((noreturn));
#ifdef __cplusplus
}
static inline int64_t capysym_choice(const char *name, int64_t n) { return (int64_t)capysym_pick(capysym_range(name, 0, n - 1)); }
static inline double capysym_double(const char *name) { uint64_t x = capysym_sym(name, 64); double d; __builtin_memcpy(&d, &x, 8); return d; }
#endif
