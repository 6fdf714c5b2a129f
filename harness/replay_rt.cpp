// Replay runtime: runs a harness natively with the values of a solver model.
// exit 0: no violation; 42: an assertion failed (label on stdout); 43: an assumption does not hold.
#include "capysym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
extern "C" void HARNESS_ENTRY(void);
struct V { std::string name; unsigned w; unsigned long long v; };
static std::vector<V> vals;
static size_t pos;
static unsigned long long next(const std::string &name) {
    if(pos < vals.size() && vals[pos].name == name) return vals[pos++].v;
    for(size_t i = pos; i < vals.size(); i++) if(vals[i].name == name) { pos = i + 1; return vals[i].v; }
    return 0;
}
extern "C" {
uint64_t capysym_sym(const char *name, unsigned) { return next(name); }
void capysym_bytes(void *p, size_t n, const char *name) { for(size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(std::string(name) + "[" + std::to_string(i) + "]"); }
int64_t capysym_range(const char *name, int64_t lo, int64_t) { return lo + (int64_t)next(name); }
void capysym_assume(int c) { if(!c) { printf("ASSUMPTION-FAILED\n"); fflush(stdout); _Exit(43); } }
void capysym_check(int c, const char *l) { if(!c) { printf("CHECK-FAILED %s\n", l); fflush(stdout); _Exit(42); } }
void capysym_fail(const char *l) { printf("CHECK-FAILED %s\n", l); fflush(stdout); _Exit(42); }
void capysym_reach(const char *) {}
void capysym_note(const char *) {}
uint64_t capysym_pick(uint64_t v) { return v; }
int capysym_symbolic_mode(void) { return 0; }
int capysym_mem_symbolic(const void *, size_t) { return 0; }
void capysym_log(const char *s, uint64_t v) { fprintf(stderr, "[log] %s %llx\n", s, (unsigned long long)v); }
void capysym_logs(const char *p, size_t n) { fprintf(stderr, "[log] %.*s\n", (int)n, p); }
void capysym_numtokens(int) {}
void capysym_end(void) { fflush(stdout); _Exit(0); }
}
int main(int argc, char **argv) {
    if(argc > 1) {
        FILE *f = fopen(argv[1], "r");
        char line[4096];
        while(f && fgets(line, sizeof line, f)) {
            if(strncmp(line, "VAR\t", 4)) continue;
            char *n = line + 4, *t = strchr(n, '\t');
            if(!t) continue;
            *t = 0;
            unsigned w = 0;
            unsigned long long v = 0;
            sscanf(t + 1, "%u\t%llx", &w, &v);
            vals.push_back({n, w, v});
        }
        if(f) fclose(f);
    }
    setvbuf(stdout, nullptr, _IONBF, 0);
    HARNESS_ENTRY();
    printf("REPLAY-OK\n");
    return 0;
}
