// Model environment: an in-memory file system, clock and entropy source for the code under test.
// Every `model_X` function replaces the external symbol X (in the engine and, through objcopy, in replay builds).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
namespace env {
struct File { std::string name, data, flushed, synced; bool exists = true, ever_synced = false; int open_writers = 0; };
struct Op { char kind; int file; size_t n; bool ok; };   // o open, w write, f flush, s fsync, c close, r rename
struct Env {
    std::vector<File> files;
    std::vector<Op> ops;
    int64_t fail_at = -1;       // index of the environment operation that fails (may be symbolic)
    int fail_mode = 0;          // 0 = hard failure, 1 = short write (for writes)
    int64_t opno = 0;
    bool faults = false;
    void (*on_op)(char kind) = nullptr;   // called before every operation takes effect: a crash here leaves the state as it is
    int renames = 0;
    std::string rename_src_synced; bool rename_src_ever_synced = false; int rename_open_writers = 0; std::string rename_content;
};
extern Env *E;                  // created by env::init()
void init();
File *find(const char *name);
void put(const char *name, const char *data, size_t n);
inline void put(const char *name, const std::string &s) { put(name, s.data(), s.size()); }
}
