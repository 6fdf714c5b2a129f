// capysym: symbolic executor for LLVM IR of C++ programs (see /verif/DESIGN.md).
//
// Memory of the program under test lives at real addresses in this process (an arena with
// redzones and a poison map); the symbolic content of a byte lives in a shadow page table.
// A path split is a fork(2), so every path owns its memory and its solver context.
#include "expr.hpp"
#include "shared.hpp"

#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

#include <ffi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <errno.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <functional>
#include <sstream>

using namespace llvm;

Shared *G;

// ------------------------------------------------------------------ options
static std::string opt_viol = "viol.txt", opt_json = "out.json", opt_srcprefix = "/repo/";
static int opt_jobs = 8;
static double opt_deadline = 600;
static u64 opt_maxinstr = 400000000ull;
static int opt_maxviol = 200;
static bool opt_trace = false;
static u64 t_start;
static u64 nowns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

// ------------------------------------------------------------------ values
struct Val { u64 lo; u64 hi; Expr *e; };
static inline u128 V128(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static inline u64 lmask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val mkv(u64 x) { return {x, 0, nullptr}; }
static Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(V128(v), w); }
static Val fromE(Expr *e) {
    if(isC(e)) return {(u64)e->v, (u64)(e->v >> 64), nullptr};
    return {0, 0, e};
}

// ------------------------------------------------------------------ arena
static const u64 ARENA = 0x100000000000ull;
static const u64 ARENA_SIZE = 12ull << 30;
static const u64 GLOB_OFF = 0x10000, STACK_OFF = 512ull << 20, STACK_SIZE = 1ull << 30, HEAP_OFF = 2ull << 30;
static u8 *poison; // ARENA_SIZE/8, ASan encoding
static u64 heap_ptr = ARENA + HEAP_OFF, stack_ptr = ARENA + STACK_OFF, glob_ptr = ARENA + GLOB_OFF;
struct SymPage { Expr *b[4096]; };
static SymPage **sympages;
static u64 nsym = 0; // number of SymPages allocated
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SIZE; }

static void arena_init() {
    void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != (void *)ARENA) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    poison = (u8 *)mmap(0, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    // Inverted encoding would be nicer for lazily mapped memory: 0 means "all poisoned".
    sympages = (SymPage **)mmap(0, (ARENA_SIZE >> 12) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// poison byte meaning: 0 = unaddressable, 1..8 = first k bytes addressable, 0xFD = freed heap (unaddressable)
static inline void poison_set_ok(u64 a, u64 n) { // a 8-aligned
    u64 i = (a - ARENA) >> 3;
    memset(poison + i, 8, n >> 3);
    if(n & 7) poison[i + (n >> 3)] = n & 7;
}
static inline void poison_set_bad(u64 a, u64 n, u8 code = 0) { memset(poison + ((a - ARENA) >> 3), code, (n + 7) >> 3); }
static inline bool byte_ok(u64 a) { u8 p = poison[(a - ARENA) >> 3]; return p <= 8 && (a & 7) < p; }
static bool range_ok(u64 a, u64 n) {
    if(n == 0) return true;
    if(!inArena(a)) return a >= 65536 && a < 0x7fffffffffffull;
    if(!inArena(a + n - 1)) return false;
    u64 e = a + n - 1;
    u64 i = (a - ARENA) >> 3, j = (e - ARENA) >> 3;
    if(i == j) return poison[i] <= 8 && (e & 7) < poison[i];
    for(u64 k = i; k < j; k++) if(poison[k] != 8) return false;
    return poison[j] <= 8 && (e & 7) < poison[j];
}
static inline SymPage *sympage(u64 a) { return inArena(a) ? sympages[(a - ARENA) >> 12] : nullptr; }
static inline Expr *getSym(u64 a) { SymPage *p = sympage(a); return p ? p->b[a & 4095] : nullptr; }
static void setSym(u64 a, Expr *e) {
    if(!inArena(a)) { if(e) { fprintf(stderr, "symbolic store outside the arena\n"); abort(); } return; }
    SymPage *&p = sympages[(a - ARENA) >> 12];
    if(!p) { if(!e) return; p = (SymPage *)calloc(1, sizeof(SymPage)); nsym++; }
    p->b[a & 4095] = e;
}
static bool anySym(u64 a, u64 n) {
    if(!nsym || !inArena(a)) return false;
    u64 e = a + n;
    while(a < e) {
        u64 pe = std::min(e, (a & ~(u64)4095) + (u64)4096);
        if(SymPage *p = sympages[(a - ARENA) >> 12]) for(u64 x = a; x < pe; x++) if(p->b[x & 4095]) return true;
        a = pe;
    }
    return false;
}
static void clearSym(u64 a, u64 n) {
    if(!nsym || !inArena(a)) return;
    u64 e = a + n;
    while(a < e) {
        u64 pe = std::min(e, (a & ~(u64)4095) + (u64)4096);
        if(SymPage *p = sympages[(a - ARENA) >> 12]) memset(&p->b[a & 4095], 0, (pe - a) * 8);
        a = pe;
    }
}

static const u64 RZ = 32;
static std::unordered_map<u64, u64> *heap_sizes; // live heap objects
static u64 arena_alloc(u64 n, u64 align = 16) {
    if(n > (1ull << 30)) return 0;
    u64 a = heap_ptr + RZ;
    a = (a + align - 1) & ~(align - 1);
    heap_ptr = (a + n + 15) & ~15ull;
    if(heap_ptr + RZ >= ARENA + ARENA_SIZE) { fprintf(stderr, "arena exhausted\n"); _exit(3); }
    poison_set_ok(a, n);
    (*heap_sizes)[a] = n;
    return a;
}
// returns 0 ok, 1 double/invalid free
static int arena_free(u64 a) {
    auto it = heap_sizes->find(a);
    if(it == heap_sizes->end()) return 1;
    poison_set_bad(a, it->second, 0xFD);
    clearSym(a, it->second);
    heap_sizes->erase(it);
    return 0;
}
static u64 glob_alloc(u64 n, u64 align) {
    if(align < 16) align = 16;
    u64 a = (glob_ptr + RZ + align - 1) & ~(align - 1);
    glob_ptr = a + ((n + 7) & ~7ull);
    if(glob_ptr >= ARENA + STACK_OFF) { fprintf(stderr, "globals too big\n"); _exit(3); }
    poison_set_ok(a, n);
    return a;
}

// The libraries called natively may free what interpreted code allocated, and vice versa.
static bool in_native = false;
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if(!p) abort();
    return p;
}
void operator delete(void *p) noexcept {
    if(inArena((u64)p)) { arena_free((u64)p); return; }
    free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ path state
static std::vector<Expr *> pc;
static std::unordered_set<Expr *> pcset;
static std::vector<pid_t> kids;
static bool have_slot = true;
static bool pc_sampled = false;
static u64 path_instrs = 0;
static std::map<std::string, u64> notes;

static void slot_release() { if(have_slot) { G->slots.fetch_add(1); have_slot = false; } }
static bool slot_try() {
    int v = G->slots.load();
    while(v > 0) if(G->slots.compare_exchange_weak(v, v - 1)) return true;
    return false;
}
[[noreturn]] static void path_exit(int code = 0) {
    G->instrs += path_instrs;
    u64 m = G->max_path_instrs.load();
    while(path_instrs > m && !G->max_path_instrs.compare_exchange_weak(m, path_instrs)) {}
    slot_release();
    for(pid_t p : kids) { int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {} if(!WIFEXITED(st) || WEXITSTATUS(st)) { G->incomplete++; } }
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}

static Shared::Label *label(char kind, const std::string &name) {
    auto look = [&]() -> Shared::Label * {
        int n = G->nlabels.load();
        for(int i = 0; i < n; i++) if(G->labels[i].kind == kind && !strncmp(G->labels[i].name, name.c_str(), sizeof(G->labels[i].name) - 1)) return &G->labels[i];
        return nullptr;
    };
    if(auto *l = look()) return l;
    while(G->lock.exchange(1)) sched_yield();
    auto *l = look();
    if(!l) {
        int n = G->nlabels.load();
        if(n >= 2047) n = 2046;
        l = &G->labels[n];
        l->kind = kind;
        strncpy(l->name, name.c_str(), sizeof(l->name) - 1);
        l->n = 0;
        G->nlabels = n + 1;
    }
    G->lock = 0;
    return l;
}
static void incomplete(const std::string &why) {
    G->incomplete++;
    label('I', why)->n++;
    if(opt_trace) fprintf(stderr, "INCOMPLETE: %s\n", why.c_str());
}
[[noreturn]] static void die_incomplete(const std::string &why) { incomplete(why); G->paths++; path_exit(0); }

static std::string where();

static void report_violation(const std::string &lab, const std::string &detail, const std::vector<u128> &m) {
    auto *l = label('V', lab);
    u64 k = l->n.fetch_add(1);
    G->violations++;
    if(k >= 6) return;
    std::ostringstream o;
    o << "VIOL\t" << lab << "\n";
    o << "DETAIL\t" << detail << "\n";
    o << "WHERE\t" << where() << "\n";
    for(size_t i = 0; i < g_vars.size(); i++) {
        char b[64];
        snprintf(b, 64, "%llx", (unsigned long long)m[i]);
        o << "VAR\t" << g_vars[i].name << "\t" << g_vars[i].w << "\t" << b << "\n";
    }
    o << "END\n";
    std::string s = o.str();
    while(G->lock.exchange(1)) sched_yield();
    int fd = open(opt_viol.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(fd >= 0) { if(write(fd, s.data(), s.size()) < 0) {} close(fd); }
    G->lock = 0;
}
[[noreturn]] static void crash(const std::string &lab, const std::string &detail = "") {
    report_violation("crash:" + lab, detail, g_model);
    G->paths++;
    path_exit(0);
}

static void check_deadline() {
    if(G->stop || (nowns() - t_start) * 1e-9 > opt_deadline) {
        if(!G->stop.exchange(1)) incomplete("deadline reached");
        else G->incomplete++;
        path_exit(0);
    }
}
static void addPC(Expr *e) {
    if(isC(e)) return;
    if(e->k == K_AND && e->w == 1) { addPC(e->a); addPC(e->b); return; }
    if(pcset.insert(e).second) pc.push_back(e);
}

// Returns the truth value taken on this path; splits the path when both are feasible.
// With child_first the new process takes the side of the current model, and this one the other side
// afterwards: enumerating many values then does not leave a long chain of waiting processes.
static bool fork_branch(Expr *c, bool child_first = false) {
    if(isC(c)) return c->v;
    if(pcset.count(c)) return true;
    Expr *n = mkNot(c);
    if(pcset.count(n)) return false;
    check_deadline();
    bool v = evalExpr(c) != 0;
    Expr *cur = v ? c : n, *oth = v ? n : c;
    std::vector<u128> m2;
    SatRes r = solve(pc, oth, m2);
    if(r == R_UNSAT) return v;
    if(r == R_UNKNOWN) { incomplete("solver gave no answer for a branch"); addPC(cur); return v; }
    G->forks++;
    static const bool forklog = getenv("CAPYSYM_FORKLOG") != nullptr;
    if(forklog) fprintf(stderr, "FORK %s\n", where().c_str());
    bool par = slot_try();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if(p < 0) { if(par) G->slots.fetch_add(1); incomplete("fork failed"); addPC(cur); return v; }
    if(p == 0) {
        kids.clear();
        have_slot = par;
        path_instrs = 0;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if(child_first) { addPC(cur); return v; }
        g_model = m2;
        model_changed();
        addPC(oth);
        return !v;
    }
    if(par) kids.push_back(p);
    else {
        int st;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if(!WIFEXITED(st) || WEXITSTATUS(st)) incomplete("a path process died");
    }
    if(child_first) {
        g_model = m2;
        model_changed();
        addPC(oth);
        return !v;
    }
    addPC(cur);
    return v;
}
// enumerate the feasible values of e, one path each
static u128 concretize(Expr *e, unsigned limit = 70000) {
    if(isC(e)) return e->v;
    G->concretizations++;
    for(unsigned i = 0; i < limit; i++) {
        u128 v = evalExpr(e);
        Expr *c = mkEq(e, mkConst(v, e->w));
        if(isC(c)) return v;
        u128 want = v;
        if(fork_branch(c, true)) return want;
    }
    die_incomplete("too many values to enumerate");
}
static u64 conc(Val &v) {
    if(v.e) { u128 x = concretize(v.e); v = {(u64)x, (u64)(x >> 64), nullptr}; }
    return v.lo;
}

// ------------------------------------------------------------------ decoded program
struct DFunc;
struct Edge { int target = -1; std::vector<std::pair<int, int>> copies; BasicBlock *from = nullptr, *to = nullptr; };
struct CallInfo;
enum Op : uint16_t {
    P_ADD, P_SUB, P_MUL, P_UDIV, P_SDIV, P_UREM, P_SREM, P_AND, P_OR, P_XOR, P_SHL, P_LSHR, P_ASHR,
    P_FADD, P_FSUB, P_FMUL, P_FDIV, P_FREM, P_FNEG, P_ICMP, P_FCMP, P_SELECT, P_TRUNC, P_ZEXT, P_SEXT,
    P_FPTOSI, P_FPTOUI, P_SITOFP, P_UITOFP, P_FPEXT, P_FPTRUNC, P_MOV, P_BITCAST, P_ALLOCA, P_LOAD, P_STORE, P_GEP,
    P_BR, P_CONDBR, P_SWITCH, P_RET, P_CALL, P_UNREACHABLE, P_RESUME, P_LANDINGPAD, P_ATOMICRMW, P_CMPXCHG, P_NOP, P_UNSUP, P_VAARG,
    P_INDIRECTBR
};
struct GepTerm { int slot; i64 scale; unsigned w; };
struct DInst {
    uint16_t op;
    uint16_t w;   // result/operand width
    uint16_t w2;  // source width
    uint16_t pred;
    int dst, a, b, c;
    u32 aux;
    const Instruction *I;
};
struct MemLeaf { u64 off; unsigned bits; unsigned bytes; };
struct CallInfo {
    DFunc *callee = nullptr;
    Function *F = nullptr;
    int calleeSlot = 0;
    std::vector<int> args;      // first slot of each arg
    std::vector<unsigned> nslots;
    std::vector<Type *> types;
    std::vector<u64> byval;
    Edge normal, unwind;
    bool invoke = false;
    const CallBase *CB = nullptr;
    int nret = 0;
    std::function<void(CallInfo &, Val *)> *builtin = nullptr;
    bool resolved = false;
    ffi_cif cif;
    bool cif_ok = false;
    std::vector<ffi_type *> ats;
    ffi_type *rt = nullptr;
    void *sym = nullptr;
    bool pure_ptr = false;
};
struct SwitchInfo { std::vector<std::pair<u128, int>> cases; std::vector<Edge> edges; int def; };
struct LPad { bool cleanup; struct C { bool filter; u64 ti; }; std::vector<C> clauses; };
struct DFunc {
    Function *F = nullptr;
    int idx = 0;
    std::vector<DInst> code;
    std::vector<Val> consts;
    unsigned nregs = 0;
    std::vector<int> argSlot;
    std::vector<unsigned> argN;
    std::vector<Edge> edges;
    std::vector<std::vector<GepTerm>> geps;
    std::vector<std::vector<MemLeaf>> mems;
    std::vector<CallInfo *> calls;
    std::vector<SwitchInfo> switches;
    std::vector<LPad> lpads;
    bool decoded = false;
};

static LLVMContext *C;
static Module *M;
static const DataLayout *DL;
static std::vector<DFunc *> funcs;
static std::unordered_map<const Function *, DFunc *> fmap;
static std::unordered_map<u64, DFunc *> addr2f;
typedef std::function<void(CallInfo &, Val *)> Builtin;
static std::unordered_map<std::string, Builtin *> builtins;
static std::unordered_map<u64, Builtin *> addr2builtin;
static std::unordered_map<u64, std::string> addr2name;
static std::unordered_map<const GlobalValue *, u64> gaddr;

static unsigned slotsOf(Type *T) {
    if(T->isVoidTy()) return 0;
    if(auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for(auto *t : S->elements()) n += slotsOf(t); return n; }
    if(auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * slotsOf(A->getElementType());
    if(auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * slotsOf(V->getElementType());
    return 1;
}
static unsigned bitsOf(Type *T) {
    if(T->isPointerTy()) return 64;
    return T->getPrimitiveSizeInBits();
}
static void leavesOf(Type *T, u64 off, std::vector<std::pair<Type *, u64>> &out) {
    if(auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for(unsigned i = 0; i < S->getNumElements(); i++) leavesOf(S->getElementType(i), off + L->getElementOffset(i), out); return; }
    if(auto *A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for(u64 i = 0; i < A->getNumElements(); i++) leavesOf(A->getElementType(), off + i * sz, out); return; }
    if(auto *V = dyn_cast<FixedVectorType>(T)) { unsigned b = bitsOf(V->getElementType()); for(unsigned i = 0; i < V->getNumElements(); i++) out.push_back({V->getElementType(), off + i * ((b + 7) / 8)}); return; }
    out.push_back({T, off});
}

static u64 addrOfGlobal(const GlobalValue *G);
static void closureHandler(ffi_cif *cif, void *ret, void **args, void *user);

static ffi_type *ffiT(Type *T) {
    if(T->isVoidTy()) return &ffi_type_void;
    if(T->isPointerTy()) return &ffi_type_pointer;
    if(T->isDoubleTy()) return &ffi_type_double;
    if(T->isFloatTy()) return &ffi_type_float;
    if(T->isX86_FP80Ty()) return &ffi_type_longdouble;
    if(auto *I = dyn_cast<IntegerType>(T)) {
        unsigned w = I->getBitWidth();
        if(w <= 8) return &ffi_type_uint8;
        if(w <= 16) return &ffi_type_uint16;
        if(w <= 32) return &ffi_type_uint32;
        return &ffi_type_uint64;
    }
    if(auto *S = dyn_cast<StructType>(T)) {
        auto *t = new ffi_type;
        t->size = t->alignment = 0;
        t->type = FFI_TYPE_STRUCT;
        std::vector<std::pair<Type *, u64>> l;
        leavesOf(S, 0, l);
        t->elements = new ffi_type *[l.size() + 1];
        for(size_t i = 0; i < l.size(); i++) t->elements[i] = ffiT(l[i].first);
        t->elements[l.size()] = nullptr;
        return t;
    }
    if(auto *V = dyn_cast<FixedVectorType>(T)) {
        // <2 x float> is returned/passed as a double-sized SSE value
        if(DL->getTypeStoreSize(V) == 8) return &ffi_type_double;
    }
    return nullptr;
}
static ffi_type *ffiBytes(u64 n) { // by-value memory argument
    auto *t = new ffi_type;
    t->size = t->alignment = 0;
    t->type = FFI_TYPE_STRUCT;
    u64 k = (n + 7) / 8;
    t->elements = new ffi_type *[k + 1];
    for(u64 i = 0; i < k; i++) t->elements[i] = &ffi_type_uint64;
    t->elements[k] = nullptr;
    return t;
}

static u64 funcAddr(Function *F) {
    auto it = gaddr.find(F);
    if(it != gaddr.end()) return it->second;
    u64 a = 0;
    std::string name = F->getName().str();
    if(!F->isDeclaration()) {
        void *code = nullptr;
        auto *cl = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &code);
        auto *cif = new ffi_cif;
        auto *at = new std::vector<ffi_type *>;
        bool ok = true;
        for(auto &A : F->args()) {
            auto *t = A.hasByValAttr() ? ffiBytes(DL->getTypeAllocSize(A.getParamByValType())) : ffiT(A.getType());
            if(!t) ok = false;
            at->push_back(t);
        }
        auto *rt = ffiT(F->getReturnType());
        if(!rt) ok = false;
        if(ok) ok = ffi_prep_cif(cif, FFI_DEFAULT_ABI, at->size(), rt, at->data()) == FFI_OK;
        if(ok) ok = ffi_prep_closure_loc(cl, cif, closureHandler, fmap[F], code) == FFI_OK;
        a = (u64)code;
        addr2f[a] = fmap[F];
    } else {
        a = (u64)dlsym(RTLD_DEFAULT, name.c_str());
        auto b = builtins.find(name);
        if(!a) { static u64 fake = 0x700; a = glob_alloc(16, 16); poison_set_bad(a, 16); (void)fake; }
        if(b != builtins.end()) addr2builtin[a] = b->second;
        addr2name[a] = name;
    }
    gaddr[F] = a;
    return a;
}
static u64 addrOfGlobal(const GlobalValue *GV) {
    auto it = gaddr.find(GV);
    if(it != gaddr.end()) return it->second;
    if(auto *F = dyn_cast<Function>(GV)) return funcAddr(const_cast<Function *>(F));
    if(auto *A = dyn_cast<GlobalAlias>(GV)) {
        auto *O = A->getAliaseeObject();
        return gaddr[GV] = addrOfGlobal(O);
    }
    auto *V = cast<GlobalVariable>(GV);
    u64 a;
    if(V->isDeclaration()) {
        a = (u64)dlsym(RTLD_DEFAULT, V->getName().str().c_str());
        if(!a) { a = glob_alloc(std::max<u64>(8, V->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(V->getValueType()) : 8), 16); }
    } else a = glob_alloc(std::max<u64>(1, DL->getTypeAllocSize(V->getValueType())), V->getAlign() ? V->getAlign()->value() : 16);
    return gaddr[GV] = a;
}

static void constVals(const Constant *K, std::vector<Val> &out);
static u64 constAddr(const Constant *K) { std::vector<Val> v; constVals(K, v); return v[0].lo; }
static void constVals(const Constant *K, std::vector<Val> &out) {
    Type *T = K->getType();
    if(auto *I = dyn_cast<ConstantInt>(K)) {
        const APInt &x = I->getValue();
        out.push_back({x.getRawData()[0], x.getBitWidth() > 64 ? x.getRawData()[1] : 0, nullptr});
        return;
    }
    if(auto *F = dyn_cast<ConstantFP>(K)) {
        APInt x = F->getValueAPF().bitcastToAPInt();
        out.push_back({x.getRawData()[0], x.getBitWidth() > 64 ? x.getRawData()[1] : 0, nullptr});
        return;
    }
    if(isa<ConstantPointerNull>(K) || isa<UndefValue>(K) || isa<ConstantAggregateZero>(K) || isa<ConstantTokenNone>(K)) {
        for(unsigned i = 0, n = slotsOf(T); i < n; i++) out.push_back(mkv(0));
        return;
    }
    if(auto *GV = dyn_cast<GlobalValue>(K)) { out.push_back(mkv(addrOfGlobal(GV))); return; }
    if(auto *A = dyn_cast<ConstantAggregate>(K)) { for(auto &o : A->operands()) constVals(cast<Constant>(o.get()), out); return; }
    if(auto *S = dyn_cast<ConstantDataSequential>(K)) { for(unsigned i = 0; i < S->getNumElements(); i++) constVals(S->getElementAsConstant(i), out); return; }
    if(auto *E = dyn_cast<ConstantExpr>(K)) {
        switch(E->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            u64 v = constAddr(E->getOperand(0));
            out.push_back(mkv(v & lmask(bitsOf(T))));
            return;
        }
        case Instruction::Trunc: out.push_back(mkv(constAddr(E->getOperand(0)) & lmask(bitsOf(T)))); return;
        case Instruction::GetElementPtr: {
            auto *GO = cast<GEPOperator>(E);
            APInt off(64, 0);
            if(!GO->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "nonconstant gep constexpr\n"); abort(); }
            out.push_back(mkv(constAddr(cast<Constant>(GO->getOperand(0))) + off.getZExtValue()));
            return;
        }
        case Instruction::Add: out.push_back(mkv((constAddr(E->getOperand(0)) + constAddr(E->getOperand(1))) & lmask(bitsOf(T)))); return;
        case Instruction::Sub: out.push_back(mkv((constAddr(E->getOperand(0)) - constAddr(E->getOperand(1))) & lmask(bitsOf(T)))); return;
        case Instruction::Xor: out.push_back(mkv((constAddr(E->getOperand(0)) ^ constAddr(E->getOperand(1))) & lmask(bitsOf(T)))); return;
        case Instruction::ICmp: {
            u64 a = constAddr(E->getOperand(0)), b = constAddr(E->getOperand(1));
            bool r;
            switch(E->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: r = false; }
            out.push_back(mkv(r));
            return;
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    K->print(os);
    fprintf(stderr, "unhandled constant: %s\n", s.c_str());
    abort();
}

static void initGlobalMem(u64 a, const Constant *K) {
    Type *T = K->getType();
    if(isa<ConstantAggregateZero>(K) || isa<UndefValue>(K)) { memset((void *)a, 0, DL->getTypeAllocSize(T)); return; }
    if(auto *S = dyn_cast<ConstantDataSequential>(K)) { auto r = S->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
    if(auto *A = dyn_cast<ConstantAggregate>(K)) {
        if(auto *ST = dyn_cast<StructType>(T)) {
            auto *L = DL->getStructLayout(ST);
            for(unsigned i = 0; i < ST->getNumElements(); i++) initGlobalMem(a + L->getElementOffset(i), A->getOperand(i));
        } else {
            u64 sz = DL->getTypeAllocSize(A->getOperand(0)->getType());
            for(unsigned i = 0; i < A->getNumOperands(); i++) initGlobalMem(a + i * sz, A->getOperand(i));
        }
        return;
    }
    std::vector<Val> v;
    constVals(K, v);
    u128 x = V128(v[0]);
    memcpy((void *)a, &x, DL->getTypeStoreSize(T));
}

// ------------------------------------------------------------------ decoder
struct Decoder {
    DFunc *D;
    std::unordered_map<const Value *, int> slots;
    std::unordered_map<const Constant *, int> cslots;
    std::unordered_map<const BasicBlock *, int> bbpc;

    int slot(const Value *V) {
        auto it = slots.find(V);
        if(it != slots.end()) return it->second;
        if(auto *K = dyn_cast<Constant>(V)) {
            auto c = cslots.find(K);
            if(c != cslots.end()) return c->second;
            int s = -(int)D->consts.size() - 1;
            std::vector<Val> v;
            constVals(K, v);
            // constants are laid out so that slot s, s-1, s-2 ... are consecutive leaves
            for(auto &x : v) D->consts.push_back(x);
            if(v.empty()) D->consts.push_back(mkv(0));
            cslots[K] = s;
            return s;
        }
        if(isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return 0;
        std::string s;
        raw_string_ostream os(s);
        V->print(os);
        fprintf(stderr, "no slot for %s in %s\n", s.c_str(), D->F->getName().str().c_str());
        abort();
    }
    static int leaf(int s, unsigned i) { return s >= 0 ? s + (int)i : s - (int)i; }
    DInst &emit(Op op, const Instruction *I, unsigned w = 0) {
        DInst d;
        memset(&d, 0, sizeof d);
        d.op = op; d.w = w; d.I = I;
        D->code.push_back(d);
        return D->code.back();
    }
    Edge mkEdge(const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.from = const_cast<BasicBlock *>(from);
        e.to = const_cast<BasicBlock *>(to);
        for(auto &P : to->phis()) {
            int d = slots[&P], s = slot(P.getIncomingValueForBlock(from));
            for(unsigned i = 0, n = slotsOf(P.getType()); i < n; i++) e.copies.push_back({leaf(d, i), leaf(s, i)});
        }
        return e;
    }
    static unsigned aggIndex(Type *T, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for(unsigned i : idx) {
            if(auto *S = dyn_cast<StructType>(T)) { for(unsigned k = 0; k < i; k++) off += slotsOf(S->getElementType(k)); T = S->getElementType(i); }
            else { auto *A = cast<ArrayType>(T); off += i * slotsOf(A->getElementType()); T = A->getElementType(); }
        }
        return off;
    }
    u32 memLeaves(Type *T) {
        std::vector<std::pair<Type *, u64>> l;
        leavesOf(T, 0, l);
        std::vector<MemLeaf> m;
        for(auto &x : l) m.push_back({x.second, bitsOf(x.first), (unsigned)DL->getTypeStoreSize(x.first)});
        D->mems.push_back(m);
        return D->mems.size() - 1;
    }
    void unsup(const Instruction *I) { emit(P_UNSUP, I); }

    void run() {
        Function *F = D->F;
        D->decoded = true;
        unsigned n = 0;
        for(auto &A : F->args()) { slots[&A] = n; D->argSlot.push_back(n); D->argN.push_back(slotsOf(A.getType())); n += slotsOf(A.getType()); }
        for(auto &B : *F) for(auto &I : B) if(!I.getType()->isVoidTy()) { slots[&I] = n; n += slotsOf(I.getType()); }
        D->nregs = n;
        for(auto &B : *F) {
            bbpc[&B] = D->code.size();
            for(auto &I : B) one(&I);
        }
        auto fix = [&](Edge &e) { if(e.to) e.target = bbpc[e.to]; };
        for(auto &e : D->edges) fix(e);
        for(auto *c : D->calls) { fix(c->normal); fix(c->unwind); }
        for(auto &s : D->switches) for(auto &e : s.edges) fix(e);
    }
    void one(const Instruction *I) {
        if(isa<PHINode>(I)) return;
        if(auto *B = dyn_cast<BinaryOperator>(I)) {
            Op op;
            switch(B->getOpcode()) {
            case Instruction::Add: op = P_ADD; break; case Instruction::Sub: op = P_SUB; break; case Instruction::Mul: op = P_MUL; break;
            case Instruction::UDiv: op = P_UDIV; break; case Instruction::SDiv: op = P_SDIV; break; case Instruction::URem: op = P_UREM; break; case Instruction::SRem: op = P_SREM; break;
            case Instruction::And: op = P_AND; break; case Instruction::Or: op = P_OR; break; case Instruction::Xor: op = P_XOR; break;
            case Instruction::Shl: op = P_SHL; break; case Instruction::LShr: op = P_LSHR; break; case Instruction::AShr: op = P_ASHR; break;
            case Instruction::FAdd: op = P_FADD; break; case Instruction::FSub: op = P_FSUB; break; case Instruction::FMul: op = P_FMUL; break; case Instruction::FDiv: op = P_FDIV; break; case Instruction::FRem: op = P_FREM; break;
            default: unsup(I); return;
            }
            Type *ET = I->getType()->getScalarType();
            if(ET->isX86_FP80Ty()) { unsup(I); return; }
            int a = slot(B->getOperand(0)), b = slot(B->getOperand(1)), d = slots[I];
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(op, I, bitsOf(ET)); x.dst = d + i; x.a = leaf(a, i); x.b = leaf(b, i); }
            return;
        }
        if(auto *U = dyn_cast<UnaryOperator>(I)) {
            if(I->getType()->getScalarType()->isX86_FP80Ty()) { unsup(I); return; }
            int a = slot(U->getOperand(0)), d = slots[I];
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(P_FNEG, I, bitsOf(I->getType()->getScalarType())); x.dst = d + i; x.a = leaf(a, i); }
            return;
        }
        if(auto *K = dyn_cast<CmpInst>(I)) {
            Type *ET = K->getOperand(0)->getType()->getScalarType();
            if(ET->isX86_FP80Ty()) { unsup(I); return; }
            int a = slot(K->getOperand(0)), b = slot(K->getOperand(1)), d = slots[I];
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(isa<ICmpInst>(I) ? P_ICMP : P_FCMP, I, bitsOf(ET)); x.pred = K->getPredicate(); x.dst = d + i; x.a = leaf(a, i); x.b = leaf(b, i); }
            return;
        }
        if(auto *S = dyn_cast<SelectInst>(I)) {
            int c = slot(S->getCondition()), a = slot(S->getTrueValue()), b = slot(S->getFalseValue()), d = slots[I];
            bool vec = S->getCondition()->getType()->isVectorTy();
            std::vector<std::pair<Type *, u64>> l;
            leavesOf(I->getType(), 0, l);
            for(unsigned i = 0; i < l.size(); i++) { auto &x = emit(P_SELECT, I, bitsOf(l[i].first)); x.dst = d + i; x.c = vec ? leaf(c, i) : c; x.a = leaf(a, i); x.b = leaf(b, i); }
            return;
        }
        if(auto *K = dyn_cast<CastInst>(I)) {
            Type *S = K->getSrcTy(), *T = K->getDestTy();
            int a = slot(K->getOperand(0)), d = slots[I];
            if(K->getOpcode() == Instruction::BitCast && slotsOf(S) != slotsOf(T)) {
                auto &x = emit(P_BITCAST, I);
                x.a = a; x.dst = d;
                x.b = bitsOf(S->getScalarType()); x.c = bitsOf(T->getScalarType());
                x.w = slotsOf(S); x.w2 = slotsOf(T);
                return;
            }
            Type *SE = S->getScalarType(), *TE = T->getScalarType();
            Op op;
            switch(K->getOpcode()) {
            case Instruction::Trunc: op = P_TRUNC; break; case Instruction::ZExt: op = P_ZEXT; break; case Instruction::SExt: op = P_SEXT; break;
            case Instruction::FPToSI: op = P_FPTOSI; break; case Instruction::FPToUI: op = P_FPTOUI; break; case Instruction::SIToFP: op = P_SITOFP; break; case Instruction::UIToFP: op = P_UITOFP; break;
            case Instruction::FPExt: op = P_FPEXT; break; case Instruction::FPTrunc: op = P_FPTRUNC; break;
            case Instruction::BitCast: op = P_MOV; break;
            case Instruction::PtrToInt: op = bitsOf(TE) == 64 ? P_MOV : bitsOf(TE) < 64 ? P_TRUNC : P_ZEXT; break;
            case Instruction::IntToPtr: op = bitsOf(SE) == 64 ? P_MOV : bitsOf(SE) < 64 ? P_ZEXT : P_TRUNC; break;
            default: unsup(I); return;
            }
            if(op != P_MOV && (SE->isX86_FP80Ty() || TE->isX86_FP80Ty())) { unsup(I); return; }
            for(unsigned i = 0, n = slotsOf(T); i < n; i++) { auto &x = emit(op, I, bitsOf(TE)); x.w2 = bitsOf(SE); x.dst = d + i; x.a = leaf(a, i); }
            return;
        }
        if(auto *X = dyn_cast<ExtractValueInst>(I)) {
            int a = slot(X->getAggregateOperand()), d = slots[I];
            unsigned off = aggIndex(X->getAggregateOperand()->getType(), X->getIndices());
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(P_MOV, I); x.dst = d + i; x.a = leaf(a, off + i); }
            return;
        }
        if(auto *X = dyn_cast<InsertValueInst>(I)) {
            int a = slot(X->getAggregateOperand()), v = slot(X->getInsertedValueOperand()), d = slots[I];
            unsigned off = aggIndex(X->getAggregateOperand()->getType(), X->getIndices()), vn = slotsOf(X->getInsertedValueOperand()->getType());
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(P_MOV, I); x.dst = d + i; x.a = i >= off && i < off + vn ? leaf(v, i - off) : leaf(a, i); }
            return;
        }
        if(auto *X = dyn_cast<ExtractElementInst>(I)) {
            auto *K = dyn_cast<ConstantInt>(X->getIndexOperand());
            if(!K) { unsup(I); return; }
            auto &x = emit(P_MOV, I);
            x.dst = slots[I]; x.a = leaf(slot(X->getVectorOperand()), K->getZExtValue());
            return;
        }
        if(auto *X = dyn_cast<InsertElementInst>(I)) {
            auto *K = dyn_cast<ConstantInt>(X->getOperand(2));
            if(!K) { unsup(I); return; }
            int a = slot(X->getOperand(0)), v = slot(X->getOperand(1)), d = slots[I];
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(P_MOV, I); x.dst = d + i; x.a = i == K->getZExtValue() ? v : leaf(a, i); }
            return;
        }
        if(auto *X = dyn_cast<ShuffleVectorInst>(I)) {
            int a = slot(X->getOperand(0)), b = slot(X->getOperand(1)), d = slots[I];
            unsigned n0 = slotsOf(X->getOperand(0)->getType());
            auto mask = X->getShuffleMask();
            for(unsigned i = 0; i < mask.size(); i++) { auto &x = emit(P_MOV, I); x.dst = d + i; int m = mask[i]; x.a = m < 0 ? leaf(a, 0) : (unsigned)m < n0 ? leaf(a, m) : leaf(b, m - n0); }
            return;
        }
        if(isa<FreezeInst>(I)) {
            int a = slot(I->getOperand(0)), d = slots[I];
            for(unsigned i = 0, n = slotsOf(I->getType()); i < n; i++) { auto &x = emit(P_MOV, I); x.dst = d + i; x.a = leaf(a, i); }
            return;
        }
        if(auto *A = dyn_cast<AllocaInst>(I)) {
            auto &x = emit(P_ALLOCA, I);
            x.dst = slots[I];
            x.a = slot(A->getArraySize());
            x.aux = DL->getTypeAllocSize(A->getAllocatedType());
            x.w = bitsOf(A->getArraySize()->getType());
            x.b = A->getAlign().value();
            return;
        }
        if(auto *L = dyn_cast<LoadInst>(I)) {
            u32 m = memLeaves(I->getType());
            auto &x = emit(P_LOAD, I);
            x.dst = slots[I]; x.a = slot(L->getPointerOperand()); x.aux = m;
            if(D->mems[m].size() == 1) { x.w = D->mems[m][0].bits; x.w2 = D->mems[m][0].bytes; }
            return;
        }
        if(auto *S = dyn_cast<StoreInst>(I)) {
            u32 m = memLeaves(S->getValueOperand()->getType());
            auto &x = emit(P_STORE, I);
            x.b = slot(S->getValueOperand()); x.a = slot(S->getPointerOperand()); x.aux = m;
            if(D->mems[m].size() == 1) { x.w = D->mems[m][0].bits; x.w2 = D->mems[m][0].bytes; }
            return;
        }
        if(auto *GE = dyn_cast<GetElementPtrInst>(I)) {
            if(I->getType()->isVectorTy()) { unsup(I); return; }
            std::vector<GepTerm> terms;
            i64 off = 0;
            for(auto gi = gep_type_begin(GE), e = gep_type_end(GE); gi != e; ++gi) {
                Value *ix = gi.getOperand();
                if(StructType *ST = gi.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                i64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                if(auto *K = dyn_cast<ConstantInt>(ix)) off += K->getSExtValue() * sz;
                else terms.push_back({slot(ix), sz, bitsOf(ix->getType())});
            }
            int base = slot(GE->getPointerOperand());
            auto &x = emit(P_GEP, I, 64);
            x.dst = slots[I]; x.a = base;
            x.b = (int)(off & 0xffffffff); x.c = (int)(off >> 32);
            x.pred = terms.size();
            x.aux = D->geps.size();
            D->geps.push_back(terms);
            return;
        }
        if(auto *B = dyn_cast<BranchInst>(I)) {
            if(B->isUnconditional()) { auto &x = emit(P_BR, I); x.aux = D->edges.size(); D->edges.push_back(mkEdge(I->getParent(), B->getSuccessor(0))); }
            else {
                int c = slot(B->getCondition());
                auto &x = emit(P_CONDBR, I);
                x.a = c; x.aux = D->edges.size();
                D->edges.push_back(mkEdge(I->getParent(), B->getSuccessor(0)));
                D->edges.push_back(mkEdge(I->getParent(), B->getSuccessor(1)));
            }
            return;
        }
        if(auto *S = dyn_cast<SwitchInst>(I)) {
            SwitchInfo si;
            std::map<const BasicBlock *, int> em;
            auto edge = [&](const BasicBlock *to) { auto it = em.find(to); if(it != em.end()) return it->second; si.edges.push_back(mkEdge(I->getParent(), to)); return em[to] = (int)si.edges.size() - 1; };
            for(auto &c : S->cases()) si.cases.push_back({c.getCaseValue()->getValue().getRawData()[0], edge(c.getCaseSuccessor())});
            si.def = edge(S->getDefaultDest());
            int a = slot(S->getCondition());
            auto &x = emit(P_SWITCH, I, bitsOf(S->getCondition()->getType()));
            x.a = a; x.aux = D->switches.size();
            D->switches.push_back(si);
            return;
        }
        if(auto *R = dyn_cast<ReturnInst>(I)) {
            int a = R->getReturnValue() ? slot(R->getReturnValue()) : 0;
            auto &x = emit(P_RET, I);
            x.a = a;
            x.b = R->getReturnValue() ? slotsOf(R->getReturnValue()->getType()) : 0;
            return;
        }
        if(isa<UnreachableInst>(I)) { emit(P_UNREACHABLE, I); return; }
        if(auto *R = dyn_cast<ResumeInst>(I)) { int a = slot(R->getValue()); auto &x = emit(P_RESUME, I); x.a = a; return; }
        if(auto *L = dyn_cast<LandingPadInst>(I)) {
            LPad lp;
            lp.cleanup = L->isCleanup();
            for(unsigned i = 0; i < L->getNumClauses(); i++) { if(L->isCatch(i)) lp.clauses.push_back({false, constAddr(cast<Constant>(L->getClause(i)))}); else lp.clauses.push_back({true, 0}); }
            auto &x = emit(P_LANDINGPAD, I);
            x.dst = slots[I]; x.aux = D->lpads.size();
            D->lpads.push_back(lp);
            return;
        }
        if(auto *A = dyn_cast<AtomicRMWInst>(I)) {
            auto &x = emit(P_ATOMICRMW, I, bitsOf(I->getType()));
            x.w2 = DL->getTypeStoreSize(I->getType());
            x.dst = slots[I]; x.a = slot(A->getPointerOperand()); x.b = slot(A->getValOperand()); x.pred = A->getOperation();
            return;
        }
        if(auto *A = dyn_cast<AtomicCmpXchgInst>(I)) {
            auto &x = emit(P_CMPXCHG, I, bitsOf(A->getNewValOperand()->getType()));
            x.w2 = DL->getTypeStoreSize(A->getNewValOperand()->getType());
            x.dst = slots[I]; x.a = slot(A->getPointerOperand()); x.b = slot(A->getCompareOperand()); x.c = slot(A->getNewValOperand());
            return;
        }
        if(isa<FenceInst>(I)) return;
        if(auto *CB = dyn_cast<CallBase>(I)) {
            if(auto *II = dyn_cast<IntrinsicInst>(I)) {
                switch(II->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
                case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
                    if(auto *BI = dyn_cast<InvokeInst>(I)) { auto &x = emit(P_BR, I); x.aux = D->edges.size(); D->edges.push_back(mkEdge(I->getParent(), BI->getNormalDest())); }
                    return;
                default: break;
                }
            }
            auto *ci = new CallInfo;
            ci->CB = CB;
            ci->F = CB->getCalledFunction();
            if(!ci->F) {
                auto *st = CB->getCalledOperand()->stripPointerCasts();
                if(auto *fa = dyn_cast<GlobalAlias>(st)) st = const_cast<GlobalObject *>(fa->getAliaseeObject());
                ci->F = dyn_cast<Function>(st);
            }
            if(!ci->F) ci->calleeSlot = isa<InlineAsm>(CB->getCalledOperand()) ? 0 : slot(CB->getCalledOperand());
            for(unsigned i = 0; i < CB->arg_size(); i++) {
                auto *A = CB->getArgOperand(i);
                ci->types.push_back(A->getType());
                ci->args.push_back(A->getType()->isMetadataTy() ? 0 : slot(A));
                ci->nslots.push_back(A->getType()->isMetadataTy() ? 0 : slotsOf(A->getType()));
                ci->byval.push_back(CB->isByValArgument(i) ? (u64)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
            }
            ci->nret = slotsOf(I->getType());
            if(auto *IV = dyn_cast<InvokeInst>(I)) { ci->invoke = true; ci->normal = mkEdge(I->getParent(), IV->getNormalDest()); ci->unwind = mkEdge(I->getParent(), IV->getUnwindDest()); }
            auto &x = emit(P_CALL, I);
            x.dst = I->getType()->isVoidTy() ? 0 : slots[I];
            x.aux = D->calls.size();
            D->calls.push_back(ci);
            return;
        }
        unsup(I);
    }
};

// ------------------------------------------------------------------ execution state
struct Frame {
    DFunc *f;
    u32 pc;
    u64 stackSave;
    Val *regs;
    CallInfo *call = nullptr; // call this frame is waiting on
    int retDst = 0;
    std::vector<std::pair<Val, unsigned>> *va = nullptr;
    bool nativeBoundary = false;
};
static std::vector<Frame> frames;
static Val *regstack, *regtop, *reglimit;
static DFunc *curF = nullptr;

static std::string locOf(const Instruction *I) {
    std::string s;
    if(I) {
        s = demangle(I->getFunction()->getName().str());
        if(auto &L = I->getDebugLoc()) {
            std::string chain;
            for(const DILocation *l = L.get(); l; l = l->getInlinedAt()) {
                std::string fn = l->getFilename().str();
                size_t p = fn.rfind('/');
                chain += (chain.empty() ? "" : " < ") + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(l->getLine());
            }
            s += " [" + chain + "]";
        }
    }
    return s;
}
static std::string where() {
    std::string s;
    int n = 0;
    for(size_t i = frames.size(); i-- > 0 && n < 14; n++) {
        Frame &f = frames[i];
        const Instruction *I = f.f && f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        s += (n ? " <- " : "") + locOf(I);
    }
    for(auto &c : s) if(c == '\n' || c == '\t') c = ' ';
    return s;
}
// innermost frame whose source is in the repository: stable crash label
static std::string repoFunc() {
    for(size_t i = frames.size(); i-- > 0;) {
        Frame &f = frames[i];
        const Instruction *I = f.f && f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        if(!I) continue;
        if(auto &L = I->getDebugLoc())
            for(const DILocation *l = L.get(); l; l = l->getInlinedAt()) {
                auto *sp = l->getScope()->getSubprogram();
                std::string path = (sp->getDirectory() + "/" + sp->getFilename()).str();
                if(sp->getFilename().starts_with("/")) path = sp->getFilename().str();
                if(path.find(opt_srcprefix) == 0) return sp->getName().str();
            }
    }
    return frames.empty() ? "?" : demangle(frames.back().f->F->getName().str()).substr(0, 60);
}

// ------------------------------------------------------------------ memory access
static Val readMem(u64 a, unsigned bits, unsigned bytes) {
    if(nsym && inArena(a) && (sympage(a) || sympage(a + bytes - 1)) && anySym(a, bytes)) {
        Expr *r = nullptr;
        for(unsigned i = 0; i < bytes; i++) {
            Expr *b = getSym(a + i);
            if(!b) b = mkConst(*(u8 *)(a + i), 8);
            r = r ? mkConcat(b, r) : b;
        }
        if(bits < bytes * 8) r = mkExtract(r, 0, bits);
        return fromE(r);
    }
    Val v = {0, 0, nullptr};
    switch(bytes) {
    case 1: v.lo = *(u8 *)a; break;
    case 2: v.lo = *(uint16_t *)a; break;
    case 4: v.lo = *(u32 *)a; break;
    case 8: v.lo = *(u64 *)a; break;
    default:
        if(bytes < 8) memcpy(&v.lo, (void *)a, bytes);
        else { memcpy(&v.lo, (void *)a, 8); memcpy(&v.hi, (void *)(a + 8), std::min(8u, bytes - 8)); }
    }
    if(bits < 64) v.lo &= lmask(bits);
    return v;
}
static void writeMem(u64 a, const Val &v, unsigned bits, unsigned bytes) {
    if(v.e) {
        Expr *e = v.e;
        if(bits < bytes * 8) e = mkZext(e, bytes * 8);
        for(unsigned i = 0; i < bytes; i++) {
            Expr *b = mkPiece(e, 8 * i, 8);
            if(isC(b)) { *(u8 *)(a + i) = (u8)b->v; setSym(a + i, nullptr); }
            else setSym(a + i, b);
        }
        return;
    }
    if(nsym) for(unsigned i = 0; i < bytes; i++) setSym(a + i, nullptr);
    switch(bytes) {
    case 1: *(u8 *)a = v.lo; break;
    case 2: *(uint16_t *)a = v.lo; break;
    case 4: *(u32 *)a = v.lo; break;
    case 8: *(u64 *)a = v.lo; break;
    default:
        if(bytes < 8) memcpy((void *)a, &v.lo, bytes);
        else { memcpy((void *)a, &v.lo, 8); memcpy((void *)(a + 8), &v.hi, std::min(8u, bytes - 8)); }
    }
}
static std::string memErr(u64 a, u64 n, bool wr) {
    const char *k;
    if(a < 65536) k = "null-deref";
    else if(inArena(a)) {
        u8 p = poison[(a - ARENA) >> 3];
        u8 pe = poison[(a + n - 1 - ARENA) >> 3];
        k = (p == 0xFD || pe == 0xFD) ? "use-after-free" : (a - ARENA >= HEAP_OFF ? "heap-out-of-bounds" : a - ARENA >= STACK_OFF ? "stack-out-of-bounds" : "global-out-of-bounds");
    } else k = "wild-pointer";
    return std::string(k) + (wr ? "-write" : "-read");
}
static void checkAccess(u64 a, u64 n, bool wr) {
    if(range_ok(a, n)) return;
    char b[64];
    snprintf(b, 64, "address %llx size %llu", (unsigned long long)a, (unsigned long long)n);
    crash(memErr(a, n, wr) + ":" + repoFunc(), b);
}
// addressable region around a
static bool regionOf(u64 a, u64 &lo, u64 &hi) {
    if(!inArena(a) || !byte_ok(a)) return false;
    lo = a; hi = a + 1;
    while(hi - a < (64u << 20) && inArena(hi) && byte_ok(hi)) hi = ((hi & 7) == 0 && poison[(hi - ARENA) >> 3] == 8) ? hi + 8 : hi + 1;
    while(a - lo < (64u << 20) && inArena(lo - 1) && byte_ok(lo - 1)) lo = ((lo & 7) == 0 && poison[(lo - 8 - ARENA) >> 3] == 8) ? lo - 8 : lo - 1;
    return true;
}
static Expr *bytesExpr(u64 a, unsigned bits, unsigned bytes) { return toE(readMem(a, bits, bytes), bits); }

static Val loadSymAddr(Expr *ae, unsigned bits, unsigned bytes) {
    for(;;) {
        u64 a = (u64)evalExpr(ae);
        u64 lo, hi;
        if(!regionOf(a, lo, hi) || a + bytes > hi) {
            if(!inArena(a) && a >= 65536 && a < 0x7fffffffffffull) { u64 v = (u64)concretize(ae); return readMem(v, bits, bytes); }
            crash(memErr(a, bytes, false) + ":" + repoFunc(), "symbolic address");
        }
        // inside this region?
        Expr *in = mkBin(K_ULE, mkBin(K_SUB, ae, mkConst(lo, 64)), mkConst(hi - lo - bytes, 64));
        if(!fork_branch(in)) continue; // other path: model has moved to another place
        // clip by interval analysis
        u128 rl, rh;
        urange(ae, rl, rh);
        u64 l2 = std::max<u128>(lo, rl), h2 = (u64)std::min<u128>(hi - bytes, rh);
        u64 stride = 1;
        // alignment pattern: ae = base + (x << k) or base + x*c
        {
            Expr *t = ae;
            u128 base = 0;
            if(t->k == K_ADD && isC(t->b)) { base = t->b->v; t = t->a; }
            while(t->k == K_ZEXT) t = t->a;
            if(t->k == K_SHL && isC(t->b) && t->b->v < 16) stride = 1ull << (unsigned)t->b->v;
            else if(t->k == K_MUL && isC(t->b) && t->b->v < 65536) stride = (u64)t->b->v;
            else if(t->k == K_CONCAT && isC(t->b) && t->b->v == 0 && t->b->w < 16) stride = 1ull << t->b->w;
            if(stride > 1) { u64 b = (u64)base; u64 r = (l2 - b) % stride; if((i64)(l2 - b) >= 0) { if(r) l2 += stride - r; } else stride = 1; }
        }
        if((h2 - l2) / stride > 2048) { u64 v = (u64)concretize(ae); return readMem(v, bits, bytes); }
        // runs of equal values, from the top down
        Expr *r = nullptr;
        u64 n = (h2 - l2) / stride + 1;
        std::vector<Expr *> vals(n);
        for(u64 i = 0; i < n; i++) vals[i] = bytesExpr(l2 + i * stride, bits, bytes);
        // Start from the most frequent value (default of the chain): only needed for size
        for(u64 i = n; i-- > 0;) {
            if(!r) { r = vals[i]; continue; }
            if(vals[i] == vals[i + 1]) continue;
            // addresses <= l2+i*stride take vals[..i]
            r = mkIte(mkBin(K_ULE, ae, mkConst(l2 + i * stride, 64)), vals[i], r);
        }
        // the chain above nests so that the smallest bound is tested first
        return fromE(r);
    }
}
static u64 storeAddr(Val &v) { return conc(v); }

static void copyMem(u64 d, u64 s, u64 n) {
    if(n == 0) return;
    bool sy = nsym && (anySym(s, n) || anySym(d, n));
    if(sy) {
        std::vector<Expr *> t(n);
        for(u64 i = 0; i < n; i++) t[i] = getSym(s + i);
        memmove((void *)d, (void *)s, n);
        for(u64 i = 0; i < n; i++) setSym(d + i, t[i]);
    } else memmove((void *)d, (void *)s, n);
}

// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj; u64 ti; u64 dtor; int handlers = 0; u64 adjusted = 0; bool native = false; int refs = 1; bool uncaught = true; };
static std::unordered_map<u64, Exc> *excs;
static std::vector<u64> *caught;

static bool typeMatches(u64 catchTi, Exc &e, u64 &adj) {
    if(catchTi == 0) { adj = e.obj; return true; }
    auto *ct = (const std::type_info *)catchTi;
    auto *tt = (const std::type_info *)e.ti;
    void *obj = (void *)e.obj;
    if(tt->__is_pointer_p()) obj = *(void **)obj;
    if(ct->__do_catch(tt, &obj, 1)) { adj = (u64)obj; return true; }
    return false;
}
static std::unordered_map<u64, int> typeIds;
static int typeIdOf(u64 ti) { auto it = typeIds.find(ti); if(it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[ti] = n; }

static void takeEdge(Frame &f, Edge &e) {
    if(!e.copies.empty()) {
        if(e.copies.size() == 1) f.regs[e.copies[0].first] = e.copies[0].second >= 0 ? f.regs[e.copies[0].second] : f.f->consts[~e.copies[0].second];
        else {
            Val tmp[64];
            std::vector<Val> big;
            Val *t = tmp;
            if(e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
            for(size_t i = 0; i < e.copies.size(); i++) t[i] = e.copies[i].second >= 0 ? f.regs[e.copies[i].second] : f.f->consts[~e.copies[i].second];
            for(size_t i = 0; i < e.copies.size(); i++) f.regs[e.copies[i].first] = t[i];
        }
    }
    f.pc = e.target;
}
static void popFrame() {
    Frame &f = frames.back();
    if(stack_ptr != f.stackSave) { poison_set_bad(f.stackSave, stack_ptr - f.stackSave); stack_ptr = f.stackSave; }
    regtop = f.regs;
    if(f.va) delete f.va;
    frames.pop_back();
}
struct NativeUnwind { u64 exc; };
static const Instruction *throwSite;
// unwind from the current top frame's call
static void unwindTo(u64 exc) {
    Exc &e = (*excs)[exc];
    for(;;) {
        if(frames.empty()) {
            crash(std::string("uncaught-exception:") + (e.ti ? ((std::type_info *)e.ti)->name() : "?"), "");
        }
        Frame &f = frames.back();
        if(f.f && f.call && f.call->invoke) {
            // find the landing pad
            Edge &ed = f.call->unwind;
            DFunc *D = f.f;
            u32 p = ed.target;
            while(D->code[p].op != P_LANDINGPAD) p++;
            LPad &lp = D->lpads[D->code[p].aux];
            int sel = 0;
            bool hit = false;
            for(auto &c : lp.clauses) {
                u64 adj;
                if(c.filter) { hit = true; sel = -1; break; }
                if(typeMatches(c.ti, e, adj)) { e.adjusted = adj; sel = typeIdOf(c.ti); hit = true; break; }
            }
            if(hit || lp.cleanup) {
                f.call = nullptr;
                takeEdge(f, ed);
                f.regs[D->code[p].dst] = mkv(exc);
                f.regs[D->code[p].dst + 1] = mkv((u32)sel);
                // execute up to the landingpad happens naturally
                return;
            }
        }
        bool nb = f.nativeBoundary;
        popFrame();
        if(nb) throw NativeUnwind{exc};
    }
}

// ------------------------------------------------------------------ builtins helpers
#define BI(name) builtins[name] = new Builtin([](CallInfo &ci, Val *a) -> void
static Val g_ret[16];   // return value of a builtin
struct JmpPoint { size_t depth; DFunc *f; CallInfo *ci; u32 pc; int dst; };
static std::unordered_map<u64, JmpPoint> *jmpPoints;
static u64 g_jmpTo, g_jmpVal;   // longjmp requested by a builtin
static bool g_threw = false;
static inline void ret(u64 v) { g_ret[0] = {v, 0, nullptr}; }
static inline void retv(Val v) { g_ret[0] = v; }

static std::string cstr(u64 a) {
    std::string s;
    for(;; a++) { checkAccess(a, 1, false); Expr *e = getSym(a); u8 c = e ? (u8)evalExpr(e) : *(u8 *)a; if(!c || s.size() > 4000) return s; s += (char)c; }
}
static Expr *byteE(u64 a) { Expr *e = getSym(a); return e ? e : mkConst(*(u8 *)a, 8); }

static Val cmpBytes(u64 a, u64 b, u64 n, bool stopNul) {
    checkAccess(a, stopNul ? 1 : n, false);
    checkAccess(b, stopNul ? 1 : n, false);
    if(!stopNul && !anySym(a, n) && !anySym(b, n)) { int r = memcmp((void *)a, (void *)b, n); return mkv((u32)(r < 0 ? -1 : r > 0)); }
    // fork on the first difference; yields a (possibly symbolic) difference of the deciding byte
    std::vector<std::pair<Expr *, Expr *>> v;
    for(u64 i = 0; i < n; i++) {
        if(stopNul) { checkAccess(a + i, 1, false); checkAccess(b + i, 1, false); }
        Expr *x = byteE(a + i), *y = byteE(b + i);
        if(stopNul) {
            if(!fork_branch(mkEq(x, y))) return fork_branch(mkBin(K_ULT, x, y)) ? mkv((u32)-1) : mkv(1);
            if(fork_branch(mkEq(x, mkConst(0, 8)))) return mkv(0);
            continue;
        }
        if(isC(x) && isC(y)) { if(x->v == y->v) continue; v.push_back({x, y}); break; }
        v.push_back({x, y});
    }
    Expr *r = mkConst(0, 32);
    for(size_t i = v.size(); i-- > 0;) r = mkIte(mkEq(v[i].first, v[i].second), r, mkIte(mkBin(K_ULT, v[i].first, v[i].second), mkConst((u32)-1, 32), mkConst(1, 32)));
    return fromE(r);
}

static u64 g_cond_count;
static void do_check(Val c, const std::string &lab) {
    G->checks++;
    label('C', lab)->n++;
    Expr *e = nullptr;
    if(!c.e) {
        if(c.lo) return;
        report_violation(lab, "", g_model);
        G->paths++;
        path_exit(0);
    }
    G->checks_symbolic++;
    e = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    Expr *n = mkNot(e);
    std::vector<u128> m;
    SatRes r = solve(pc, n, m);
    if(r == R_UNKNOWN) { incomplete("solver gave no answer for an assertion"); addPC(e); return; }
    if(r == R_SAT) {
        report_violation(lab, "", m);
        // continue on the side where it holds
        if(!evalExpr(e)) {
            std::vector<u128> m2;
            if(solve(pc, e, m2) != R_SAT) { G->paths++; path_exit(0); }
            g_model = m2;
            model_changed();
        }
        addPC(e);
    }
}
static void do_assume(Val c) {
    G->assumes++;
    if(!c.e) { if(c.lo) return; G->killed_by_assume++; path_exit(0); }
    Expr *e = mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    if(!evalExpr(e)) {
        std::vector<u128> m2;
        SatRes r = solve(pc, e, m2);
        if(r == R_UNKNOWN) die_incomplete("solver gave no answer for an assumption");
        if(r == R_UNSAT) { G->killed_by_assume++; path_exit(0); }
        g_model = m2;
        model_changed();
    }
    addPC(e);
}

static bool symInObject(u64 p) {
    if(!nsym || !inArena(p)) return false;
    u64 lo, hi;
    if(!regionOf(p, lo, hi)) return false;
    return anySym(p, hi - p);
}

static void throwStd(const char *sym, const char *msg) { // native libstdc++ thrower
    g_threw = true;
    try {
        if(!strcmp(sym, "bad_alloc")) throw std::bad_alloc();
        throw std::bad_array_new_length();
    } catch(...) {
        auto ep = std::current_exception();
        void *obj = *(void **)&ep;
        Exc e;
        e.obj = (u64)obj;
        e.ti = (u64)abi::__cxa_current_exception_type();
        e.native = true;
        (*excs)[e.obj] = e;
        new std::exception_ptr(ep); // keep alive
        g_ret[0] = mkv(e.obj);
    }
    (void)msg;
}

static Val heapAlloc(u64 n, u64 align = 16) {
    u64 p = arena_alloc(n, align);
    if(p) { u64 f = std::min<u64>(n, 1 << 20); memset((void *)p, 0xBE, f); }
    return mkv(p);
}
static void heapFree(u64 p, const char *what) {
    if(!p) return;
    if(!inArena(p)) { free((void *)p); return; }
    if(arena_free(p)) crash(std::string("bad-free:") + repoFunc(), what);
}
static void setBuiltins();

// ------------------------------------------------------------------ native calls
static void nativeCall(CallInfo &ci, Val *a, void *fn, const std::string &name, FunctionType *FT) {
    size_t n = ci.args.size();
    // arguments
    static const char *ptr_only[] = {"_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt28_Rb_tree_rebalance_for_erase", "_ZSt18_Rb_tree_increment", "_ZSt18_Rb_tree_decrement", "_ZNKSt8__detail20_Prime_rehash_policy", "_ZNSt8__detail15_List_node_base", "__dynamic_cast", nullptr};
    bool po = false;
    for(int i = 0; ptr_only[i]; i++) if(name.compare(0, strlen(ptr_only[i]), ptr_only[i]) == 0) po = true;
    if(!ci.cif_ok || ci.sym != fn) {
        ci.ats.clear();
        for(size_t i = 0; i < n; i++) {
            auto *t = ci.byval[i] ? ffiBytes(ci.byval[i]) : ffiT(ci.types[i]);
            if(!t) die_incomplete("external call with unsupported argument: " + name);
            ci.ats.push_back(t);
        }
        ci.rt = ffiT(ci.CB->getType());
        if(!ci.rt) die_incomplete("external call with unsupported result: " + name);
        ffi_status st = FT && FT->isVarArg() ? ffi_prep_cif_var(&ci.cif, FFI_DEFAULT_ABI, FT->getNumParams(), n, ci.rt, ci.ats.data()) : ffi_prep_cif(&ci.cif, FFI_DEFAULT_ABI, n, ci.rt, ci.ats.data());
        if(st != FFI_OK) die_incomplete("ffi: " + name);
        ci.cif_ok = true;
        ci.sym = fn;
    }
    std::vector<u128> store(n);
    std::vector<void *> ptrs(n);
    unsigned k = 0;
    for(size_t i = 0; i < n; i++) {
        if(ci.byval[i]) {
            if(anySym(a[k].lo, ci.byval[i])) die_incomplete("symbolic by-value argument to " + name);
            ptrs[i] = (void *)a[k].lo;
            k++;
            continue;
        }
        Val &v = a[k];
        if(v.e) conc(v);
        if(ci.types[i]->isPointerTy() && !po && symInObject(v.lo)) {
            // enumerate the symbolic bytes reachable from this pointer (bounded)
            die_incomplete("symbolic memory passed to external " + name);
        }
        store[i] = V128(v);
        ptrs[i] = &store[i];
        k += ci.nslots[i];
    }
    G->natcalls++;
    if(opt_trace) fprintf(stderr, "native %s\n", name.c_str());
    u64 rbuf[8] = {0};
    try {
        ffi_call(&ci.cif, FFI_FN(fn), rbuf, ptrs.data());
    } catch(NativeUnwind &u) {
        g_threw = true;
        g_ret[0] = mkv(u.exc);
        return;
    } catch(...) {
        auto ep = std::current_exception();
        void *obj = *(void **)&ep;
        Exc e;
        e.obj = (u64)obj;
        e.ti = (u64)abi::__cxa_current_exception_type();
        e.native = true;
        (*excs)[e.obj] = e;
        new std::exception_ptr(ep);
        g_threw = true;
        g_ret[0] = mkv(e.obj);
        return;
    }
    Type *RT = ci.CB->getType();
    if(RT->isVoidTy()) return;
    std::vector<std::pair<Type *, u64>> l;
    leavesOf(RT, 0, l);
    for(size_t i = 0; i < l.size(); i++) {
        u128 x = 0;
        memcpy(&x, (char *)rbuf + l[i].second, std::min<u64>(16, DL->getTypeStoreSize(l[i].first)));
        g_ret[i] = {(u64)x & lmask(std::min(64u, bitsOf(l[i].first))), (u64)(x >> 64), nullptr};
    }
}

// ------------------------------------------------------------------ intrinsics
static bool intrinsic(CallInfo &ci, Val *a, Intrinsic::ID id) {
    Type *T = ci.CB->getType();
    unsigned w = T->isVoidTy() ? 0 : bitsOf(T->getScalarType());
    auto E = [&](unsigned i, unsigned ww = 0) { return toE(a[i], ww ? ww : bitsOf(ci.types[i]->getScalarType())); };
    unsigned N = T->isVoidTy() ? 0 : slotsOf(T);
    switch(id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = conc(a[2]);
        if(!n) return true;
        u64 d = conc(a[0]), s = conc(a[1]);
        checkAccess(s, n, false);
        checkAccess(d, n, true);
        copyMem(d, s, n);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = conc(a[2]);
        if(!n) return true;
        u64 d = conc(a[0]);
        checkAccess(d, n, true);
        if(a[1].e) { for(u64 i = 0; i < n; i++) setSym(d + i, a[1].e); }
        else { memset((void *)d, (int)a[1].lo, n); clearSym(d, n); }
        return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: retv(a[0]); return true;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        for(unsigned i = 0; i < N; i++) {
            Expr *x = toE(a[i], w), *y = toE(a[N + i], w);
            Expr *lt = mkBin(id == Intrinsic::umin || id == Intrinsic::umax ? K_ULT : K_SLT, x, y);
            bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
            g_ret[i] = fromE(mn ? mkIte(lt, x, y) : mkIte(lt, y, x));
        }
        return true;
    }
    case Intrinsic::abs: { Expr *x = E(0); retv(fromE(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x))); return true; }
    case Intrinsic::bswap: {
        Expr *x = E(0), *r = mkPiece(x, 0, 8);
        for(unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkPiece(x, 8 * i, 8));
        retv(fromE(r));
        return true;
    }
    case Intrinsic::ctpop: {
        Expr *x = E(0), *r = mkConst(0, w);
        for(unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, w == 1 ? x : mkZext(mkExtract(x, i, 1), w));
        retv(fromE(r));
        return true;
    }
    case Intrinsic::ctlz: {
        Expr *x = E(0), *r = mkConst(w, w);
        for(unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r);
        retv(fromE(r));
        return true;
    }
    case Intrinsic::cttz: {
        Expr *x = E(0), *r = mkConst(w, w);
        for(unsigned i = w; i-- > 0;) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r);
        retv(fromE(r));
        return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Expr *s = mkBin(K_UREM, E(2), mkConst(w, w));
        Expr *cat = mkConcat(E(0), E(1));
        Expr *s2 = mkZext(s, 2 * w);
        if(2 * w > 128) { die_incomplete("wide funnel shift"); }
        if(id == Intrinsic::fshl) retv(fromE(mkExtract(mkBin(K_SHL, cat, s2), w, w)));
        else retv(fromE(mkExtract(mkBin(K_LSHR, cat, s2), 0, w)));
        return true;
    }
    case Intrinsic::bitreverse: {
        Expr *x = E(0), *r = mkExtract(x, 0, 1);
        for(unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1));
        retv(fromE(r));
        return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ow = bitsOf(ci.types[0]);
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        EK k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
        unsigned ww = ow * 2;
        if(ww > 128) die_incomplete("wide overflow op");
        Expr *x = sg ? mkSext(E(0), ww) : mkZext(E(0), ww), *y = sg ? mkSext(E(1), ww) : mkZext(E(1), ww);
        Expr *r = mkBin(k, x, y), *lo = mkExtract(r, 0, ow);
        Expr *back = sg ? mkSext(lo, ww) : mkZext(lo, ww);
        g_ret[0] = fromE(lo);
        g_ret[1] = fromE(mkNot(mkEq(back, r)));
        return true;
    }
    case Intrinsic::uadd_sat: { Expr *x = E(0), *y = E(1), *r = mkBin(K_ADD, x, y); retv(fromE(mkIte(mkBin(K_ULT, r, x), mkConst(wmask(w), w), r))); return true; }
    case Intrinsic::usub_sat: { Expr *x = E(0), *y = E(1); retv(fromE(mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y)))); return true; }
    case Intrinsic::objectsize: { bool mn = conc(a[1]); ret(mn ? 0 : ~0ull); return true; }
    case Intrinsic::is_constant: ret(0); return true;
    case Intrinsic::stacksave: ret(stack_ptr); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: crash("trap:" + repoFunc());
    case Intrinsic::eh_typeid_for: ret((u32)typeIdOf(a[0].lo)); return true;
    case Intrinsic::threadlocal_address: retv(a[0]); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: retv(a[0]); return true;
    case Intrinsic::invariant_start: ret(0); return true;
    case Intrinsic::ptrmask: retv(fromE(mkBin(K_AND, E(0), E(1)))); return true;
    case Intrinsic::fabs: for(unsigned i = 0; i < N; i++) g_ret[i] = fromE(mkBin(K_AND, toE(a[i], w), mkConst(wmask(w - 1), w))); return true;
    case Intrinsic::copysign: retv(fromE(mkBin(K_OR, mkBin(K_AND, E(0), mkConst(wmask(w - 1), w)), mkBin(K_AND, E(1), mkConst((u128)1 << (w - 1), w))))); return true;
    case Intrinsic::sqrt: retv(fromE(mkUn(K_FSQRT, E(0), w))); return true;
    case Intrinsic::floor: retv(fromE(mkUn(K_FRINT, E(0), w, 1))); return true;
    case Intrinsic::ceil: retv(fromE(mkUn(K_FRINT, E(0), w, 2))); return true;
    case Intrinsic::trunc: retv(fromE(mkUn(K_FRINT, E(0), w, 3))); return true;
    case Intrinsic::round: retv(fromE(mkUn(K_FRINT, E(0), w, 4))); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: retv(fromE(mkUn(K_FRINT, E(0), w, 0))); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: for(unsigned i = 0; i < N; i++) g_ret[i] = fromE(mkBin(K_FADD, mkBin(K_FMUL, toE(a[i], w), toE(a[N + i], w)), toE(a[2 * N + i], w))); return true;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
        Expr *x = E(0), *y = E(1);
        Expr *lt = id == Intrinsic::minnum ? mkBin(K_FLT, x, y) : mkBin(K_FLT, y, x);
        retv(fromE(mkIte(mkBin(K_FUNO, x, x), y, mkIte(mkBin(K_FUNO, y, y), x, mkIte(lt, x, y)))));
        return true;
    }
    case Intrinsic::is_fpclass: {
        u64 m = a[1].lo;
        unsigned ow = bitsOf(ci.types[0]);
        Expr *x = E(0), *r = mkConst(0, 1);
        unsigned mb = ow == 64 ? 52 : 23, eb = ow == 64 ? 11 : 8;
        Expr *man = mkExtract(x, 0, mb), *ex = mkExtract(x, mb, eb), *sg = mkExtract(x, ow - 1, 1);
        Expr *emax = mkEq(ex, mkConst(wmask(eb), eb)), *ez = mkEq(ex, mkConst(0, eb)), *mz = mkEq(man, mkConst(0, mb)), *q = mkExtract(x, mb - 1, 1), *ng = mkEq(sg, mkConst(1, 1)), *ps = mkNot(ng);
        auto AND = [](Expr *p, Expr *q2) { return mkBin(K_AND, p, q2); };
        auto add = [&](u64 bit, Expr *c) { if(m & bit) r = mkBin(K_OR, r, c); };
        add(1, AND(emax, AND(mkNot(mz), mkNot(q)))); add(2, AND(emax, AND(mkNot(mz), q)));
        add(4, AND(AND(emax, mz), ng)); add(512, AND(AND(emax, mz), ps));
        Expr *norm = AND(mkNot(emax), mkNot(ez));
        add(8, AND(norm, ng)); add(256, AND(norm, ps));
        add(16, AND(AND(ez, mkNot(mz)), ng)); add(128, AND(AND(ez, mkNot(mz)), ps));
        add(32, AND(AND(ez, mz), ng)); add(64, AND(AND(ez, mz), ps));
        retv(fromE(r));
        return true;
    }
    case Intrinsic::vector_reduce_or: { Expr *r = toE(a[0], w); for(unsigned i = 1; i < ci.nslots[0]; i++) r = mkBin(K_OR, r, toE(a[i], w)); retv(fromE(r)); return true; }
    case Intrinsic::vector_reduce_and: { Expr *r = toE(a[0], w); for(unsigned i = 1; i < ci.nslots[0]; i++) r = mkBin(K_AND, r, toE(a[i], w)); retv(fromE(r)); return true; }
    case Intrinsic::vector_reduce_add: { Expr *r = toE(a[0], w); for(unsigned i = 1; i < ci.nslots[0]; i++) r = mkBin(K_ADD, r, toE(a[i], w)); retv(fromE(r)); return true; }
    case Intrinsic::vastart: {
        Frame &f = frames.back();
        u64 ap = a[0].lo;
        u64 n = f.va ? f.va->size() : 0;
        u64 area = arena_alloc(8 * n + 8);
        for(u64 i = 0; i < n; i++) writeMem(area + 8 * i, (*f.va)[i].first, 64, 8);
        *(u32 *)ap = 48; *(u32 *)(ap + 4) = 176; *(u64 *)(ap + 8) = area; *(u64 *)(ap + 16) = 0;
        clearSym(ap, 24);
        return true;
    }
    case Intrinsic::vacopy: copyMem(a[0].lo, a[1].lo, 24); return true;
    case Intrinsic::vaend: return true;
    default: return false;
    }
}

// ------------------------------------------------------------------ calls
static void pushFrame(DFunc *D, Val *args, unsigned nargs, int retDst) {
    if(!D->decoded) { Decoder d; d.D = D; d.run(); }
    G->fexec[D->idx] = 1;
    Frame f;
    f.f = D;
    f.pc = 0;
    f.stackSave = stack_ptr;
    f.regs = regtop;
    f.retDst = retDst;
    regtop += D->nregs;
    if(regtop >= reglimit || frames.size() > 20000) crash("stack-overflow:" + repoFunc());
    for(unsigned i = 0; i < nargs && i < D->nregs; i++) f.regs[i] = args[i];
    frames.push_back(f);
}

static u64 stackAlloc(u64 n, u64 align) {
    if(align < 16) align = 16;
    u64 a = (stack_ptr + RZ + align - 1) & ~(align - 1);
    stack_ptr = (a + n + 7) & ~7ull;
    if(stack_ptr + RZ > ARENA + STACK_OFF + STACK_SIZE) crash("stack-overflow:" + repoFunc());
    poison_set_ok(a, n);
    clearSym(a, n);
    return a;
}

// returns true when a frame was pushed (interpreted callee)
static bool doCall(Frame &f, DInst &d) {
    CallInfo &ci = *f.f->calls[d.aux];
    Val abuf[48];
    Val *a = abuf;
    std::vector<Val> big;
    unsigned total = 0;
    for(unsigned s : ci.nslots) total += s;
    if(total > 48) { big.resize(total); a = big.data(); }
    unsigned k = 0;
    for(size_t i = 0; i < ci.args.size(); i++) for(unsigned j = 0; j < ci.nslots[i]; j++) { int s = Decoder::leaf(ci.args[i], j); a[k++] = s >= 0 ? f.regs[s] : f.f->consts[~s]; }
    DFunc *callee = ci.callee;
    Builtin *bi = ci.builtin;
    void *nat = nullptr;
    std::string nname;
    FunctionType *FT = ci.CB->getFunctionType();
    if(!ci.resolved) {
        if(ci.F) {
            std::string nm = ci.F->getName().str();
            auto b = builtins.find(nm);
            if(b != builtins.end()) bi = ci.builtin = b->second;
            else if(!ci.F->isDeclaration()) callee = ci.callee = fmap[ci.F];
            ci.resolved = true;
        }
    }
    f.call = &ci;
    if(ci.F && ci.F->isIntrinsic()) {
        if(!intrinsic(ci, a, ci.F->getIntrinsicID())) die_incomplete("unsupported intrinsic " + ci.F->getName().str());
        goto done;
    }
    if(!ci.F) {
        if(isa<InlineAsm>(ci.CB->getCalledOperand())) {
            goto done; // barriers only
        }
        Val &cv = ci.calleeSlot >= 0 ? f.regs[ci.calleeSlot] : f.f->consts[~ci.calleeSlot];
        u64 t = conc(cv);
        auto it = addr2f.find(t);
        if(it != addr2f.end()) callee = it->second;
        else {
            auto b = addr2builtin.find(t);
            if(b != addr2builtin.end()) bi = b->second;
            else {
                if(t < 65536 || inArena(t)) crash("call-of-bad-pointer:" + repoFunc());
                nat = (void *)t;
                Dl_info di;
                nname = dladdr(nat, &di) && di.dli_sname ? di.dli_sname : "?";
                auto b2 = builtins.find(nname);
                if(b2 != builtins.end()) { bi = b2->second; nat = nullptr; }
            }
        }
    } else if(!callee && !bi) {
        nname = ci.F->getName().str();
        nat = dlsym(RTLD_DEFAULT, nname.c_str());
        if(!nat) die_incomplete("external function not available: " + nname);
    }
    if(bi) {
        (*bi)(ci, a);
    } else if(callee) {
        if(callee->F->isDeclaration()) die_incomplete("no body: " + callee->F->getName().str());
        // by-value arguments are copied
        unsigned q = 0, fixed = 0;
        for(size_t i = 0; i < ci.args.size(); i++) {
            if(ci.byval[i]) {
                checkAccess(a[q].lo, ci.byval[i], false);
                u64 p = stackAlloc(ci.byval[i], 16);
                copyMem(p, a[q].lo, ci.byval[i]);
                a[q] = mkv(p);
            }
            q += ci.nslots[i];
            if(i < FT->getNumParams()) fixed = q;
        }
        u64 save = stack_ptr;
        (void)save;
        pushFrame(callee, a, callee->F->isVarArg() ? fixed : q, d.dst);
        if(callee->F->isVarArg()) {
            auto *va = new std::vector<std::pair<Val, unsigned>>;
            for(unsigned i = fixed; i < q; i++) va->push_back({a[i], 64});
            frames.back().va = va;
        }
        return true;
    } else {
        nativeCall(ci, a, nat, nname, FT);
    }
done:
    if(g_jmpTo) {
        JmpPoint jp = (*jmpPoints)[g_jmpTo];
        g_jmpTo = 0;
        while(frames.size() > jp.depth) { if(frames.back().nativeBoundary) die_incomplete("longjmp over native frames"); popFrame(); }
        Frame &f2 = frames.back();
        if(f2.f != jp.f) crash("longjmp-to-dead-frame");
        f2.call = nullptr;
        f2.regs[jp.dst] = mkv(g_jmpVal);
        f2.pc = jp.pc;
        if(jp.ci->invoke) takeEdge(f2, jp.ci->normal);
        else f2.pc++;
        return true;
    }
    if(g_threw) {
        g_threw = false;
        unwindTo(g_ret[0].lo);
        return true;
    }
    {
        Frame &f2 = frames.back();
        for(int i = 0; i < ci.nret; i++) f2.regs[d.dst + i] = g_ret[i];
        f2.call = nullptr;
        if(ci.invoke) takeEdge(f2, ci.normal);
        else f2.pc++;
    }
    return false;
}

// ------------------------------------------------------------------ main loop
static inline double dOf(u64 x) { double d; memcpy(&d, &x, 8); return d; }
static inline float fOf(u64 x) { u32 y = x; float d; memcpy(&d, &y, 4); return d; }
static inline u64 oD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u64 oF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

static const EK binK[] = {K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_FADD, K_FSUB, K_FMUL, K_FDIV};

static Expr *icmpE(unsigned pred, Expr *x, Expr *y) {
    switch(pred) {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNot(mkEq(x, y));
    case CmpInst::ICMP_ULT: return mkBin(K_ULT, x, y);
    case CmpInst::ICMP_ULE: return mkBin(K_ULE, x, y);
    case CmpInst::ICMP_UGT: return mkBin(K_ULT, y, x);
    case CmpInst::ICMP_UGE: return mkBin(K_ULE, y, x);
    case CmpInst::ICMP_SLT: return mkBin(K_SLT, x, y);
    case CmpInst::ICMP_SLE: return mkBin(K_SLE, x, y);
    case CmpInst::ICMP_SGT: return mkBin(K_SLT, y, x);
    case CmpInst::ICMP_SGE: return mkBin(K_SLE, y, x);
    }
    abort();
}
static Expr *fcmpE(unsigned pred, Expr *x, Expr *y) {
    Expr *u = mkBin(K_FUNO, x, y);
    auto O = [](Expr *p, Expr *q) { return mkBin(K_OR, p, q); };
    switch(pred) {
    case CmpInst::FCMP_FALSE: return mkConst(0, 1);
    case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return mkBin(K_FEQ, x, y);
    case CmpInst::FCMP_OGT: return mkBin(K_FLT, y, x);
    case CmpInst::FCMP_OGE: return mkBin(K_FLE, y, x);
    case CmpInst::FCMP_OLT: return mkBin(K_FLT, x, y);
    case CmpInst::FCMP_OLE: return mkBin(K_FLE, x, y);
    case CmpInst::FCMP_ONE: return mkBin(K_AND, mkNot(mkBin(K_FEQ, x, y)), mkNot(u));
    case CmpInst::FCMP_ORD: return mkNot(u);
    case CmpInst::FCMP_UNO: return u;
    case CmpInst::FCMP_UEQ: return O(u, mkBin(K_FEQ, x, y));
    case CmpInst::FCMP_UGT: return mkNot(mkBin(K_FLE, x, y));
    case CmpInst::FCMP_UGE: return mkNot(mkBin(K_FLT, x, y));
    case CmpInst::FCMP_ULT: return mkNot(mkBin(K_FLE, y, x));
    case CmpInst::FCMP_ULE: return mkNot(mkBin(K_FLT, y, x));
    case CmpInst::FCMP_UNE: return mkNot(mkBin(K_FEQ, x, y));
    }
    abort();
}

static sigjmp_buf segv_jmp;
static volatile int segv_armed = 0;
static void onsegv(int s) {
    if(segv_armed) siglongjmp(segv_jmp, s);
    _exit(4);
}

static Val lastRet[16];
// run until the frame stack is back to depth `stop`
static void run(size_t stop) {
    u64 cnt = 0;
restart:
    Frame *f = &frames.back();
    Val *R = f->regs;
    DFunc *D = f->f;
    const Val *KC = D->consts.data();
#define OPV(s) ((s) >= 0 ? R[s] : KC[~(s)])
#define RELOAD() do { f = &frames.back(); R = f->regs; D = f->f; KC = D->consts.data(); } while(0)
    for(;;) {
        DInst &d = D->code[f->pc];
        path_instrs++;
        if((++cnt & 0xfffff) == 0) {
            check_deadline();
            if(path_instrs > opt_maxinstr) crash("nontermination:" + repoFunc(), "instruction budget of the path exhausted");
        }
        switch(d.op) {
        case P_ADD: case P_SUB: case P_MUL: case P_AND: case P_OR: case P_XOR: case P_SHL: case P_LSHR: case P_ASHR:
        case P_UDIV: case P_SDIV: case P_UREM: case P_SREM: {
            const Val &x = OPV(d.a), &y = OPV(d.b);
            if(!x.e && !y.e && d.w <= 64) {
                u64 m = lmask(d.w), r = 0, p = x.lo, q = y.lo;
                switch(d.op) {
                case P_ADD: r = p + q; break; case P_SUB: r = p - q; break; case P_MUL: r = p * q; break;
                case P_AND: r = p & q; break; case P_OR: r = p | q; break; case P_XOR: r = p ^ q; break;
                case P_SHL: r = q >= d.w ? 0 : p << q; break; case P_LSHR: r = q >= d.w ? 0 : p >> q; break;
                case P_ASHR: r = (u64)((i64)sext128(p, d.w) >> (q >= d.w ? d.w - 1 : q)); break;
                case P_UDIV: if(!q) crash("division-by-zero:" + repoFunc()); r = p / q; break;
                case P_UREM: if(!q) crash("division-by-zero:" + repoFunc()); r = p % q; break;
                case P_SDIV: { if(!q) crash("division-by-zero:" + repoFunc()); i64 s = (i64)sext128(p, d.w), t = (i64)sext128(q, d.w); r = t == -1 ? 0 - (u64)s : (u64)(s / t); break; }
                case P_SREM: { if(!q) crash("division-by-zero:" + repoFunc()); i64 s = (i64)sext128(p, d.w), t = (i64)sext128(q, d.w); r = t == -1 ? 0 : (u64)(s % t); break; }
                }
                R[d.dst] = {r & m, 0, nullptr};
            } else {
                Expr *X = toE(x, d.w), *Y = toE(y, d.w);
                if(d.op >= P_UDIV && d.op <= P_SREM) { if(fork_branch(mkEq(Y, mkConst(0, d.w)))) crash("division-by-zero:" + repoFunc()); }
                R[d.dst] = fromE(mkBin(binK[d.op], X, Y));
            }
            f->pc++;
            break;
        }
        case P_FADD: case P_FSUB: case P_FMUL: case P_FDIV: case P_FREM: {
            const Val &x = OPV(d.a), &y = OPV(d.b);
            if(!x.e && !y.e) {
                u64 r = 0;
                if(d.w == 64) {
                    double p = dOf(x.lo), q = dOf(y.lo), z = 0;
                    switch(d.op) { case P_FADD: z = p + q; break; case P_FSUB: z = p - q; break; case P_FMUL: z = p * q; break; case P_FDIV: z = p / q; break; case P_FREM: z = fmod(p, q); break; }
                    r = oD(z);
                } else {
                    float p = fOf(x.lo), q = fOf(y.lo), z = 0;
                    switch(d.op) { case P_FADD: z = p + q; break; case P_FSUB: z = p - q; break; case P_FMUL: z = p * q; break; case P_FDIV: z = p / q; break; case P_FREM: z = fmodf(p, q); break; }
                    r = oF(z);
                }
                R[d.dst] = mkv(r);
            } else {
                if(d.op == P_FREM) die_incomplete("symbolic frem");
                // dividing by a power of two is an exact multiplication (cheaper to solve)
                const u64 ex = y.lo >> 52 & 2047;
                if(d.op == P_FDIV && d.w == 64 && !y.e && !(y.lo << 12) && ex > 1 && ex < 2045) R[d.dst] = fromE(mkBin(K_FMUL, toE(x, d.w), mkConst(oD(1.0 / dOf(y.lo)), 64)));
                else R[d.dst] = fromE(mkBin(binK[d.op], toE(x, d.w), toE(y, d.w)));
            }
            f->pc++;
            break;
        }
        case P_FNEG: R[d.dst] = fromE(mkBin(K_XOR, toE(OPV(d.a), d.w), mkConst((u128)1 << (d.w - 1), d.w))); f->pc++; break;
        case P_ICMP: {
            const Val &x = OPV(d.a), &y = OPV(d.b);
            if(!x.e && !y.e && d.w <= 64) {
                bool r;
                u64 p = x.lo, q = y.lo;
                switch(d.pred) {
                case CmpInst::ICMP_EQ: r = p == q; break; case CmpInst::ICMP_NE: r = p != q; break;
                case CmpInst::ICMP_ULT: r = p < q; break; case CmpInst::ICMP_ULE: r = p <= q; break; case CmpInst::ICMP_UGT: r = p > q; break; case CmpInst::ICMP_UGE: r = p >= q; break;
                default: {
                    u64 sb = 1ull << (d.w - 1);
                    p ^= sb; q ^= sb;
                    switch(d.pred) { case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; case CmpInst::ICMP_SGT: r = p > q; break; default: r = p >= q; }
                }
                }
                R[d.dst] = mkv(r);
            } else R[d.dst] = fromE(icmpE(d.pred, toE(x, d.w), toE(y, d.w)));
            f->pc++;
            break;
        }
        case P_FCMP: {
            const Val &x = OPV(d.a), &y = OPV(d.b);
            R[d.dst] = fromE(fcmpE(d.pred, toE(x, d.w), toE(y, d.w)));
            f->pc++;
            break;
        }
        case P_SELECT: {
            const Val &c = OPV(d.c);
            if(!c.e) R[d.dst] = (c.lo & 1) ? OPV(d.a) : OPV(d.b);
            else {
                const Val &x = OPV(d.a), &y = OPV(d.b);
                R[d.dst] = fromE(mkIte(c.e, toE(x, d.w), toE(y, d.w)));
            }
            f->pc++;
            break;
        }
        case P_TRUNC: {
            const Val &x = OPV(d.a);
            if(x.e) R[d.dst] = fromE(mkExtract(x.e, 0, d.w));
            else R[d.dst] = {x.lo & lmask(d.w), d.w > 64 ? x.hi : 0, nullptr};
            f->pc++;
            break;
        }
        case P_ZEXT: {
            const Val &x = OPV(d.a);
            if(x.e) R[d.dst] = fromE(mkZext(x.e, d.w));
            else R[d.dst] = x;
            f->pc++;
            break;
        }
        case P_SEXT: {
            const Val &x = OPV(d.a);
            if(x.e) R[d.dst] = fromE(mkSext(x.e, d.w));
            else { u128 r = (u128)sext128(V128(x), d.w2) & wmask(d.w); R[d.dst] = {(u64)r, (u64)(r >> 64), nullptr}; }
            f->pc++;
            break;
        }
        case P_FPTOSI: R[d.dst] = fromE(mkUn(K_F2SI, toE(OPV(d.a), d.w2), d.w)); f->pc++; break;
        case P_FPTOUI: R[d.dst] = fromE(mkUn(K_F2UI, toE(OPV(d.a), d.w2), d.w)); f->pc++; break;
        case P_SITOFP: R[d.dst] = fromE(mkUn(K_SI2F, toE(OPV(d.a), d.w2), d.w)); f->pc++; break;
        case P_UITOFP: R[d.dst] = fromE(mkUn(K_UI2F, toE(OPV(d.a), d.w2), d.w)); f->pc++; break;
        case P_FPEXT: case P_FPTRUNC: R[d.dst] = fromE(mkUn(K_F2F, toE(OPV(d.a), d.w2), d.w)); f->pc++; break;
        case P_MOV: R[d.dst] = OPV(d.a); f->pc++; break;
        case P_BITCAST: {
            // d.w source lanes of d.b bits -> d.w2 lanes of d.c bits
            Expr *all = nullptr;
            if(d.w * d.b > 128) die_incomplete("wide vector bitcast");
            for(int i = 0; i < d.w; i++) { int s = Decoder::leaf(d.a, i); Expr *x = toE(OPV(s), d.b); all = all ? mkConcat(x, all) : x; }
            for(int i = 0; i < d.w2; i++) R[d.dst + i] = fromE(mkExtract(all, i * d.c, d.c));
            f->pc++;
            break;
        }
        case P_ALLOCA: {
            Val n = OPV(d.a);
            u64 cntv = conc(n);
            if(cntv > (1 << 26)) crash("huge-alloca:" + repoFunc());
            R[d.dst] = mkv(stackAlloc(cntv * d.aux, d.b));
            f->pc++;
            break;
        }
        case P_LOAD: {
            const Val &p = OPV(d.a);
            auto &ml = D->mems[d.aux];
            if(!p.e) {
                u64 a = p.lo;
                if(ml.size() == 1) {
                    if(!range_ok(a, d.w2)) checkAccess(a, d.w2, false);
                    R[d.dst] = readMem(a, d.w, d.w2);
                } else
                    for(size_t i = 0; i < ml.size(); i++) { checkAccess(a + ml[i].off, ml[i].bytes, false); R[d.dst + i] = readMem(a + ml[i].off, ml[i].bits, ml[i].bytes); }
            } else {
                Expr *pe = p.e;
                for(size_t i = 0; i < ml.size(); i++) {
                    Val v = loadSymAddr(mkBin(K_ADD, pe, mkConst(ml[i].off, 64)), ml[i].bits, ml[i].bytes);
                    R[d.dst + i] = v;
                }
            }
            f->pc++;
            break;
        }
        case P_STORE: {
            Val p = OPV(d.a);
            u64 a = p.e ? storeAddr(p) : p.lo;
            auto &ml = D->mems[d.aux];
            for(size_t i = 0; i < ml.size(); i++) {
                if(!range_ok(a + ml[i].off, ml[i].bytes)) checkAccess(a + ml[i].off, ml[i].bytes, true);
                int s = Decoder::leaf(d.b, i);
                writeMem(a + ml[i].off, OPV(s), ml[i].bits, ml[i].bytes);
            }
            f->pc++;
            break;
        }
        case P_GEP: {
            const Val &b = OPV(d.a);
            i64 off = ((i64)d.c << 32) | (u32)d.b;
            bool sym = b.e != nullptr;
            u64 r = b.lo + off;
            if(d.pred) {
                auto &ts = D->geps[d.aux];
                for(auto &t : ts) if(OPV(t.slot).e) sym = true;
                if(!sym) for(auto &t : ts) r += (u64)((i64)sext128(OPV(t.slot).lo, t.w) * t.scale);
            }
            if(!sym) R[d.dst] = mkv(r);
            else {
                Expr *e = toE(b, 64);
                for(auto &t : D->geps[d.aux]) e = mkBin(K_ADD, e, mkBin(K_MUL, t.w < 64 ? mkSext(toE(OPV(t.slot), t.w), 64) : mkExtract(toE(OPV(t.slot), t.w), 0, 64), mkConst((u64)t.scale, 64)));
                R[d.dst] = fromE(mkBin(K_ADD, e, mkConst((u64)off, 64)));
            }
            f->pc++;
            break;
        }
        case P_BR: takeEdge(*f, D->edges[d.aux]); break;
        case P_CONDBR: {
            const Val &c = OPV(d.a);
            bool t = c.e ? fork_branch(c.e) : (c.lo & 1);
            takeEdge(*f, D->edges[d.aux + (t ? 0 : 1)]);
            break;
        }
        case P_SWITCH: {
            const Val &c = OPV(d.a);
            SwitchInfo &si = D->switches[d.aux];
            int e = si.def;
            if(!c.e) { for(auto &k : si.cases) if((u64)k.first == c.lo) { e = k.second; break; } }
            else {
                Expr *ce = c.e;
                bool done = false;
                for(size_t t = 0; t < si.edges.size() && !done; t++) {
                    if((int)t == si.def) continue;
                    Expr *any = mkConst(0, 1);
                    for(auto &k : si.cases) if(k.second == (int)t) any = mkBin(K_OR, any, mkEq(ce, mkConst(k.first, d.w)));
                    if(fork_branch(any)) { e = t; done = true; }
                }
            }
            takeEdge(*f, si.edges[e]);
            break;
        }
        case P_RET: {
            Val rv[16];
            for(int i = 0; i < d.b && i < 16; i++) { int s = Decoder::leaf(d.a, i); rv[i] = OPV(s); }
            int n = d.b;
            bool nb = f->nativeBoundary;
            int dst = f->retDst;
            popFrame();
            if(frames.size() <= stop || nb) {
                for(int i = 0; i < n; i++) lastRet[i] = rv[i];
                return;
            }
            RELOAD();
            for(int i = 0; i < n; i++) R[dst + i] = rv[i];
            CallInfo *ci = f->call;
            f->call = nullptr;
            if(ci && ci->invoke) takeEdge(*f, ci->normal);
            else f->pc++;
            break;
        }
        case P_CALL:
            doCall(*f, d);
            RELOAD();
            break;
        case P_UNREACHABLE: crash("unreachable-executed:" + repoFunc());
        case P_RESUME: {
            u64 ex = OPV(d.a).lo;
            bool nb = f->nativeBoundary;
            popFrame();
            if(nb) throw NativeUnwind{ex};
            if(frames.size() <= stop) crash("uncaught-exception");
            unwindTo(ex);
            RELOAD();
            break;
        }
        case P_LANDINGPAD: f->pc++; break; // registers were set by unwindTo
        case P_ATOMICRMW: {
            Val p = OPV(d.a);
            u64 a = conc(p);
            checkAccess(a, d.w2, true);
            Val old = readMem(a, d.w, d.w2);
            Expr *o = toE(old, d.w), *v = toE(OPV(d.b), d.w), *n;
            switch(d.pred) {
            case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkBin(K_ADD, o, v); break; case AtomicRMWInst::Sub: n = mkBin(K_SUB, o, v); break;
            case AtomicRMWInst::And: n = mkBin(K_AND, o, v); break; case AtomicRMWInst::Or: n = mkBin(K_OR, o, v); break; case AtomicRMWInst::Xor: n = mkBin(K_XOR, o, v); break;
            default: die_incomplete("atomicrmw");
            }
            writeMem(a, fromE(n), d.w, d.w2);
            R[d.dst] = old;
            f->pc++;
            break;
        }
        case P_CMPXCHG: {
            Val p = OPV(d.a);
            u64 a = conc(p);
            checkAccess(a, d.w2, true);
            Val old = readMem(a, d.w, d.w2);
            bool eq = fork_branch(mkEq(toE(old, d.w), toE(OPV(d.b), d.w)));
            if(eq) writeMem(a, OPV(d.c), d.w, d.w2);
            R[d.dst] = old;
            R[d.dst + 1] = mkv(eq);
            f->pc++;
            break;
        }
        default: {
            std::string s;
            raw_string_ostream os(s);
            d.I->print(os);
            die_incomplete("unsupported instruction: " + s.substr(0, 100));
        }
        }
    }
    goto restart;
}

static void closureHandler(ffi_cif *cif, void *rv, void **args, void *user) {
    DFunc *D = (DFunc *)user;
    Val a[32];
    unsigned k = 0, i = 0;
    for(auto &A : D->F->args()) {
        if(A.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(A.getParamByValType()); u64 p = stackAlloc(sz, 16); memcpy((void *)p, args[i], sz); a[k++] = mkv(p); }
        else { u64 x = 0; memcpy(&x, args[i], std::min<u64>(8, DL->getTypeStoreSize(A.getType()))); a[k++] = mkv(x); }
        i++;
    }
    size_t depth = frames.size();
    pushFrame(D, a, k, 0);
    frames.back().nativeBoundary = true;
    run(depth);
    Type *RT = D->F->getReturnType();
    if(!RT->isVoidTy()) {
        std::vector<std::pair<Type *, u64>> l;
        leavesOf(RT, 0, l);
        for(size_t j = 0; j < l.size(); j++) {
            Val v = lastRet[j];
            conc(v);
            if(l.size() == 1 && cif->rtype->type != FFI_TYPE_DOUBLE && cif->rtype->type != FFI_TYPE_FLOAT) { *(ffi_arg *)rv = v.lo; }
            else memcpy((char *)rv + l[j].second, &v.lo, std::min<u64>(8, DL->getTypeStoreSize(l[j].first)));
        }
    }
}

#include "builtins.inc"

static std::string jesc(const std::string &s) {
    std::string r;
    for(char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if((unsigned char)c < 32) r += ' '; else r += c; }
    return r;
}

static int worker(const std::string &entry) {
    // big native stack for recursion in the expression code
    excs = new std::unordered_map<u64, Exc>;
    caught = new std::vector<u64>;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsegv;
    sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    stack_t ss;
    ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    size_t nr = 4 << 20;
    regstack = (Val *)mmap(0, nr * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    regtop = regstack;
    reglimit = regstack + nr - 100000;
    int sg = sigsetjmp(segv_jmp, 1);
    if(sg) crash("segfault:" + repoFunc(), "signal " + std::to_string(sg));
    segv_armed = 1;
    // global constructors
    if(auto *GC = M->getGlobalVariable("llvm.global_ctors")) {
        std::vector<std::pair<u64, Function *>> cs;
        if(auto *A = dyn_cast<ConstantArray>(GC->getInitializer()))
            for(auto &o : A->operands()) {
                auto *S = cast<ConstantStruct>(o);
                if(auto *F = dyn_cast<Function>(S->getOperand(1))) cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for(auto &c : cs) { pushFrame(fmap[c.second], nullptr, 0, 0); run(0); }
    }
    Function *H = M->getFunction(entry);
    if(!H || H->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    pushFrame(fmap[H], nullptr, 0, 0);
    run(0);
    G->paths++;
    label('E', "path-end")->n++;
    path_exit(0);
}

int main(int argc, char **argv) {
    t_start = nowns();
    std::string bc, entry = "harness";
    std::vector<std::string> libs;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if(a == "--viol") opt_viol = nx();
        else if(a == "--json") opt_json = nx();
        else if(a == "--entry") entry = nx();
        else if(a == "--jobs") opt_jobs = atoi(argv[++i]);
        else if(a == "--deadline") opt_deadline = atof(argv[++i]);
        else if(a == "--maxinstr") opt_maxinstr = strtoull(argv[++i], 0, 10);
        else if(a == "--lib") libs.push_back(nx());
        else if(a == "--src") opt_srcprefix = nx();
        else if(a == "--trace") opt_trace = true;
        else bc = a;
    }
    // a big stack: re-exec once with a larger limit
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("CAPYSYM_STACK")) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30);
        setrlimit(RLIMIT_STACK, &rl);
        setenv("CAPYSYM_STACK", "1", 1);
        execv("/proc/self/exe", argv);
    }
    for(auto &l : libs) if(!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "dlopen %s: %s\n", l.c_str(), dlerror()); return 3; }
    G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G->slots = opt_jobs - 1;
    heap_sizes = new std::unordered_map<u64, u64>;
    arena_init();
    solver_init();
    unlink(opt_viol.c_str());
    C = new LLVMContext;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, *C);
    if(!mod) { err.print("capysym", errs()); return 3; }
    M = mod.release();
    DL = &M->getDataLayout();
    // model functions replace the externals they are named after
    for(auto &F : *M) if(!F.isDeclaration() && F.getName().starts_with("model_"))
        if(auto *X = M->getFunction(F.getName().substr(6))) if(X->isDeclaration()) X->replaceAllUsesWith(&F);
    for(auto &F : *M) if(!F.isDeclaration()) { auto *D = new DFunc; D->F = &F; D->idx = funcs.size(); funcs.push_back(D); fmap[&F] = D; }
    if(funcs.size() > sizeof(G->fexec)) { fprintf(stderr, "too many functions\n"); return 3; }
    setBuiltins();
    for(auto &V : M->globals()) if(!V.getName().starts_with("llvm.")) addrOfGlobal(&V);
    for(auto &V : M->globals()) if(V.hasInitializer() && !V.getName().starts_with("llvm.")) initGlobalMem(addrOfGlobal(&V), V.getInitializer());
    for(auto *D : funcs) if(!D->decoded) { Decoder d; d.D = D; d.run(); }
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if(p == 0) { _exit(worker(entry)); }
    int st;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    int rc = 0;
    if(!WIFEXITED(st) || WEXITSTATUS(st)) { G->incomplete++; label('I', "root path process died")->n++; rc = 3; }
    // summary
    FILE *o = fopen(opt_json.c_str(), "w");
    if(!o) return 3;
    auto L = [&](char k) {
        std::string s = "{";
        bool first = true;
        for(int i = 0; i < G->nlabels.load(); i++) if(G->labels[i].kind == k) { s += (first ? "" : ", ") + ("\"" + jesc(G->labels[i].name) + "\": " + std::to_string(G->labels[i].n.load())); first = false; }
        return s + "}";
    };
    fprintf(o, "{\n\"paths\": %llu,\n\"forks\": %llu,\n\"queries\": %llu,\n\"z3_calls\": %llu,\n\"qcache_hits\": %llu,\n\"solver_s\": %.3f,\n\"max_query_s\": %.3f,\n\"sat\": %llu,\n\"unsat\": %llu,\n\"unknown\": %llu,\n",
            (unsigned long long)G->paths, (unsigned long long)G->forks, (unsigned long long)G->queries, (unsigned long long)G->z3_calls, (unsigned long long)G->qcache_hits, G->solver_ns * 1e-9, G->max_query_ns * 1e-9,
            (unsigned long long)G->sat, (unsigned long long)G->unsat, (unsigned long long)G->unknown);
    fprintf(o, "\"instructions\": %llu,\n\"max_path_instrs\": %llu,\n\"checks\": %llu,\n\"checks_symbolic\": %llu,\n\"assumes\": %llu,\n\"killed_by_assume\": %llu,\n\"violations\": %llu,\n\"incomplete\": %llu,\n\"model_mismatch\": %llu,\n\"native_calls\": %llu,\n\"sampled\": %llu,\n\"concretizations\": %llu,\n\"wall_s\": %.2f,\n",
            (unsigned long long)G->instrs, (unsigned long long)G->max_path_instrs, (unsigned long long)G->checks, (unsigned long long)G->checks_symbolic, (unsigned long long)G->assumes, (unsigned long long)G->killed_by_assume, (unsigned long long)G->violations, (unsigned long long)G->incomplete, (unsigned long long)G->model_mismatch, (unsigned long long)G->natcalls, (unsigned long long)G->sampled, (unsigned long long)G->concretizations, (nowns() - t_start) * 1e-9);
    fprintf(o, "\"reach\": %s,\n\"check_labels\": %s,\n\"incomplete_reasons\": %s,\n\"viol_labels\": %s,\n\"notes\": %s,\n", L('R').c_str(), L('C').c_str(), L('I').c_str(), L('V').c_str(), L('N').c_str());
    fprintf(o, "\"functions\": [");
    bool first = true;
    for(auto *D : funcs) {
        if(!G->fexec[D->idx]) continue;
        auto *SP = D->F->getSubprogram();
        if(!SP) continue;
        std::string path = SP->getFilename().starts_with("/") ? SP->getFilename().str() : (SP->getDirectory() + "/" + SP->getFilename()).str();
        if(path.find(opt_srcprefix) != 0) continue;
        fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(demangle(D->F->getName().str())).c_str());
        first = false;
    }
    fprintf(o, "]\n}\n");
    fclose(o);
    return rc;
}
