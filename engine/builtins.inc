// Engine-side models of the C/C++ runtime and the harness API.

static void concSampled(Val &v, unsigned k) {
    if(!v.e) return;
    for(unsigned i = 0; i < k; i++) {
        u128 x = evalExpr(v.e);
        if(fork_branch(mkEq(v.e, mkConst(x, v.e->w)))) { v = {(u64)x, 0, nullptr}; return; }
    }
    G->sampled++;
    path_exit(0);
}
// One representative per class of doubles for text output of a symbolic double.
static void sampleDouble(Val &v) {
    if(!v.e) return;
    Expr *x = v.e;
    auto D = [](double d) { return mkConst(oD(d), 64); };
    Expr *ab = mkBin(K_AND, x, mkConst(~(1ull << 63), 64));
    bool fin = true;
    if(fork_branch(mkBin(K_FUNO, x, x))) fin = false;
    else if(fork_branch(mkBin(K_FEQ, ab, D(INFINITY)))) fin = false;
    if(fin) {
        fork_branch(mkEq(mkExtract(x, 63, 1), mkConst(1, 1)));
        if(fork_branch(mkBin(K_FEQ, ab, D(0)))) {}
        else if(fork_branch(mkBin(K_FLT, ab, D(1e-5)))) {}
        else if(fork_branch(mkBin(K_FLT, ab, D(1)))) {}
        else if(fork_branch(mkBin(K_FLE, ab, D(1)))) {}
        else if(fork_branch(mkBin(K_FLT, ab, D(1e6)))) {}
        else fork_branch(mkBin(K_FLT, ab, D(1e17)));
    }
    u128 y = evalExpr(v.e);
    Expr *eq = mkEq(v.e, mkConst(y, 64));
    addPC(eq);
    G->sampled++;
    v = {(u64)y, 0, nullptr};
}

static bool g_numtokens;
#undef BI
#define BI(...) for(const char *bi_n : {__VA_ARGS__}) builtins[bi_n] = new Builtin([](CallInfo & ci, Val * a) -> void { (void)ci; (void)a;
#define END })

static void setBuiltins() {
    BI("_setjmp", "setjmp", "__sigsetjmp") {
        if(!jmpPoints) jmpPoints = new std::unordered_map<u64, JmpPoint>;
        Frame &f = frames.back();
        (*jmpPoints)[conc(a[0])] = {frames.size(), f.f, &ci, f.pc, f.f->code[f.pc].dst};
        ret(0);
    } END;
    BI("longjmp", "_longjmp", "siglongjmp") {
        u64 b = conc(a[0]);
        if(!jmpPoints || !jmpPoints->count(b)) crash("longjmp-without-setjmp");
        g_jmpTo = b; g_jmpVal = conc(a[1]) ? conc(a[1]) : 1;
    } END;
    // ---- harness API
    BI("capysym_numtokens") { g_numtokens = conc(a[0]) != 0; } END;
    BI("capysym_sym") {
        std::string n = cstr(a[0].lo);
        unsigned bits = (unsigned)conc(a[1]);
        Expr *e = mkVar(n, bits);
        retv(fromE(bits < 64 ? mkZext(e, 64) : e));
    } END;
    BI("capysym_bytes") {
        u64 p = conc(a[0]), n = conc(a[1]);
        std::string nm = cstr(a[2].lo);
        checkAccess(p, n, true);
        for(u64 i = 0; i < n; i++) setSym(p + i, mkVar(nm + "[" + std::to_string(i) + "]", 8));
    } END;
    BI("capysym_range") {
        std::string n = cstr(a[0].lo);
        i64 lo = (i64)conc(a[1]), hi = (i64)conc(a[2]);
        u64 span = (u64)hi - (u64)lo;
        unsigned w = span < 256 ? 8 : span < 65536 ? 16 : span < (1ull << 32) ? 32 : 64;
        Expr *v = mkVar(n, w);
        if(span < wmask(w)) do_assume(fromE(mkBin(K_ULE, v, mkConst(span, w))));
        retv(fromE(mkBin(K_ADD, mkZext(v, 64), mkConst((u64)lo, 64))));
    } END;
    BI("capysym_assume") { do_assume(a[0]); } END;
    BI("capysym_check") { do_check(a[0], cstr(conc(a[1]))); } END;
    BI("capysym_fail") { do_check(mkv(0), cstr(conc(a[0]))); } END;
    BI("capysym_reach") { label('R', cstr(conc(a[0])))->n++; } END;
    BI("capysym_note") { label('N', cstr(conc(a[0])))->n++; } END;
    BI("capysym_pick") { retv({conc(a[0]), 0, nullptr}); } END;
    BI("capysym_is_symbolic") { ret(a[0].e != nullptr); } END;
    BI("capysym_symbolic_mode") { ret(1); } END;
    BI("capysym_end") { G->paths++; label('E', "path-end")->n++; path_exit(0); } END;
    BI("capysym_log") {
        std::string s = cstr(conc(a[0]));
        fprintf(stderr, "[log] %s %llx\n", s.c_str(), (unsigned long long)(a[1].e ? evalExpr(a[1].e) : a[1].lo));
    } END;
    BI("capysym_logs") {
        u64 p = conc(a[0]), n = conc(a[1]);
        std::string s;
        for(u64 i = 0; i < n; i++) { Expr *e = getSym(p + i); if(e) { char b[8]; snprintf(b, 8, "<%02x>", (unsigned)evalExpr(e)); s += b; } else s += *(char *)(p + i); }
        fprintf(stderr, "[log] %s\n", s.c_str());
    } END;
    // any symbolic byte in [p, p+n)?
    BI("capysym_mem_symbolic") { ret(anySym(conc(a[0]), conc(a[1]))); } END;

    // ---- allocation
    BI("malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t") {
        u64 n = conc(a[0]);
        Val p = heapAlloc(n);
        std::string nm = ci.F ? ci.F->getName().str() : "malloc";
        if(!p.lo && (nm == "_Znwm" || nm == "_Znam")) { throwStd("bad_alloc", ""); return; }
        retv(p);
    } END;
    BI("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t") {
        Val p = heapAlloc(conc(a[0]), conc(a[1]));
        if(!p.lo) { throwStd("bad_alloc", ""); return; }
        retv(p);
    } END;
    BI("calloc") { u64 n = conc(a[0]) * conc(a[1]); Val p = heapAlloc(n); if(p.lo) memset((void *)p.lo, 0, n); retv(p); } END;
    BI("realloc") {
        u64 p = conc(a[0]), n = conc(a[1]);
        if(p && !inArena(p)) { ret((u64)realloc((void *)p, n)); return; }
        Val q = heapAlloc(n);
        if(p && q.lo) { auto it = heap_sizes->find(p); if(it == heap_sizes->end()) crash("bad-free:" + repoFunc(), "realloc"); copyMem(q.lo, p, std::min(n, it->second)); heapFree(p, "realloc"); }
        retv(q);
    } END;
    BI("aligned_alloc") { retv(heapAlloc(conc(a[1]), conc(a[0]))); } END;
    BI("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t") { heapFree(conc(a[0]), "free"); } END;

    // ---- memory and strings
    BI("memcpy", "memmove", "__memcpy_chk", "__memmove_chk") {
        u64 n = conc(a[2]), d = conc(a[0]), s = conc(a[1]);
        if(n) { checkAccess(s, n, false); checkAccess(d, n, true); copyMem(d, s, n); }
        ret(d);
    } END;
    BI("memset") {
        u64 n = conc(a[2]), d = conc(a[0]);
        if(n) {
            checkAccess(d, n, true);
            if(a[1].e) { Expr *b = mkExtract(a[1].e, 0, 8); for(u64 i = 0; i < n; i++) setSym(d + i, b); }
            else { memset((void *)d, (int)a[1].lo, n); clearSym(d, n); }
        }
        ret(d);
    } END;
    BI("memcmp", "bcmp") { u64 n = conc(a[2]); if(!n) { ret(0); return; } retv(cmpBytes(conc(a[0]), conc(a[1]), n, false)); } END;
    BI("strcmp") { retv(cmpBytes(conc(a[0]), conc(a[1]), 1 << 20, true)); } END;
    BI("strncmp") { u64 n = conc(a[2]); if(!n) { ret(0); return; } retv(cmpBytes(conc(a[0]), conc(a[1]), n, true)); } END;
    BI("strlen") {
        u64 p = conc(a[0]), n = 0;
        for(;; n++) {
            checkAccess(p + n, 1, false);
            Expr *e = getSym(p + n);
            if(e ? fork_branch(mkEq(e, mkConst(0, 8))) : *(u8 *)(p + n) == 0) break;
        }
        ret(n);
    } END;
    BI("strnlen") {
        u64 p = conc(a[0]), n = 0, mx = conc(a[1]);
        for(; n < mx; n++) {
            checkAccess(p + n, 1, false);
            Expr *e = getSym(p + n);
            if(e ? fork_branch(mkEq(e, mkConst(0, 8))) : *(u8 *)(p + n) == 0) break;
        }
        ret(n);
    } END;
    BI("memchr") {
        u64 p = conc(a[0]), n = conc(a[2]);
        Expr *c = mkExtract(toE(a[1], 32), 0, 8);
        for(u64 i = 0; i < n; i++) {
            checkAccess(p + i, 1, false);
            if(fork_branch(mkEq(byteE(p + i), c))) { ret(p + i); return; }
        }
        ret(0);
    } END;
    BI("memrchr") {
        u64 p = conc(a[0]), n = conc(a[2]);
        Expr *c = mkExtract(toE(a[1], 32), 0, 8);
        for(u64 i = n; i-- > 0;) {
            checkAccess(p + i, 1, false);
            if(fork_branch(mkEq(byteE(p + i), c))) { ret(p + i); return; }
        }
        ret(0);
    } END;
    BI("strchr") {
        u64 p = conc(a[0]);
        Expr *c = mkExtract(toE(a[1], 32), 0, 8);
        for(;; p++) {
            checkAccess(p, 1, false);
            if(fork_branch(mkEq(byteE(p), c))) { ret(p); return; }
            if(fork_branch(mkEq(byteE(p), mkConst(0, 8)))) { ret(0); return; }
        }
    } END;
    // ---- ctype on symbolic characters (C locale)
    BI("toupper", "tolower", "isalpha", "isdigit", "isalnum", "isspace", "isxdigit", "isupper", "islower", "isprint", "ispunct") {
        Expr *c = toE(a[0], 32);
        std::string n = ci.F ? ci.F->getName().str() : "";
        auto in = [&](int lo, int hi) { return mkBin(K_AND, mkBin(K_SLE, mkConst(lo, 32), c), mkBin(K_SLE, c, mkConst(hi, 32))); };
        auto O = [](Expr *x, Expr *y) { return mkBin(K_OR, x, y); };
        Expr *up = in('A', 'Z'), *lw = in('a', 'z'), *dg = in('0', '9');
        Expr *r;
        if(n == "toupper") { retv(fromE(mkIte(lw, mkBin(K_SUB, c, mkConst(32, 32)), c))); return; }
        if(n == "tolower") { retv(fromE(mkIte(up, mkBin(K_ADD, c, mkConst(32, 32)), c))); return; }
        if(n == "isalpha") r = O(up, lw); else if(n == "isdigit") r = dg; else if(n == "isalnum") r = O(dg, O(up, lw));
        else if(n == "isspace") r = O(in(9, 13), in(32, 32)); else if(n == "isxdigit") r = O(dg, O(in('a', 'f'), in('A', 'F')));
        else if(n == "isupper") r = up; else if(n == "islower") r = lw; else if(n == "isprint") r = in(32, 126);
        else r = mkBin(K_AND, in(33, 126), mkNot(O(dg, O(up, lw))));
        retv(fromE(mkZext(r, 32)));
    } END;
    // Any hash function is a correct one: the constant one keeps symbolic keys cheap.
    BI("_ZSt11_Hash_bytesPKvmm", "_ZSt15_Fnv_hash_bytesPKvmm") { ret(0); } END;

    // ---- process and assertions
    BI("abort") { crash("abort:" + repoFunc()); } END;
    BI("_ZSt9terminatev", "__clang_call_terminate") { crash("terminate:" + repoFunc()); } END;
    BI("__assert_fail") { crash("assert:" + repoFunc() + ":" + cstr(a[0].lo)); } END;
    BI("_ZSt21__glibcxx_assert_failPKciS0_S0_") { crash("glibcxx-assert:" + repoFunc() + ":" + (a[3].lo ? cstr(a[3].lo) : "")); } END;
    BI("__cxa_pure_virtual", "__stack_chk_fail") { crash("runtime-abort:" + repoFunc()); } END;
    BI("exit", "_exit", "quick_exit", "_Exit") { crash("process-exit:" + repoFunc()); } END;
    BI("__cxa_atexit", "__cxa_thread_atexit", "atexit") { ret(0); } END;
    BI("__cxa_guard_acquire") { ret(*(u8 *)a[0].lo == 0); } END;
    BI("__cxa_guard_release") { *(u8 *)a[0].lo = 1; } END;
    BI("__cxa_guard_abort") {} END;

    // diagnostics are not part of any property
    BI("printf", "fprintf", "puts", "putchar", "perror", "fputs", "fputc", "vfprintf") { ret(0); } END;

    // ---- formatted output: hexadecimal conversions of symbolic integers stay symbolic
    BI("snprintf") {
        u64 buf = conc(a[0]), cap = conc(a[1]);
        std::string f = cstr(conc(a[2]));
        size_t ai = 3;
        bool sym = false, simple = true;
        for(size_t i = 0; i < f.size() && simple; i++) {
            if(f[i] != '%') continue;
            i++;
            while(i < f.size() && f[i] >= '0' && f[i] <= '9') i++;
            if(i >= f.size() || (f[i] != 'x' && f[i] != 'X')) { simple = false; break; }
            if(ai >= ci.args.size() || !ci.types[ai]->isIntegerTy(32)) { simple = false; break; }
            if(a[ai].e) sym = true;
            ai++;
        }
        if(!simple || !sym) {
            for(size_t i = 3; i < ci.args.size(); i++) if(a[i].e) { if(ci.types[i]->isDoubleTy()) sampleDouble(a[i]); else conc(a[i]); }
            if(cap) { checkAccess(buf, 1, true); }
            nativeCall(ci, a, dlsym(RTLD_DEFAULT, "snprintf"), "snprintf", ci.CB->getFunctionType());
            if(inArena(buf) && cap) { u64 n = std::min<u64>(cap, strlen((char *)buf) + 1); checkAccess(buf, n, true); clearSym(buf, n); }
            return;
        }
        std::vector<Val> out;
        ai = 3;
        for(size_t i = 0; i < f.size(); i++) {
            if(f[i] != '%') { out.push_back(mkv((u8)f[i])); continue; }
            i++;
            char pad = ' ';
            if(f[i] == '0') { pad = '0'; i++; }
            unsigned width = 0;
            while(f[i] >= '0' && f[i] <= '9') width = width * 10 + (f[i++] - '0');
            Expr *v = toE(a[ai++], 32);
            unsigned nd = 1;
            while(nd < 8 && fork_branch(mkBin(K_ULE, mkConst(1ull << (4 * nd), 32), v))) nd++;
            unsigned total = std::max(nd, pad == '0' ? width : nd);
            for(unsigned k = total; k < width; k++) out.push_back(mkv(' '));
            for(unsigned k = total; k-- > 0;) {
                if(k >= 8) { out.push_back(mkv('0')); continue; }
                Expr *d = mkZext(mkExtract(v, 4 * k, 4), 8);
                out.push_back(fromE(mkIte(mkBin(K_ULT, d, mkConst(10, 8)), mkBin(K_ADD, d, mkConst('0', 8)), mkBin(K_ADD, d, mkConst((f[i] == 'x' ? 'a' : 'A') - 10, 8)))));
            }
        }
        if(cap) {
            u64 n = std::min<u64>(cap - 1, out.size());
            checkAccess(buf, n + 1, true);
            for(u64 i = 0; i < n; i++) { clearSym(buf + i, 1); if(out[i].e) setSym(buf + i, out[i].e); else *(u8 *)(buf + i) = (u8)out[i].lo; }
            *(u8 *)(buf + n) = 0; clearSym(buf + n, 1);
        }
        ret(out.size());
    } END;

    // ---- exceptions
    BI("__cxa_allocate_exception") { retv(heapAlloc(conc(a[0]))); } END;
    BI("__cxa_free_exception") {} END;
    BI("__cxa_throw") {
        Exc e;
        e.obj = a[0].lo; e.ti = a[1].lo; e.dtor = a[2].lo;
        (*excs)[e.obj] = e;
        g_threw = true;
        ret(e.obj);
    } END;
    BI("__cxa_begin_catch") {
        caught->push_back(a[0].lo);
        Exc &e = (*excs)[a[0].lo];
        ret(e.adjusted ? e.adjusted : e.obj);
    } END;
    BI("__cxa_get_exception_ptr") { Exc &e = (*excs)[a[0].lo]; ret(e.adjusted ? e.adjusted : e.obj); } END;
    BI("__cxa_end_catch") { if(!caught->empty()) caught->pop_back(); } END;
    BI("__cxa_rethrow") {
        if(caught->empty()) crash("rethrow-without-exception");
        g_threw = true;
        ret(caught->back());
    } END;
    BI("_Unwind_Resume") { g_threw = true; ret(a[0].lo); } END;
    BI("__cxa_throw_bad_array_new_length") { throwStd("bad_array_new_length", ""); } END;

    // ---- text output of symbolic doubles: one representative per class of values
    BI("_ZSt8to_charsPcS_dSt12chars_formati", "_ZSt8to_charsPcS_dSt12chars_format", "_ZSt8to_charsPcS_d") {
        // Opaque number tokens: '@' + 16 letters a..p holding the value's bits + '$' (only for texts that are plain decimal numbers).
        if(g_numtokens && a[2].e && !(ci.args.size() == 5 && !(conc(a[3]) == 2 && conc(a[4]) == 6)) && ci.args.size() != 4) {
            char *f = (char *)conc(a[0]), *l = (char *)conc(a[1]);
            Expr *x = a[2].e, *ab = mkBin(K_AND, x, mkConst(~(1ull << 63), 64));
            auto D = [](double d) { return mkConst(oD(d), 64); };
            bool plain = fork_branch(mkBin(K_FLT, ab, ci.args.size() == 5 ? D(INFINITY) : D(1e5)));
            if(plain && ci.args.size() == 3) plain = fork_branch(mkBin(K_OR, mkBin(K_FEQ, ab, D(0)), mkBin(K_FLE, D(1e-3), ab)));
            if(plain) {
                if(l - f < 18) { g_ret[0] = mkv((u64)l); g_ret[1] = mkv(75); return; }
                checkAccess((u64)f, 18, true);
                clearSym((u64)f, 18);
                f[0] = '@'; f[17] = '$';
                for(int i = 0; i < 16; i++) { Val v = fromE(mkBin(K_ADD, mkConst('a', 8), mkZext(mkExtract(x, 60 - 4 * i, 4), 8))); if(v.e) setSym((u64)f + 1 + i, v.e); else f[1 + i] = (char)v.lo; }
                g_ret[0] = mkv((u64)f + 18);
                g_ret[1] = mkv(0);
                return;
            }
        }
        sampleDouble(a[2]);
        char *f = (char *)conc(a[0]), *l = (char *)conc(a[1]);
        double d = dOf(a[2].lo);
        std::string n = ci.F->getName().str();
        if(l > f) { checkAccess((u64)f, l - f, true); clearSym((u64)f, l - f); }
        void *fn = dlsym(RTLD_DEFAULT, n.c_str());
        struct R { char *p; unsigned ec; } r;
        if(ci.args.size() == 3) r = ((R(*)(char *, char *, double))fn)(f, l, d);
        else if(ci.args.size() == 4) r = ((R(*)(char *, char *, double, int))fn)(f, l, d, (int)conc(a[3]));
        else r = ((R(*)(char *, char *, double, int, int))fn)(f, l, d, (int)conc(a[3]), (int)conc(a[4]));
        g_ret[0] = mkv((u64)r.p);
        g_ret[1] = mkv(r.ec);
    } END;
    BI("lround", "llround") {
        Expr *x = toE(a[0], 64);
        retv(fromE(mkUn(K_F2SI, mkUn(K_FRINT, x, 64, 4), 64)));
    } END;
    BI("floor") { retv(fromE(mkUn(K_FRINT, toE(a[0], 64), 64, 1))); } END;
    BI("ceil") { retv(fromE(mkUn(K_FRINT, toE(a[0], 64), 64, 2))); } END;
    BI("round") { retv(fromE(mkUn(K_FRINT, toE(a[0], 64), 64, 4))); } END;
    BI("trunc") { retv(fromE(mkUn(K_FRINT, toE(a[0], 64), 64, 3))); } END;
    BI("__errno_location") { ret((u64)&errno); } END;
}
