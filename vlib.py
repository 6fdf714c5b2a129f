"""Driver: builds the symbolic executor, lowers /repo's current sources and a harness to LLVM IR,
runs the executor, replays every counterexample natively and reports."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAPYSYM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PKG = ["freetype2", "libpng", "lcms2", "libjpeg", "libtiff-4"]
LIBS = ["libz.so.1", "libpng16.so.16", "libfreetype.so.6", "liblcms2.so.2", "libjpeg.so.8", "libtiff.so.6"]
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd, timeout=600, cwd=None, env=None, check=True):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill_group(p.pid)
        p.communicate()
        raise CheckError("timeout: " + " ".join(cmd)[:200])
    if check and p.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:300], err.decode(errors="replace")[-4000:]))
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


_pc = None


def pkgflags():
    global _pc
    if _pc is None:
        _pc = run(["pkg-config", "--cflags"] + PKG)[1].split()
    return _pc


def pkglibs():
    return run(["pkg-config", "--libs", "zlib"] + PKG)[1].split()


def engine():
    srcs = glob.glob(os.path.join(VERIF, "engine", "*"))
    d = os.path.join(BUILD, "engine-" + filehash(srcs))
    exe = os.path.join(d, "capysym")
    with Lock("engine"):
        if not os.path.exists(exe):
            prune("engine-")
            run([os.path.join(VERIF, "engine", "build.sh"), d], timeout=600)
    return exe


def prune(prefix, keep=3):
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(prefix) and not x.endswith(".lock")), key=os.path.getmtime)
    except FileNotFoundError:
        return
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def repo_sources():
    return [p for p in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if not p.endswith("_fuzz.cpp")]


def repo_hash():
    fs = [p for p in glob.glob(os.path.join(REPO, "src", "*")) + glob.glob(os.path.join(REPO, "include", "*")) if os.path.isfile(p)]
    fs.append(os.path.join(REPO, "meson.build"))
    return filehash(fs)


def gen_header(d):
    """The configured public header (what meson's configure_file makes)."""
    os.makedirs(os.path.join(d, "include"), exist_ok=True)
    m = re.search(r"version\s*:\s*'([^']+)'", open(os.path.join(REPO, "meson.build")).read())
    ver = m.group(1) if m else "0.0.0"
    parts = (ver.split(".") + ["0", "0", "0"])[:3]
    out = []
    for line in open(os.path.join(REPO, "include", "capypdf.h.in")):
        mm = re.match(r"#mesondefine (\w+)", line)
        if mm:
            k = mm.group(1)
            v = {"CAPYPDF_VERSION_STR": '"%s"' % ver, "CAPYPDF_VERSION_MAJOR": parts[0], "CAPYPDF_VERSION_MINOR": parts[1], "CAPYPDF_VERSION_MICRO": parts[2]}.get(k)
            line = "#define %s %s\n" % (k, v) if v is not None else "/* #undef %s */\n" % k
        out.append(line)
    with open(os.path.join(d, "include", "capypdf.h"), "w") as f:
        f.writelines(out)


def base_flags(d):
    return ["-std=c++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DBUILDING_CAPYPDF",
            "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(d, "include"), "-I" + os.path.join(REPO, "include")] + pkgflags()


IRFLAGS = ["-O1", "-emit-llvm", "-c", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic"]


def compile_all(jobs):
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(run, j, 600) for j in jobs]:
            f.result()


def repo_bc():
    h = sha(repo_hash(), " ".join(IRFLAGS), "v3")
    d = os.path.join(BUILD, "ir-" + h)
    with Lock("ir"):
        if not os.path.exists(os.path.join(d, "done")):
            prune("ir-", 2)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            gen_header(d)
            jobs = [["clang++-18"] + IRFLAGS + base_flags(d) + [s, "-o", os.path.join(d, os.path.basename(s)[:-4] + ".bc")] for s in repo_sources()]
            compile_all(jobs)
            run(["llvm-link-18"] + [j[-1] for j in jobs] + ["-o", os.path.join(d, "repo.bc")])
            open(os.path.join(d, "done"), "w").close()
        os.utime(d)
    return d


def harness_bc(d, sources, defines):
    """IR of the repository + harness, ready to execute."""
    hs = [os.path.join(VERIF, "harness", s) for s in sources]
    hh = glob.glob(os.path.join(VERIF, "harness", "*.h")) + glob.glob(os.path.join(VERIF, "harness", "*.hpp")) + glob.glob(os.path.join(VERIF, "harness", "*.inc"))
    key = sha(filehash(hs + hh), " ".join(defines), " ".join(sources), "v2")
    out = os.path.join(d, "h-" + key + ".bc")
    with Lock("h-" + key):
        if not os.path.exists(out):
            objs, jobs = [], []
            for s in hs:
                o = os.path.join(d, "h-%s-%s.o.bc" % (key, os.path.basename(s)))
                jobs.append(["clang++-18"] + IRFLAGS + base_flags(d) + ["-D" + x for x in defines] + [s, "-o", o])
                objs.append(o)
            compile_all(jobs)
            linked = out + ".l"
            run(["llvm-link-18"] + objs + [os.path.join(d, "repo.bc"), "-o", linked])
            run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=harness", linked, "-o", out + ".tmp"])
            os.unlink(linked)
            for o in objs:
                os.unlink(o)
            os.rename(out + ".tmp", out)
    try:
        os.unlink(os.path.join(BUILD, "h-" + key + ".lock"))
    except OSError:
        pass
    return out


SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def native_objs(d):
    """Native sanitizer build of the repository, for replaying counterexamples."""
    nd = os.path.join(d, "native")
    with Lock("native"):
        if not os.path.exists(os.path.join(nd, "done")):
            shutil.rmtree(nd, ignore_errors=True)
            os.makedirs(nd)
            compile_all([["g++", "-O1", "-g1", "-c"] + SAN + base_flags(d) + [s, "-o", os.path.join(nd, os.path.basename(s)[:-4] + ".o")] for s in repo_sources()])
            open(os.path.join(nd, "done"), "w").close()
    return sorted(glob.glob(os.path.join(nd, "*.o")))


def native_bin(d, sources, defines, entry):
    nd = os.path.join(d, "native")
    objs = native_objs(d)
    hs = [os.path.join(VERIF, "harness", s) for s in sources]
    key = sha(filehash(hs + glob.glob(os.path.join(VERIF, "harness", "*.h*")) + glob.glob(os.path.join(VERIF, "harness", "*.inc"))), " ".join(defines), entry)
    wd = os.path.join(nd, "b-" + key)
    exe = os.path.join(wd, "replay")
    with Lock("nb"):
        if os.path.exists(exe):
            return exe
        os.makedirs(wd, exist_ok=True)
        ho = [os.path.join(wd, os.path.basename(s) + ".o") for s in hs]
        rt = os.path.join(wd, "rt.o")
        jobs = [["g++", "-O1", "-g1", "-c"] + SAN + base_flags(d) + ["-D" + x for x in defines] + [s, "-o", o] for s, o in zip(hs, ho)]
        jobs.append(["g++", "-O1", "-c", "-std=c++23", "-I" + os.path.join(VERIF, "harness"), "-DHARNESS_ENTRY=" + entry, os.path.join(VERIF, "harness", "replay_rt.cpp"), "-o", rt])
        compile_all(jobs)
        # redirect modelled externals to the harness' models
        models = set()
        for o in ho:
            for line in run(["nm", o])[1].splitlines():
                m = re.match(r"[0-9a-f]+ [TW] model_(\S+)$", line)
                if m:
                    models.add(m.group(1))
        red = []
        if models:
            mf = os.path.join(wd, "redefine.txt")
            with open(mf, "w") as f:
                for m in sorted(models):
                    f.write("%s model_%s\n" % (m, m))
            for o in objs + ho:
                n = os.path.join(wd, "r_" + os.path.basename(o))
                run(["objcopy", "--redefine-syms=" + mf, o, n])
                red.append(n)
        else:
            red = objs + ho
        run(["g++"] + SAN + red + [rt] + pkglibs() + ["-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
    return exe


def replay(exe, path, timeout=60):
    """-> (reproduced, description)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", LC_ALL="C")
    try:
        p = subprocess.Popen([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/", start_new_session=True)
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill_group(p.pid)
        p.communicate()
        return True, "hang"
    out = out.decode(errors="replace")
    err = err.decode(errors="replace")
    if p.returncode == 42:
        m = re.search(r"CHECK-FAILED (.*)", out)
        return True, "check " + (m.group(1) if m else "?")
    if p.returncode == 0:
        return False, "no failure"
    if p.returncode == 43:
        return False, "assumption does not hold"
    last = [l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "Assertion" in l or "terminate" in l or "runtime error" in l]
    return True, "crash rc=%d %s" % (p.returncode, last[0].strip()[:200] if last else "")


def parse_viol(path):
    out = []
    if not os.path.exists(path):
        return out
    cur = None
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        if line.startswith("VIOL\t"):
            cur = {"label": line[5:], "detail": "", "where": "", "vars": []}
        elif cur is None:
            continue
        elif line.startswith("DETAIL"):
            cur["detail"] = line[7:]
        elif line.startswith("WHERE"):
            cur["where"] = line[6:]
        elif line.startswith("VAR"):
            cur["vars"].append(line)
        elif line == "END":
            out.append(cur)
            cur = None
    return out


def engine_run(bc, outdir, name, entry="harness", jobs=NCPU, deadline=300, maxinstr=400_000_000, env=None):
    exe = engine()
    viol, js = os.path.join(outdir, name + ".viol"), os.path.join(outdir, name + ".json")
    for f in (viol, js):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, bc, "--entry", entry, "--viol", viol, "--json", js, "--jobs", str(jobs), "--deadline", str(deadline), "--maxinstr", str(maxinstr), "--src", REPO + "/"]
    for l in LIBS:
        cmd += ["--lib", l]
    e = dict(os.environ, LC_ALL="C", TZ="UTC")
    e.pop("CAPY_DEBUG_PDF", None)
    e.pop("CAPY_SCRAPE_PROTECT", None)
    if env:
        e.update(env)
    errf = os.path.join(outdir, name + ".err")
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=e, cwd=outdir, start_new_session=True)
        try:
            p.wait(timeout=deadline + 60)
            kill_group(p.pid)
        except subprocess.TimeoutExpired:
            kill_group(p.pid)
            p.wait()
    if not os.path.exists(js):
        return {"incomplete": 1, "incomplete_reasons": {"engine did not finish (deadline %ds): %s" % (deadline, open(errf, errors="replace").read()[-500:]): 1}, "paths": 0, "violations": 0, "reach": {}, "functions": [], "check_labels": {}}, parse_viol(viol)
    return json.load(open(js)), parse_viol(viol)
