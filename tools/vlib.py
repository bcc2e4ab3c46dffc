"""Build the code under test from /repo, replay scripts, and check recorded traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GDX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = int(os.environ.get("VERIF_CPUS", "8"))
INC = [f"-I{REPO}/{d}" for d in ("zlib", "src", "generated", "src/gdlib", "src/global", "src/rtl")] + [f"-I{HARN}"]


class CheckError(Exception):
    """the check itself could not be carried out (never a verdict about the property)"""


class BuildError(CheckError):
    pass


def cmake_list(name):
    """source files of a set(<name> ...) block of the top-level CMakeLists.txt"""
    t = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"set\(\s*%s\b(.*?)^\)" % re.escape(name), t, re.S | re.M)
    if not m:
        return []
    out = []
    for line in m.group(1).splitlines():
        line = line.split("#")[0].strip()
        for w in line.split():
            if w.endswith((".c", ".cpp")) and not w.startswith("$"):
                out.append(os.path.join(REPO, w))
    return out


FALLBACK = ["src/rtl/dtoaLoc.c"] + [f"src/rtl/{f}.cpp" for f in
            ("p3io", "p3utils", "sysutils_p3", "system_p3", "p3platform", "math_p3")] + \
           [f"src/gdlib/{f}.cpp" for f in ("gmsstrm", "utils", "strutilx")] + ["src/gxfile.cpp"]


def core_sources():
    l = [f for f in cmake_list("gdx-core") if os.path.exists(f)]
    return l or [f"{REPO}/{f}" for f in FALLBACK]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_objs(srcs, outdir, flags):
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for s in srcs:
        o = os.path.join(outdir, s.strip("/").replace("/", "_") + ".o")
        comp = ["gcc"] if s.endswith(".c") else ["g++", "-std=gnu++17"]
        jobs.append((s, o, comp + ["-w", "-g1", "-DNDEBUG", "-DGC_NO_MUTEX"] + flags + INC + ["-c", s, "-o", o]))
    # the biggest translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (s, o, _), r in zip(jobs, ex.map(lambda j: sh(j[2]), jobs)):
            if r.returncode:
                raise BuildError(f"compiling {s} failed:\n{r.stdout[-4000:]}")
    return [o for _, o, _ in jobs]


def link(objs, out, flags=()):
    r = sh(["g++"] + list(flags) + objs + ["-o", out, "-lz", "-ldl", "-lpthread", "-lm"])
    if r.returncode:
        raise BuildError(f"linking {out} failed:\n{r.stdout[-4000:]}")
    return out


WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("open", "open64", "write", "pwrite", "pwrite64", "writev", "lseek", "lseek64", "close", "ftruncate"))]
SAN = ["-U_FORTIFY_SOURCE", "-fsanitize=address", "-fno-omit-frame-pointer"]


def build_driver(work, san=False, main="driver.cpp", extra=("-DIOWRAP",)):
    f = ["-O1"] + (SAN if san else []) + list(extra)
    objs = compile_objs(core_sources() + [f"{HARN}/{main}"], f"{work}/obj_{main}_{int(san)}", f)
    return link(objs, f"{work}/{main[:-4]}{'_san' if san else ''}", (SAN if san else []) + (WRAP if "-DIOWRAP" in extra else []))


TSAN = ["-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-omit-frame-pointer"]


def build_tdriver(work):
    """the same driver, running scripts in threads of their own, four at a time, under the eyes of the thread sanitizer"""
    return link(compile_objs(core_sources() + [f"{HARN}/driver.cpp"], f"{work}/obj_t", ["-O1", "-DTHREADS"] + TSAN), f"{work}/tdriver", TSAN)


def build_cdriver(work):
    """the same driver, calling through the generated C API and the shared library"""
    so = compile_objs(core_sources() + [f"{REPO}/generated/gdxcclib.cpp"], f"{work}/obj_so", ["-O1", "-fPIC", "-fvisibility=hidden"])
    link(so, f"{work}/libgdxcclib64.so", ["-shared", "-Wl,-Bsymbolic"])
    objs = compile_objs([f"{HARN}/driver.cpp", f"{REPO}/generated/gdxcc.c"], f"{work}/obj_c", ["-O1", "-DVIA_C", "-DGXFILE_CPPWRAP"])
    return link(objs, f"{work}/cdriver")


def build_ddriver(work):
    """the same driver, calling the shared library's entry points for other languages (build_cdriver makes the library)"""
    return link(compile_objs([f"{HARN}/driver.cpp"], f"{work}/obj_d", ["-O1", "-DVIA_D"]), f"{work}/ddriver", ["-ldl"])


TOOLSRC = dict(gdxdiff=["src/tools/gdxdiff/gdxdiff.cpp", "src/rtl/p3process.cpp"], gdxmerge=["src/tools/gdxmerge/gdxmerge.cpp"],
               gdxdump=["src/tools/gdxdump/gdxdump.cpp", "src/gdlib/dblutil.cpp"])


def build_tools(work, names):
    """the command line tools (with address sanitizer) and the shared library they load"""
    so = compile_objs(core_sources() + [f"{REPO}/generated/gdxcclib.cpp"], f"{work}/obj_so", ["-O1", "-fPIC", "-fvisibility=hidden"])
    link(so, f"{work}/libgdxcclib64.so", ["-shared", "-Wl,-Bsymbolic"])
    f = ["-O1", "-U_FORTIFY_SOURCE", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", f"-I{REPO}", f"-I{REPO}/src/tools"]
    common = [f"src/tools/library/{n}.cpp" for n in ("common", "short_string", "cmdpar")] + ["src/gdlib/gmsobj.cpp", "generated/gdxcc.c"]
    ex = lambda l: [p for p in (f"{REPO}/{n}" for n in l) if os.path.exists(p)]
    core = [s for s in core_sources() if not s.endswith("gxfile.cpp")]
    extra = sorted({p for n in names for p in ex(TOOLSRC[n])})
    objs = compile_objs(core + ex(common) + [p for p in extra if p not in core], f"{work}/obj_tools", f)
    isapp = lambda o: any(o.endswith(f"src_tools_{n}_{n}.cpp.o") for n in TOOLSRC)
    os.makedirs(f"{work}/bin", exist_ok=True)
    for n in names:
        link([o for o in objs if not isapp(o) or o.endswith(f"_{n}.cpp.o")], f"{work}/bin/{n}", ["-fsanitize=address,bounds"])
    return f"{work}/bin"


def run_env(work, **kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GDX")}
    os.makedirs(f"{work}/nobin", exist_ok=True)
    e.update(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="exitcode=98", TSAN_OPTIONS=f"halt_on_error=1:io_sync=0:history_size=4:exitcode=66:log_path={work}/tsan", LD_LIBRARY_PATH=work, GDX_TOOLS=f"{work}/bin", **kw)
    return e


def run_driver(binary, scripts, work, tag, tmo=60, spread=True):
    """scripts: list of dicts; returns the recorded traces, in order"""
    parts = [p for p in (list(range(i, len(scripts), NCPU)) for i in range(NCPU)) if p] if spread else [list(range(len(scripts)))]

    def one(pi):
        idx = parts[pi]
        base = f"{work}/{tag}_{pi}"
        os.makedirs(base + "_s", exist_ok=True)
        with open(base + ".in", "w") as f:
            for i in idx:
                f.write(json.dumps(scripts[i]) + "\n")
        r = subprocess.run([binary, base + ".in", base + ".out", base + "_s", str(tmo)], env=run_env(work),
                           stdout=subprocess.DEVNULL, stderr=open(base + ".err", "w"))
        if r.returncode:
            raise CheckError(f"driver failed: {r.returncode} {open(base + '.err').read()[-2000:]}")
        out = [json.loads(l) for l in open(base + ".out", encoding="latin-1")]
        if len(out) != len(idx):
            raise CheckError("driver lost scripts")
        shutil.rmtree(base + "_s", ignore_errors=True)
        return idx, out
    res = [None] * len(scripts)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for idx, out in ex.map(one, range(len(parts))):
            for i, o in zip(idx, out):
                res[i] = o
    return res


def overrides(work):
    d = f"{work}/ov"
    if not os.path.exists(d + "/GDXBase.class"):
        r = sh(["javac", "-cp", TLAJARS, "-d", d] + glob.glob(SPEC + "/overrides/*.java"))
        if r.returncode:
            raise CheckError("javac failed: " + r.stdout)
    return d


def run_tlc(work, module, cfg, env=None, workers=None, heap="6g", extra=(), tag="tlc", tmo=3600, xss="256m"):
    md = tempfile.mkdtemp(dir=work, prefix="md")
    e = dict(os.environ, **(env or {}))
    cmd = ["java", f"-Xmx{heap}", f"-Xss{xss}", "-XX:+UseParallelGC", "-cp", overrides(work) + ":" + TLAJARS,
           f"-DTLA-Library={SPEC}", "tlc2.TLC", "-metadir", md, "-workers", str(workers or NCPU), "-nowarning", "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=tmo)
    except subprocess.TimeoutExpired as x:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.stdout


def check_traces(traces, work, tag="tr", tmo=1800, procs=None):
    """returns (list of (index, pos, text) mismatches, statistics); several TLC processes share the work"""
    if not traces:
        return [], dict(states=0)
    overrides(work)
    sz = [len(json.dumps(t)) for t in traces]
    k = procs or max(1, min(NCPU // 2, len(traces), 1 + sum(sz) // 1000000))
    parts = [[0, []] for _ in range(k)]
    for i in sorted(range(len(traces)), key=lambda i: -sz[i]):
        p = min(parts, key=lambda p: p[0])
        p[0] += sz[i] + 2000
        p[1].append(i)

    def one(j):
        idx = parts[j][1]
        bad, st = check_part([traces[i] for i in idx], work, f"{tag}{j}", tmo, max(2, NCPU // k))
        return [(idx[i], pos, txt) for i, pos, txt in bad], st
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, range(k)))
    return sorted((b for r in res for b in r[0]), key=lambda b: b[0]), dict(states=sum(r[1]["states"] for r in res))


def check_part(traces, work, tag, tmo, workers):
    f = f"{work}/{tag}.nd"
    with open(f, "w") as fp:
        for t in traces:
            fp.write(json.dumps(t) + "\n")
    out = run_tlc(work, "Trace.tla", "Trace.cfg", dict(TRACE_FILE=f), tmo=tmo, heap="4g", workers=workers)
    # a printed tuple may span lines
    bad, done = [], set()
    for m in re.finditer(r'^<<\s*"(DONE|MISMATCH)",\s*(\d+)(?:,\s*(\d+))?(.*?)>>\s*$(?=\n(?:<<|Model|Error|Progress|The |Finished|\d| *$))', out, re.M | re.S):
        if m.group(1) == "DONE":
            done.add(int(m.group(2)))
        else:
            bad.append((int(m.group(2)) - 1, int(m.group(3)), m.group(4)))
    if "Model checking completed. No error has been found." not in out:
        i = out.find("Error:")
        j = out.find("The error occurred when")
        raise CheckError("TLC did not complete:\n" + out[i:i + 1500] + "\n...\n" + out[j:j + 3000])
    if len(done) + len(bad) != len(traces):
        raise CheckError(f"TLC finished {len(done)} + {len(bad)} of {len(traces)} traces:\n{out[-3000:]}")
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return bad, dict(states=int(st.group(2)) if st else 0)
