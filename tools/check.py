#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]
Decides one property: explores the specification, drives the library built from /repo with the behaviours found and
with generated call sequences, and lets TLC decide whether every recorded execution is one the specification allows."""
import argparse, atexit, importlib, traceback
import concurrent.futures as cf
from vlib import *
import mc, mctools, profiles, tprofiles

# profile -> (quick, thorough) number of scripts
PROFILES = {
    "C01": [("roundtrip", 150, 4000), ("big", 12, 250), ("wideunsorted", 40, 1000), ("hugerecs", 1, 8)],
    "C02": [("ifaces", 120, 3000)],
    "C03": [("buffers", 26, 700), ("big", 6, 150)],
    "C04": [("foreign", 240, 8000), ("malformed", 160, 5000), ("holes", 30, 800), ("foreignbig", 12, 150)] + [("dump_" + p, n, 25 * n) for p, n in (
        ("roundtrip", 24), ("metadata", 24), ("values", 24), ("acronyms", 24), ("append", 24), ("settexts", 16), ("domains", 24), ("wild", 40), ("uels", 16))],
    "C05": [("dups", 200, 5000), ("wideunsorted", 20, 500)],
    "C06": [("domains", 250, 6000)],
    "C07": [("wildnoisy", 500, 15000), ("wild", 300, 10000)],
    "C08": [("uels", 200, 5000), ("manyuels", 16, 300), ("hugeuels", 1, 6)],
    "C09": [("usermap", 250, 6000)],
    "C10": [("filtered", 350, 9000)],
    "C11": [("values", 300, 8000)],
    "C12": [("acronyms", 300, 8000)],
    "C13": [("settexts", 160, 4000), ("quotes", 8, 100)],
    "C14": [("metadata", 350, 6000), ("quotes", 4, 100), ("manysyms", 8, 120)],
    "C15": [("append", 150, 4000), ("holes", 20, 400)],
    "C16": [("crash_" + p, n, 25 * n) for p, n in (("roundtrip", 30), ("metadata", 40), ("wild", 40), ("domains", 30), ("acronyms", 30), ("settexts", 30), ("big", 2))] + [("cutall", 48, 1200)],
    "C17": [("fault_" + p, n, 30 * n) for p, n in (("roundtrip", 90), ("metadata", 60), ("append", 60), ("wild", 80), ("domains", 50), ("acronyms", 50), ("big", 14))] + [("nofile", 100, 2000)],
    "C18": [("errors", 200, 5000), ("wildnoisy", 150, 4000), ("fault_errors", 150, 4000)],
    "C19": [("tdiff", 700, 10000), ("tdiffbad", 200, 2000), ("tdiffedge", 200, 3000)],
    "C20": [("tmerge", 500, 8000), ("tmergewild", 120, 1500)],
    "C21": [("tdump", 500, 9000)],
    "C22": [("indep", 150, 4000), ("reuse", 150, 4000), ("weave", 150, 4000), ("sequel", 150, 4000), ("threads", 320, 6000)],
    "C23": [("summary", 300, 8000)],
    "C25": [("observed", 450, 15000)],
    "C24": [(p, n, 20 * n) for p, n in (("wild", 200), ("wildnoisy", 150), ("roundtrip", 20), ("ifaces", 30), ("domains", 40), ("uels", 30), ("usermap", 30),
                                        ("filtered", 40), ("values", 40), ("acronyms", 40), ("settexts", 20), ("metadata", 60), ("append", 20), ("errors", 30), ("summary", 40), ("loadpath", 12))],
}
TOOLS = {"C19": ["gdxdiff"], "C20": ["gdxdiff", "gdxmerge"], "C21": ["gdxdump"]}
SPECIAL = {}        # property -> module with run(ctx)
LEVEL = {}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"gdxv_{pid}_")
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[])
        self.viol = []
        self.known = []

    def log(self, s):
        print(f"[{time.time() - self.t0:6.1f}s] {s}", flush=True)

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def violation(self, what, replay):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = f"{d}/{self.pid}-{len(self.viol)}.json"
        json.dump(dict(replay, property=self.pid, what=what), open(p, "w"), indent=1)
        self.viol.append((what, p))
        print(f"VIOLATION property={self.pid} replay={p}")
        print("  " + what[:1500].replace("\n", "\n  "), flush=True)


def describe(tr, pos, txt):
    ev = tr["ev"][pos - 1] if 0 < pos <= len(tr["ev"]) else {}
    return f"script {tr['id']}, call {pos}: {json.dumps(ev)[:600]}\nspecification: {txt[:900]}"


def races(work):
    """what the thread sanitizer said"""
    l = glob.glob(f"{work}/tsan.*")
    return "\n" + open(l[0], errors="replace").read()[:1200] if l else ""


def batches(ctx, scripts, driver, kind, tag):
    """run scripts through a driver and check the traces; returns confirmed mismatches"""
    if not scripts:
        return 0
    step = 6000
    for a in range(0, len(scripts), step):
        part = scripts[a:a + step]
        tr = run_driver(driver, part, ctx.work, tag, tmo=60 if kind != "threads" else 200)
        bad, st = check_traces(tr, ctx.work, tag=tag)
        ctx.cov["traces_validated_against_impl"] += len(part)
        ctx.cov["events_validated"] += sum(len(t["ev"]) for t in tr)
        ctx.cov["trace_states"] = ctx.cov.get("trace_states", 0) + st["states"]
        if not ctx.cov["samples"] or len(ctx.cov["samples"]) < 3:
            t = tr[len(tr) // 2]
            ctx.cov["samples"].append(dict(script=t["id"], calls=[f"{e['x']}.{e['o']}({json.dumps(e['a'])[:60]})" for e in t["ev"][:40]]))
        for i, pos, txt in bad[:4]:
            # run it again on its own before reporting it
            # (what takes several threads: with three more like it)
            again = run_driver(driver, [part[i]] * (1 if kind != "threads" else 4), ctx.work, tag + "_re", tmo=300, spread=kind != "threads")
            b2, _ = check_traces(again, ctx.work, tag=tag + "_re")
            if not b2 and any(e["o"] == "CRASH" and "signal 14" in json.dumps(e) for e in tr[i]["ev"]):
                ctx.log(f"timeout of {tr[i]['id']} not reproduced; ignored")
                continue
            if b2:
                ctx.violation(describe(again[b2[0][0]], b2[0][1], b2[0][2]) + races(ctx.work), dict(script=part[i], driver=kind, trace=again[b2[0][0]]))
            else:
                ctx.violation("not reproduced in a second run: " + describe(tr[i], pos, txt) + races(ctx.work), dict(script=part[i], driver=kind, trace=tr[i]))
    return len(ctx.viol)


def conformance(ctx):
    pid = ctx.pid
    with cf.ThreadPoolExecutor(4) as ex:
        ftd = ex.submit(build_tdriver, ctx.work) if pid == "C22" else None
        overrides(ctx.work)
        if pid == "C24":
            fd = ex.submit(build_cdriver, ctx.work)
            fs = None
        else:
            fd = ex.submit(build_driver, ctx.work)
            fs = None if pid in TOOLS else ex.submit(build_driver, ctx.work, True)
            ft = ex.submit(build_tools, ctx.work, TOOLS[pid]) if pid in TOOLS else None
        sc, st = (mctools if pid in TOOLS else mc).explore(pid, ctx.work, ctx.tier, ctx.seed, ctx.log)
        drv = fd.result()
        san = fs.result() if fs else None
        if pid in TOOLS:
            ft.result()
    if pid == "C24":
        # the calls of a script go through the loader and the C entry points, or through the other doors of the shared library: the Delphi
        # string and Fortran/callback flavours of each entry point, looked up by name
        ddrv = build_ddriver(ctx.work)
    ctx.log("drivers built")
    ctx.cov["states"] += st["states"]
    ctx.cov["transitions"] += st["transitions"]
    if st["configs"]:
        ctx.cov["model_runs"] = st["configs"]
        ctx.cov["model_scripts_not_replayed"] = st["dropped"]
    if pid == "C24":
        batches(ctx, sc[0::2], drv, "c", "mc")
        batches(ctx, sc[1::2], ddrv, "d", "md")
    else:
        batches(ctx, sc, drv, "plain", "mc")
    if ctx.viol and ctx.tier == "quick":
        return
    gen = [(getattr(profiles, p, None) or getattr(tprofiles, p))(str(ctx.seed), i) for p, q, t in PROFILES.get(pid, []) for i in range(ctx.n(q, t)) if p != "threads"]
    ctx.cov["generated_scripts"] = {p: ctx.n(q, t) for p, q, t in PROFILES.get(pid, [])}
    if san:
        batches(ctx, gen[0::2], san, "san", "ps")
        if not ctx.viol:
            batches(ctx, gen[1::2], drv, "plain", "pp")
    elif pid == "C24":
        batches(ctx, gen[0::2], drv, "c", "pp")
        if not ctx.viol:
            batches(ctx, gen[1::2], ddrv, "d", "pd")
    else:
        batches(ctx, gen, drv, "plain", "pp")
    for p, q, t in PROFILES.get(pid, []):
        if p == "threads" and not ctx.viol:
            batches(ctx, [profiles.threads(str(ctx.seed), i) for i in range(ctx.n(q, t))], ftd.result(), "threads", "pt")
    ctx.log(f"{ctx.cov['traces_validated_against_impl']} executions, {ctx.cov['events_validated']} calls checked")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    ctx = Ctx(a.pid, a.tier, a.seed)
    if not a.keep:
        atexit.register(lambda: shutil.rmtree(ctx.work, ignore_errors=True))
    try:
        if a.pid in PROFILES:
            conformance(ctx)
        if a.pid in SPECIAL and not (ctx.viol and ctx.tier == "quick"):
            importlib.import_module(SPECIAL[a.pid]).run(ctx)
    except CheckError as e:
        if not ctx.viol:
            print(f"CHECK-ERROR property={a.pid}: {e}", flush=True)
            write_evidence(ctx)
            return 2
    for k in ctx.known:
        print(f"KNOWN-FINDING: property={a.pid} {k}")
    write_evidence(ctx)
    ctx.log("VIOLATED" if ctx.viol else "held on everything explored")
    return 1 if ctx.viol else 0


def write_evidence(ctx):
    if not ctx.cov["states"]:
        ctx.cov["states"] = ctx.cov.get("trace_states", 0)
    if not ctx.cov["transitions"]:
        ctx.cov["transitions"] = ctx.cov["events_validated"]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=LEVEL.get(ctx.pid, "model_checking"), coverage=ctx.cov,
                   assumptions=ASSUME, wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.viol)),
              open(f"{VERIF}/evidence/{ctx.pid}.json", "w"), indent=1)


ASSUME = ["bounded: depth and alphabets of the model runs and the number of generated scripts are as listed under coverage",
          "TLC, the JVM, the compilers and the system zlib behave as documented",
          "the Java accelerations of pure string operators equal their TLA+ definitions (SelfTest.tla, run by setup)"]

if __name__ == "__main__":
    sys.exit(main())
