#!/usr/bin/env python3
"""plant.py make DEFS.py [ids]   create /verif/seeded/<id> from definitions and validate each in /repo (restored afterwards)
   plant.py run [ids]            apply each planted change to /repo, run its property's quick check, restore
Definitions: BUGS = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)...], demo=C++ body | sh=shell text)}"""
import json, os, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
HPP = r'''#pragma once
#include "gdx.hpp"
#include "gclgms.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <functional>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <tuple>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
using namespace std::literals::string_literals;
using gdx::TGXFileObj;
static int fails;
#define CHECK(c) do { if(!(c)) { std::printf("line %d: %s\n", __LINE__, #c); ++fails; } } while(0)
using Keys = std::array<int, 20>;
using Vals = std::array<double, 5>;
static Keys K(std::initializer_list<int> l) { Keys k{}; int i = 0; for(int v : l) k[i++] = v; return k; }
static Vals VL(double l = 0, double m = 0, double lo = 0, double up = 0, double sc = 1) { return Vals{l, m, lo, up, sc}; }
struct Obj {
   std::string msg; TGXFileObj g; int er{};
   Obj() : g(msg) {}
   bool w(const char *f, int compr = 0) { return g.gdxOpenWriteEx(f, "demo", compr, er); }
   bool r(const char *f) { return g.gdxOpenRead(f, er); }
   bool a(const char *f) { return g.gdxOpenAppend(f, "demo", er); }
   int close() { return g.gdxClose(); }
   bool uels(std::vector<std::string> l) { if(!g.gdxUELRegisterRawStart()) return false; for(auto &s : l) if(!g.gdxUELRegisterRaw(s.c_str())) return false; return g.gdxUELRegisterDone(); }
   bool raw(const char *n, int dim, int typ, std::vector<std::pair<Keys, Vals>> rec, int sub = 0) {
      if(!g.gdxDataWriteRawStart(n, "text", dim, typ, sub)) return false;
      bool ok = true;
      for(auto &x : rec) ok &= !!g.gdxDataWriteRaw(x.first.data(), x.second.data());
      return g.gdxDataWriteDone() && ok; }
   std::vector<std::pair<Keys, Vals>> read(int sy) {
      std::vector<std::pair<Keys, Vals>> res; int n;
      if(!g.gdxDataReadRawStart(sy, n)) return res;
      Keys k{}; Vals v{}; int fd;
      while(g.gdxDataReadRaw(k.data(), v.data(), fd)) { res.emplace_back(k, v); if(res.size() > 5000000) break; }
      g.gdxDataReadDone(); return res; }
   std::string uel(int n) { char b[300] = ""; int m; g.gdxUMUelGet(n, b, m); return b; }
};
static void demo();
#ifdef PREP
int main() { demo(); return fails ? 1 : 0; }
#else
int main() {
   char t[] = "/tmp/gdxdemoXXXXXX";
   if(!mkdtemp(t) || chdir(t)) return 3;
   demo();
   if(chdir("/")) return 3;
   std::system(("rm -rf '"s + t + "'").c_str());
   if(fails) std::printf("%d failures\n", fails);
   return fails ? 1 : 0;
}
#endif
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds for the behaviour exercised by demo.cpp; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -w -DNDEBUG -I"$here" -Isrc -Igenerated -Isrc/gdlib -Isrc/global -Isrc/rtl -Izlib "$here/demo.cpp" build/libgdx-static.a -lz -ldl -lpthread -o "$t/demo" || exit 2
timeout 200 "$t/demo"
'''
TOOLS = '''#!/bin/bash
# exit 0: the tool behaves as the property says on the files written by prep.cpp; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export LD_LIBRARY_PATH="$R/build"
g++ -std=gnu++17 -O1 -w -DNDEBUG -DPREP -I"$here" -Isrc -Igenerated -Isrc/gdlib -Isrc/global -Isrc/rtl -Izlib "$here/prep.cpp" build/libgdx-static.a -lz -ldl -lpthread -o "$t/prep" || exit 2
gdxdiff() { "$R/build/src/tools/gdxdiff/gdxdiff" "$@"; }
gdxmerge() { "$R/build/src/tools/gdxmerge/gdxmerge" "$@"; }
gdxdump() { "$R/build/src/tools/gdxdump/gdxdump" "$@"; }
cd "$t" && ./prep || exit 2
'''

def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def clean():
    r = sh("git -C /repo status --porcelain")
    if r.stdout.strip(): sys.exit("/repo is not clean: " + r.stdout)

def restore(): sh("git -C /repo checkout -- .")

def make(defs, ids):
    clean()
    for i, b in defs.items():
        if ids and i not in ids: continue
        if not ids and os.path.exists(f"{S}/{i}/patch.diff"): continue
        d = f"{S}/{i}"; os.makedirs(d, exist_ok=True)
        if "demo" in b:
            open(d + "/gdxdemo.hpp", "w").write(HPP)
            open(d + "/demo.cpp", "w").write('#include "gdxdemo.hpp"\n' + b["demo"].strip("\n") + "\n")
            open(d + "/demo.sh", "w").write(DEMO)
        else:
            open(d + "/demo.sh", "w").write(TOOLS + b["sh"].lstrip("\n"))
            if "prep" in b:
                open(d + "/gdxdemo.hpp", "w").write(HPP); open(d + "/prep.cpp", "w").write('#include "gdxdemo.hpp"\n' + b["prep"].strip("\n") + "\n")
        for n, c in b.get("files", {}).items(): open(d + "/" + n, "wb" if isinstance(c, bytes) else "w").write(c)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        restore()
        res = []
        try:
            for f, old, new in b["edits"]:
                p = "/repo/" + f; s = open(p, newline="").read()
                o2, n2 = (old, new) if old in s else (old.replace("\n", "\r\n"), new.replace("\n", "\r\n"))
                if s.count(o2) != 1: raise Exception(f"{f}: {s.count(o2)} matches of {old!r}")
                open(p, "w", newline="").write(s.replace(o2, n2))
            open(d + "/patch.diff", "w", newline="").write(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh"); res.append(("build", r.returncode == 0))
            if r.returncode: print(r.stdout[-1500:])
            r = sh(f"bash /opt/vp/test.sh /tmp/w/t.json"); t = json.load(open("/tmp/w/t.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("tests", [])))
            res.append(("tests", not t.get("failed") or not (set(t["failed"]) & base) ))
            if not res[-1][1]: print("   failing:", list(t["failed"])[:5])
            r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(("demo fails", r.returncode not in (0, 2)))
            out = r.stdout
        except Exception as e:
            print(i, "ERROR", e); restore(); continue
        restore()
        sh("bash /opt/vp/build.sh")
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); res.append(("demo clean", r.returncode == 0))
        ok = all(x for _, x in res)
        print(i, "OK" if ok else "BAD", "" if ok else res, "" if ok else (out[-300:], r.stdout[-600:]), flush=True)
    restore()

def run(ids, tier="quick"):
    clean()
    for i in ids or sorted(os.listdir(S)):
        m = json.load(open(f"{S}/{i}/meta.json"))
        t = time.time()
        r = sh(f"git -C /repo apply {S}/{i}/patch.diff")
        if r.returncode: print(i, "does not apply", r.stdout); continue
        try:
            p = m["property"]
            r = sh(f"python3 {V}/tools/check.py {p} --tier {tier}", cwd=V)
        finally:
            restore()
        hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
        print(f"{i:28s} {p} {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s", "" if hit else r.stdout[-700:], flush=True)
        if hit and os.environ.get("SHOW"): print(r.stdout[:1500])

if __name__ == "__main__":
    if sys.argv[1] == "make": make(runpy.run_path(sys.argv[2])["BUGS"], sys.argv[3:])
    else: run(sys.argv[2:])
