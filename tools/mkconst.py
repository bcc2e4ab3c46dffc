#!/usr/bin/env python3
"""Generates spec/GDXConst.tla: the double constants of the GDX format as hex tokens."""
import struct, os
def hx(d): return struct.pack(">d", d).hex().upper()
def acr(i):  return hx(10.0e300 * i) + "@" + str(i)
L = ["---- MODULE GDXConst ----",
 "(* GENERATED by tools/mkconst.py: IEEE bit patterns (16 hex digits) of the constants the library uses. *)",
 "(* A double that denotes an acronym (>= 10e300, finite) is written  <hex>@<index>.                      *)",
 "EXTENDS Integers, Sequences, TLC"]
L.append("DefSV == <<%s>>" % ", ".join('"%s"' % hx(x) for x in (1e300, 2e300, 3e300, 4e300, 5e300)))
L.append('ZvalAcrTok == "%s"' % acr(1))
L.append("AcrTokens == <<%s>>" % ", ".join('"%s"' % acr(i) for i in range(1, 513)))
L.append("IntTokens == <<%s>>" % ", ".join('"%s"' % hx(float(i)) for i in range(0, 401)))
L.append("NegTokens == <<%s>>" % ", ".join('"%s"' % hx(-float(i)) for i in range(1, 41)))
L.append('HalfTok == "%s"' % hx(0.5))
L.append('PiTok == "%s"' % hx(3.1415926535897932385))
L.append('NegZeroTok == "%s"' % hx(-0.0))
up = " @@ ".join('"%s" :> "%s"' % (chr(c), chr(c - 32)) for c in range(97, 123))
L.append("UpperOf == " + up)
L.append('Letters == {%s}' % ", ".join('"%s"' % chr(c) for c in list(range(65, 91)) + list(range(97, 123))))
L.append('Digits == {%s}' % ", ".join('"%d"' % c for c in range(10)))
L.append('CtrlChars == {"\\t", "\\n", "\\r", "\\f", %s}' % ", ".join('"%s"' % chr(c) for c in range(1, 32) if c not in (9, 10, 12, 13)))
errs = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "errstr.txt")).read().splitlines()
L.append("ErrText == " + " @@\n  ".join("(%s) :> \"%s\"" % tuple(e.split("\t")) for e in errs))
L.append("====")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "GDXConst.tla")
open(out, "w").write("\n".join(L) + "\n")
