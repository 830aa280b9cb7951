#!/usr/bin/env python3
"""Compares the reference arithmetic of the harness (mc/target/release/mc refdump) with
Python's integers.  Run by hand after changing num.rs or the model in curve.rs:
   ./check.sh --build && tools/crosscheck.py"""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([os.path.join(here, "mc/target/release/mc"), "refdump"], stdout=subprocess.PIPE, text=True, check=True).stdout
CURVES = {"E222": (222, 117, 160102), "Curve1174": (251, 9, -1174), "E382": (382, 105, -67254),
          "Curve41417": (414, 17, 3617), "E521": (521, 1, -376014)}
def padd(p, d, P, Q):
    (x1, y1), (x2, y2) = P, Q
    k = d * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + x2 * y1) * pow(1 + k, -1, p) % p, (y1 * y2 - x1 * x2) * pow(1 - k, -1, p) % p)
def pmul(p, d, k, P):
    R = (0, 1)
    while k:
        if k & 1: R = padd(p, d, R, P)
        P = padd(p, d, P, P)
        k >>= 1
    return R
bad = n = 0
count = {}
for l in out.splitlines():
    w = l.split()
    if w[0] in CURVES:
        N, C, d = CURVES[w[0]]
        p = 2**N - C
        op, (x1, y1, x2, y2, rx, ry) = w[1], [int(v, 16) for v in w[2:]]
        assert (x1*x1 + y1*y1 - 1 - d*x1*x1*y1*y1) % p == 0, l
        want = padd(p, d, (x1, y1), (x2, y2)) if op == "padd" else pmul(p, d, x2, (x1, y1))
        ok = want == (rx, ry)
    else:
        N, C, op = int(w[0]), int(w[1]), w[2]
        a, b, r = [int(v, 16) for v in w[3:]]
        p = 2**N - C
        if op == "small" and a >> 63: a -= 1 << 64
        want = {"neg": lambda: -a, "red": lambda: a, "small": lambda: a, "pow": lambda: pow(a, b, p), "inv": lambda: pow(a, -1, p),
                "jac": lambda: pow(a, (p - 1) // 2, p), "isq": lambda: a * a, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op]() % p
        ok = want == r
    count[op] = count.get(op, 0) + 1
    n += 1
    if not ok:
        bad += 1
        print("DIFFERS:", l)
print(n, "evaluations compared,", bad, "differ:", count)
sys.exit(bad != 0 or n == 0)
