#!/usr/bin/env python3
"""writes harness/src/fact_table.rs: 1*2*...*n in f64 arithmetic for n = 0..170, and the least and greatest f64 accepted as n!"""
import math, os
from fractions import Fraction as Q
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/fact_table.rs")
def below(q):
    x = float(q)
    while Q(x) > q: x = math.nextafter(x, 0.0)
    return x
def above(q):
    x = float(q)
    while Q(x) < q: x = math.nextafter(x, math.inf)
    return x
v, out, lo, hi = 1.0, [], [], []
E = Q(2, 10**15)
for n in range(171):
    v *= max(n, 1)
    exact = Q(math.factorial(n))
    assert abs(Q(v) - exact) <= E * exact, n
    if n <= 22: assert Q(v) == exact; lo.append(v); hi.append(v)
    else:
        # the f64s within a relative error of 2e-15
        l, h = below(exact * (1 - E)), above(exact * (1 + E))
        if Q(l) < exact * (1 - E): l = math.nextafter(l, math.inf)
        if Q(h) > exact * (1 + E): h = math.nextafter(h, 0.0)
        assert l <= v <= h; lo.append(l); hi.append(h)
    out.append(v)
with open(p, "w") as f:
    f.write("// written by bin/gen_fact.py\n")
    for name, doc, t in (("FACT", "1*2*...*n in f64 (exact up to 22!, within 2e-15 of n! above)", out), ("FACT_LO", "the least f64 within 2e-15 of n! (n! up to 22!)", lo), ("FACT_HI", "the greatest", hi)):
        f.write("// %s\npub static %s: [f64; 171] = [\n" % (doc, name) + "".join("    %r,\n" % x for x in t) + "];\n")
