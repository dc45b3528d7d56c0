#!/usr/bin/env python3
"""Generates harness/ref_tableaux.hpp: reference Butcher tableaux derived here
from their published definitions, independently of the library.

Explicit methods: the fractions of the original papers. Implicit methods:
collocation on Radau/Gauss/Lobatto nodes (Radau IIA, Gauss, Lobatto IIIA), and
Lobatto IIIC from C(s-1) with a_i1 = b_1 (Hairer & Wanner II, IV.5)."""
from fractions import Fraction as F
import mpmath as mp
mp.mp.dps = 50

def fr(rows):
    return [[mp.mpf(F(x).numerator) / F(x).denominator for x in r] for r in rows]

def low(s, rows):
    A = [[F(0)] * s for _ in range(s)]
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            A[i][j] = F(x)
    return A

ERK = {}
def erk(name, rows, b, b2, order, order2, fsal):
    s = len(b)
    A = low(s, rows)
    c = [sum(r) for r in A]
    ERK[name] = (fr(A), fr([b])[0], fr([c])[0], fr([b2])[0] if b2 else [], order, order2, fsal)

erk("EXPLICIT_EULER", [[]], [1], None, 1, 0, False)
erk("RUNGE_KUTTA_4", [[], ["1/2"], [0, "1/2"], [0, 0, 1]], ["1/6", "1/3", "1/3", "1/6"], None, 4, 0, False)
erk("BOGACKI_SHAMPINE_32", [[], ["1/2"], [0, "3/4"], ["2/9", "1/3", "4/9"]],
    ["2/9", "1/3", "4/9", 0], ["7/24", "1/4", "1/3", "1/8"], 3, 2, True)
erk("CASH_KARP_54", [[], ["1/5"], ["3/40", "9/40"], ["3/10", "-9/10", "6/5"],
    ["-11/54", "5/2", "-70/27", "35/27"],
    ["1631/55296", "175/512", "575/13824", "44275/110592", "253/4096"]],
    ["37/378", 0, "250/621", "125/594", 0, "512/1771"],
    ["2825/27648", 0, "18575/48384", "13525/55296", "277/14336", "1/4"], 5, 4, False)
erk("DORMAND_PRINCE_54", [[], ["1/5"], ["3/40", "9/40"], ["44/45", "-56/15", "32/9"],
    ["19372/6561", "-25360/2187", "64448/6561", "-212/729"],
    ["9017/3168", "-355/33", "46732/5247", "49/176", "-5103/18656"],
    ["35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84"]],
    ["35/384", 0, "500/1113", "125/192", "-2187/6784", "11/84", 0],
    ["5179/57600", 0, "7571/16695", "393/640", "-92097/339200", "187/2100", "1/40"], 5, 4, True)
erk("FEHLBERG_54", [[], ["1/4"], ["3/32", "9/32"], ["1932/2197", "-7200/2197", "7296/2197"],
    ["439/216", -8, "3680/513", "-845/4104"],
    ["-8/27", 2, "-3544/2565", "1859/4104", "-11/40"]],
    ["16/135", 0, "6656/12825", "28561/56430", "-9/50", "2/55"],
    ["25/216", 0, "1408/2565", "2197/4104", "-1/5", 0], 5, 4, False)

def polyroots01(coeffs):
    r = [mp.re(x) for x in mp.polyroots(coeffs, maxsteps=500, extraprec=400)]
    return sorted(r)

def dpoly(p, times):
    for _ in range(times):
        n = len(p) - 1
        p = [c * (n - i) for i, c in enumerate(p[:-1])]
    return p

def pmul(a, b):
    r = [mp.mpf(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r

def ppow(a, n):
    r = [mp.mpf(1)]
    for _ in range(n):
        r = pmul(r, a)
    return r

def nodes(kind, s):
    x, xm1 = [mp.mpf(1), mp.mpf(0)], [mp.mpf(1), mp.mpf(-1)]
    if kind == "gauss":
        return polyroots01(dpoly(pmul(ppow(x, s), ppow(xm1, s)), s))
    if kind == "radau":
        if s == 1: return [mp.mpf(1)]
        n = polyroots01(dpoly(pmul(ppow(x, s - 1), ppow(xm1, s)), s - 1)); n[-1] = mp.mpf(1); return n
    if kind == "lobatto":
        n = polyroots01(dpoly(pmul(ppow(x, s - 1), ppow(xm1, s - 1)), s - 2)); n[0] = mp.mpf(0); n[-1] = mp.mpf(1); return n

def vander_solve(c, rhs):   # sum_j w_j c_j^(q-1) = rhs_q
    s = len(c)
    M = mp.matrix(s, s)
    for q in range(s):
        for j in range(s):
            M[q, j] = c[j] ** q if q else mp.mpf(1)
    w = mp.lu_solve(M, mp.matrix(rhs))
    return [w[i] for i in range(s)]

def colloc(kind, s):
    c = nodes(kind, s)
    b = vander_solve(c, [mp.mpf(1) / (q + 1) for q in range(s)])
    A = [vander_solve(c, [ci ** (q + 1) / (q + 1) for q in range(s)]) for ci in c]
    return A, b, c

def lob3c(s):
    c = nodes("lobatto", s)
    b = vander_solve(c, [mp.mpf(1) / (q + 1) for q in range(s)])
    A = []
    for ci in c:
        # a_i1 = b_1, and C(s-1): sum_j a_ij c_j^(q-1) = ci^q/q
        M = mp.matrix(s, s); rhs = mp.matrix(s, 1)
        M[0, 0] = 1; rhs[0] = b[0]
        for q in range(s - 1):
            for j in range(s):
                M[q + 1, j] = c[j] ** q if q else mp.mpf(1)
            rhs[q + 1] = ci ** (q + 1) / (q + 1)
        w = mp.lu_solve(M, rhs)
        A.append([w[i] for i in range(s)])
    return A, b, c

IRK = {
    "IMPLICIT_EULER": colloc("radau", 1) + (1, 0),
    "RADAU_IIA_32": colloc("radau", 2) + (3, 2),
    "RADAU_IIA_53": colloc("radau", 3) + (5, 3),
    "RADAU_IIA_95": colloc("radau", 5) + (9, 5),
    "RADAU_IIA_137": colloc("radau", 7) + (13, 7),
    "LOBATTO_IIIA_43": colloc("lobatto", 3) + (4, 2),
    "LOBATTO_IIIA_127": colloc("lobatto", 7) + (12, 7),
    "LOBATTO_IIIC_43": lob3c(3) + (4, 2),
    "LOBATTO_IIIC_64": lob3c(4) + (6, 3),
    "LOBATTO_IIIC_85": lob3c(5) + (8, 4),
    "GAUSS_LEGENDRE_42": colloc("gauss", 2) + (4, 2),
    "GAUSS_LEGENDRE_147": colloc("gauss", 7) + (14, 7),
}

def num(x): return mp.nstr(x, 21) if x != 0 else "0.0"
def fmt(x):
    t = num(mp.mpf(x))
    return t if ("." in t or "e" in t) else t + ".0"
def row(v): return "{" + ", ".join(fmt(x) for x in v) + "}"

out = ["// Generated by tools/gen_ref.py; do not edit.", "#ifndef REF_TABLEAUX_HPP", "#define REF_TABLEAUX_HPP",
       "#include <vector>", "#include <string>", "namespace ref {",
       "struct Tableau { const char *name; int method; bool implicit; int order, order2; bool fsal;",
       "\tstd::vector<std::vector<double>> A; std::vector<double> b, c, b2; };",
       "inline const std::vector<Tableau> &all()", "{", "\tstatic const std::vector<Tableau> T = {"]
for n, (A, b, c, b2, o, o2, fs) in ERK.items():
    out.append("\t{\"%s\", erk::%s, false, %d, %d, %s,\n\t {%s},\n\t %s, %s, %s}," %
               (n, n, o, o2, str(fs).lower(), ",\n\t  ".join(row(r) for r in A), row(b), row(c), row(b2)))
for n, (A, b, c, o, o2) in IRK.items():
    out.append("\t{\"%s\", irk::%s, true, %d, %d, false,\n\t {%s},\n\t %s, %s, {}}," %
               (n, n, o, o2, ",\n\t  ".join(row(r) for r in A), row(b), row(c)))
out += ["\t};", "\treturn T;", "}", "} // namespace ref", "#endif"]
import os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "ref_tableaux.hpp")
open(p, "w").write("\n".join(out) + "\n")
