"""Approximations of fork-join systems and the calculation of queueing networks."""
import math
from fractions import Fraction
from math import comb, factorial

from . import alg
from .alg import Rat, rat, ZERO, ONE, R, contains_atom, deep_subst, r_exp
from .interp import Tup
from .matinterp import MatInterp
from .rules_dist import OPAQUE
from .rules_theory import S, Model, same, show, total, numeric, convolve, derived
from .rules_mg1 import mom

F = Fraction

# ------------------------------------------------------------------ fork-join
FJ = '''
from most_queue.theory import fj_calc as Q
def two(l, mu):
    return Q.get_v1_fj2(l, mu)
def varma(l, mu, n):
    return Q.get_v1_fj_varma(l, mu, n)
def nelson(l, mu, n):
    return Q.get_v1_fj_nelson_tantawi(l, mu, n)
def varki(l, mu, n):
    return Q.get_v1_fj_varki_merchant(l, mu, n)
def varma_nk(l, mu, n, k):
    return Q.get_v1_varma_nk(l, mu, n, k)
def nelson_nk(l, mu, n, k):
    return Q.get_v1_fj_nelson_nk(l, mu, n, k)
def weights(n, k, i):
    return Q.get_W(n, k, i)
def consts(n):
    return [Q.get_Hn(n), Q.get_V(n)]
def invar(l, mu, n):
    return Q.get_v1_fj_invar(l, mu, n)
def invar_sj(l, mu, n):
    return Q.get_v1_fj_invar_sj(l, mu, n)
def invar_tt(l, b, n):
    return Q.get_v_fj_invar_tt(l, b, n)
def vmax(l, b, n, num):
    return Q.get_v_fj_max(l, b, n, num)
def maximum(n, b, num):
    return Q.getMaxMoments(n, b, num)
def delayed(n, b, num, delta):
    return Q.getMaxMomentsDelta(n, b, num, delta)
def h2(p, t, n, d):
    return Q.dfr_H2_Mult(p, t, n, d)
def erl(p, t, n, d):
    return Q.dfr_Erl_Mult(p, t, n, d)
def gam(p, t, n, d):
    return Q.dfr_Gamma_Mult(p, t, n, d)
'''


def H(n):
    return rat(sum((F(1, i) for i in range(1, n + 1)), F(0)))


def V(n):
    """heavy traffic constant of Varma and Makowski"""
    return rat(sum(comb(n, r) * (-1) ** (r - 1) * sum(F(comb(r, m) * factorial(m - 1), r ** (m + 1)) for m in range(1, r + 1)) for r in range(1, n + 1)))


def W(n, k, i):
    """the k-th smallest of n exchangeable variables through maxima of i of them"""
    return rat(comb(n, i) * comb(i - 1, k - 1) * (-1) ** (i - k))


def fork_join(ctx, rep, tier):
    l, mu = S("l"), S("mu")
    ro = l / mu
    stable = lambda ip, st: ip.assume_cmp(st, ">", mu - l)
    m = Model(ctx, rep, "mean sojourn of fork-join")

    def one(entry, args, rule, want, label=None):
        mm = Model(ctx, rep, label or entry, interp=MatInterp)
        for ip, st, v in mm.run(FJ, args, [l, mu], assume=stable, entry=entry):
            if v is None:
                rep.ob(rule, mm.label, False, f"{mm.label} raises")
                continue
            mm.eq(rule, v, want, ip, st)

    varma = lambda n: (H(n) + (V(n) - H(n)) * ro) / (mu - l)
    nelson = lambda n: (H(n) / H(2) + rat(F(4, 11)) * (1 - H(n) / H(2)) * ro) * (12 - ro) / (8 * (mu - l))
    nt = lambda n: nelson(n) if n > 1 else ONE / (mu - l)
    top = 7 if tier == "thorough" else 5

    def main():
        one("two", [l, mu], "two branches: the exact (12 - rho) / (8 (mu - l))", (12 - ro) / (8 * (mu - l)), "get_v1_fj2")
        for n in range(1, top + 1):
            one("consts", [n], "harmonic number and heavy-traffic constant", [H(n), V(n)], f"get_Hn, get_V of {n}")
            one("varma", [l, mu, n], "interpolation between light and heavy traffic", varma(n), f"get_v1_fj_varma of {n}")
            if n > 1:
                one("nelson", [l, mu, n], "Nelson-Tantawi scaling from two branches", nelson(n), f"get_v1_fj_nelson_tantawi of {n}")
            a = ro / (2 * (1 - ro))
            one("varki", [l, mu, n], "exact for one branch, harmonic number in light traffic (Varki, Merchant, Chen)",
                (H(n) + a * (total(ONE / (i - ro) for i in range(1, n + 1)) + (1 - 2 * ro) * total(ONE / (i * (i - ro)) for i in range(1, n + 1)))) / mu,
                f"get_v1_fj_varki_merchant of {n}")
            for k in range(1, n + 1):
                for i in range(k, n + 1):
                    one("weights", [n, k, i], "order statistics through maxima of subsets", W(n, k, i), f"get_W of {n}, {k}, {i}")
                one("varma_nk", [l, mu, n, k], "k of n through maxima of subsets (Varma)", total(W(n, k, i) * varma(i) for i in range(k, n + 1)), f"get_v1_varma_nk of {n}, {k}")
                if n > 1:
                    one("nelson_nk", [l, mu, n, k], "k of n through maxima of subsets (Nelson)", total(W(n, k, i) * nt(i) for i in range(k, n + 1)),
                        f"get_v1_fj_nelson_nk of {n}, {k}")
    rep.guard(m.label, main)


def ratios(ctx, rep, tier):
    """approximations by the ratio of two simpler queues: exact for two branches, otherwise the value for two times the ratio"""
    l, mu = S("l"), S("mu")
    v2 = (12 - l / mu) / (8 * (mu - l))
    stable = lambda ip, st: ip.assume_cmp(st, ">", mu - l)
    made = []

    def val(name, key):
        return R("sym", f"{name}({key})")

    def mmnr(ip, st, ar, kw, sv):
        return ip.new_list(st, [val(f"v{i}", "; ".join(str(x) for x in ar[:3])) for i in range(3)])

    def main():
        for n in (2, 3, 5):
            m = Model(ctx, rep, f"fork-join of {n} by multichannel queues", interp=MatInterp, stubs={"MMnr_calc.get_v": mmnr})
            for ip, st, v in m.run(FJ, [l, mu, n], [l, mu], assume=stable, entry="invar"):
                a, b = (val("v0", "; ".join(str(x) for x in (l, mu / k, rat(k)))) for k in (n, 2))
                m.eq("value for two branches times the ratio of the queues with n and with 2 servers", v, v2 * a / b, ip, st)
    rep.guard("invariance of multichannel queues", main)

    def sj():
        def maxm(ip, st, ar, kw, sv):
            b = ip.nest(st, ar[1])
            return ip.new_list(st, [val(f"max{i}", f"{ar[0]}; {b}") for i in range(3)])

        def w(ip, st, ar, kw, sv):
            return ip.new_list(st, [val(f"w{i}", f"{ar[0]}; {ip.nest(st, ar[1])}") for i in range(2)])
        for n in (2, 3, 5):
            m = Model(ctx, rep, f"fork-join of {n} by split-join", interp=MatInterp, stubs={"getMaxMoments": maxm, "get_w": w})
            for ip, st, v in m.run(FJ, [l, mu, n], [l, mu], assume=stable, entry="invar_sj"):
                q = []
                for k in (n, 2):
                    mk = mu / k
                    b = [ONE / mk, rat(2) / mk ** 2, rat(6) / mk ** 3]
                    q.append(val("w0", f"{l}; {[val(f'max{i}', f'{rat(k)}; {b}') for i in range(3)]}"))
                m.eq("value for two branches times the ratio of the split-join queues with n and with 2 servers", v, v2 * q[0] / q[1], ip, st)
    rep.guard("invariance of split-join queues", sj)

    def tt():
        b = [S("b1"), S("b1") ** 2 * (1 + S("c") ** 2), S("b1") ** 3 * (1 + S("c") ** 2) * (1 + 2 * S("c") ** 2)]
        seen = {}

        def init(ip, st, ar, kw, sv):
            seen[sv.as_atom()] = (ar, ip.nest(st, ar[2]))
            return None

        def run(ip, st, ar, kw, sv):
            seen.setdefault(("run", sv.as_atom()), True)
            return None

        def w(ip, st, ar, kw, sv):
            a = sv.as_atom()
            if ("run", a) not in seen or a not in seen:
                return ip.unknown(st, "w")
            n = seen[a][0][0]
            return ip.new_list(st, [val(f"w{i}", str(n)) for i in range(3)])
        for n in (2, 3, 5):
            seen.clear()
            m = Model(ctx, rep, f"fork-join of {n} by Takahashi-Takami", interp=MatInterp, stubs={"MGnCalc.__init__": init, "MGnCalc.run": run, "MGnCalc.get_w": w})
            for ip, st, v in m.run(FJ, [l, b, n], [l, S("b1"), S("c")], entry="invar_tt"):
                if not numeric(v):
                    rep.ob("ratio of the queues", m.label, None if v is not None else False, str(v))
                    continue
                a, c = val("w0", str(rat(n))), val("w0", "2")
                ro = l * S("b1")
                m.eq("value for two branches times the ratio of the queues with n and with 2 servers", v[0], (12 - ro) / (8 * (ONE / S("b1") - l)) * a / c, ip, st)
                for at, got in list(seen.items()):
                    if isinstance(at, tuple):
                        continue
                    ar, bb = got
                    m.eq("the queues get the arrival rate", ar[1], l, ip, st)
                    if numeric(bb) and isinstance(ar[0], Rat):
                        m.eq("mean service grows with the number of servers", bb[0], ar[0] * b[0], ip, st)
                        if len(bb) > 1:
                            m.eq("the variation of the service is kept", bb[1] * b[0] ** 2, b[1] * bb[0] ** 2, ip, st)
    rep.guard("invariance of general multichannel queues", tt)

    def vmax():
        def maxm(ip, st, ar, kw, sv):
            n = ar[2].const() if len(ar) > 2 else 3
            return ip.new_list(st, [val(f"max{i}", f"{ar[0]}; {ip.nest(st, ar[1])}") for i in range(int(n))])
        vs = mom("v", 3)
        got = []

        def v(ip, st, ar, kw, sv):
            got.append((ar[0], ip.nest(st, ar[1])))
            return ip.new_list(st, vs)
        b = mom("b", 4)
        m = Model(ctx, rep, "fork-join as maximum of independent branches", interp=MatInterp, stubs={"getMaxMoments": maxm, "get_v": v})
        for ip, st, r in m.run(FJ, [l, b, 4, 3], [l], entry="vmax"):
            if not numeric(r) or not r:
                rep.ob("maximum of the branches", m.label, None if r is not None else False, str(r))
                continue
            m.eq("moments of the maximum of n sojourn times", r, [val(f"max{i}", f"{rat(4)}; {vs}") for i in range(len(r))], ip, st)
            m.eq("sojourn of one branch", list(got[-1]) if got else None, [l, b], ip, st)
    rep.guard("fork-join as maximum", vmax)


# ------------------------------------------------------------------ moments of a maximum
FAMILIES = {"h2": "H2_dist", "erl": "Erlang_dist", "gam": "Gamma"}


def cdf_stub(cdf):
    def f(ip, st, ar, kw, sv):
        t = ar[-1]
        p = ar[:-1]
        if len(p) == 1:
            q = ip.nest(st, p[0])
            p = q if isinstance(q, list) else p
        return cdf(tuple(p), t)
    return f


def maxima(ctx, rep, tier):
    t, d = S("t"), S("d")
    p = [S("p0"), S("p1")]

    def cdf(q, x):
        return R("cdf", Tup(tuple(q)), x)

    def tails():
        for ent, fam in FAMILIES.items():
            for n in (1, 2, 3):
                for delta in (0, d):
                    m = Model(ctx, rep, f"tail of the maximum of {n} ({fam}{', delayed' if delta is d else ''})", interp=MatInterp,
                              stubs={f"{fam}.get_cdf": cdf_stub(cdf)})
                    for ip, st, v in m.run(FJ, [p, t, n, delta], [t, d], entry=ent):
                        want = ONE
                        for i in range(n):
                            want = want * cdf(p, t - i * delta)
                        if v is None:
                            rep.ob("tail of a maximum = 1 - product of the distribution functions", m.label, False, "raises")
                            continue
                        m.eq("tail of a maximum = 1 - product of the distribution functions", v, ONE - want, ip, st)
        # random delays: part i starts after i of them
        delta = mom("d", 3)
        bm = mom("b", 3)
        m = Model(ctx, rep, "tail of the maximum of 3 with random delays", interp=MatInterp, stubs={
            "Gamma.get_cdf": cdf_stub(cdf), "Gamma.calc_theory_moments": lambda ip, st, a, k, s: ip.new_list(st, bm),
            "Gamma.get_mu_alpha": lambda ip, st, a, k, s: Tup(tuple(ip.nest(st, a[0])[:2]))})
        for ip, st, v in m.run(FJ, [p, t, 3, delta], [t] + delta + bm, entry="gam"):
            s = [bm, convolve(bm, delta), convolve(bm, convolve(delta, delta))]
            want = ONE
            for x in s:
                want = want * cdf(x[:2], t)
            m.eq("part i of a delayed maximum takes its service plus i delays", v, ONE - want, ip, st)
    rep.guard("tails of maxima", tails)

    def quadrature(src, args, label, stubs, pos=(), num=4, rule="moments of a maximum are (k+1) times the integral of t^k over its tail"):
        """exact for tails exp(-t) * polynomial of degree up to ten, and the maximum is that of the right number of parts"""
        for deg in (0, 1, 3, 7, 10):
            def tail(ip, st, ar, kw, sv, deg=deg):
                x = next(a for a in ar if isinstance(a, Rat) and a.const() is not None)
                return r_exp(-x) * x ** deg
            mm = Model(ctx, rep, label, interp=MatInterp, stubs={**stubs, **{f: tail for f in ("dfr_H2_Mult", "dfr_Erl_Mult", "dfr_Gamma_Mult")}})
            for ip, st, v in mm.run(FJ, args, pos, entry=src):
                if not numeric(v):
                    rep.ob(rule, label, None if v is not None else False, str(v))
                    continue
                for k, x in enumerate(v):
                    c = alg.rationalise(x).const() if x.const() is None else x.const()
                    want = (k + 1) * factorial(k + deg)
                    rep.ob(rule, label, None if c is None else abs(c - want) <= want * F(1, 10 ** 6),
                           f"{label}: tail exp(-t) t^{deg}, moment {k + 1}: {show(x)[:60]} instead of {want}")

    def maxmom():
        b = mom("b", 3)
        tagged = {f"{c}.get_params": (lambda ip, st, a, k, s, c=c: Tup((R("sym", "par_" + c), rat(1)))) for c in ("H2_dist", "Erlang_dist")}
        tagged["Gamma.get_mu_alpha"] = lambda ip, st, a, k, s: Tup((R("sym", "par_Gamma"), rat(1)))
        quadrature("maximum", [3, b, 3], "getMaxMoments of three service moments", tagged, b)
        quadrature("maximum", [3, b[:2], 2], "getMaxMoments of two service moments", tagged, b)
        quadrature("delayed", [3, b, 4, d], "getMaxMomentsDelta", tagged, b + [d])
        quadrature("delayed", [3, b, 4, 0], "getMaxMomentsDelta without delay", tagged, b)
        # which law, which parameters, how many parts
        for ent, args, extra in (("maximum", [3, b, 3], []), ("maximum", [4, b[:2], 2], []), ("delayed", [3, b, 4, d], [d]), ("delayed", [3, b, 2, 0], [])):
            label = f"{ent} of {args[0]} with {len(args[1])} moments" + (" and delay" if extra else "")
            calls = []
            fits = {}

            def fit(fam):
                def f(ip, st, a, k, s):
                    x = R("sym", f"par_{fam}")
                    fits[x] = ip.nest(st, a[0])
                    return Tup((x, rat(1)))
                return f

            def tail(fam):
                def f(ip, st, ar, kw, sv):
                    pr = ip.nest(st, ar[0])
                    dl = ar[3] if len(ar) > 3 else kw.get("delta", ZERO)
                    calls.append((fam, pr[0] if isinstance(pr, list) else None, ar[2], ZERO if dl is None else dl))
                    return R("sym", "tail")
                return f
            m = Model(ctx, rep, label, interp=MatInterp, stubs={"H2_dist.get_params": fit("H2_dist"), "Erlang_dist.get_params": fit("Erlang_dist"),
                                                                "Gamma.get_mu_alpha": fit("Gamma"), "dfr_H2_Mult": tail("H2_dist"),
                                                                "dfr_Erl_Mult": tail("Erlang_dist"), "dfr_Gamma_Mult": tail("Gamma")})
            for ip, st, v in m.run(FJ, args, b + extra, entry=ent):
                pass
            if not calls:
                rep.ob("the maximum is that of the fitted law", label, None)
            for fam, x, n, dl in calls:
                rep.ob("the maximum is that of the fitted law", label, None if x is None or x not in fits else x == R("sym", f"par_{fam}"), f"tail of {fam} with parameters {x}")
                m.eq("the law is fitted to the service moments", fits.get(x), args[1])
                m.eq("the maximum is over all parts", n, rat(args[0]))
                m.eq("the delay is passed on", dl if isinstance(dl, Rat) else ZERO if dl is False else dl, extra[0] if extra else ZERO)
    rep.guard("moments of maxima", maxmom)


# ------------------------------------------------------------------ networks
NETW = '''
import numpy as np
from most_queue.theory import network_calc as Q
def balance(L, R):
    return Q.balance_equation(L, np.array(R))
def calc(R, b, n, L, prty, order):
    r = Q.network_prty_calc([np.array(x) for x in R], b, n, L, prty, order)
    return [r['v'], r['v_node'], r['loads']]
'''


def traffic(rep, m, L, Rm, lam, ip, st, rule="the flow into a node is the external one plus the routed departures of all nodes", where=None):
    if not numeric(lam) or len(lam) != len(Rm[0]) - 1:
        rep.ob(rule, where or m.label, None if lam is not None and not numeric(lam) else False, str(lam)[:200])
        return
    for j in range(len(lam)):
        m.eq(rule, lam[j], L * Rm[0][j] + total(lam[i] * Rm[i + 1][j] for i in range(len(lam))), ip, st, where)


def q(*xs):
    return [rat(F(x)) if not isinstance(x, Rat) else x for x in xs]


ROUTES = {
    "two nodes in a loop": [q("3/4", "1/4", 0), q("1/5", "1/2", "3/10"), q("2/5", "1/10", "1/2")],
    "one node": [q(1, 0), q("1/3", "2/3")],
    "three nodes": [q("1/2", "1/3", "1/6", 0), q(0, "1/4", "1/4", "1/2"), q("1/10", 0, "3/5", "3/10"), q("1/7", "2/7", 0, "4/7")],
    "three nodes, the last not visited": [q("1/2", "1/2", 0, 0), q(0, "1/4", 0, "3/4"), q("1/10", 0, 0, "9/10"), q("1/7", "2/7", 0, "4/7")],
    "three nodes, the first not visited": [q(0, "1/2", "1/2", 0), q("0", "1/4", "1/4", "1/2"), q(0, "1/3", "1/5", "7/15"), q(0, "2/7", "1/7", "4/7")],
    "three nodes, the middle not visited": [q("1/3", 0, "2/3", 0), q("1/3", 0, "1/4", "5/12"), q("1/5", 0, "1/3", "7/15"), q("1/7", 0, "2/7", "4/7")],
    "jobs leave at once from the entrance": [q("1/2", "1/4", "1/4"), q("1/5", "1/2", "3/10"), q("2/5", "1/10", "1/2")],
}


def balance(ctx, rep, tier):
    L = S("L")
    for name, Rm in ROUTES.items():
        m = Model(ctx, rep, "traffic equations: " + name, interp=MatInterp)

        def run(m=m, Rm=Rm):
            for ip, st, v in m.run(NETW, [L, Rm], [L], entry="balance"):
                traffic(rep, m, L, Rm, v, ip, st)
        rep.guard(m.label, run)


def solve(A, b):
    """linear system with Rat coefficients"""
    n = len(A)
    a = [list(r) + [b[i]] for i, r in enumerate(A)]
    for c in range(n):
        p = next(i for i in range(c, n) if not a[i][c].is_zero())
        a[c], a[p] = a[p], a[c]
        a[c] = [x / a[c][c] for x in a[c]]
        for i in range(n):
            if i != c and not a[i][c].is_zero():
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[c])]
    return [a[i][n] for i in range(n)]


def network(ctx, rep, tier):
    R1, R2 = ROUTES["two nodes in a loop"], [q("1/8", "7/8", 0), q(0, "2/3", "1/3"), q("1/4", 0, "3/4")]
    R3 = ROUTES["three nodes"]
    cases = [("2 classes, orders differ between the nodes", [R1, R2], [[0, 1], [1, 0]], [2, 3]),
             ("1 class", [R1], [[0], [0]], [1, 4]),
             ("3 classes, cyclic orders", [R1, R2, R1], [[1, 2, 0], [2, 0, 1]], [1, 2])]
    if tier == "thorough":
        cases.append(("2 classes, 3 nodes", [R3, [R3[0], R3[2], R3[1], R3[3]]], [[0, 1], [1, 0], [0, 1]], [2, 1, 3]))
    for name, Rs, order, n in cases:
        K, M = len(Rs), len(Rs[0]) - 1
        L = [S(f"L{k}") for k in range(K)]
        b = [[mom(f"b{k}{i}_", 4) for i in range(M)] for k in range(K)]
        prty = ["PR", "NP", "PR"][:M]
        asked, fits, diffs = [], {}, []

        def vinv(ip, st, ar, kw, sv, asked=asked, K=K):
            k = len(asked)
            asked.append([ip.nest(st, ar[0]), ip.nest(st, ar[1])] + list(ar[2:]))
            return ip.new_list(st, [ip.new_list(st, [S(f"v{k}_{o}_{j}") for j in range(3)]) for o in range(K)])

        def fit(ip, st, ar, kw, sv, fits=fits):
            mm = ip.nest(st, ar[0])
            return Tup((R("fit", Tup(tuple(mm[:2]))), rat(1)))

        def pls(ip, st, ar, kw, sv):
            return R("pls", ar[0], ar[2])

        def diff(ip, st, ar, kw, sv, diffs=diffs):
            diffs.append((ip.nest(st, ar[0]), ar[1]))
            return ip.new_list(st, [S(f"d{len(diffs) - 1}_{i}") for i in range(3)])
        m = Model(ctx, rep, "network: " + name, interp=MatInterp, stubs={"get_v_prty_invar": vinv, "Gamma.get_mu_alpha": fit, "Gamma.get_pls": pls, "diff5dots": diff})

        def run(m=m, Rs=Rs, b=b, n=n, L=L, prty=prty, order=order, K=K, M=M, asked=asked, diffs=diffs):
            res = m.run(NETW, [Rs, b, n, L, prty, order], L + [x for r in b for y in r for x in y], entry="calc")
            if len(res) != 1:
                rep.ob("network results", m.label, None, f"{len(res)} paths")
                return
            for ip, st, v in res[:1]:
                if not (isinstance(v, list) and len(v) == 3):
                    rep.ob("network results", m.label, None if v is not None else False, str(v)[:200])
                    continue
                vs, vn, loads = v
                lam = []
                for k in range(K):
                    A = [[(ONE if i == j else ZERO) - Rs[k][j + 1][i] for j in range(M)] for i in range(M)]
                    lam.append(solve(A, [L[k] * Rs[k][0][i] for i in range(M)]))
                m.eq("load of a node = sum over the classes of flow times mean service, over the channels", loads,
                     [total(lam[k][i] * b[k][i][0] for k in range(K)) / n[i] for i in range(M)], ip, st)
                # every node is solved with the classes in the order of their priority
                at = {}
                for c, call in enumerate(asked):
                    for i in range(M):
                        want_l = [None] * K
                        want_b = [None] * K
                        for k in range(K):
                            want_l[order[i][k]] = lam[k][i]
                            want_b[order[i][k]] = b[k][i]
                        if numeric(call[0]) and same(call[0], want_l, ip, st) and same([x[:3] for x in call[1]], [x[:3] for x in want_b], ip, st):
                            at[i] = c
                            m.eq("a node is solved with its own number of channels", call[2] if isinstance(call[2], Rat) else rat(call[2]), rat(n[i]), ip, st)
                            rep.ob("a node is solved with its own kind of priority", m.label, call[3] == prty[i], f"node {i}: {call[3]}")
                for i in range(M):
                    if i not in at:
                        rep.ob("a node is solved with the flows and services of its classes by priority", m.label,
                               False if len(asked) == M and all(numeric(c[0]) for c in asked) else None, f"node {i} of {m.label}: {asked}"[:300])
                        continue
                    rep.ob("a node is solved with the flows and services of its classes by priority", m.label, True)
                    m.eq("sojourn in a node belongs to the class with that priority", vn[i] if isinstance(vn, list) and i < len(vn) else None,
                         [[S(f"v{at[i]}_{order[i][k]}_{j}") for j in range(3)] for k in range(K)], ip, st)
                if len(at) < M:
                    continue
                for k in range(K):
                    N = lambda i, s: R("pls", R("fit", Tup((S(f"v{at[i]}_{order[i][k]}_0"), S(f"v{at[i]}_{order[i][k]}_1")))), s)

                    def phi(s):
                        A = [[(ONE if i == j else ZERO) - N(i, s) * Rs[k][i + 1][j] for j in range(M)] for i in range(M)]
                        x = solve(A, [N(i, s) * Rs[k][i + 1][M] for i in range(M)])
                        return total(Rs[k][0][i] * x[i] for i in range(M))
                    rule = "sojourn transform of a class: a path through the nodes"
                    hit = None
                    for c, (f, h) in enumerate(diffs):
                        if isinstance(vs, list) and k < len(vs) and same(vs[k], [-S(f"d{c}_0"), S(f"d{c}_1"), -S(f"d{c}_2")], ip, st):
                            hit = c
                    if hit is None:
                        rep.ob(rule + " has signed derivatives as moments", m.label, False if diffs and isinstance(vs, list) and all(numeric(x) for x in vs) else None,
                               f"{show(vs)[:200]}")
                        continue
                    f, h = diffs[hit]
                    if not numeric(f):
                        rep.ob(rule, m.label, None)
                        continue
                    best = []
                    for off in (0, 1):
                        x = [phi(h * (i + off)) if i + off else total(Rs[k][0][:M]) for i in range(len(f))]
                        r = [same(u, w, ip, st) for u, w in zip(f, x)]
                        best.append(False if False in r else None if None in r else True)
                    rep.ob(rule, m.label, True if True in best else None if None in best else False, f"class {k} of {m.label}: the differentiated values are not the transform at equal steps")
        rep.guard(m.label, run)
