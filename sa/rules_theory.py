"""Closed-form and numeric queueing models of theory/: laws that hold for every rate."""
from fractions import Fraction
from math import comb, factorial

from . import alg
from .alg import Rat, rat, R, ZERO, ONE, atom, contains_atom, deep_subst, r_pow, r_exp
from .fn import Sym, items
from .interp import State, Tup
from .model import AnalysisBroken
from .rules_dist import OPAQUE
from .matinterp import MatInterp


def S(n):
    return R("sym", n)


def py(ip, st, v):
    """nested lists / tuples / dictionaries of the abstract heap as python values"""
    if isinstance(v, Tup):
        return [py(ip, st, x) for x in v.items]
    if isinstance(v, Rat) and v.as_atom() is not None:
        a = v.as_atom()
        if a in st.lists:
            return [py(ip, st, x) for x in st.lists[a]]
        if a.kind == "list":
            ln = ip.list_len(st, a)
            c = ln.const() if isinstance(ln, Rat) else None
            if c is not None:
                return [py(ip, st, ip.elem_addr_value(st, a, rat(i))) for i in range(int(c))]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, float)):
        return rat(v)
    return v


def same(got, want, ip=None, st=None):
    """True / False / None: equal as normal forms; None when the value is not understood"""
    if isinstance(got, list) and isinstance(want, list):
        if len(got) != len(want):
            return False
        vs = [same(g, w, ip, st) for g, w in zip(got, want)]
        return False if False in vs else None if None in vs else True
    if not isinstance(got, Rat):
        return None if got is not None and not isinstance(got, (list, str, bool)) else False
    d = got - want
    if d.is_zero():
        return True
    d = alg.rationalise(d)
    if contains_atom(d, lambda a: a.kind == "call" and a.args[0] == "zerodiv"):
        return False
    if d.is_zero() or ip is not None and ip.decide_cmp(st.facts, "==", d) is True:
        return True
    return None if contains_atom(d, lambda a: a.kind in OPAQUE) else False


class Model:
    """results of a small entry program over the repository's functions, for all abstract paths"""

    def __init__(self, ctx, rep, label, unroll=None, **kw):
        self.ctx, self.rep, self.label = ctx, rep, label
        self.sym = Sym(ctx.prog, **kw)

    def run(self, src, args, pos=(), assume=None, entry="drive"):
        ip, st = self.sym.ip(), State()
        for x in pos:
            ip.assume_cmp(st, ">", x)
        if assume:
            assume(ip, st)
        _, res = self.sym.drive(src, args, ip=ip, st=st, entry=entry)
        self.rep.functions({f.qual for f in ip.inlined})
        self.rep.count("paths", len(res))
        out = []
        for s, v in res:
            out.append((ip, s, None if "raise" in s.flags else py(ip, s, v)))
        return out

    def eq(self, rule, got, want, ip=None, st=None, where=None):
        v = same(got, want, ip, st)
        self.rep.ob(rule, where or self.label, v, f"{self.label}: got {show(got)}, expected {show(want)}")
        return v


def show(x):
    if isinstance(x, list):
        return "[" + ", ".join(show(y) for y in x) + "]"
    return str(x)[:160]


def total(xs):
    out = ZERO
    for x in xs:
        out = out + x
    return out


def numeric(xs):
    return isinstance(xs, list) and all(isinstance(x, Rat) for x in xs)


# ------------------------------------------------------------------ M/M/n/r
MMNR = '''
from most_queue.theory.mmnr_calc import MMnr_calc as Q
def drive(l, mu, n, r):
    return [Q.get_p(l, mu, n, r), Q.getPI(l, mu, n, r), Q.getQ(l, mu, n, r), Q.get_qs(l, mu, n, r), Q.get_w(l, mu, n, r), Q.get_v(l, mu, n, r)]
'''
MMNR_P = '''
from most_queue.theory.mmnr_calc import MMnr_calc as Q
def drive(l, mu, n, r):
    return Q.get_p(l, mu, n, r)
'''


def mmnr(ctx, rep, tier):
    l, mu = S("l"), S("mu")
    sizes = [(1, 0), (1, 3), (2, 1), (2, 3), (3, 4)] + ([(4, 5), (5, 3)] if tier == "thorough" else [])
    for n, r in sizes:
        m = Model(ctx, rep, f"M/M/{n}/{r}")

        def run(n=n, r=r, m=m):
            for ip, st, v in m.run(MMNR, [l, mu, n, r], [l, mu]):
                if not (isinstance(v, list) and len(v) == 6):
                    rep.ob("M/M/n/r results", m.label, None if v is not None else False, f"{v}")
                    continue
                p, pi, q, qs, w, vv = v
                birth_death(rep, m, p, lambda i: l, lambda i: rat(min(i, n)) * mu, n + r, ip, st)
                if not numeric(p) or len(p) != n + r + 1:
                    continue
                m.eq("probability of loss = probability of a full system", pi, p[n + r], ip, st)
                m.eq("mean queue = sum over the queue lengths", q, total(i * p[n + i] for i in range(1, r + 1)), ip, st)
                fact = [total(rat(factorial(i) // factorial(i - k)) * p[n + i] for i in range(k, r + 1)) for k in (1, 2, 3)]
                m.eq("factorial moments of the queue", qs, fact, ip, st)
                acc = ONE - p[n + r]
                ww = [total(rat(factorial(i + k) // factorial(i)) * p[n + i] for i in range(r)) / ((n * mu) ** k * acc) for k in (1, 2, 3)]
                m.eq("mean waiting of accepted jobs by Little's law", w[:1] if isinstance(w, list) else w, [fact[0] / (l * acc)], ip, st)
                m.eq("an accepted job waits for one service more than it finds in the queue", w, ww, ip, st)
                m.eq("sojourn = waiting + service", vv, convolve(ww, [rat(factorial(k)) / mu ** k for k in (1, 2, 3)]), ip, st)
        rep.guard(m.label, run)

        def critical(n=n, r=r, m=m):
            try:
                res = m.run(MMNR_P, [l, l / n, n, r], [l])
            except ZeroDivisionError as e:
                rep.ob("finite queue is solved at load 1", m.label, False, "division by zero when arrival rate = n * service rate")
                return
            for ip, st, p in res:
                birth_death(rep, m, p, lambda i: l, lambda i: rat(min(i, n)) * l / n, n + r, ip, st, " at load 1")
        rep.guard(m.label + " load 1", critical)


def birth_death(rep, m, p, up, down, top, ip, st, tag=""):
    if not isinstance(p, list) or not all(isinstance(x, Rat) for x in p):
        rep.ob("state probabilities" + tag, m.label, None if p is not None else False, f"{p}")
        return
    rep.ob("one probability per state" + tag, m.label, len(p) == top + 1, f"{len(p)} probabilities for {top + 1} states")
    m.eq("probabilities sum to one" + tag, total(p), ONE, ip, st)
    for i in range(min(top, len(p) - 1)):
        v = same(up(i) * p[i], down(i + 1) * p[i + 1], ip, st)
        rep.ob("balance between neighbouring states" + tag, m.label, v, f"flow up from {i}: {show(up(i) * p[i])}, down from {i + 1}: {show(down(i + 1) * p[i + 1])}")


def convolve(a, b):
    """moments 1.. of a sum of independent variables"""
    a, b = [ONE] + list(a), [ONE] + list(b)
    return [total(rat(comb(k, i)) * a[i] * b[k - i] for i in range(k + 1)) for k in range(1, min(len(a), len(b)))]


# ------------------------------------------------------------------ Engset
ENGSET = '''
from most_queue.theory.engset_model import Engset
def drive(lam, mu, m, s):
    q = Engset(lam, mu, m)
    p = q.get_p()
    N = q.get_N()
    return [p, N, q.get_Q(), q.get_kg(), q.get_w1(), q.get_v1(), q.ws(s, p[0], N)]
'''
ENGSET_P = '''
from most_queue.theory.engset_model import Engset
def drive(lam, mu, m):
    return Engset(lam, mu, m).get_p()
'''
ENGSET_W = '''
from most_queue.theory.engset_model import Engset
def w(lam, mu, m):
    return Engset(lam, mu, m).get_w()
def v(lam, mu, m):
    return Engset(lam, mu, m).get_v()
'''
ENGSET_LAM = '''
from most_queue.theory.engset_model import Engset
def drive(lam, mu, m):
    return Engset(lam, mu, m).get_lamD()
'''


def engset(ctx, rep, tier):
    lam, mu, s = S("lam"), S("mu"), S("s")
    for mm in (1, 2, 3, 5) + ((7,) if tier == "thorough" else ()):
        m = Model(ctx, rep, f"M/M/1 with {mm} sources")

        def run(mm=mm, m=m):
            for ip, st, v in m.run(ENGSET, [lam, mu, mm, s], [lam, mu, s]):
                if not (isinstance(v, list) and len(v) == 7):
                    rep.ob("finite-source results", m.label, None if v is not None else False, f"{v}")
                    continue
                p, N, Q, kg, w1, v1, ws = v
                birth_death(rep, m, p, lambda i: rat(mm - i) * lam, lambda i: mu, mm, ip, st)
                if not numeric(p) or len(p) != mm + 1:
                    continue
                n = total(i * p[i] for i in range(mm + 1))
                q = total((i - 1) * p[i] for i in range(1, mm + 1))
                rate = lam * (mm - n)
                m.eq("mean number of jobs", N, n, ip, st)
                m.eq("mean queue", Q, q, ip, st)
                m.eq("probability that a source is ready = fraction of thinking sources", kg, (mm - n) / mm, ip, st)
                m.eq("mean waiting by Little's law", w1, q / rate, ip, st)
                m.eq("mean sojourn by Little's law", v1, n / rate, ip, st)
                seen = [rat(mm - i) * p[i] / (mm - n) for i in range(mm)]
                m.eq("transform of the waiting time: jobs met on arrival", ws, total(seen[i] * (mu / (mu + s)) ** i for i in range(mm)), ip, st)
            for ip, st, v in m.run(ENGSET_LAM, [lam, mu, mm], [lam, mu]):
                for ip2, st2, p in m.run(ENGSET_P, [lam, mu, mm], [lam, mu]):
                    if numeric(p):
                        m.eq("rate of arrivals = rate of a source times the thinking sources", v,
                             lam * (mm - total(i * x for i, x in enumerate(p))), ip, st)
        rep.guard(m.label, run)


    calls = []

    def diff(ip, st, ar, kw, sv):
        calls.append((ip.nest(st, ar[0]), ar[1]))
        return ip.new_list(st, [S("d1"), S("d2"), S("d3")])
    seen = [S("s0"), S("s1"), S("s2")]
    m = Model(ctx, rep, "finite sources: waiting and sojourn moments", interp=MatInterp, stubs={
        "diff5dots": diff, "Engset.ws": lambda ip, st, a, k, s: ip.unknown(st, "ws") if not isinstance(a[0], Rat) else R("ws", a[0])})

    def moments():
        for ip, st, w in m.run(ENGSET_W, [lam, mu, 3], [lam, mu], entry="w"):
            derived(rep, m, calls, w, lambda s: R("ws", s), ip, st, "waiting transform of the finite-source queue")
        m2 = Model(ctx, rep, "finite sources: sojourn moments", interp=MatInterp, stubs={"Engset.get_w": lambda ip, st, a, k, s: ip.new_list(st, list(seen))})
        for ip, st, v in m2.run(ENGSET_W, [lam, mu, 3], [lam, mu], entry="v"):
            m2.eq("sojourn = waiting + service", v, convolve(seen, [rat(factorial(k)) / mu ** k for k in (1, 2, 3)]), ip, st)
    rep.guard(m.label, moments)


def derived(rep, m, calls, res, F, ip, st, rule):
    """moments taken from equidistant values of a transform: the values are those of F (up to a constant), signs alternate"""
    if not calls:
        rep.ob(rule, m.label, None, "no numerical differentiation found")
        return
    f, h = calls[-1]
    if not numeric(f) or not isinstance(h, Rat):
        rep.ob(rule, m.label, None)
        return
    best = False
    for off in (0, 1):
        vs = [same(f[i + 1] - f[i], F(h * (off + i + 1)) - F(h * (off + i)), ip, st) for i in range(len(f) - 1)]
        v = False if False in vs else None if None in vs else True
        if v is not False:
            best = v if best is False or v else best
    rep.ob(rule, m.label, best, f"{m.label}: the differentiated values are not those of the transform at equal steps: {show(f)}")
    m.eq(rule + ": moments are signed derivatives", res, [-S("d1"), S("d2"), -S("d3")], ip, st)


# ------------------------------------------------------------------ M[X]/M/1
BATCH = '''
from most_queue.theory.batch_mm1 import BatchMM1
def drive(lam, mu, probs, num):
    q = BatchMM1(lam, mu, probs, num, 0)
    return [q.get_p(), q.get_N(), q.get_Q(), q.get_w1(), q.get_v1(), q.calc_l_moments(), q.calc_L(), q.calc_l()]
'''


def batch(ctx, rep, tier):
    lam, mu = S("lam"), S("mu")
    for size in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        m = Model(ctx, rep, f"M/M/1 with batches up to {size}")
        gs = [S(f"g{i}") for i in range(1, size)]
        gs.append(ONE - total(gs))
        num = size + 3

        def run(m=m, gs=gs, num=num, size=size):
            for ip, st, v in m.run(BATCH, [lam, mu, gs, num], [lam, mu] + gs[:-1]):
                if not (isinstance(v, list) and len(v) == 8):
                    rep.ob("batch results", m.label, None if v is not None else False, f"{v}")
                    continue
                p, N, Q, w1, v1, mom, Ls, mean = v
                l1 = total((i + 1) * g for i, g in enumerate(gs))
                l2 = total((i + 1) ** 2 * g for i, g in enumerate(gs))
                rho = lam * l1 / mu
                m.eq("moments of the batch size", mom, [l1, l2], ip, st)
                m.eq("mean batch size", mean, l1, ip, st)
                m.eq("probabilities of larger batches", Ls[:size], [total(gs[j] for j in range(i, size)) for i in range(size)], ip, st)
                if isinstance(p, list) and p and numeric(p):
                    m.eq("the server is idle for the share that load leaves", p[0], 1 - rho, ip, st)
                    for k in range(len(p) - 1):
                        # flow over the cut between k and k + 1
                        up = total(lam * p[i] * total(gs[j] for j in range(size) if i + j + 1 > k) for i in range(k + 1))
                        v_ = same(up, mu * p[k + 1], ip, st)
                        rep.ob("balance over every cut of the batch chain", m.label, v_, f"cut {k}: up {show(up)}, down {show(mu * p[k + 1])}")
                else:
                    rep.ob("batch state probabilities", m.label, None if p is not None else False, f"{p}")
                # mean number from the generating function of the chain
                n = lam * (l1 + l2) / (2 * mu * (1 - rho))
                m.eq("mean number of jobs", N, n, ip, st)
                m.eq("mean queue", Q, n - rho, ip, st)
                m.eq("mean waiting by Little's law", w1, (n - rho) / (lam * l1), ip, st)
                m.eq("mean sojourn by Little's law", v1, n / (lam * l1), ip, st)
        rep.guard(m.label, run)


# ------------------------------------------------------------------ impatience
IMPAT = '''
from most_queue.theory import impatience_calc as Q
def drive(l, mu, gamma, tol):
    return [Q.get_N(l, mu, gamma, tol), Q.get_Q(l, mu, gamma, tol), Q.get_w1(l, mu, gamma, tol), Q.get_v1(l, mu, gamma, tol)]
def probs(l, mu, gamma, tol, num):
    return Q.get_p(l, mu, gamma, tol, num)
def idle(l, mu, gamma, tol):
    return Q.get_p0(l, mu, gamma, tol)
'''
F = Fraction
TOL = F(1, 10 ** 12)
# loads below, at and far above the capacity; also weights that are equal for neighbouring states
POINTS = [(F(1), F(2), F(1, 2)), (F(2), F(1), F(1, 2)), (F(1), F(1, 2), F(1, 2)), (F(3), F(1), F(1)), (F(100), F(1), F(1))]


def admits(facts, mp):
    """does the point satisfy the path condition: True / False / None"""
    mp = {a: rat(v) for a, v in mp.items()}
    for key, e in facts.b.items():
        c = deep_subst(key, mp).const()
        if c is None:
            return None
        if e[0] is not None and (c < e[0] or c == e[0] and e[1]):
            return False
        if e[2] is not None and (c > e[2] or c == e[2] and e[3]):
            return False
        if c in e[4]:
            return False
    return True


def impatience(ctx, rep, tier):
    l, mu, g, tol, p0 = S("l"), S("mu"), S("gamma"), S("tol"), S("p0")
    at = lambda *xs: dict(zip([x.as_atom() for x in (l, mu, g, tol, p0)], xs))
    w = [ONE]
    for i in range(12):
        w.append(w[-1] * l / (mu + i * g))
    depth = 6 if tier == "thorough" else 4
    m = Model(ctx, rep, "M/M/1 with impatience")

    def truncated(k, facts, where):
        """the series may stop after the term k only when the terms left out are small"""
        for a, b, c in POINTS:
            t = ONE
            p = F(1)
            ws = [p]
            for i in range(400):
                p = p * a / (b + i * c)
                ws.append(p)
            tot = sum(ws)
            mp = at(a, b, c, TOL, F(1) / tot)
            if admits(facts, mp) and sum(ws[k + 1:]) > tot / 10 ** 6:
                rep.ob("the series is not cut before its largest terms", where, False,
                       f"stops after term {k} at arrival rate {a}, service rate {b}, impatience {c}; the terms left out are not small")
                return
        rep.ob("the series is not cut before its largest terms", where, True)

    def idle():
        mm = Model(ctx, rep, m.label + ": idle probability", interp=MatInterp, fork=depth)
        n = 0
        for ip, st, v in mm.run(IMPAT, [l, mu, g, tol], [l, mu, g, tol], entry="idle"):
            if v is None:
                continue
            if not isinstance(v, Rat):
                rep.ob("idle probability", mm.label, None)
                continue
            for k in range(0, 12):
                if (v - ONE / total(w[:k + 1])).is_zero():
                    n += 1
                    rep.ob("weights of the states follow the birth and death rates", mm.label, True)
                    truncated(k, st.facts, mm.label)
                    break
            else:
                rep.ob("weights of the states follow the birth and death rates", mm.label, None if contains_atom(v, lambda a: a.kind in OPAQUE) else False,
                       f"{show(v)} is not the inverse of a partial sum of products of l / (mu + i gamma)")
        rep.ob("idle probability is understood", mm.label, True if n else None)
    rep.guard(m.label + " p0", idle)

    def probs():
        mm = Model(ctx, rep, m.label + ": state probabilities", interp=MatInterp, fork=depth, stubs={"get_p0": lambda ip, st, a, k, s: p0})
        n = 0
        for ip, st, v in mm.run(IMPAT, [l, mu, g, tol, depth + 1], [l, mu, g, tol, p0], entry="probs"):
            if not numeric(v):
                if v is not None:
                    rep.ob("state probabilities", mm.label, None, str(v))
                continue
            n += 1
            mm.eq("state probabilities follow the birth and death rates", v, [p0 * w[i] for i in range(len(v))], ip, st)
            if len(v) <= depth:
                truncated(len(v) - 1, st.facts, mm.label)
        rep.ob("state probabilities are understood", mm.label, True if n else None)
    rep.guard(m.label + " p", probs)

    def chars():
        ps = [S(f"p{i}") for i in range(5)]
        mm = Model(ctx, rep, m.label + ": characteristics", interp=MatInterp, stubs={"get_p": lambda ip, st, a, k, s: ip.new_list(st, list(ps))})
        n, q = total(i * p for i, p in enumerate(ps)), total((i - 1) * p for i, p in enumerate(ps) if i)
        for ip, st, v in mm.run(IMPAT, [l, mu, g, tol], [l, mu, g, tol]):
            if not isinstance(v, list):
                rep.ob("characteristics", mm.label, None)
                continue
            mm.eq("mean number of jobs", v[0], n, ip, st)
            mm.eq("mean queue", v[1], q, ip, st)
            mm.eq("mean waiting by Little's law", v[2], q / l, ip, st)
            mm.eq("mean sojourn by Little's law", v[3], n / l, ip, st)
    rep.guard(m.label + " characteristics", chars)


# ------------------------------------------------------------------ level matrices
def H2(y, m1, m2):
    """stand-in for a fit of hyperexponential parameters"""
    return lambda ip, st, args, kw, self: Tup([y, m1, m2])
