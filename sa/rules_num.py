"""Numerical helpers of the models: finite differences, binomial weights, moments of fitted laws, confidence intervals, sums of flows."""
import math
from fractions import Fraction

from . import alg
from .alg import Rat, rat, ZERO, ONE
from .interp import Tup
from .matinterp import MatInterp
from .rules_theory import S, Model, same, show, total, numeric, convolve
from .rules_tt import fitted, law, FITS

SRC = '''
from most_queue.theory.utils import diff5dots as D
from most_queue.theory.utils import binom_probs as B
from most_queue.theory.utils import student_stat as T
from most_queue.general_utils import vacations_paper_utils as V
def diff(f, h):
    return D.diff5dots(f, h)
def binom(n, y):
    return B.calc_binom_probs(n, y)
def moments(mean, coev):
    return V.calc_moments_by_mean_and_coev(mean, coev)
def ty(gamma, n):
    return T.get_ty(gamma, n)
def interval(gamma, n, mean, std):
    return T.get_conf_intervals(gamma, n, mean, std)
'''


def one(m, rep, rule, args, pos, entry, want_len=None):
    """results of the paths that return"""
    for ip, st, v in m.run(SRC, args, pos, entry=entry):
        if want_len is not None and not (numeric(v) and len(v) == want_len):
            rep.ob(rule, m.label, None if v is not None else False, f"{m.label}: returns {show(v)}")
            continue
        yield ip, st, v


def differences(ctx, rep, tier):
    h = S("h")
    x = S("x")
    for n in (3, 4, 5):
        for d in range(n):
            m = Model(ctx, rep, f"derivatives from {n} points of a polynomial of degree {d}", interp=MatInterp)

            def run(m=m, n=n, d=d):
                f = [(x + i * h) ** d if d else ONE for i in range(n)]
                for ip, st, v in one(m, rep, "derivatives", [f, h], [h], "diff", 3):
                    for k in (1, 2, 3)[:n - 1 if n < 4 else 3]:
                        want = rat(math.perm(d, k)) * (x ** (d - k) if d > k else ONE) if d >= k else ZERO
                        m.eq("a finite difference is exact for polynomials through its points", v[k - 1], want, ip, st, where=f"{m.label}|order {k}")
            rep.guard(m.label, run)


def weights(ctx, rep, tier):
    y = S("y")
    for n in range(1, 6 if tier == "quick" else 9):
        m = Model(ctx, rep, f"binomial weights of {n} states", interp=MatInterp)

        def run(m=m, n=n):
            for ip, st, v in one(m, rep, "binomial weights", [rat(n), y], [y, ONE - y], "binom", n):
                want = [rat(math.comb(n - 1, i)) * y ** (n - 1 - i) * (ONE - y) ** i for i in range(n)]
                m.eq("jobs in service spread over the two phases by the binomial law", v, want, ip, st)
                m.eq("binomial weights sum to one", total(v), ONE, ip, st)
        rep.guard(m.label, run)
    m = Model(ctx, rep, "moments by mean and coefficient of variation", interp=MatInterp)

    def run():
        b, c = S("b"), S("c")
        for ip, st, v in one(m, rep, "moments", [b, c], [b, c], "moments", 3):
            m.eq("second moment = mean^2 (1 + coefficient^2)", v[:2], [b, b * b * (ONE + c * c)], ip, st)
            # a gamma law of shape 1/c^2: E X^(n+1) = E X^n * mean * (1 + n c^2)
            m.eq("third moment is that of the gamma law", v[2], b ** 3 * (ONE + c * c) * (ONE + 2 * c * c), ip, st)
    rep.guard(m.label, run)


# ------------------------------------------------------------------ Student
def t_law(t, df):
    """P(|T| < t) for an integer number of degrees of freedom"""
    th = math.atan(t / math.sqrt(df))
    c2 = math.cos(th) ** 2
    if df % 2:
        s, term = 0.0, math.cos(th)
        for j in range(1, df - 1, 2):
            s += term
            term *= c2 * (j + 1) / (j + 2)
        return 2 / math.pi * (th + math.sin(th) * s)
    s, term = 0.0, 1.0
    for j in range(0, df - 1, 2):
        s += term
        term *= c2 * (j + 1) / (j + 2)
    return math.sin(th) * s


def t_quantile(g, df):
    lo, hi = 0.0, 100.0
    for _ in range(60):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if t_law(mid, df) < g else (lo, mid)
    return lo


NORMAL = {0.95: 1.95996, 0.99: 2.57583, 0.999: 3.29053}


def student(ctx, rep, tier):
    top = 131 if tier == "quick" else 200
    tab = {}

    def run_table():
        for g in (0.95, 0.99, 0.999):
            prev = None
            for n in range(5, top):
                m = Model(ctx, rep, f"quantile at {g} of {n} observations", interp=MatInterp)
                for ip, st, v in m.run(SRC, [rat(g), rat(n)], entry="ty"):
                    c = v.const() if isinstance(v, Rat) else None
                    if c is None:
                        rep.ob("tabulated quantile", m.label, None if v is not None else False, f"{m.label}: {show(v)}")
                        continue
                    c = float(c)
                    tab[g, n] = c
                    lo = t_quantile(g, math.ceil(n * 1.12)) - 0.006 if n <= 110 else NORMAL[g] - 0.006
                    hi = t_quantile(g, max(math.floor(n / 1.12) - 1, 1) if n > 19 else n - 1) + 0.011
                    if n < 20:
                        lo = t_quantile(g, n - 1) - 0.011
                    rep.ob("quantile is that of the Student law for a sample of about that size", f"{g}|{n}", lo <= c <= hi,
                           f"get_ty({g}, {n}) = {c}, outside [{lo:.3f}, {hi:.3f}]")
                    rep.ob("a larger sample does not widen the interval", f"{g}|{n}", prev is None or c <= prev, f"get_ty({g}, {n}) = {c} after {prev}")
                    prev = c
    rep.guard("Student quantiles", run_table)
    mean, std = S("mean"), S("std")
    for n in (9, 16, 25, 100):
        for g in (0.95, 0.99, 0.999):
            m = Model(ctx, rep, f"confidence interval at {g} of {n} observations", interp=MatInterp)

            def run(m=m, n=n, g=g):
                for ip, st, v in one(m, rep, "confidence interval", [rat(g), rat(n), mean, std], [std], "interval", 2):
                    w = rat(tab[g, n]) * std / rat(math.isqrt(n))
                    m.eq("interval = mean plus and minus quantile times deviation over the root of the size", v, [mean - w, mean + w], ip, st)
            rep.guard(m.label, run)


# ------------------------------------------------------------------ sums of flows
FLOW = '''
from most_queue.theory.utils.flow_sum import SummatorNumeric as Q
def k_of(a):
    return Q.get_k(a)
def a_of(k):
    return Q.get_a(k)
def v_of(k):
    return Q.get_v(k)
def k_by_v(v):
    return Q.get_k_by_v(v)
def semi(a, b):
    return Q.sum_2_flows_semiinvariants(a, b)
def residual(a):
    return Q.get_residual_distr_moments(a)
def h2(a, b):
    return Q.sum_2_H2_flows(a, b)
def fold(flows, semi):
    q = Q(flows, False, semi)
    q.sum_flows()
    return [q.result_flow, q.flows_, q.a1_sum, q.a2_sum]
'''


def cumulants(a):
    """of the moments a"""
    k = []
    for n in range(1, len(a) + 1):
        k.append(a[n - 1] - total(rat(math.comb(n - 1, j - 1)) * k[j - 1] * a[n - j - 1] for j in range(1, n)))
    return k


def moments_of(k):
    a = []
    for n in range(1, len(k) + 1):
        a.append(k[n - 1] + total(rat(math.comb(n - 1, j - 1)) * k[j - 1] * a[n - j - 1] for j in range(1, n)))
    return a


def counting(k):
    """cumulant rates of the number of events of a renewal flow whose intervals have the cumulants k: psi with K(-psi(s)) = -s,
    K(x) = sum k_n x^n / n!"""
    n = len(k)
    # psi = sum c_j s^j; solve order by order
    c = []
    for order in range(1, n + 1):
        # coefficient of s^order in sum_m k_m (-psi)^m / m! with unknown c_order = 0
        neg = [-x for x in c] + [ZERO] * (n - len(c))
        power, coef = None, ZERO
        for mth in range(1, order + 1):
            power = neg[:] if mth == 1 else mul(power, neg, n)
            # power[i] is the coefficient of s^(i+1)
            coef = coef + k[mth - 1] * power[order - 1] / rat(math.factorial(mth))
        target = -ONE if order == 1 else ZERO
        c.append((coef - target) / k[0])
    return [c[j] * rat(math.factorial(j + 1)) for j in range(n)]


def mul(a, b, n):
    """product of power series without constant term: index i is the coefficient of s^(i+1)"""
    out = [ZERO] * n
    for i in range(n):
        for j in range(n):
            if i + j + 1 < n:
                out[i + j + 1] = out[i + j + 1] + a[i] * b[j]
    return out


def flow_sum(ctx, rep, tier):
    def go(m, args, pos, entry, size):
        for ip, st, v in m.run(FLOW, args, pos, entry=entry):
            if not (isinstance(v, list) and len(v) == size):
                rep.ob("sums of flows", m.label, None if v is not None else False, f"{m.label}: returns {show(v)}")
                continue
            yield ip, st, v
    for n in (1, 2, 3, 4):
        x = [S(f"x{i}") for i in range(1, n + 1)]
        z = [S(f"z{i}") for i in range(1, n + 1)]
        for entry, rule, want in (("k_of", "semi-invariants of given moments", cumulants(x)), ("a_of", "moments of given semi-invariants", moments_of(x)),
                                  ("v_of", "semi-invariants of the number of events of a renewal flow", counting(x))):
            m = Model(ctx, rep, f"{rule}, {n} given", interp=MatInterp)
            rep.guard(m.label, lambda: [m.eq(rule, v, want, ip, st) for ip, st, v in go(m, [x], x, entry, n)])
        m = Model(ctx, rep, f"semi-invariants of the intervals from those of the number of events, {n} given", interp=MatInterp)

        def inverse(m=m, n=n, x=x):
            for ip, st, v in go(m, [x], x, "k_by_v", n):
                m.eq("semi-invariants of the intervals give back those of the number of events", counting(v) if numeric(v) else v, x, ip, st)
        rep.guard(m.label, inverse)
        m = Model(ctx, rep, f"sum of two flows by semi-invariants, {n} moments", interp=MatInterp)

        def sums(m=m, n=n, x=x, z=z):
            for ip, st, v in go(m, [x, z], x + z, "semi", n):
                if not numeric(v):
                    rep.ob("sums of flows", m.label, None, show(v))
                    continue
                got = counting(cumulants(v))
                k = [p + q for p, q in zip(counting(cumulants(x)), counting(cumulants(z)))]
                m.eq("the semi-invariants of the events of two flows add up", got, k, ip, st)
        if n < 3 or tier == "thorough" and n == 3:
            rep.guard(m.label, sums)
        elif n == 4:
            z = [rat(t) for t in (3, 17, 151, 1777)]
            rep.guard(m.label, lambda: sums(z=z))
        m = Model(ctx, rep, f"moments of the residual time, {n} given", interp=MatInterp)
        rep.guard(m.label, lambda: [m.eq("residual moments = next moment over its order times the mean", v,
                                         [x[i + 1] / (rat(i + 2) * x[0]) for i in range(n - 1)], ip, st) for ip, st, v in go(m, [x], x, "residual", n - 1)])

    def named(n):
        return [S(f"{n}_{i}") for i in (1, 2, 3)]
    a, b = named("f"), named("g")

    def mixture(v):
        y, p, q = v
        return [(y, p), (ONE - y, q)]

    def left(v):
        w = [x / r for x, r in mixture(v)]
        return [(u / total(w), r) for u, (_, r) in zip(w, mixture(v))]

    def merged(A, B, laws):
        la, lb = ONE / A[1][0], ONE / B[1][0]
        out = []
        for k in (1, 2, 3):
            f = [total(x * y * rat(math.factorial(k)) / (p + q) ** k for x, p in mixture(laws[u]) for y, q in left(laws[v])) for u, v in ((A[0], B[0]), (B[0], A[0]))]
            out.append((la * f[0] + lb * f[1]) / (la + lb))
        return out
    f, g = law("f"), law("g")
    q = lambda x, y=1: rat(Fraction(x, y))
    # laws with symbols in some places and numbers, different everywhere, in the others
    for tag, vf, vg in (("weights", (f[0], q(2), q(7)), (g[0], q(3), q(11))), ("rates of one", (q(1, 3), f[1], f[2]), (q(2, 5), q(3), q(11))),
                        ("rates of the other", (q(1, 3), q(2), q(7)), (q(2, 5), g[1], g[2]))):
        laws = {"f": vf, "g": vg}

        def fit(ip, st, args, kw, self_, laws=laws):
            v = fitted(ip, st, args, kw, self_)
            n = v.items[0].as_atom() if isinstance(v, Tup) else None
            return Tup(laws[n.args[0][2:]]) if n is not None and n.args[0][2:] in laws else v
        m = Model(ctx, rep, f"sum of two flows by two-phase laws, {tag} symbolic", interp=MatInterp, stubs={k: fit for k in FITS})

        def h2(m=m, laws=laws):
            for ip, st, v in go(m, [a, b], a + b, "h2", 3):
                m.eq("an interval of the merged flow ends with the earlier of an interval of one and the rest of one of the other",
                     v, merged(("f", a), ("g", b), laws), ip, st)
        rep.guard(m.label, h2)

    # summation of several flows: one by one, every flow once
    x = [[S(f"x{i}"), S(f"x{i}b")] for i in range(4)]

    def pair(tag):
        def f(ip, st, args, kw, self_):
            from .rules_theory import py
            u, v = (py(ip, st, t) for t in (list(args) + list(kw.values()))[:2])
            if not (numeric(u) and numeric(v)):
                return ip.unknown(st, "flow")
            return ip.new_list(st, [u[0] + v[0] + tag, u[1] + v[1] + tag * tag])
        return f
    for semi in (False, True):
        tag = S("semi") if semi else S("hyper")
        for n in (2, 3, 4):
            m = Model(ctx, rep, f"sum of {n} flows, {'semi-invariants' if semi else 'two-phase laws'}", interp=MatInterp, stubs={
                "SummatorNumeric.sum_2_flows_semiinvariants": pair(S("semi")), "SummatorNumeric.sum_2_H2_flows": pair(S("hyper"))})

            def run(m=m, n=n, tag=tag, semi=semi):
                for ip, st, v in m.run(FLOW, [x[:n], semi], [], entry="fold"):
                    if not (isinstance(v, list) and len(v) == 4 and numeric(v[0])):
                        rep.ob("sums of flows", m.label, None if v is not None else False, f"{m.label}: returns {show(v)}")
                        continue
                    part = [[total(f[j] for f in x[:k]) + (tag if j == 0 else tag * tag) * (k - 1) for j in (0, 1)] for k in range(2, n + 1)]
                    m.eq("the result is every flow taken once, by the chosen method", v[0], part[-1], ip, st)
                    m.eq("intermediate flows add one flow at a time", v[1], part, ip, st)
                    m.eq("means and second moments of the intermediate flows", [v[2], v[3]], [[p[0] for p in part], [p[1] for p in part]], ip, st)
            rep.guard(m.label, run)
