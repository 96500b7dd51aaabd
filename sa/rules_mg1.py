"""Single-server queues with general service, GI/M queues and priority classes: the transform equations of the models."""
from math import factorial

from . import alg, series as ps
from .alg import Rat, rat, ZERO, ONE, R, contains_atom, deep_subst, r_pow, r_exp
from .interp import Tup
from .matinterp import MatInterp
from .rules_theory import S, Model, same, show, total, numeric, convolve, derived
from .rules_dist import OPAQUE


def mom(name, n):
    return [S(f"{name}{i + 1}") for i in range(n)]


def zero_series(m, rule, ser, ip, st, where=None):
    """all coefficients vanish"""
    vs = [same(c, ZERO, ip, st) for c in ser]
    v = False if False in vs else None if None in vs else True
    m.rep.ob(rule, where or m.label, v, f"{m.label}: the equation fails at order {vs.index(v) if v is not True else 0}")
    return v


# ------------------------------------------------------------------ M/G/1
MG1 = '''
from most_queue.theory import mg1_calc as Q
def drive(l, b, num):
    return [Q.get_w(l, b, num), Q.get_v(l, b, num)]
def probs(l, b, num, kind):
    return Q.get_p(l, b, num, kind)
'''


def mg1(ctx, rep, tier):
    l = S("l")
    for nb in (3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        b = mom("b", nb)
        m = Model(ctx, rep, f"M/G/1 with {nb} service moments")

        def run(b=b, nb=nb, m=m):
            for ip, st, v in m.run(MG1, [l, b, nb - 1], [l] + b):
                if not (isinstance(v, list) and len(v) == 2 and numeric(v[0]) and numeric(v[1])):
                    rep.ob("M/G/1 moments", m.label, None if v is not None else False, str(v))
                    continue
                w, vv = v
                rep.ob("M/G/1 waiting has the moments that the service moments allow", m.label, len(w) == nb - 1, f"{len(w)}")
                n = min(len(w), nb - 1)
                if not n:
                    continue
                # W(s) (s - l + l B(s)) = (1 - l b1) s
                W = ps.lst(w[:n]) + [ZERO]
                B = ps.lst(b[:n + 1])
                left = ps.mul(W, ps.add(ps.var(n + 2), ps.scale(ps.sub(B, ps.const(1, n + 2)), l)))
                zero_series(m, "Pollaczek-Khinchine equation of the waiting time", ps.sub(left, ps.scale(ps.var(n + 2), ONE - l * b[0])), ip, st)
                k = len(vv)
                m.eq("sojourn = waiting + service", vv, convolve(w, b)[:k], ip, st)
                rep.ob("as many sojourn as waiting moments up to three", m.label, k == min(len(w), 3), f"{k}")
        rep.guard(m.label, run)

    qs = [S(f"q{i}") for i in range(6)]
    for kind in ("Gamma", "Uniform", "Pa"):
        m = Model(ctx, rep, f"M/G/1 state probabilities ({kind})", interp=MatInterp, stubs={
            f: (lambda ip, st, a, k, s: ip.new_list(st, list(qs))) for f in ("get_q_Gamma", "get_q_uniform", "get_q_Pareto")})
        b = mom("b", 3)

        def run(m=m, kind=kind, b=b):
            for ip, st, p in m.run(MG1, [l, b, 6, kind], [l] + b, entry="probs"):
                if not numeric(p):
                    rep.ob("M/G/1 state probabilities", m.label, None if p is not None else False, str(p))
                    continue
                rep.ob("as many probabilities as asked for", m.label, len(p) == 6, f"{len(p)}")
                m.eq("the server is idle for the share that load leaves", p[0], ONE - l * b[0], ip, st)
                for k in range(len(p) - 1):
                    # states left behind by departures: p_k = p_0 q_k + sum p_i q_(k + 1 - i)
                    right = p[0] * qs[k] + total(p[i] * qs[k + 1 - i] for i in range(1, k + 2))
                    v = same(right, p[k], ip, st)
                    rep.ob("embedded chain of an M/G/1 queue", m.label, v, f"state {k}: {show(right)} against {show(p[k])}")
        rep.guard(m.label, run)


# ------------------------------------------------------------------ arrivals during a service
QPOIS = '''
from most_queue.theory.utils import q_poisson_arrival_calc as Q
def gamma(l, mu, alpha, num):
    return Q.get_q_Gamma(l, mu, alpha, num)
def uniform(l, mean, half, num):
    return Q.get_q_uniform(l, mean, half, num)
def pareto(l, alpha, K, num):
    return Q.get_q_Pareto(l, alpha, K, num)
'''


def qpois(ctx, rep, tier):
    l = S("l")
    num = 5 if tier == "quick" else 8

    def gamma():
        mu, al = S("mu"), S("alpha")
        m = Model(ctx, rep, "Poisson arrivals during a gamma service")
        for ip, st, q in m.run(QPOIS, [l, mu, al, num], [l, mu, al], entry="gamma"):
            if not numeric(q):
                rep.ob("arrivals during a service", m.label, None if q is not None else False, str(q))
                continue
            want = []
            for j in range(num):
                c = ONE
                for i in range(j):
                    c = c * (al + i) / (i + 1)
                want.append(c * (l / (l + mu)) ** j * r_pow(mu / (mu + l), al))
            m.eq("arrivals during a gamma service", q, want, ip, st)
    rep.guard("gamma arrivals", gamma)

    def uniform():
        a, h = S("mean"), S("half")
        m = Model(ctx, rep, "Poisson arrivals during a uniform service")
        for ip, st, q in m.run(QPOIS, [l, a, h, num], [l, a, h], entry="uniform"):
            if not numeric(q):
                rep.ob("arrivals during a service", m.label, None if q is not None else False, str(q))
                continue
            want = []
            for j in range(num):
                tail = lambda t: r_exp(-l * t) * total((l * t) ** i * (ONE / factorial(i)) for i in range(j + 1))
                want.append((tail(a - h) - tail(a + h)) / (2 * h * l))
            m.eq("arrivals during a uniform service", q, want, ip, st)
    rep.guard("uniform arrivals", uniform)

    def pareto():
        al, K = S("alpha"), S("K")
        g0 = S("incomplete")
        # upper incomplete gamma function at -alpha
        m = Model(ctx, rep, "Poisson arrivals during a Pareto service", interp=MatInterp, stubs={
            "Gamma.get_minus_gamma": lambda ip, st, a, k, s: g0, "Gamma.get_gamma_small": lambda ip, st, a, k, s: ZERO,
            "Gamma.get_gamma_incomplete": lambda ip, st, a, k, s: g0, "Gamma.get_gamma": lambda ip, st, a, k, s: g0})
        for ip, st, q in m.run(QPOIS, [l, al, K, num], [l, al, K, g0], entry="pareto"):
            if not numeric(q):
                rep.ob("arrivals during a service", m.label, None if q is not None else False, str(q))
                continue
            z = l * K
            want, g = [], g0
            for j in range(num):
                if j:
                    g = (rat(j - 1) - al) * g + r_pow(z, rat(j - 1) - al) * r_exp(-z)
                want.append(al * r_pow(z, al) * g / factorial(j))
            m.eq("arrivals during a Pareto service", q, want, ip, st)
    rep.guard("pareto arrivals", pareto)


# ------------------------------------------------------------------ moments of sums and differences
CONV = '''
from most_queue.general_utils import conv as Q
def plus(a, b, num):
    return Q.get_moments(a, b, num)
def minus(a, b, num):
    return Q.get_moments_minus(a, b, num)
def multiple(b, n, num):
    return Q.get_self_conv_moments(b, n, num)
'''


def conv(ctx, rep, tier):
    a, b = mom("a", 3), mom("b", 3)
    for num in (1, 2, 3):
        m = Model(ctx, rep, f"{num} moments of a sum")

        def run(m=m, num=num):
            for ip, st, v in m.run(CONV, [a, b, num], a + b, entry="plus"):
                m.eq("moments of a sum of independent variables", v, convolve(a, b)[:num], ip, st)
            for ip, st, v in m.run(CONV, [a, b, num], a + b, entry="minus"):
                if not numeric(v):
                    rep.ob("moments of a removed summand", m.label, None if v is not None else False, str(v))
                    continue
                m.eq("removing a summand undoes adding it", convolve(v, b)[:num], a[:num], ip, st)
            for k in (1, 2, 4):
                want = [ZERO] * num
                for _ in range(k):
                    want = convolve(want, b[:num])
                for ip, st, v in m.run(CONV, [b, k, num], b, entry="multiple"):
                    m.eq("moments of a sum of equal variables", v, want, ip, st)
        rep.guard(m.label, run)


# ------------------------------------------------------------------ GI/M/1 and GI/M/n
GIM1 = '''
from most_queue.theory import gi_m_1_calc as Q
def drive(a, mu, num):
    return [Q.get_v(a, mu, num), Q.get_w(a, mu, num), Q.get_p(a, mu, 6), Q.get_pi(a, mu, 6)]
def root(a, mu, e, kind):
    return Q.get_w_param(a, mu, e, kind)
'''
GIMN = '''
from most_queue.theory import gi_m_n_calc as Q
def pi(a, mu, n):
    return Q.get_pi(a, mu, n, n + 3)
def probs(a, mu, n):
    return Q.get_p(a, mu, n, n + 3)
def wait(a, mu, n):
    return Q.get_w(a, mu, n, n + 3)
def soj(a, mu, n):
    return Q.get_v(a, mu, n, n + 3)
def root(a, mu, n, e, kind):
    return Q.get_w_param(a, mu, n, e, kind)
def b0(a, mu, j, kind):
    return Q.get_b0(a, j, mu, kind)
'''


def gamma_stubs(v, al, g, G):
    def gam(ip, st, a, k, s):
        d = (a[0] - al).const()
        if d is None or d.denominator != 1 or not 0 <= d < 9:
            return R("gammaf", a[0])
        out = G
        for i in range(int(d)):
            out = out * (al + i)
        return out
    from .interp import Tup
    return {"Gamma.get_params": lambda ip, st, a, k, s: Tup([v, al, ip.new_list(st, list(g))]),
            "Gamma.get_mu_alpha": lambda ip, st, a, k, s: Tup([v, al]),
            "Gamma.get_gamma": gam,
            "Gamma.get_gamma_incomplete": lambda ip, st, a, k, s: R("ginc", a[0], a[1]),
            "Pareto_dist.get_a_k": lambda ip, st, a, k, s: Tup([al, v])}


def arrivals(kind, v, al, g, s):
    """transform of the interarrival time at s"""
    if kind == "Pa":
        return al * r_pow(v * s, al) * R("ginc", -al, v * s)
    out, rise = ZERO, ONE
    for i, gi in enumerate(g):
        out = out + gi * rise / (s + v) ** i
        rise = rise * (al + i)
    return out * r_pow(v / (s + v), al)


def root_rule(ctx, rep, src, name, n, tier):
    """the parameter of the geometric tail is iterated with the transform of the interarrival time"""
    mu, e, v, al, G = S("mu"), S("e"), S("v"), S("alpha"), S("G")
    g = [S("g0"), S("g1"), S("g2")]
    rho = S("rho")
    a1 = ONE / (rho * mu * n)
    a = [a1, 2 * a1 * a1, S("a3")]     # the coefficient of variation is one: the iteration starts at rho
    for kind in ("Gamma", "Pa"):
        m = Model(ctx, rep, f"{name}: tail parameter ({kind})", interp=MatInterp, fork=1, stubs=gamma_stubs(v, al, g, G))

        def run(m=m, kind=kind):
            args = [a, mu] + ([n] if n > 1 else []) + [e, kind]
            seen = []
            for ip, st, x in m.run(src, args, [mu, e, v, al, G, rho], entry="root"):
                if isinstance(x, Rat):
                    seen.append(x)
            f = lambda w: arrivals(kind, v, al, g, mu * n * (ONE - w))
            rule = "the tail parameter is a root of w = A(n mu (1 - w))"
            vs = [same(x, f(w)) for x in seen for w in (rho, rho * rho, rat(1) / 2)]
            rep.ob(rule, m.label, True if True in vs else None if None in vs or not seen else False,
                   f"the iteration does not apply the transform of the interarrival time: {show(seen[0]) if seen else ''}")
        rep.guard(m.label, run)


def gim1(ctx, rep, tier):
    mu, x = S("mu"), S("x")
    a = mom("a", 3)
    qs = [S(f"q{i}") for i in range(4)]
    st0 = gamma_stubs(S("v"), S("alpha"), [S("g0"), S("g1"), S("g2")], S("G"))
    st0["get_w_param"] = lambda ip, st, ar, k, s: x
    st0["get_q_Gamma"] = lambda ip, st, ar, k, s: ip.new_list(st, list(qs))
    for num in (2, 3):
        m = Model(ctx, rep, f"GI/M/1, {num} moments", interp=MatInterp, stubs=st0)

        def run(num=num, m=m):
            for ip, st, r in m.run(GIM1, [a, mu, num], [mu, x] + a):
                if not (isinstance(r, list) and len(r) == 4 and all(numeric(y) for y in r)):
                    rep.ob("GI/M/1 results", m.label, None if r is not None else False, str(r))
                    continue
                v, w, p, pi = r
                rate = mu * (ONE - x)
                m.eq("sojourn in a GI/M/1 queue is exponential", v, [rat(factorial(k)) / rate ** k for k in range(1, num + 1)], ip, st)
                m.eq("waiting in a GI/M/1 queue", w, [x * factorial(k) / rate ** k for k in range(1, num + 1)], ip, st)
                rho = ONE / (a[0] * mu)
                m.eq("states of a GI/M/1 queue at any time", p, [ONE - rho] + [rho * (ONE - x) * x ** (i - 1) for i in range(1, 6)], ip, st)
                m.eq("states met by arrivals of a GI/M/1 queue", pi[1:], [(ONE - x) * x ** i for i in range(1, 6)], ip, st)
                alt = ONE - total(q * x ** i for i, q in enumerate(qs))
                v_ = same(pi[0], ONE - x, ip, st)
                m.eq("idle server met by arrivals of a GI/M/1 queue", pi[0], (ONE - x) if v_ is True else alt, ip, st)
        rep.guard(m.label, run)
    root_rule(ctx, rep, GIM1, "GI/M/1", 1, tier)


def gimn(ctx, rep, tier):
    from math import comb
    mu, x = S("mu"), S("x")
    a = mom("a", 3)
    b = [ONE] + [S(f"b{j}") for j in range(1, 7)]

    def bj(ip, st, ar, kw, s):
        j = ar[1].const() if len(ar) > 1 and isinstance(ar[1], Rat) else None
        return b[int(j)] if j is not None else R("b0", *[z for z in ar if isinstance(z, Rat)])

    par = {"get_w_param": lambda ip, st, ar, k, s: x, "get_b0": bj}
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        m = Model(ctx, rep, f"GI/M/{n} states met by arrivals", interp=MatInterp, stubs=par)

        def run(n=n, m=m):
            for ip, st, pi in m.run(GIMN, [a, mu, n], [mu, x] + a, entry="pi"):
                if not numeric(pi):
                    rep.ob("GI/M/n arrival states", m.label, None if pi is not None else False, str(pi))
                    continue
                rep.ob("as many probabilities as asked for", m.label, len(pi) == n + 3, f"{len(pi)}")
                m.eq("probabilities sum to one", total(pi[:n]) + pi[n] / (ONE - x), ONE, ip, st)
                for i in range(n, len(pi) - 1):
                    m.eq("geometric tail of a GI/M/n queue", pi[i + 1], pi[i] * x, ip, st)
                for k in range(1, n + 1):
                    right = ZERO
                    for j in range(k - 1, n):
                        right = right + pi[j] * comb(j + 1, k) * total(rat((-1) ** i * comb(j + 1 - k, i)) * b[k + i] for i in range(j + 2 - k))
                    t = total(rat((-1) ** i * comb(n - k, i)) * n * (b[k + i] - x) / (n * (ONE - x) - (k + i)) for i in range(n - k + 1))
                    right = right + pi[n] * comb(n, k) * t
                    rep.ob("embedded chain of a GI/M/n queue", m.label, same(right, pi[k], ip, st), f"state {k}")
        rep.guard(m.label, run)

    for n in (1, 2, 3, 5):
        pis = [S(f"pi{i}") for i in range(n + 3)]
        h = []

        def diff(ip, st, ar, kw, s):
            h.append((ip.nest(st, ar[0]), ar[1]))
            return ip.new_list(st, [S("d1"), S("d2"), S("d3")])
        m = Model(ctx, rep, f"GI/M/{n}", interp=MatInterp, stubs={"get_w_param": par["get_w_param"], "diff5dots": diff,
                                                                  "get_pi": lambda ip, st, ar, k, s, pis=pis: ip.new_list(st, list(pis))})

        def run(n=n, m=m, pis=pis, h=h):
            rho = ONE / (a[0] * mu)
            for ip, st, p in m.run(GIMN, [a, mu, n], [mu, x] + a, entry="probs"):
                want = [ZERO] + [pis[i - 1] / (min(i, n) * mu * a[0]) for i in range(1, n + 3)]
                want[0] = (n - rho - total((n - k) * want[k] for k in range(1, n))) / n
                m.eq("states of a GI/M/n queue at any time", p, want, ip, st)
            for ip, st, w in m.run(GIMN, [a, mu, n], [mu, x] + a, entry="wait"):
                derived(rep, m, h, w, lambda s: pis[n] * n * mu / (n * mu * (ONE - x) + s), ip, st, "GI/M/n waiting transform")
        rep.guard(m.label, run)

        m2 = Model(ctx, rep, f"GI/M/{n} sojourn", interp=MatInterp, stubs={"get_w": lambda ip, st, ar, k, s: ip.new_list(st, mom("w", 3))})

        def soj(n=n, m2=m2):
            for ip, st, v in m2.run(GIMN, [a, mu, n], [mu] + a, entry="soj"):
                m2.eq("sojourn = waiting + service", v, convolve(mom("w", 3), [rat(factorial(k)) / mu ** k for k in (1, 2, 3)]), ip, st)
        rep.guard(m2.label, soj)
    for kind in ("Gamma", "Pa"):
        v, al, G, g = S("v"), S("alpha"), S("G"), [S("g0"), S("g1"), S("g2")]
        m = Model(ctx, rep, f"interarrival transform ({kind})", interp=MatInterp, stubs=gamma_stubs(v, al, g, G))

        def run(m=m, kind=kind):
            for j in (1, 2, 5):
                for ip, st, r in m.run(GIMN, [a, mu, j, kind], [mu, v, al, G] + a, entry="b0"):
                    m.eq("transform of the interarrival time", r, arrivals(kind, v, al, g, mu * j), ip, st)
        rep.guard(m.label, run)
    for n in (2, 3):
        root_rule(ctx, rep, GIMN, f"GI/M/{n}", n, tier)


# ------------------------------------------------------------------ M/G/1 with warm-up
WARM = '''
from most_queue.theory import mg1_warm_calc as Q
def drive(l, b, bw):
    return Q.get_v(l, b, bw)
'''


def warm(ctx, rep, tier):
    l = S("l")
    b, bw = mom("b", 3), mom("f", 3)
    calls = []

    def diff(ip, st, ar, kw, s):
        calls.append((ip.nest(st, ar[0]), ar[1]))
        return ip.new_list(st, [S("d1"), S("d2"), S("d3")])

    def pls(ip, st, ar, kw, s):
        # transform of the distribution with the fitted parameters
        return R("pls", *ar)

    def fit(ip, st, ar, kw, s):
        from .interp import Tup
        x = ip.nest(st, ar[0])
        which = "b" if x[0] == b[0] and x[1] == b[1] else "f" if x[0] == bw[0] and x[1] == bw[1] else "?"
        return Tup([S("mu" + which), S("al" + which)])
    m = Model(ctx, rep, "M/G/1 with warm-up", interp=MatInterp,
              stubs={"diff5dots": diff, "Gamma.get_pls": pls, "Gamma.get_mu_alpha": fit, "Gamma.get_params": fit})

    def run():
        for ip, st, v in m.run(WARM, [l, b, bw], [l] + b + bw):
            def F(s):
                if s.is_zero():
                    return ONE
                B, W = R("pls", S("mub"), S("alb"), s), R("pls", S("muf"), S("alf"), s)
                p0 = (ONE - l * b[0]) / (ONE - l * b[0] + l * bw[0])
                return p0 * ((s - l) * W + l * B) / (s - l + l * B)
            derived(rep, m, calls, v, F, ip, st, "sojourn transform of an M/G/1 queue with a warm-up")
    rep.guard(m.label, run)


# ------------------------------------------------------------------ deterministic service
MDN = '''
from most_queue.theory.m_d_n_calc import M_D_n
from most_queue.theory.ek_d_n_calc import Ek_D_n
def mdn(l, b, n, num):
    q = M_D_n(l, b, n, 1e-12, num)
    return [q.calc_p(), q.q_]
def ekdn(l, k, b, n, num):
    q = Ek_D_n(l, k, b, n, 1e-12, num)
    return [q.calc_w(), q.q_]
def ekp(l, k, b, n, num):
    q = Ek_D_n(l, k, b, n, 1e-12, num)
    return q.calc_p()
'''


def deterministic(ctx, rep, tier):
    l, b = S("l"), S("b")
    for n in (1, 2, 3):
        num = n + 5
        low = [S(f"p{i}") for i in range(n)]
        m = Model(ctx, rep, f"M/D/{n}", interp=MatInterp, stubs={"M_D_n.calc_p_up_to_n": lambda ip, st, a, k, s, low=low: ip.new_list(st, list(low))})

        def run(n=n, num=num, m=m):
            done = 0
            for ip, st, v in m.run(MDN, [l, b, n, num], [l, b], entry="mdn"):
                if not (isinstance(v, list) and len(v) == 2 and numeric(v[0]) and numeric(v[1])):
                    rep.ob("M/D/n probabilities", m.label, None if v is not None else False, str(v))
                    continue
                p, q = v
                want = [r_exp(-l * b) * (l * b) ** i / factorial(i) for i in range(len(q))]
                m.eq("arrivals during a constant service are Poisson", q, want, ip, st)
                # after one service time every job now in service has left
                for k in range(0, len(p) - n):
                    if p[n + k].is_zero():
                        break           # the tail is cut when a probability became negative
                    right = total(p[: n + 1]) * want[k] + total(p[n + j] * want[k - j] for j in range(1, k + 1))
                    done += 1
                    rep.ob("balance over one service time", m.label, same(right, p[k], ip, st), f"M/D/{n}, state {k}")
            rep.ob("M/D/n probabilities are understood", m.label, True if done else None)
        rep.guard(m.label, run)

        def order(n=n):
            cut(ctx, rep, f"M/D/{n}", l, b, n)
        rep.guard(f"M/D/{n} boundary", order)

    for k, n in ((1, 1), (2, 1), (2, 2)) + (((3, 2),) if tier == "thorough" else ()):
        num = (n + 2) * k + 2
        low = [S(f"w{i}") for i in range(n * k)]
        m = Model(ctx, rep, f"E{k}/D/{n}", interp=MatInterp, stubs={"Ek_D_n.calc_w_up_to_nk": lambda ip, st, a, kw, s, low=low: ip.new_list(st, list(low))})

        def run(k=k, n=n, num=num, m=m):
            done = 0
            for ip, st, v in m.run(MDN, [l, k, b, n, num], [l, b], entry="ekdn"):
                if not (isinstance(v, list) and len(v) == 2 and numeric(v[0]) and numeric(v[1])):
                    rep.ob("Ek/D/n probabilities", m.label, None if v is not None else False, str(v))
                    continue
                w, q = v
                want = [r_exp(-l * b) * (l * b) ** i / factorial(i) for i in range(len(q))]
                m.eq("phases passed during a constant service are Poisson", q, want, ip, st)
                for i in range(0, num):
                    if n * k + i >= len(w) or w[n * k + i].is_zero():
                        break
                    # from state s = (jobs j, phase f): jobs in service leave, phases are added
                    right = ZERO
                    for s in range(0, n * k + i + 1):
                        j, f = divmod(s, k)
                        rest = f if j <= n else s - n * k
                        if i - rest >= 0:
                            right = right + w[s] * want[i - rest]
                    done += 1
                    rep.ob("balance over one service time", m.label, same(right, w[i], ip, st), f"{m.label}, state {i}")
            rep.ob("Ek/D/n probabilities are understood", m.label, True if done else None)
        rep.guard(m.label, run)

        full = [S(f"w{i}") for i in range(2 * num)]
        m2 = Model(ctx, rep, f"E{k}/D/{n} numbers of jobs", interp=MatInterp, stubs={"Ek_D_n.calc_w": lambda ip, st, a, kw, s, full=full: ip.new_list(st, list(full))})

        def run2(k=k, m2=m2, full=full, num=num):
            ok = 0
            for ip, st, p in m2.run(MDN, [l, k, b, n, num], [l, b] + full, entry="ekp"):
                if not numeric(p):
                    continue
                for j in range(len(p)):
                    if p[j].is_zero():
                        break
                    ok += 1
                    rep.ob("a number of jobs collects its phases", m2.label, same(p[j], total(full[j * k:(j + 1) * k]), ip, st), f"{show(p[j])}")
            rep.ob("numbers of jobs are understood", m2.label, True if ok else None)
        if k * n <= 2:
            rep.guard(m2.label, run2)

        def order(n=n, k=k):
            cut(ctx, rep, f"E{k}/D/{n}", l, b, n, k)
        rep.guard(f"E{k}/D/{n} boundary", order)


BOUND = '''
import cmath
from most_queue.theory.m_d_n_calc import M_D_n
from most_queue.theory.ek_d_n_calc import Ek_D_n
def mdn(l, b, n, z):
    q = M_D_n(l, b, n)
    q.z_ = z
    return q.calc_p_up_to_n()
def ekdn(l, k, b, n, z):
    q = Ek_D_n(l, k, b, n)
    q.z_ = z
    return q.calc_w_up_to_nk()
def mroots(l, b, n, e):
    q = M_D_n(l, b, n, e)
    q.get_z()
    return list(q.z_) + [cmath.pi * 1.0]
def ekroots(l, k, b, n, e):
    q = Ek_D_n(l, k, b, n, e)
    q.get_z()
    return list(q.z_) + [cmath.pi * 1.0]
'''


def cut(ctx, rep, label, l, b, n, k=None):
    """the boundary system: the generating function has no pole at the roots, and the mean number of idle servers is given"""
    size = n * (k or 1)
    nz = size // 2
    zs = [S(f"x{i}") + alg.imag() * S(f"y{i}") for i in range(nz)]
    got = []

    def lstsq(ip, st, ar, kw, s):
        got.append((ip.nest(st, ar[0]), ip.nest(st, ar[1])))
        return Tup([ip.mk(st, [S(f"p{i}") for i in range(size)]), None, None, None])
    cls = "Ek_D_n" if k else "M_D_n"
    m = Model(ctx, rep, label + ": boundary probabilities", interp=MatInterp, stubs={f"{cls}.get_z": lambda ip, st, a, kw, s: None},
              ext={"numpy.linalg.lstsq": lstsq, "numpy.linalg.solve": lambda *a: lstsq(*a).items[0]})
    for ip, st, v in m.run(BOUND, [l, k, b, n, zs] if k else [l, b, n, zs], [l, b], entry="ekdn" if k else "mdn"):
        if not got or not all(isinstance(x, list) and numeric(flat_(x)) for x in got[-1]):
            rep.ob("boundary system", m.label, None)
            continue
        A, B = got[-1]
        part = lambda z, i: ((z ** i), )
        rows = []
        for j, z in enumerate(zs):
            full = [z ** i - z ** ((n * k + i % k) if k else n) for i in range(size)]
            re = [deep_subst(alg.rationalise(x), {alg.imag().as_atom(): ZERO}) for x in full]
            im = [(x - y) / alg.imag() for x, y in zip(full, re)]
            rows.append((f"real part at root {j + 1}", re, ZERO))
            if 2 * (j + 1) < size:
                rows.append((f"imaginary part at root {j + 1}", im, ZERO))
        rows.append(("mean number of idle servers", [rat(n - i // (k or 1)) for i in range(size)], n - l * b / (k or 1)))
        rep.ob("as many equations as unknown probabilities", m.label, len(A) == size == len(rows), f"{len(A)} equations")
        for what, row, rhs in rows:
            hit = any(same(r, row, ip, st) is True and same(B[i], rhs, ip, st) is True for i, r in enumerate(A))
            rep.ob("boundary equations of the deterministic model", m.label, hit, f"{label}: no equation for the {what}")
        m.eq("the solution of the boundary system is returned", v, [S(f"p{i}") for i in range(size)], ip, st)
    mr = Model(ctx, rep, label + ": roots", interp=MatInterp, fork=1)
    e = S("e")
    for ip, st, v in mr.run(BOUND, [l, k, b, n, e] if k else [l, b, n, e], [l, b, e], entry="ekroots" if k else "mroots"):
        if not isinstance(v, list) or len(v) != nz + 1 or not all(isinstance(x, Rat) for x in v):
            rep.ob("roots of the deterministic model", mr.label, None if v is not None else False, str(v))
            continue
        turn = lambda j: r_exp(2 * (j + 1) * v[-1] * alg.imag() / size)
        vs = []
        for j, z in enumerate(v[:-1]):
            c = [same(z, turn(j) * r_exp(-l * b * (ONE - z0) / size), ip, st) for z0 in (turn(j) / 2, ZERO, ONE / 2)]
            vs.append(True if True in c else None if None in c else False)
        rep.ob("roots of z^n = exp(-l b (1 - z)), one per angle", mr.label, False if False in vs else None if None in vs else True,
               f"{label}: {show(v)}")


def flat_(x):
    if isinstance(x, list):
        return [z for y in x for z in flat_(y)]
    return [x]
