"""Distributions: sampler law, theoretical moments, moment fitting, distribution functions, dispatch by notation."""
from fractions import Fraction
from math import factorial

from . import alg
from .alg import Rat, rat, R, atom, ZERO, ONE, contains_atom, deep_subst, r_pow, deriv
from .fn import Sym, items
from .interp import State
from .model import AnalysisBroken
from .expect import moment, Unknown, rnds

M = "most_queue.rand_distribution"


def S(n):
    return R("sym", n)


def positive(*xs):
    def f(ip, st):
        for x in xs:
            ip.assume_cmp(st, ">", x)
    return f


def prod(xs):
    out = ONE
    for x in xs:
        out = out * x
    return out


# documented laws: parameters, E X^k
y, m1, m2, mu, al, K, mean, half, sd, b = (S(n) for n in ("y1", "mu1", "mu2", "mu", "alpha", "K", "mean", "half", "sd", "b"))


def cox(k):
    # phase 1, then phase 2 with probability y
    from math import comb
    two = ZERO
    for i in range(k + 1):
        two = two + rat(comb(k, i) * factorial(i) * factorial(k - i)) / (m1 ** i * m2 ** (k - i))
    return (ONE - y) * factorial(k) / m1 ** k + y * two


LAWS = {
    "Uniform_dist": ([mean, half], lambda k: ((mean + half) ** (k + 1) - (mean - half) ** (k + 1)) / (2 * half * (k + 1))),
    "H2_dist": ([y, m1, m2], lambda k: factorial(k) * (y / m1 ** k + (ONE - y) / m2 ** k)),
    "Cox_dist": ([y, m1, m2], cox),
    "Pareto_dist": ([al, K], lambda k: al * K ** k / (al - k)),
    "Gamma": ([mu, al], lambda k: prod(al + i for i in range(k)) / mu ** k),
    "Normal_dist": ([mean, sd], lambda k: {1: mean, 2: mean ** 2 + sd ** 2, 3: mean ** 3 + 3 * mean * sd ** 2}[k]),
    "Exp_dist": (mu, lambda k: rat(factorial(k)) / mu ** k),
    "Det_dist": (b, lambda k: b ** k),
}


def erlang(r):
    return ([rat(r), mu], lambda k: prod(rat(r + i) for i in range(k)) / mu ** k)


POS = positive(y, ONE - y, m1, m2, mu, al - 4, K, mean, half, sd, b, mean - half)


def laws(tier):
    out = [(n, p, f, n) for n, (p, f) in LAWS.items()]
    for r in range(1, 9 if tier == "thorough" else 5):
        p, f = erlang(r)
        out.append(("Erlang_dist", p, f, f"Erlang_dist r={r}"))
    return out


def zero(r):
    r = alg.rationalise(alg.reduce_special(r)) if not r.is_zero() else r
    return r.is_zero()


def decided(r):
    """difference that must vanish: True / False / None"""
    if zero(r):
        return True
    if contains_atom(r, lambda a: a.kind in OPAQUE):
        return None
    return False


from .rules_sim import OPAQUE_KINDS
OPAQUE = set(OPAQUE_KINDS) | {"lphi", "lv", "unknown", "call", "imagpart", "ext", "lenf"}


def sampler(ctx, rep, tier):
    """every sampler follows the documented law: its first three moments, integrated over the draws"""
    sym = Sym(ctx.prog)
    gen = rat(atom("obj", "gen"))
    for cls, params, law, label in laws(tier):
        for mode in ("generator", "global"):
            if mode == "global" and cls in ("Det_dist", ):
                continue
            def run(cls=cls, params=params, law=law, label=label, mode=mode):
                ip, st = sym.ip(), State()
                POS(ip, st)
                st.facts.t[("bool", gen)] = True
                kw = {"generator": gen} if mode == "generator" and cls != "Det_dist" else {}
                _, objs = sym.new(M, cls, [params], kw, ip=ip, st=st)
                tot = {1: ZERO, 2: ZERO, 3: ZERO}
                where = None
                npaths = 0
                mass = ZERO
                for st1, o in objs:
                    if "raise" in st1.flags:
                        continue
                    for st2, v in sym.method(ip, st1, o, "generate", []):
                        if "raise" in st2.flags:
                            continue
                        npaths += 1
                        where = f"{cls}.generate"
                        for k in tot:
                            tot[k] = tot[k] + moment(v if isinstance(v, Rat) else rat(v), k, st2.facts)
                        mass = mass + moment(ONE, 1, st2.facts)
                rep.count("paths", npaths)
                rep.functions({x.qual for x in ip.inlined})
                rep.ob("the branches of a sampler cover every draw", f"{label}|{mode}", decided(mass - 1),
                       f"the branches have total probability {mass}")
                for k in tot:
                    rep.ob("sampler has the moments of the documented law", f"{label}|{mode}|E X^{k}", decided(tot[k] - law(k)),
                           f"E X^{k} of the sampled value is {tot[k]}, documented law gives {law(k)}")
            guard(rep, f"{label}|{mode}", run)


def guard(rep, what, fn):
    def f():
        try:
            fn()
        except Unknown as e:
            rep.ob("sampled value integrated", what, None, str(e))
    rep.guard(what, f)


def flat(p):
    return p if isinstance(p, list) else [p]


def theory_moments(ctx, rep, tier):
    """calc_theory_moments returns the moments of the documented law, for every number requested"""
    sym = Sym(ctx.prog)
    top = 6 if tier == "thorough" else 4
    for cls, params, law, label in laws(tier):
        ci = ctx.prog.cls(M, cls)
        f = ci.find("calc_theory_moments")
        if f is None:
            continue
        extra = [a.arg for a in f.node.args.args[len(flat(params)):]]
        for num in (None, 1, 2, top):
            if num is not None and not extra:
                continue
            if cls == "Normal_dist":
                continue

            def run(cls=cls, params=params, law=law, label=label, num=num, f=f):
                ip, st = sym.ip(), State()
                POS(ip, st)
                if num:
                    ip.assume_cmp(st, ">", al - num)
                _, res = sym.call(M, f"{cls}.calc_theory_moments", flat(params) + ([rat(num)] if num else []), ip=ip, st=st)
                res = [(s, v) for s, v in res if "raise" not in s.flags]
                rep.functions({x.qual for x in ip.inlined})
                rep.count("paths", len(res))
                for s, v in res:
                    xs = items(ip, s, v)
                    if xs is None:
                        rep.ob("theoretical moments", f"{label}|{num}", None)
                        continue
                    want = num or 3
                    rep.ob("as many moments as requested", f"{label}|{num}", len(xs) == want, f"{len(xs)} moments returned, {want} requested")
                    for i, x in enumerate(xs):
                        rep.ob("theoretical moment = moment of the documented law", f"{label}|{i + 1}",
                               decided(rat(x) - law(i + 1)) if isinstance(x, (Rat, int)) else None,
                               f"moment {i + 1} is {x}, documented law gives {law(i + 1)}")
            guard(rep, f"{label}|{num}", run)


f1, f2, f3, cv = (S(n) for n in ("f1", "f2", "f3", "coev"))
LAW_OF = {"Uniform_dist": lambda p: (lambda k: ((p[0] + p[1]) ** (k + 1) - (p[0] - p[1]) ** (k + 1)) / (2 * p[1] * (k + 1))),
          "H2_dist": lambda p: (lambda k: factorial(k) * (p[0] / p[1] ** k + (ONE - p[0]) / p[2] ** k)),
          "Cox_dist": lambda p: (lambda k: cox_of(p, k)),
          "Pareto_dist": lambda p: (lambda k: p[0] * p[1] ** k / (p[0] - k)),
          "Gamma": lambda p: (lambda k: prod(p[1] + i for i in range(k)) / p[0] ** k),
          "Erlang_dist": lambda p: (lambda k: prod(p[0] + i for i in range(k)) / p[1] ** k),
          "Exp_dist": lambda p: (lambda k: rat(factorial(k)) / p[0] ** k)}


def cox_of(p, k):
    from math import comb
    two = ZERO
    for i in range(k + 1):
        two = two + rat(comb(k, i) * factorial(i) * factorial(k - i)) / (p[1] ** i * p[2] ** (k - i))
    return (ONE - p[0]) * factorial(k) / p[1] ** k + p[0] * two


# fitting functions: class, function, arguments, moments that must be reproduced, keyword arguments
D = f2 - f1 ** 2
MEANCV = [f1, (cv ** 2 + 1) * f1 ** 2]
FITS = [
    ("Uniform_dist", "get_params", [[f1, f2]], [f1, f2], {}),
    ("Uniform_dist", "get_params_by_mean_and_coev", [f1, cv], MEANCV, {}),
    ("H2_dist", "get_params_clx", [[f1, f2, f3]], [f1, f2, f3], {"is_fitting": False, "verbose": False}),
    ("Cox_dist", "get_params", [[f1, f2, f3]], [f1, f2, f3], {"is_fitting": False, "verbose": False}),
    ("Pareto_dist", "get_params", [[f1, f2]], [f1, f2], {}),
    ("Pareto_dist", "get_a_k", [[f1, f2]], [f1, f2], {}),
    ("Pareto_dist", "get_a_k_by_mean_and_coev", [f1, cv], MEANCV, {}),
    ("Gamma", "get_mu_alpha", [[f1, f2]], [f1, f2], {}),
    ("Gamma", "get_params", [[f1, f2]], [f1, f2], {}),
    ("Gamma", "get_mu_alpha_by_mean_and_coev", [f1, cv], MEANCV, {}),
    ("Erlang_dist", "get_params", [[f1, f2]], [f1], {}),
    ("Erlang_dist", "get_params_by_mean_and_coev", [f1, cv], [f1], {}),
    ("Exp_dist", "get_params", [[f1, 2 * f1 ** 2]], [f1], {}),
]


def fitting(ctx, rep, tier):
    """fitting reproduces the moments it is given"""
    sym = Sym(ctx.prog)
    jobs = list(FITS)
    for r in range(1, 9 if tier == "thorough" else 5):
        for fn, a in (("get_params", [[rat(r) / mu, rat(r * (r + 1)) / mu ** 2]]),):
            jobs.append(("Erlang_dist", fn, a, [rat(r) / mu, rat(r * (r + 1)) / mu ** 2], {"#r": r}))
    for cls, fn, args, want, kw in jobs:
        kw = dict(kw)
        r = kw.pop("#r", None)
        label = f"{cls}.{fn}" + (f" order {r}" if r else "")

        def run(cls=cls, fn=fn, args=args, want=want, kw=kw, label=label):
            ip, st = sym.ip(), State()
            for x in (f1, f2, f3, cv, mu, D):
                ip.assume_cmp(st, ">", x)
            _, res = sym.call(M, f"{cls}.{fn}", args, kw, ip=ip, st=st)
            res = [(s, v) for s, v in res if "raise" not in s.flags]
            rep.functions({x.qual for x in ip.inlined})
            rep.count("paths", len(res))
            for s, v in res:
                if degenerate(s, ip):
                    continue                # a path taken on a surface of the moments only; the point itself is judged below
                p = items(ip, s, v)
                if p is None:
                    p = [v]
                if any(not isinstance(x, Rat) for x in p):
                    rep.ob("fitted parameters reproduce the moments", label, None, f"result {p}")
                    continue
                law = LAW_OF[cls](p)
                for i, w in enumerate(want):
                    got = law(i + 1)
                    rep.ob("fitted parameters reproduce the moments", f"{label}|moment {i + 1}", decided(got - w),
                           f"the fitted law has moment {i + 1} = {str(got)[:200]}, requested {w}")
        guard(rep, label, run)
    h2_bisection(ctx, rep)
    exponential_point(ctx, rep)


def degenerate(s, ip):
    """the path assumed that some quantity has exactly one value"""
    return any(e[0] is not None and e[0] == e[2] for k, e in s.facts.b.items() if k.const() is None)


def exponential_point(ctx, rep):
    """the moments of an exponential law are moments too: the phase-type fits accept them"""
    sym = Sym(ctx.prog)
    want = [f1, 2 * f1 ** 2, 6 * f1 ** 3]
    for cls, fn, kw in (("H2_dist", "get_params_clx", {"verbose": False}), ("Cox_dist", "get_params", {"verbose": False}),
                        ("Cox_dist", "get_params", {"verbose": False, "is_fitting": False})):
        label = f"{cls}.{fn} at exponential moments" + (" without fitting" if "is_fitting" in kw else "")

        def run(cls=cls, fn=fn, kw=kw, label=label):
            ip, st = sym.ip(), State()
            ip.assume_cmp(st, ">", f1)
            _, res = sym.call(M, f"{cls}.{fn}", [want], kw, ip=ip, st=st)
            rep.functions({x.qual for x in ip.inlined})
            rep.count("paths", len(res))
            broken = [("raise" in s.flags or any(isinstance(k, tuple) and k[0] == "zerodiv" for k in s.flags)) for s, _ in res]
            rep.ob("exponential moments are fitted", label, None if not res else not all(broken),
                   "every path divides by zero when the moments are exactly those of an exponential law")
            if "is_fitting" in kw and not all(broken):
                for s, v in res:
                    p = items(ip, s, v)
                    if p is None or any(not isinstance(x, Rat) for x in p):
                        continue
                    law = LAW_OF[cls](p)
                    for i, w in enumerate(want):
                        rep.ob("fitted parameters reproduce the moments", f"{label}|moment {i + 1}", decided(law(i + 1) - w),
                               f"the fitted law has moment {i + 1} = {str(law(i + 1))[:200]}, requested {w}")
        guard(rep, label, run)


def h2_bisection(ctx, rep):
    """H2_dist.get_params: whatever weight the bisection tries, its two phases keep the first two moments"""
    sym = Sym(ctx.prog)
    for n in (1, 2):
        def run(n=n):
            ip, st = sym.ip(), State()
            ip.loop_probe = n
            ex = S("e")
            f2 = 2 * f1 ** 2 + ex           # coefficient of variation above one
            for x in (f1, f3, ex):
                ip.assume_cmp(st, ">", x)
            _, res = sym.call(M, "H2_dist.get_params", [[f1, f2, f3]], ip=ip, st=st)
            rep.functions({x.qual for x in ip.inlined})
            got = 0
            for s, v in res:
                p = items(ip, s, v)
                if p is None or "raise" in s.flags or any(not isinstance(x, Rat) for x in p):
                    continue
                if all(x.is_zero() for x in p) or p[2].const() is not None:
                    continue            # refused (variation below one) / third moment out of reach
                got += 1
                law = LAW_OF["H2_dist"](p)
                for k, w in ((1, f1), (2, f2)):
                    rep.ob("the bisection keeps the first two moments", f"H2_dist.get_params|moment {k}", decided(law(k) - w),
                           f"after {n} iteration(s) the returned law has moment {k} = {str(law(k))[:200]} instead of {w}")
            if not got:
                rep.ob("the bisection keeps the first two moments", "H2_dist.get_params", None, "no result recognised")
        guard(rep, "H2_dist.get_params", run)


# ----------------------------------------------------------------------------- distribution functions
d, s_ = S("d"), S("s")
E_ = alg.r_exp


def erl_tail(r, t):
    return sum((((mu * t) ** i) * E_(-mu * t) / factorial(i) for i in range(r)), ZERO)


def _gamma_law(t):
    g = R("ext", "scipy.special.gamma", al)
    return mu * r_pow(mu * t, al - 1) * E_(-mu * t) / g


def curves(tier):
    """class, label, parameters, [(region, the point, positive quantities, distribution function, density)]"""
    out = [
        ("Uniform_dist", "Uniform_dist", [mean, half],
         [("below", mean - half - d, [], ZERO, ZERO),
          ("within", mean - half + d, [2 * half - d], d / (2 * half), ONE / (2 * half)),
          ("above", mean + half + d, [], ONE, ZERO)]),
        ("H2_dist", "H2_dist", [y, m1, m2],
         [("below", -d, [], ZERO, ZERO), ("within", d, [], 1 - y * E_(-m1 * d) - (1 - y) * E_(-m2 * d),
                                          y * m1 * E_(-m1 * d) + (1 - y) * m2 * E_(-m2 * d))]),
        ("Pareto_dist", "Pareto_dist", [al, K],
         [("below zero", -d, [K + d], ZERO, ZERO), ("below", K - d, [K - d], ZERO, ZERO),
          ("within", K + d, [K + d], 1 - r_pow(K / (K + d), al), al * r_pow(K, al) / r_pow(K + d, al + 1))]),
        ("Gamma", "Gamma", [mu, al], [("within", d, [], None, _gamma_law(d))]),
    ]
    for r in range(1, 9 if tier == "thorough" else 5):
        out.append(("Erlang_dist", f"Erlang_dist r={r}", [rat(r), mu],
                    [("below", -d, [], ZERO, ZERO),
                     ("within", d, [], 1 - erl_tail(r, d), mu * (mu * d) ** (r - 1) * E_(-mu * d) / factorial(r - 1))]))
    return out


def call_form(f, params, x):
    """(parameters, x), (*parameters, x) or (x, *parameters), judged from the names the function declares"""
    names = [a.arg for a in f.node.args.args]
    if len(names) == 2:
        return [params, x]
    if names and names[0] in ("t", "x"):
        return [x] + list(params)
    return list(params) + [x]


def one_value(sym, rep, cls, fn, args, pos, extra=None):
    ip, st = sym.ip(), State()
    POS(ip, st)
    for x in pos:
        ip.assume_cmp(st, ">", x)
    if extra:
        extra(ip, st)
    _, res = sym.call(M, f"{cls}.{fn}", args, ip=ip, st=st)
    rep.functions({x.qual for x in ip.inlined})
    out = []
    for s, v in res:
        if "raise" in s.flags:
            out.append(None)
            continue
        out.append(v if isinstance(v, Rat) else rat(v) if isinstance(v, (int, bool)) else v)
    rep.count("paths", len(out))
    return out


def gamma_scaled(v):
    """the call of the library's gamma distribution function, as (x / scale, shape)"""
    a = v.as_atom() if isinstance(v, Rat) else None
    if a is None or a.kind != "ext" or a.args[0] not in ("scipy.stats.gamma.cdf", "scipy.special.gammainc"):
        return None
    args = [x for x in a.args[1:] if isinstance(x, Rat)]
    if a.args[0].endswith("gammainc"):
        args = args[::-1]
    if len(args) != 2 or len(a.args) != 3:
        return None
    return args


def functions(ctx, rep, tier):
    """distribution function, complement and density describe the documented law on both sides of every boundary"""
    sym = Sym(ctx.prog)
    for cls, label, params, regions in curves(tier):
        ci = ctx.prog.cls(M, cls)
        for region, pt, pos, F, f in regions:
            for fn, want in (("get_cdf", F), ("get_tail", None if F is None else 1 - F), ("get_pdf", f), ("get_f", f)):
                m = ci.find(fn)
                if m is None or (want is None and fn != "get_cdf"):
                    continue

                def run(cls=cls, label=label, region=region, pt=pt, pos=pos, fn=fn, want=want, m=m):
                    def big(ip, st):       # away from the numerical cut-offs at zero
                        st.facts.t[("bool", ONE)] = True
                        for z in (R("abs", R("ext", "scipy.special.gamma", al)), R("abs", mu * d)):
                            ip.assume_cmp(st, ">", z - 1)
                    vals = one_value(sym, rep, cls, fn, call_form(m, params, pt), [d] + pos, big if cls == "Gamma" else None)
                    for v in vals:
                        w = want
                        if v is None:
                            verdict = False
                        elif not isinstance(v, Rat):
                            verdict = None
                        elif w is None:
                            g = gamma_scaled(v)
                            verdict = None if g is None else zero(g[0] - mu * d) and zero(g[1] - al)
                            w = "the gamma distribution function of shape alpha at mu t"
                        else:
                            verdict = decided(v - w)
                        rep.ob("value of the distribution function, its complement and the density", f"{label}.{fn}|" + (region if region == "below zero" else region + " the support"), verdict,
                               f"returns {str(v)[:200] if v is not None else 'an exception'}, the documented law has {str(w)[:200]}", [m.qual])
                guard(rep, f"{label}.{fn}", run)
    transforms(ctx, rep, sym)


def transforms(ctx, rep, sym):
    def check(cls, fn, args, want, label, pos=()):
        ci = ctx.prog.cls(M, cls)
        if ci.find(fn) is None:
            return

        def run():
            for v in one_value(sym, rep, cls, fn, args, list(pos)):
                rep.ob(label, f"{cls}.{fn}", decided(v - want) if isinstance(v, Rat) else None, f"returns {str(v)[:200]}, expected {want}")
        guard(rep, f"{cls}.{fn}", run)
    check("Gamma", "get_pls", [mu, al, s_], r_pow(mu / (mu + s_), al), "Laplace-Stieltjes transform of the law", [s_, mu + s_])
    x = S("x")
    check("Gamma", "get_minus_gamma", [x], -R("pi") / (x * R("ext", "scipy.special.gamma", x) * R("ext", "math.sin", x * R("pi"))),
          "gamma function of a negative argument", [x])
    g = [S("g0"), S("g1"), S("g2")]

    def corr():
        def big(ip, st):
            for z in (R("abs", R("ext", "scipy.special.gamma", al)), R("abs", mu * d)):
                ip.assume_cmp(st, ">", z - 1)
        want = _gamma_law(d) * (g[0] + g[1] * d + g[2] * d * d)
        for v in one_value(sym, rep, "Gamma", "get_f_corrective", [mu, al, g, d], [d], big):
            rep.ob("corrected density = density times polynomial", "Gamma.get_f_corrective", decided(v - want) if isinstance(v, Rat) else None,
                   f"returns {str(v)[:200]}")
    guard(rep, "Gamma.get_f_corrective", corr)

    def residual():
        ip, st = sym.ip(), State()
        POS(ip, st)
        _, res = sym.call(M, "H2_dist.get_residual_params", [[y, m1, m2]], ip=ip, st=st)
        for s, v in res:
            p = items(ip, s, v)
            if p is None or len(p) != 3 or any(not isinstance(q, Rat) for q in p):
                rep.ob("residual law", "H2_dist.get_residual_params", None)
                continue
            law, own = LAW_OF["H2_dist"](p), LAW_OF["H2_dist"]([y, m1, m2])
            for k in (1, 2, 3):
                rep.ob("residual law has moments f(k+1) / ((k+1) f1)", f"H2_dist.get_residual_params|{k}",
                       decided(law(k) - own(k + 1) / ((k + 1) * own(1))), f"moment {k} is {str(law(k))[:200]}")
    guard(rep, "H2_dist.get_residual_params", residual)


# ----------------------------------------------------------------------------- dispatch by notation and utilization
U = "most_queue.sim.utils.distribution_utils"


def by_notation(suffix=""):
    """notation -> (class, parameters, mean); parameters with a suffix are independent of those without"""
    q = lambda n: S(n + suffix)
    return {
        "M": ("Exp_dist", q("mu"), ONE / q("mu")),
        "H": ("H2_dist", [q("y1"), q("mu1"), q("mu2")], q("y1") / q("mu1") + (1 - q("y1")) / q("mu2")),
        "E": ("Erlang_dist", [q("r"), q("mu")], q("r") / q("mu")),
        "Gamma": ("Gamma", [q("mu"), q("alpha")], q("alpha") / q("mu")),
        "C": ("Cox_dist", [q("y1"), q("mu1"), q("mu2")], ONE / q("mu1") + q("y1") / q("mu2")),
        "Pa": ("Pareto_dist", [q("alpha"), q("K")], q("alpha") * q("K") / (q("alpha") - 1)),
        "Uniform": ("Uniform_dist", [q("mean"), q("half")], q("mean")),
        "Norm": ("Normal_dist", [q("mean"), q("sd")], q("mean")),
        "D": ("Det_dist", q("b"), q("b")),
    }


def notation_setup(ip, st):
    for suf in ("", "_s", "_0", "_1", "_2", "_s0", "_s1", "_s2"):
        for n in ("mu", "mu1", "mu2", "r", "y1", "K", "mean", "half", "sd", "b"):
            ip.assume_cmp(st, ">", S(n + suf))
        ip.assume_cmp(st, ">", S("alpha" + suf) - 1)
        ip.assume_cmp(st, ">", ONE - S("y1" + suf))
    ip.assume_cmp(st, ">=", S("n") - 1)


def dispatch(ctx, rep, tier):
    """the notation selects the documented law with these parameters and this generator"""
    sym = Sym(ctx.prog)
    gen = rat(atom("obj", "gen"))
    for nt, (cls, params, m) in by_notation().items():
        def run(nt=nt, cls=cls, params=params):
            ip, st = sym.ip(), State()
            notation_setup(ip, st)
            st.facts.t[("bool", gen)] = True
            _, res = sym.call(U, "create_distribution", [params, nt, gen], ip=ip, st=st)
            rep.functions({x.qual for x in ip.inlined})
            want = ctx.prog.cls(M, cls)
            for s, v in res:
                oc = ip.objcls.get(v.as_atom()) if isinstance(v, Rat) and v.as_atom() is not None else None
                if "raise" in s.flags:
                    rep.ob("notation selects the documented law", f"create_distribution|{nt}", False, "the notation is refused")
                    continue
                rep.ob("notation selects the documented law", f"create_distribution|{nt}",
                       None if oc is None else oc is want, f"notation {nt} gives {oc.name if oc else v}, documented {cls}")
                if oc is not want:
                    continue
                # same parameters as the class built directly
                _, ref = sym.new(M, cls, [params] + ([gen] if cls != "Det_dist" else []), ip=ip, st=s.copy() if hasattr(s, "copy") else s)
                s2, o2 = ref[0]
                a, b2 = v.as_atom(), o2.as_atom()
                for (o, f), val in list(s2.heap.items()):
                    if o is not b2 or f in ("type", "params", "erl", "g"):
                        continue
                    mine = s.heap.get((a, f))
                    ok = (mine == val) if not isinstance(val, Rat) or not isinstance(mine, Rat) else zero(mine - val)
                    rep.ob("the law gets the given parameters and generator", f"create_distribution|{nt}|{f}", ok, f"{f} = {mine}, expected {val}")
        guard(rep, f"create_distribution|{nt}", run)
    A, B = by_notation(), by_notation("_s")
    n = S("n")
    for a, (_, pa, ma) in A.items():
        for b_, (_, pb, mb) in B.items():
            def run(a=a, b_=b_, pa=pa, pb=pb, ma=ma, mb=mb):
                ip, st = sym.ip(), State()
                notation_setup(ip, st)
                _, res = sym.call(U, "calc_qs_load", [a, pa, b_, pb, n], ip=ip, st=st)
                for s, v in res:
                    if "raise" in s.flags:
                        rep.ob("utilization = mean service / (mean interval * servers)", f"calc_qs_load|{a}/{b_}", False, "raises")
                        continue
                    rep.ob("utilization = mean service / (mean interval * servers)", f"calc_qs_load|{a}/{b_}",
                           decided(v - mb / (ma * n)) if isinstance(v, Rat) else False if v is None else None,
                           f"returns {str(v)[:200]}, expected {mb / (ma * n)}")
            guard(rep, f"calc_qs_load|{a}/{b_}", run)
    loads(ctx, rep, sym, A, B)


QS_LOAD = '''
from most_queue.sim.qs_sim import QueueingSystemSimulator
def drive(n, a, pa, b, pb):
    q = QueueingSystemSimulator(n)
    q.set_sources(pa, a)
    q.set_servers(pb, b)
    return q.calc_load()
'''
BATCH_LOAD = '''
from most_queue.sim.batch_sim import QueueingSystemBatchSim
def drive(n, a, pa, b, pb, probs):
    q = QueueingSystemBatchSim(n, probs)
    q.set_sources(pa, a)
    q.set_servers(pb, b)
    return q.calc_load()
'''
PRTY_LOAD = '''
from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
def drive(n, a0, p0, a1, p1, b0, q0, b1, q1):
    q = PriorityQueueSimulator(n, 2, "NP")
    q.set_sources([{"type": a0, "params": p0}, {"type": a1, "params": p1}])
    q.set_servers([{"type": b0, "params": q0}, {"type": b1, "params": q1}])
    return q.calc_load()
'''


def loads(ctx, rep, sym, A, B):
    """the utilization that a simulator reports is that of the parameters it was given"""
    n = S("n")
    A1, B1 = by_notation("_1"), by_notation("_s1")
    for a, b_ in (("M", "H"), ("E", "Gamma"), ("C", "Pa"), ("D", "M")):
        def run(a=a, b_=b_):
            ip, st = sym.ip(), State()
            notation_setup(ip, st)
            _, res = sym.drive(QS_LOAD, [n, a, A[a][1], b_, B[b_][1]], ip=ip, st=st)
            rep.functions({x.qual for x in ip.inlined})
            for s, v in res:
                if "raise" not in s.flags:
                    rep.ob("utilization of a simulator", f"QueueingSystemSimulator.calc_load|{a}/{b_}",
                           decided(v - B[b_][2] / (A[a][2] * n)) if isinstance(v, Rat) else False if v is None else None, f"returns {str(v)[:300]}")
        guard(rep, f"QueueingSystemSimulator.calc_load|{a}/{b_}", run)

        def run1(a=a, b_=b_):
            for probs in ([S("b0"), S("b1"), ONE - S("b0") - S("b1")], [ONE]):
                ip, st = sym.ip(), State()
                notation_setup(ip, st)
                _, res = sym.drive(BATCH_LOAD, [n, a, A[a][1], b_, B[b_][1], probs], ip=ip, st=st)
                rep.functions({x.qual for x in ip.inlined})
                size = sum((rat(i + 1) * p for i, p in enumerate(probs)), ZERO)
                for s, v in res:
                    if "raise" not in s.flags:
                        rep.ob("utilization of a simulator", f"QueueingSystemBatchSim.calc_load|{a}/{b_}|{len(probs)}",
                               decided(v - size * B[b_][2] / (A[a][2] * n)) if isinstance(v, Rat) else False if v is None else None, f"returns {str(v)[:300]}")
        guard(rep, f"QueueingSystemBatchSim.calc_load|{a}/{b_}", run1)

        def run2(a=a, b_=b_):
            ip, st = sym.ip(), State()
            notation_setup(ip, st)
            _, res = sym.drive(PRTY_LOAD, [n, a, A[a][1], b_, A1[b_][1], b_, B[b_][1], a, B1[a][1]], ip=ip, st=st)
            rep.functions({x.qual for x in ip.inlined})
            want = B[b_][2] / (A[a][2] * n) + B1[a][2] / (A1[b_][2] * n)
            for s, v in res:
                if "raise" not in s.flags:
                    rep.ob("utilization of a simulator", f"PriorityQueueSimulator.calc_load|{a},{b_}/{b_},{a}",
                           decided(v - want) if isinstance(v, Rat) else False if v is None else None, f"returns {str(v)[:300]}")
        guard(rep, f"PriorityQueueSimulator.calc_load|{a},{b_}", run2)
