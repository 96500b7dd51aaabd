"""Takahashi-Takami solvers of theory/: what a sweep keeps, how level probabilities are put together, and the results as functionals of the
level probabilities."""
import ast
from math import comb, factorial

from . import alg
from .alg import Rat, rat, ZERO, ONE, contains_atom
from .interp import Tup
from .matinterp import MatInterp, depth
from .rules_theory import S, Model, same, show, total, numeric, py
from .rules_tt import (MODELS, PRIORITY, Fits, FITS, arguments, binom, build, differences, equivalent, law, positive, prty_arguments,
                       prty_positive, prty_source, read_chain, simple, source, l, lL)

s_ = S("s")
ONLY = None


INVERSES = {}


def inverse_linear(b):
    """1/b for a linear form in s, with 1/(s + a) as a symbol of its own, so that products of transforms stay monomials"""
    at = s_.as_atom()
    b0, b1, b2 = (alg.deep_subst(b, {at: rat(i)}) for i in (0, 1, 2))
    c = b1 - b0
    if c.is_zero() or not (b2 - b0 - 2 * c).is_zero() or contains_atom(c, lambda a: a == at):
        return None
    a = b0 / c
    name = S(f"1/(s+{a})")
    INVERSES[name.as_atom()] = ONE / (s_ + a)
    return name / c


def quotient(a, b):
    if isinstance(b, Rat) and contains_atom(b, lambda x: x == s_.as_atom()):
        r = inverse_linear(b)
        if r is not None:
            return a * r
    return a / b


class Transforms(MatInterp):
    """arithmetic of Laplace-Stieltjes transforms"""

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Div):
            try:
                x, y = (self.nest(st, v) if self.is_arr(st, v) else self.num(v) for v in (a, b))
                if isinstance(y, Rat) and not y.is_zero() and isinstance(x, (Rat, list)):
                    return self.mk(st, self.bcast(quotient, x, y)) if isinstance(x, list) else quotient(x, y)
            except (ValueError, ZeroDivisionError, alg.TooBig, TypeError):
                pass
        return super().binop(op, a, b, st, node)


# ------------------------------------------------------------------ waiting times from the state found by a job
def waiting(name, n, levels, moves, top):
    """(level, state) -> transform at s of the wait of a job that finds this state, jobs being served in order of arrival"""
    yw, *mw = law("w")
    yc, *mc = law("c")
    y = law("b")[0]
    warm = [quotient(m, m + s_) for m in mw]
    both = yw * warm[0] + (1 - yw) * warm[1]
    markov = name.startswith("M/M/n")
    depart = {}

    def served(k, st):
        """transform of the time in which the k - n + 1 departures needed by the job happen"""
        if k < n:
            return ONE
        if (k, st) not in depart:
            out = [(t, r) for k2, t, r in moves(k, st) if k2 == k - 1]
            tot = total(r for t, r in out)
            depart[k, st] = quotient(total(r * (served(k - 1, t) if k > n else ONE) for t, r in out), tot + s_)
        return depart[k, st]

    def opened(k):
        """after the warm-up with k jobs in front"""
        if k < n:
            return ONE
        after = [(0, ONE)] if markov else binom(n, y)
        return total(p * served(k, ("s", i)) for i, p in after)

    def w(k, st):
        if st[0] == "s":
            return served(k, st)
        if st[0] == "d":
            return ONE
        if st[0] == "E":
            return ONE if name in ("M/H2/n", "M/H2/n, first service with warm-up") else both
        if st[0] == "w":
            return warm[st[1]] * opened(k)
        if st[0] == "c":
            return quotient(mc[st[1]], mc[st[1]] + s_) * both * opened(k)
        return None
    return w


def correspondence(ctx, rep, name, n, top):
    """code index of a state on a level -> state of the reference chain"""
    m = Model(ctx, rep, name, interp=MatInterp, stubs=FITS)
    ref = build(*MODELS[name][2](n), top=top)
    for ip, st, v in m.run(source(name, "    return [q.A, q.B, q.C, q.D]\n"), arguments(n, None, top + 1), [l, S("mu")], assume=positive):
        if isinstance(v, list) and len(v) == 4 and all(isinstance(x, list) and len(x) > top for x in v):
            code, why = read_chain(v, top)
            if code is None:
                return None
            if all(len(a) == len(b) for a, b in zip(code.states, ref.states)) and not differences(code, ref):
                return {(k, i): x for k, lv in enumerate(ref.states) for i, x in enumerate(lv)}
            return {(k, i): t[1] for (k, i), t in equivalent(code, ref)[1].items()}
    return None


class Derivatives:
    """stand-in for numeric differentiation: the function is analysed at the symbol s, once for each state found by a job"""

    def __init__(self, shape=()):
        self.of = []
        self.shape = shape          # states of each level
        self.cache = {}

    def transforms(self, ip, st, f):
        """{(level, index): f(s) with probability one of that state}"""
        key = str(f)
        if key in self.cache:
            return self.cache[key]
        out = {}
        for k, c in enumerate(self.shape):
            for i in range(c):
                t = st.copy()
                for a in [a for a, name in t.heap if name == "Y"]:
                    t.heap[(a, "Y")] = ip.new_list(t, [ip.mk(t, [[ONE if (k, i) == (k2, j) else ZERO for j in range(c2)]])
                                                       for k2, c2 in enumerate(self.shape)])
                res = ip.call(t, f, [s_], {}, None)
                if len(res) != 1 or not isinstance(res[0][1], Rat):
                    return None
                out[k, i] = res[0][1]
        self.cache[key] = out
        return out

    def __call__(self, ip, st, args, kw, self_):
        f, x0 = args[0], args[1] if len(args) > 1 else kw.get("x0")
        n = kw.get("n", args[3] if len(args) > 3 else rat(1))
        order = kw.get("order", args[5] if len(args) > 5 else rat(3))
        c, o = (v.const() if isinstance(v, Rat) else None for v in (n, order))
        try:
            res = self.transforms(ip, st, f)
        except alg.TooBig:
            res = None
        if c is None or res is None:
            return ip.unknown(st, "derivative")
        self.of.append((res, x0, int(c), o))
        return S(f"D{len(self.of)}_{int(c)}")


def convolve3(w, b):
    return [w[0] + b[0], w[1] + 2 * w[0] * b[0] + b[1], w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + b[2]]


TAIL = """    q.p = p
    q.Y = [np.array(y) for y in Y]
    w = q.get_w()
    v = q.get_v()
    e = [None, None, None]
    if extra:
        e[0] = q.get_cold_prob()
        e[1] = q.get_warmup_prob()
    if extra > 1:
        e[2] = q.get_cold_delay_prob()
    return [w, v, e, q.get_p()]
"""


def output_source(name):
    mod, call, _ = MODELS[name]
    return (f"import numpy as np\nfrom {mod} import {call.split('(')[0]}\n"
            f"def drive(n, l, b, w, c, d, mu, buffer, N, p, Y, extra):\n    q = {call}\n{TAIL}")


def wait_terms(got, ref):
    """do two transforms differ by more than a constant? True: they agree"""
    if (got - ref).is_zero():
        return True
    try:
        d = alg.deep_subst(alg.rationalise(got - ref), INVERSES)
    except alg.TooBig:
        return None
    if d.is_zero():
        return True
    if not contains_atom(d, lambda a: a == s_.as_atom()):
        return True
    return False if simple(d) else None


def outputs(ctx, rep, tier):
    for name in MODELS if not ONLY else [ONLY]:
        for n in (1, 2, 3) if tier == "thorough" else (1, 2):
            top = n + 2
            label = f"{name}, n = {n}"
            match = correspondence(ctx, rep, name, n, top)
            levels, moves = MODELS[name][2](n)
            if match is None or any((k, i) not in match for k in range(top + 1) for i in range(len(levels(k)))):
                rep.ob("states of the model", label, None, f"{label}: the states of the levels are not identified")
                continue
            Y = [[[S(f"Y{k}.{i}") for i in range(len(levels(k)))]] for k in range(top + 1)]
            p = [S(f"p{k}") for k in range(top + 1)]
            extra = 0 if n and name in ("M/H2/n", "M/H2/n with warm-up", "M/H2/n, first service with warm-up") else 1 if name[:5] == "M/M/n" else 2
            der = Derivatives([len(levels(k)) for k in range(top + 1)])
            m = Model(ctx, rep, label, interp=Transforms, stubs=dict(FITS, derivative=der), ext={"scipy.misc.derivative": der, "scipy.misc.common.derivative": der})

            def run(m=m, name=name, n=n, top=top, label=label, match=match, Y=Y, p=p, extra=extra, der=der, levels=levels, moves=moves):
                args = arguments(n, None, top + 1) + [p, Y, rat(extra)]
                for ip, st, v in m.run(output_source(name), args, [l, S("mu")], assume=positive):
                    if not (isinstance(v, list) and len(v) == 4):
                        rep.ob("results", label, None if v is not None else False, f"{label}: the results raise")
                        continue
                    w, vv, e, pp = v
                    m.eq("level probabilities are returned as they are", pp, p, ip, st)
                    b = [S(f"b_{i}") for i in (1, 2, 3)] if name[:5] != "M/M/n" else [rat(factorial(i)) / S("mu") ** i for i in (1, 2, 3)]
                    serv = b
                    if name.startswith("M/H2/n, first"):
                        serv = [(1 - p[0]) * b[i] + p[0] * S(f"w_{i + 1}") for i in range(3)]
                    if name in ("M/H2/n", "M/H2/n, first service with warm-up"):
                        want = [total(rat(factorial(j) // factorial(j - k)) * p[n + j] for j in range(k, top - n + 1)) / l ** k for k in (1, 2, 3)]
                        m.eq("waiting moments are the factorial moments of the queue over powers of the arrival rate", w, want, ip, st)
                    else:
                        wait = waiting(name, n, levels, moves, top)
                        want = []
                        used = list(der.of)
                        for i in range(3):
                            got = w[i] if isinstance(w, list) and len(w) == 3 else None
                            ids = [j for j in range(len(used)) if isinstance(got, Rat) and contains_atom(got, lambda a, j=j: a == S(f"D{j + 1}_{used[j][2]}").as_atom())]
                            if len(ids) != 1:
                                rep.ob("waiting moments are derivatives of the transform at zero", f"{label}|{i + 1}", None, f"{label}: moment {i + 1} is {show(got)}")
                                want = None
                                break
                            f, x0, k, order = used[ids[0]]
                            sign = -1 if (i + 1) % 2 else 1
                            rep.ob("waiting moments are derivatives of the transform at zero", f"{label}|{i + 1}",
                                   bool(k == i + 1 and isinstance(x0, Rat) and x0.is_zero() and same(got, sign * S(f"D{ids[0] + 1}_{k}")) and
                                        (order is None or order > k)), f"{label}: moment {i + 1} is {show(got)}, derivative {k} at {x0}, {order} points")
                            bad = 0
                            for k, j in sorted(f):
                                if bad > 2:
                                    break
                                bad += wait_terms(f[k, j], wait(k, match[k, j])) is not True
                                rep.ob("transform of the wait of a job, by the state it finds", label, wait_terms(f[k, j], wait(k, match[k, j])),
                                       f"{label}: from {match[k, j]} with {k} jobs the transform is {show(f[k, j])} instead of {show(wait(k, match[k, j]))}")
                            want.append(got)
                    if want is not None and isinstance(vv, list):
                        if name.startswith("M/H2/n, first"):
                            full = [want[0] + serv[0], want[1] + 2 * want[0] * b[0] + serv[1],
                                    want[2] + 3 * want[1] * b[0] + 3 * want[0] * b[1] + serv[2]]
                        else:
                            full = convolve3(want, b)
                        # get_v may differentiate again: the derivatives of the same order are the same numbers
                        vv = [unify(x, der) for x in vv]
                        m.eq("sojourn = waiting + service", vv, [unify(x, der) for x in full], ip, st)
                    for got, kind in zip(e, "cwd"):
                        if (kind == "d" and extra < 2) or not extra:
                            continue
                        want_ = total(Y[k][0][i] for (k, i), x in match.items() if x[0] == kind)
                        m.eq({"c": "probability of cooling", "w": "probability of warm-up", "d": "probability of the delay before cooling"}[kind],
                             got, want_, ip, st)
            rep.guard(label, run)


def unify(x, der):
    """derivatives of one order are named alike"""
    if not isinstance(x, Rat):
        return x
    for j, (f, x0, k, o) in enumerate(der.of):
        x = alg.deep_subst(x, {S(f"D{j + 1}_{k}").as_atom(): S(f"D_{k}")})
    return x


# ------------------------------------------------------------------ one sweep over the levels
class Inverses:
    """stand-in for the inverse of a matrix: a fixed matrix of symbols for each argument (bidiagonal, to keep the products short)"""

    def __init__(self):
        self.known = []             # (matrix, name)

    @staticmethod
    def equal(a, b):
        return len(a) == len(b) and all(len(x) == len(y) and all(isinstance(p, Rat) and isinstance(q, Rat) and (p - q).is_zero() for p, q in zip(x, y))
                                        for x, y in zip(a, b))

    def symbols(self, k, n):
        return [[S(f"G{k}.{i}") if i == j else S(f"G{k}.{i}+") if j == i + 1 else ZERO for j in range(n)] for i in range(n)]

    def of(self, m, new=True):
        if not isinstance(m, list) or not m or any(not isinstance(r, list) or len(r) != len(m) for r in m):
            return None
        tr = [list(r) for r in zip(*m)]
        for k, x in enumerate(self.known):
            if self.equal(x, m):
                return self.symbols(k, len(m))
        for k, x in enumerate(self.known):
            if self.equal(x, tr):
                return [list(r) for r in zip(*self.symbols(k, len(m)))]
        if not new:
            return None
        self.known.append(m)
        return self.symbols(len(self.known) - 1, len(m))

    def inv(self, ip, st, args, kw, self_):
        g = self.of(ip.nest(st, args[0]))
        return ip.mk(st, g) if g else ip.unknown(st, "inverse")

    def solve(self, ip, st, args, kw, self_):
        g = self.of(ip.nest(st, args[0]))
        b = ip.nest(st, args[1])
        if not g or not isinstance(b, list):
            return ip.unknown(st, "solve")
        return ip.mk(st, ip.dotp(g, b))

    def ext(self):
        return {"numpy.linalg.inv": self.inv, "numpy.linalg.solve": self.solve, "scipy.linalg.inv": self.inv, "scipy.linalg.solve": self.solve}


class Named(MatInterp):
    """quotients of sums get a name of their own; the definitions are put back where an identity needs them"""

    def __init__(self, prog, *, names=None, **kw):
        super().__init__(prog, **kw)
        self.names = names if names is not None else {}     # atom -> definition, oldest first

    def name(self, q):
        if not isinstance(q, Rat) or len(q.d) < 2:
            return q
        for a, d in self.names.items():
            if d == q:
                return rat(a)
        v = S(f"Q{len(self.names) + 1}")
        self.names[v.as_atom()] = q
        return v

    def binop(self, op, a, b, st, node):
        v = super().binop(op, a, b, st, node)
        if isinstance(op, ast.Div) and isinstance(v, Rat):
            if self.is_arr(st, v):
                return self.mk(st, self.map1(self.name, self.nest(st, v)))
            return self.name(v)
        return v


def vanishes(v, names):
    """is the value zero once the names are replaced by what they stand for? (identity test over a prime field)"""
    if v.is_zero():
        return True
    f = alg.fingerprint(v, names)
    return None if f is None else f == 0


def row_times(v, m):
    return [total(v[i] * m[i][j] for i in range(len(v))) for j in range(len(m[0]))]


def plus(a, b):
    return [x + y for x, y in zip(a, b)]


def times(c, a):
    return [c * x for x in a]


SWEEP = """    q.t = [np.array(y) for y in t]
    q.x[0] = 0.4
    q.run()
    return [q.t, q.x, q.z, q.A, q.B, q.C, q.D]
"""


def every(xs):
    """conjunction of True / False / None"""
    out = True
    for x in xs:
        if x is False:
            return False
        out = out if x else None
    return out


def some(xs):
    out = False
    for x in xs:
        if x:
            return True
        out = None if x is None else out
    return out


def judge_sweep(rep, label, v, old, inv, finite, names):
    def zero(e):
        return vanishes(e, names)

    t, x, z, A, B, C, D = v
    N = len(old)
    if not all(isinstance(q, list) and len(q) >= N for q in v):
        rep.ob("sweep", label, None, f"{label}: the results of a sweep are not understood")
        return
    def vec(q):
        return q[0] if isinstance(q, list) and len(q) == 1 and isinstance(q[0], list) else q
    new = [vec(q) for q in t[:N]]
    if any(not numeric(q) for q in new) or not all(simple(e) for q in new for e in q) or not all(
            isinstance(e, Rat) and simple(e) for e in x[:N - 1] + z[1:N]):
        rep.ob("sweep", label, None, f"{label}: the probabilities after a sweep are not understood")
        return
    syms = {e.as_atom() for q in old for e in q[0]}
    if not any(contains_atom(e, lambda a: a in syms) for q in new for e in q):
        rep.ob("sweep", label, None, f"{label}: the sweep does not start from the given probabilities")
        return
    old = [q[0] for q in old]
    G = [inv.of([[D[j][a][b] - C[j][a][b] for b in range(len(D[j]))] for a in range(len(D[j]))], new=False) for j in range(N)]
    if any(g is None for g in G):
        rep.ob("sweep", label, None, f"{label}: the matrices D - C are not inverted")
        return
    for j in range(1, N):
        last = j == N - 1
        rep.ob("probabilities of the states of a level add to one", f"{label}|level {j}", zero(total(new[j]) - 1), f"{label}: level {j}")
        if last and not finite:
            cand = [(b, None) for b in (new[j - 1], old[j - 1])]
        else:
            cand = [(b, c) for b in (new[j - 1], old[j - 1]) for c in ((old[j + 1], new[j + 1]) if not last else (None,))]
        def cut(b):
            return zero(total(row_times(new[j], B[j])) - z[j] * total(row_times(b, A[j - 1])))
        def balance(b, c):
            w = times(z[j], row_times(row_times(b, A[j - 1]), G[j]))
            if c is not None:
                w = plus(w, times(x[j], row_times(row_times(c, B[j + 1]), G[j])))
            return every(zero(p - q) for p, q in zip(new[j], w))
        if not (last and finite):
            ok = some(cut(b) for b in {id(b): b for b, c in cand}.values())
            rep.ob("rates up and down between neighbouring levels agree", f"{label}|level {j}", ok,
                   f"{label}: at level {j} the flow down differs from z times the flow up of the level below")
        if not last or finite:
            ok = some(balance(b, c) for b, c in cand)
            rep.ob("balance equations of a level", f"{label}|level {j}", ok,
                   f"{label}: the states of level {j} are not z t' A G + x t'' B G of the neighbouring levels")
    ok = zero(x[0] * z[1] - 1)
    rep.ob("ratio of the first two levels", label, ok, f"{label}: x[0] z[1] is not one")
    w = row_times(row_times(new[1], B[1]), G[0])
    ok = every(zero(p - x[0] * q) for p, q in zip(new[0], w))
    if ok is not True:
        ok = some([ok, every([zero(total(new[0]) - 1)] + [zero(p * w[0] - q * new[0][0]) for p, q in zip(new[0], w)])])
    rep.ob("balance equations of a level", f"{label}|level 0", ok, f"{label}: the states of level 0 are not x t' B G of level 1")


def sweep_source(mod, call, params):
    return f"import numpy as np\nfrom {mod} import {call.split('(')[0]}\ndef drive({params}, t):\n    q = {call}\n{SWEEP}"


def solvers():
    """(label, class, driver source, arguments, assumptions, stubs, finite, reference chain, top)"""
    for name, (mod, call, ref) in MODELS.items():
        for finite in (False, True):
            cls = call.split("(")[0]
            top = 2
            chain = build(*ref(1), top=top)
            yield (f"{name}, n = 1" + (", 1 place in the queue" if finite else ""), cls, mod, call, "n, l, b, w, c, d, mu, buffer, N",
                   arguments(1, 1 if finite else None, top + 1), ([l, S("mu")], positive), Fits(), finite, chain, top)
    for name, (mod, call, ref, busy, known, kind) in PRIORITY.items():
        if kind != "Cox":
            continue
        n = 2 if name == "three classes" else 1
        yield (f"{name}, n = {n}", call.split("(")[0], mod, call, "n, mu_L, mu_M, mu_H, l_L, l_M, l_H, mu1_H, mu2_H, p_H, N", prty_arguments(n, 3),
               ([], prty_positive(n)), Fits(known(n)), False, build(*ref(n), top=2), 2)


def sweeps(ctx, rep, tier):
    for label, cls, mod, call, params, args, (pos, assume), fits, finite, chain, top in solvers():
        if ONLY and ONLY not in label:
            continue
        old = [[[S(f"t{k}.{i}") for i in range(len(chain.states[k]))]] for k in range(top + 1)]
        inv = Inverses()
        names = {}
        m = Model(ctx, rep, label, interp=Named, names=names, fork=1, ext=inv.ext(),
                  stubs=dict(fits.stubs(), **{f"{cls}.calculate_p": lambda *a: None, f"{cls}.calculate_y": lambda *a: None}))

        def run(m=m, label=label, mod=mod, call=call, params=params, args=args, pos=pos, assume=assume, old=old, inv=inv, finite=finite, names=names):
            seen = []
            for ip, st, v in m.run(sweep_source(mod, call, params), args + [old], pos, assume=assume):
                if "zerodiv" in {f[0] if isinstance(f, tuple) else f for f in st.flags}:
                    continue
                if not (isinstance(v, list) and len(v) == 7):
                    rep.ob("sweep", label, None if v is not None else False, f"{label}: a sweep raises")
                    continue
                if v[0] == old or any(same(v[:3], u) is True for u in seen):
                    continue
                seen.append(v[:3])
                judge_sweep(rep, label, v, old, inv, finite, names)
            if not seen:
                rep.ob("sweep", label, None, f"{label}: no sweep is analysed")
        rep.guard(label, run)


# ------------------------------------------------------------------ probabilities of the levels
PROBS = """    q.t = [np.array(y) for y in t]
    q.x = x
    q.calculate_p()
    q.calculate_y()
    return [q.p, q.Y, low(q)]
"""


def probability_source(mod, call, params):
    tail = PROBS.replace("low(q)", "q.get_second_class_v1()" if "PNZ" in call else "q.get_low_class_v1()" if "mu_L" in call else "None")
    return f"import numpy as np\nfrom {mod} import {call.split('(')[0]}\ndef drive({params}, t, x):\n    q = {call}\n{tail}"


def probabilities(ctx, rep, tier):
    for label, cls, mod, call, params, args, (pos, assume), fits, finite, chain, top in solvers():
        if ONLY and ONLY not in label:
            continue
        t = [[[S(f"t{k}.{i}") for i in range(len(chain.states[k]))]] for k in range(top + 1)]
        x = [S(f"x{k}") for k in range(top)] + [ZERO if finite else S(f"x{top}")]
        m = Model(ctx, rep, label, interp=MatInterp, fork=3, stubs=fits.stubs())
        priority = "mu_L" in call

        def setup(ip, st, assume=assume, x=x, top=top):
            assume(ip, st)
            for v in x[:top]:
                ip.assume_cmp(st, ">", v)

        def run(m=m, label=label, mod=mod, call=call, params=params, args=args, pos=pos, setup=setup, t=t, x=x, top=top, priority=priority):
            seen = 0
            for ip, st, v in m.run(probability_source(mod, call, params), args + [t, x], pos, assume=setup):
                if "zerodiv" in {f[0] if isinstance(f, tuple) else f for f in st.flags}:
                    continue
                if not (isinstance(v, list) and len(v) == 3):
                    rep.ob("level probabilities", label, None if v is not None else False, f"{label}: putting the levels together raises")
                    continue
                p, Y, low = v
                if not isinstance(p, list) or not numeric(p[:top + 1]) or not all(simple(q) for q in p[:top + 1]):
                    rep.ob("level probabilities", label, None, f"{label}: the level probabilities are not understood")
                    continue
                if p[0].is_zero():
                    continue
                seen += 1
                p = p[:top + 1]
                for j in range(top):
                    ok = vanishes(p[j + 1] - p[j] * x[j], {})
                    rep.ob("neighbouring levels have the ratio found by the iteration", f"{label}|{j}", ok, f"{label}: p[{j + 1}] is not p[{j}] x[{j}]")
                unit = total([ONE] + [prod(x[:j + 1]) for j in range(top)])
                if not priority:
                    ok = vanishes(total(p) - 1, {})
                    rep.ob("level probabilities add to one", label, ok, f"{label}: the sum is {show(total(p))}")
                elif p[0].const() is not None and p[0].const() != rat(1).const() / 2:
                    # second step of the bisection: up when the first sum was below one
                    half = rat(1) / 2
                    if p[0].const() in (rat(1).const() / 4, rat(3).const() / 4):
                        over = ip.decide_cmp(st.facts, ">", half * unit - 1)
                        rep.ob("the bisection moves towards a sum of one", label, over is (p[0].const() < half.const()) if over is not None else None,
                               f"{label}: p[0] becomes {p[0]} when the sum at 1/2 is {'above' if over else 'below'} one")
                Yn = [q[0] if isinstance(q, list) and len(q) == 1 else q for q in Y[:top + 1]] if isinstance(Y, list) else None
                ok = None
                if Yn and all(numeric(q) for q in Yn) and len(Yn) == top + 1:
                    ok = every(len(q) == len(t[k][0]) and every(vanishes(a - p[k] * b, {}) for a, b in zip(q, t[k][0])) for k, q in enumerate(Yn))
                rep.ob("state probabilities = level probability times distribution within the level", label, ok, label)
                if priority:
                    ok = vanishes(low - total(j * p[j] for j in range(top + 1)) / lL, {}) if isinstance(low, Rat) and simple(low) else None
                    rep.ob("mean sojourn of the low class by Little's law", label, ok, f"{label}: {show(low)}")
            if not seen:
                rep.ob("level probabilities", label, None, f"{label}: not analysed")
        rep.guard(label, run)


def prod(xs):
    out = ONE
    for v in xs:
        out = out * v
    return out
