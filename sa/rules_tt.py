"""Level-structured Markov chains of theory/: the matrices handed to the Takahashi-Takami iteration are the generator of the model,
one sweep keeps the balance equations, and the results are functionals of the level probabilities."""
from math import comb, factorial

from . import alg
from .alg import Rat, rat, ZERO, ONE, contains_atom, deep_subst
from .interp import State, Tup
from .matinterp import MatInterp, depth
from .rules_dist import OPAQUE
from .rules_theory import S, Model, same, show, total, numeric, py

l = S("l")


# ------------------------------------------------------------------ fitted parameters
def fit_args(name):
    """three symbolic moments with a recognisable name"""
    return [S(f"{name}_{i}") for i in (1, 2, 3)]


def law(name):
    return S(f"y_{name}"), S(f"m1_{name}"), S(f"m2_{name}")


def fitted(ip, st, args, kw, self):
    """parameters of the law fitted to the given moments: the law is named by its first moment"""
    x = py(ip, st, args[0] if args else kw.get("moments"))
    a = x[0].as_atom() if isinstance(x, list) and x and isinstance(x[0], Rat) else None
    if a is None or a.kind != "sym" or not a.args[0].endswith("_1"):
        return ip.unknown(st, "fit")
    return Tup(law(a.args[0][:-2]))


FITS = {"H2_dist.get_params_clx": fitted, "H2_dist.get_params": fitted, "Cox_dist.get_params": fitted}


class Fits:
    """stand-ins for the fitting functions that also know laws by their moments, and for the passage times of a level-structured chain"""

    def __init__(self, known=()):
        self.known = known          # (name, [first, second, third moment])
        self.used = []              # (kind of law, name) in the order of the calls
        self.other = 0
        self.passages = []          # matrices handed to the passage-time calculation, with the abstract state
        self.asked = set()

    def fit(self, kind):
        def f(ip, st, args, kw, self_):
            x = py(ip, st, args[0] if args else kw.get("moments"))
            if not isinstance(x, list) or len(x) < 3 or not all(isinstance(v, Rat) and simple(v) for v in x[:3]):
                return ip.unknown(st, "fit")
            name = self.named(x[:3])
            self.used.append((kind, name))
            return Tup(law(name.replace("gr", "z")))
        return f

    def named(self, x):
        a = x[0].as_atom()
        if a is not None and a.kind == "sym" and a.args[0].endswith("_1"):
            n = a.args[0][:-2]
            if all(same(v, S(f"{n}_{i + 1}")) is True for i, v in enumerate(x)):
                return n
        for n, want in self.known:
            if same(list(x), list(want)) is True:
                return n
        self.other += 1
        return f"other{self.other}"

    def passage(self, ip, st, args, kw, obj):
        """results of passage_time_calc.calc() as symbols: g.l.i.j, gr.l.i.j_r and z.l.i.j_r"""
        a = obj.as_atom()

        def attr(n):
            return py(ip, st, st.heap.get((a, n)))
        mats = [attr(n) for n in ("A_input", "B_input", "C_input", "D_input")]
        if not all(isinstance(m, list) for m in mats):
            return ip.unknown(st, "passage times of matrices that are not understood")
        self.passages.append((mats, st))
        D = mats[3]
        G, Gr, Z = [], [], []
        for k in range(len(D)):
            r, c = len(D[k]), len(D[k - 1]) if k else 1
            G.append([[S(f"g{k}.{i}.{j}") for j in range(c - 1)] + [1 - total(S(f"g{k}.{i}.{j}") for j in range(c - 1))] for i in range(r)])
            Gr.append([[[S(f"gr{k}.{i}.{j}_{q}") for j in range(c)] for i in range(r)] for q in (1, 2, 3)])
            Z.append([[[S(f"z{k}.{i}.{j}_{q}") for j in range(c)] for i in range(r)] for q in (1, 2, 3)])
        for n, v in (("G", G), ("Gr", Gr), ("Z", Z)):
            lv = [ip.mk(st, x) if n == "G" else ip.new_list(st, [ip.mk(st, y) for y in x]) for x in v]
            st.heap[(a, n)] = ip.new_list(st, lv)
        return None

    def stubs(self):
        return {"H2_dist.get_params_clx": self.fit("H2"), "H2_dist.get_params": self.fit("H2"), "Cox_dist.get_params": self.fit("Cox"),
                "passage_time_calc.calc": self.passage}


def busy_moments(lam, rate):
    """moments of the busy period of M/M/1"""
    b = [rat(factorial(i)) / rate ** i for i in (1, 2, 3)]
    q = 1 - lam * b[0]
    return [b[0] / q, b[1] / q ** 3, b[2] / q ** 4 + 3 * lam * b[1] ** 2 / q ** 5]


# ------------------------------------------------------------------ reference chains
class Chain:
    """states per level and transition rates (level, state) -> {(level', state'): rate}"""

    def __init__(self, levels):
        self.states = levels
        self.rates = {}

    def add(self, k, s, k2, s2, r):
        if isinstance(r, Rat) and r.is_zero():
            return
        d = self.rates.setdefault((k, s), {})
        d[(k2, s2)] = d.get((k2, s2), ZERO) + r

    def out(self, k, s):
        return self.rates.get((k, s), {})


def build(levels, moves, top=None):
    """chain over the given levels; transitions above the last level are dropped"""
    c = Chain([levels(k) for k in range(top + 1)])
    for k in range(top + 1):
        for s in c.states[k]:
            for k2, s2, r in moves(k, s):
                if k2 > top:
                    continue
                if s2 not in c.states[k2]:
                    raise AssertionError((k, s, k2, s2))
                c.add(k, s, k2, s2, r)
    return c


def served(k, i, n, y, m1, m2):
    """completions among min(k, n) busy servers, i of them in the second phase: (phase count after, rate)"""
    m = min(k, n)
    out = []
    if m - i:
        out += [(i, (m - i) * m1)] if k <= n else [(i, (m - i) * m1 * y), (i + 1, (m - i) * m1 * (1 - y))]
    if i:
        out += [(i - 1, i * m2)] if k <= n else [(i - 1, i * m2 * y), (i, i * m2 * (1 - y))]
    return out


def started(k, i, n, y):
    """phase count after an arrival at a serving system"""
    return [(i, y), (i + 1, 1 - y)] if k < n else [(i, ONE)]


def binom(m, y):
    return [(i, comb(m, i) * y ** (m - i) * (1 - y) ** i) for i in range(m + 1)]


def ref_tt(n):
    y, m1, m2 = law("b")

    def levels(k):
        return [("s", i) for i in range(min(k, n) + 1)]

    def moves(k, s):
        i = s[1]
        out = [(k + 1, ("s", j), l * p) for j, p in started(k, i, n, y)]
        if k:
            out += [(k - 1, ("s", j), r) for j, r in served(k, i, n, y, m1, m2)]
        return out
    return levels, moves


def ref_warm(n):
    y, m1, m2 = law("b")
    yw, *mw = law("w")

    def levels(k):
        return [("E",)] if not k else [("w", 0), ("w", 1)] + [("s", i) for i in range(min(k, n) + 1)]

    def moves(k, s):
        if s[0] == "E":
            return [(1, ("w", 0), l * yw), (1, ("w", 1), l * (1 - yw))]
        if s[0] == "w":
            return [(k + 1, s, l)] + [(k, ("s", i), mw[s[1]] * p) for i, p in binom(min(k, n), y)]
        i = s[1]
        return [(k + 1, ("s", j), l * p) for j, p in started(k, i, n, y)] + [
            (k - 1, ("s", j) if k > 1 else ("E",), r) for j, r in served(k, i, n, y, m1, m2)]
    return levels, moves


def ref_first(n):
    """the job that finds the system empty is served with the warm-up law, the others with the usual one"""
    y, m1, m2 = law("b")
    yw, *mw = law("w")

    def levels(k):
        m = min(k, n)
        return [("E",)] if not k else [("f", p, i) for p in (0, 1) for i in range(m)] + [("s", i) for i in range(m + 1)]

    def moves(k, s):
        m = min(k, n)
        if s[0] == "E":
            return [(1, ("f", 0, 0), l * yw), (1, ("f", 1, 0), l * (1 - yw))]
        if s[0] == "s":
            i = s[1]
            return [(k + 1, ("s", j), l * p) for j, p in started(k, i, n, y)] + [
                (k - 1, ("s", j) if k > 1 else ("E",), r) for j, r in served(k, i, n, y, m1, m2)]
        _, p, i = s
        out = [(k + 1, ("f", p, j), l * q) for j, q in started(k, i, n, y)]
        # one server works on the first job, the other m - 1 on i jobs of the second phase
        out += [(k - 1, ("f", p, j), r) for j, r in served(k - 1, i, n - 1, y, m1, m2)]
        if k > n:
            out += [(k - 1, ("s", i), mw[p] * y), (k - 1, ("s", i + 1), mw[p] * (1 - y))]
        else:
            out += [(k - 1, ("s", i) if k > 1 else ("E",), mw[p])]
        return out
    return levels, moves


def ref_cold(n, markov):
    """warm-up, cooling and - with hyperexponential service - a delay before cooling starts"""
    y, m1, m2 = law("b")
    mu = S("mu")
    yw, *mw = law("w")
    yc, *mc = law("c")
    yd, *md = law("d")

    def serving(k):
        return [("s", 0)] if markov else [("s", i) for i in range(min(k, n) + 1)]

    def levels(k):
        if not k:
            return [("E",)] + ([] if markov else [("d", 0), ("d", 1)]) + [("c", 0), ("c", 1)]
        return [("w", 0), ("w", 1)] + serving(k) + [("c", 0), ("c", 1)]

    def emptied(r):
        a, w = ("c", yc) if markov else ("d", yd)
        return [(0, (a, 0), r * w), (0, (a, 1), r * (1 - w))]

    def moves(k, s):
        if s[0] == "E":
            return [(1, ("w", 0), l * yw), (1, ("w", 1), l * (1 - yw))]
        if s[0] == "d":
            return [(1, ("s", 0), l * y), (1, ("s", 1), l * (1 - y)), (0, ("c", 0), md[s[1]] * yc), (0, ("c", 1), md[s[1]] * (1 - yc))]
        if s[0] == "c":
            end = [(0, ("E",), mc[s[1]])] if not k else [(k, ("w", 0), mc[s[1]] * yw), (k, ("w", 1), mc[s[1]] * (1 - yw))]
            return [(k + 1, s, l)] + end
        if s[0] == "w":
            after = [(0, ONE)] if markov else binom(min(k, n), y)
            return [(k + 1, s, l)] + [(k, ("s", i), mw[s[1]] * p) for i, p in after]
        i = s[1]
        up = [(0, ONE)] if markov else started(k, i, n, y)
        down = [(0, min(k, n) * mu)] if markov else served(k, i, n, y, m1, m2)
        out = [(k + 1, ("s", j), l * p) for j, p in up]
        for j, r in down:
            out += [(k - 1, ("s", j), r)] if k > 1 else emptied(r)
        return out
    return levels, moves


# ------------------------------------------------------------------ comparison of chains
def refine(chains):
    """coarsest equitable partition (by level) of the disjoint union; [{(level, state): colour}]"""
    col = [{(k, s): k for k, lv in enumerate(c.states) for s in lv} for c in chains]
    count = 0
    while True:
        names, new = {}, []
        for c, m in zip(chains, col):
            d = {}
            for x in m:
                acc = {}
                for t, r in c.out(*x).items():
                    if t != x:
                        acc[m[t]] = acc.get(m[t], ZERO) + r
                acc.pop(m[x], None)
                sig = (m[x], frozenset((k, v) for k, v in acc.items() if not v.is_zero()))
                d[x] = names.setdefault(sig, len(names))
            new.append(d)
        if len(names) == count:
            return new
        count, col = len(names), new


def equivalent(a, b):
    """(same quotient chain?, {state of a: state of b} where the correspondence is one to one)"""
    ca, cb = refine([a, b])
    ok = set(ca.values()) == set(cb.values())
    inv = {}
    for x, c in cb.items():
        inv.setdefault(c, []).append(x)
    own = {}
    for x, c in ca.items():
        own.setdefault(c, []).append(x)
    return ok, {x: inv[c][0] for x, c in ca.items() if len(inv.get(c, ())) == 1 and len(own[c]) == 1}


def simple(r):
    return not contains_atom(r, lambda a: a.kind in OPAQUE)


def read_chain(mats, top):
    """Chain of the level matrices of the program; None when they are not understood"""
    A, B, C, D = mats
    dims = [len(D[k]) for k in range(top + 1)]
    c = Chain([list(range(d)) for d in dims])
    ok = True
    for k in range(top + 1):
        for mat, k2 in ((A[k], k + 1), (B[k], k - 1), (C[k], k)):
            if k2 < 0 or k2 > top:
                continue
            if len(mat) != dims[k] or any(len(r) != dims[k2] for r in mat):
                return None, f"level {k}: a transition matrix of shape {len(mat)} x {len(mat[0])}, the levels have {dims[k]} and {dims[k2]} states"
            for i, row in enumerate(mat):
                for j, r in enumerate(row):
                    if not isinstance(r, Rat) or not simple(r):
                        return None, None
                    c.add(k, i, k2, j, r)
    return c, ""


def differences(code, ref):
    """first entries that differ when the states are taken in the documented order"""
    out = []
    for k, (a, b) in enumerate(zip(code.states, ref.states)):
        if len(a) != len(b):
            return [f"level {k} has {len(a)} states instead of {len(b)}"]
    for k, (a, b) in enumerate(zip(code.states, ref.states)):
        for i, s in enumerate(b):
            x = {(k2, ref.states[k2][j]): r for (k2, j), r in code.out(k, i).items()}
            z = ref.out(k, s)
            for t in sorted(set(x) | set(z), key=str):
                if not (x.get(t, ZERO) - z.get(t, ZERO)).is_zero():
                    out.append(f"from {s} at level {k} to {t[1]} at level {t[0]} the rate is {x.get(t, ZERO)} instead of {z.get(t, ZERO)}")
    return out[:3]


def judge_chain(rep, label, mats, ref, top, finite):
    """obligations for the matrices of one model; the correspondence of states, None when there is none"""
    A, B, C, D = mats
    if any(not isinstance(x, list) or len(x) <= top for x in mats):
        rep.ob("level matrices", label, None, "not understood")
        return None
    code, why = read_chain(mats, top)
    if code is None:
        rep.ob("the level matrices are the generator of the model", label, False if why else None, f"{label}: {why}")
        return None
    ident = all(len(a) == len(b) for a, b in zip(code.states, ref.states))
    diff = differences(code, ref)
    if not diff:
        match, ok = {(k, i): (k, s) for k, lv in enumerate(ref.states) for i, s in enumerate(lv)}, True
    else:
        ok, match = equivalent(code, ref)
    rep.count("transition rates", sum(len(d) for d in code.rates.values()))
    rep.ob("the level matrices are the generator of the model", label, ok, f"{label}: " + "; ".join(diff))
    for k in range(top + 1):
        up = (not finite or k < top)
        for i, row in enumerate(D[k]):
            want = total(r for m in ([A[k]] if up else []) + ([B[k]] if k else []) + [C[k]] for r in m[i])
            for j, r in enumerate(row):
                v = same(r, want if i == j else ZERO)
                if v is not True:
                    rep.ob("the rate of leaving a state is the sum of its transition rates", f"{label}|level {min(k, 9)}", v,
                           f"{label}, level {k}, state {i}: {r} instead of {want if i == j else 0}")
        rep.ob("the rate of leaving a state is the sum of its transition rates", label, True)
    return match if ok else None


MODELS = {
    "M/H2/n": ("most_queue.theory.mgn_tt", "MGnCalc(n, l, b, buffer=buffer, N=N)", ref_tt),
    "M/H2/n with warm-up": ("most_queue.theory.m_h2_h2warm", "Mh2h2Warm(l, b, w, n, buffer=buffer, N=N)", ref_warm),
    "M/H2/n, first service with warm-up": ("most_queue.theory.m_h2_h2warm", "Mh2h2Warm(l, b, w, n, buffer=buffer, N=N, is_only_first=True)", ref_first),
    "M/H2/n with warm-up, cooling and delay": ("most_queue.theory.mgn_with_h2_delay_cold_warm",
                                               "MGnH2ServingColdWarmDelay(l, b, w, c, d, n, buffer=buffer, N=N)", lambda n: ref_cold(n, False)),
    "M/M/n with warm-up and cooling": ("most_queue.theory.mmn_with_h2_cold_and_h2_warmup", "MMn_H2warm_H2cold(l, mu, w, c, n, buffer=buffer, N=N)",
                                       lambda n: ref_cold(n, True)),
}


def source(name, tail):
    mod, call, _ = MODELS[name]
    return (f"from {mod} import {call.split('(')[0]}\n"
            f"def drive(n, l, b, w, c, d, mu, buffer, N):\n    q = {call}\n{tail}")


def arguments(n, buffer, N):
    return [rat(n), l] + [fit_args(x) for x in "bwcd"] + [S("mu"), None if buffer is None else rat(buffer), rat(N)]


def positive(ip, st):
    for x in "bwcd":
        for v in fit_args(x) + list(law(x)):
            ip.assume_cmp(st, ">", v)
        ip.assume_cmp(st, ">", 1 - law(x)[0])


def generators(ctx, rep, tier):
    sizes = [(1, None), (2, None), (3, None), (1, 2), (2, 1), (3, 2)] + ([(4, None), (2, 3), (4, 1)] if tier == "thorough" else [])
    for name in MODELS:
        for n, buffer in sizes:
            top = n + 3 if buffer is None else n + buffer
            label = f"{name}, n = {n}" + (f", {buffer} places in the queue" if buffer else "")
            m = Model(ctx, rep, label, interp=MatInterp, stubs=FITS)
            ref = build(*MODELS[name][2](n), top=top)

            def run(m=m, ref=ref, top=top, buffer=buffer, n=n, name=name, label=label):
                src = source(name, "    return [q.A, q.B, q.C, q.D]\n")
                for ip, st, v in m.run(src, arguments(n, buffer, n + 4), [l, S("mu")], assume=positive):
                    if not (isinstance(v, list) and len(v) == 4):
                        rep.ob("level matrices", label, None if v is not None else False, f"{label}: building the matrices raises")
                        continue
                    judge_chain(rep, label, v, ref, top, buffer is not None)
            rep.guard(label, run)


# ------------------------------------------------------------------ priority models with busy-period approximation
lL, lM, lH, mL, mM, mH = (S(x) for x in ("l_L", "l_M", "l_H", "mu_L", "mu_M", "mu_H"))


def cox(tag, name, back):
    """transitions inside a busy period with a Cox law: phase 1 may end or go to phase 2"""
    y, m1, m2 = law(name)
    return {(tag, 1): [(back, m1 * (1 - y)), ((tag, 2), m1 * y)], (tag, 2): [(back, m2)]}


def hyper(tag, name, back):
    y, m1, m2 = law(name)
    return {(tag, 1): [(back, m1)], (tag, 2): [(back, m2)]}


def low_levels(high, free):
    """levels count the jobs of the low class; high: state -> [(state, rate)]; free: servers left to the low class"""
    states = list(high)

    def moves(k, s):
        out = [(k + 1, s, lL)] + [(k, t, r) for t, r in high[s]]
        m = min(k, free.get(s, 0))
        return out + ([(k - 1, s, m * mL)] if m else [])
    return (lambda k: states), moves


def ref_two_classes(n):
    high, free = {}, {}
    for i in range(n):
        high[i] = [(i + 1 if i + 1 < n else ("b", 1), lH)] + ([(i - 1, i * mH)] if i else [])
        free[i] = n - i
    high.update(cox("b", "busy", n - 1))
    return low_levels(high, free)


def ref_three_classes(n):
    def g(s):
        return [(0, S(f"g2.{s}.0")), (1, 1 - S(f"g2.{s}.0"))]

    high = {"-": [("M", lM), ("H", lH)]}
    high["M"] = [("-", mM)] + [(((3, e), 1), lM * p) for e, p in g(3)] + [(((2, e), 1), lH * p) for e, p in g(2)]
    high["H"] = [("-", mH)] + [(((2, e), 1), lM * p) for e, p in g(2)] + [(((0, e), 1), lH * p) for e, p in g(0)]
    for s in (3, 2, 0):
        for e in (1, 0):
            high.update(cox((s, e), f"z2.{s}.{e}", "HM"[e]))
    return low_levels(high, {"-": 2, "M": 1, "H": 1})


def ref_ph(n, is_cox):
    p, m1, m2 = S("p_H"), S("mu1_H"), S("mu2_H")
    high, free = {}, {}
    for i in range(n):
        for j in range(i + 1):
            out = [((i + 1, j), lH)] if i + 1 < n else []
            if i > j:
                out += [((i - 1, j), (i - j) * m1 * (1 - p)), ((i, j + 1), (i - j) * m1 * p)]
            if j:
                out += [((i - 1, j - 1), j * m2)]
            high[i, j] = out
            free[i, j] = n - i
    for s in range(n):
        g = [S(f"g{n}.{s}.{e}") for e in range(n - 1)]
        for e, pr in enumerate(g + [1 - total(g)]):
            name = f"z{n}.{s}.{e}"
            first = [(1, ONE)] if is_cox else [(1, law(name)[0]), (2, 1 - law(name)[0])]
            high[n - 1, s] = high[n - 1, s] + [(((s, e), ph), lH * pr * w) for ph, w in first]
            high.update((cox if is_cox else hyper)((s, e), name, (n - 1, e)))
    return low_levels(high, free)


def busy_three(n):
    """the two upper classes on two servers; a busy period of the high class counts as two of its jobs"""
    y, m1, m2 = law("hh")

    def levels(k):
        return [[("h", 0, 0)], [("h", 1, 0), ("h", 0, 1)]][k] if k < 2 else [("b", 1, k - 2), ("b", 2, k - 2), ("h", 1, k - 1), ("h", 0, k)]

    def moves(k, s):
        t, h, m = s
        if t == "b":
            return [(k + 1, (t, h, m + 1), lM)] + ([(k - 1, ("h", 1, m), m1 * (1 - y)), (k, (t, 2, m), m1 * y)] if h == 1 else
                                                   [(k - 1, ("h", 1, m), m2)])
        out = [(k + 1, ("h", h, m + 1), lM), (k + 1, ("h", 1, m) if h == 0 else ("b", 1, m), lH)]
        if h:
            out.append((k - 1, ("h", 0, m), mH))
        if min(m, 2 - h):
            out.append((k - 1, ("h", h, m - 1), min(m, 2 - h) * mM))
        return out
    return levels, moves


def busy_ph(n):
    p, m1, m2 = S("p_H"), S("mu1_H"), S("mu2_H")

    def levels(k):
        return list(range(min(k, n) + 1))

    def moves(k, j):
        m = min(k, n)
        out = [(k + 1, j, lH)]
        if m > j:
            out += [(k - 1, j, (m - j) * m1 * (1 - p)), (k, j + 1, (m - j) * m1 * p)]
        if j:
            out.append((k - 1, j - 1, j * m2))
        return out
    return levels, moves


PRIORITY = {
    "two classes": ("most_queue.theory.mmn_prty_pnz_approx", "MMn_PRTY_PNZ_Cox_approx(n, mu_L, mu_H, l_L, l_H, N=N)",
                    ref_two_classes, None, lambda n: [("busy", busy_moments(lH, n * mH))], "Cox"),
    "three classes": ("most_queue.theory.mmn3_pnz_cox_approx", "Mmn3_pnz_cox(mu_L, mu_M, mu_H, l_L, l_M, l_H, N=N)",
                      ref_three_classes, busy_three, lambda n: [("hh", busy_moments(lH, 2 * mH))], "Cox"),
    "phase-type high class": ("most_queue.theory.m_ph_n_prty", "m_ph_n_prty(mu_L, mu1_H, mu2_H, p_H, l_L, l_H, n, N=N, verbose=False)",
                              lambda n: ref_ph(n, True), busy_ph, lambda n: [], "Cox"),
    "phase-type high class, H2 busy periods": (
        "most_queue.theory.m_ph_n_prty", "m_ph_n_prty(mu_L, mu1_H, mu2_H, p_H, l_L, l_H, n, N=N, is_cox=False, verbose=False)",
        lambda n: ref_ph(n, False), busy_ph, lambda n: [], "H2"),
}


def prty_source(name, tail):
    mod, call = PRIORITY[name][:2]
    return (f"from {mod} import {call.split('(')[0]}\n"
            f"def drive(n, mu_L, mu_M, mu_H, l_L, l_M, l_H, mu1_H, mu2_H, p_H, N):\n    q = {call}\n{tail}")


def prty_arguments(n, N):
    return [rat(n), mL, mM, mH, lL, lM, lH, S("mu1_H"), S("mu2_H"), S("p_H"), rat(N)]


def prty_positive(n, names=()):
    def f(ip, st):
        for x in (mL, mM, mH, lL, lM, lH, S("mu1_H"), S("mu2_H"), S("p_H"), 1 - S("p_H"), n * mH - lH):
            ip.assume_cmp(st, ">", x)
    return f


def priority_generators(ctx, rep, tier):
    for name, (mod, call, ref, busy, known, kind) in PRIORITY.items():
        for n in ((2,) if name == "three classes" else (1, 2, 3, 4) if name == "two classes" else (1, 2)):
            label = f"{name}, n = {n}"
            top = n + 2
            fits = Fits(known(n))
            m = Model(ctx, rep, label, interp=MatInterp, stubs=fits.stubs(), fork=1)
            want = build(*ref(n), top=top)

            def run(m=m, want=want, top=top, n=n, name=name, label=label, fits=fits, busy=busy, kind=kind):
                src = prty_source(name, "    return [q.A, q.B, q.C, q.D]\n")
                for ip, st, v in m.run(src, prty_arguments(n, top + 3), assume=prty_positive(n)):
                    if "zerodiv" in {f[0] if isinstance(f, tuple) else f for f in st.flags}:
                        continue
                    if not (isinstance(v, list) and len(v) == 4):
                        rep.ob("level matrices", label, None if v is not None else False, f"{label}: building the matrices raises")
                        continue
                    judge_chain(rep, label, v, want, top, False)
                for kd, nm in fits.used:
                    rep.ob("a busy period is fitted to its moments given how it ends", f"{name}", not nm.startswith("gr"),
                           f"{label}: the law of busy period {nm} is fitted to E[X; end] instead of E[X | end]")
                kinds = {kd for kd, nm in fits.used if nm != "hh"}
                if kinds:
                    rep.ob("busy periods are fitted by the law the matrices are built for", label, kinds == {kind}, f"{label}: {kinds}")
                if busy:
                    if not fits.passages:
                        rep.ob("passage times", label, None, "no passage times of the busy periods are calculated")
                    for mats, st in fits.passages:
                        t = len(mats[3]) - 1
                        mats = [x + [x[t]] * 3 for x in (y[:t + 1] for y in mats)]
                        judge_chain(rep, f"{label}: busy periods", mats, build(*busy(n), top=t + 2), t + 2, False)
            rep.guard(label, run)
