"""Passage times between levels: the matrices of the level process, the fixed points of the iterations and their moments."""
import ast
from math import comb, factorial

from .alg import Rat, rat, ZERO, ONE, deep_subst, contains_atom, fingerprint, PRIME
from .interp import Tup
from .matinterp import MatInterp, total
from .rules_dist import OPAQUE
from .rules_theory import S, Model, same, show, py


class FixInterp(MatInterp):
    """A loop that changes matrices is an iteration G <- f(G): it is followed once from an arbitrary G, and what it leaves is a new
    symbol X together with the equation X = f(X) that holds when the iteration has converged."""

    def __init__(self, prog, *, book=None, **kw):
        super().__init__(prog, **kw)
        self.book = book          # shared: fresh number, equations

    # a helper without side effects that returns numbers (a norm) is not followed path by path
    def call_function(self, st, fi, args, kwargs, node, selfval=None):
        res = super().call_function(st.copy() if self.scalar_helper(fi) else st, fi, args, kwargs, node, selfval=selfval)
        if len(res) > 1 and self.scalar_helper(fi) and all(isinstance(v, Rat) and self.nest(s, v) is v for s, v in res):
            return [(st, self.fresh(st, "call", f"value of {fi.name}"))]
        return res

    def getattr(self, st, b, name, node):
        if name in ("real", "imag") and isinstance(b, Rat) and not self.is_arr(st, b):
            return [(st, b if name == "real" else ZERO)]
        return super().getattr(st, b, name, node)

    @staticmethod
    def scalar_helper(fi):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "pop", "insert", "fill"):
                return False
        return True

    def x_While(self, s, env, st):
        places = self.places(s, env, st)
        arrays = [p for p in places if isinstance(self.nest(st, self.read(p, env, st)), list) and self.is_arr(st, self.read(p, env, st))]
        if not arrays or self.loop_probe:
            return super().x_While(s, env, st)
        e0, s0 = dict(env), st.copy()
        syms = {}
        for p in places:
            if p in arrays:
                self.book["n"] += 1
                k = self.book["n"]
                syms[p] = self.symbols(self.nest(st, self.read(p, env, st)), f"it{k}")
                self.write(p, self.mk(s0, syms[p]), e0, s0)
            elif isinstance(self.read(p, env, st), Rat):
                self.write(p, self.fresh(s0, "call", "loop"), e0, s0)
        news = []
        for e2, s2, o in self.exec_block(s.body, e0, s0):
            if o is not None and o[0] != "continue":
                continue
            new = {p: self.nest(s2, self.read(p, e2, s2)) for p in arrays}
            if not news or all(same(new[p], news[0][p]) is True for p in arrays):
                news = news or [new]
            else:
                news.append(new)
        e9, s9 = dict(env), st.copy()
        if len(news) != 1 or any(not isinstance(news[0][p], list) for p in arrays):
            for p in places:
                if p in arrays:
                    v = self.read(p, e9, s9)
                    self.spoil(s9, v)
                else:
                    self.write(p, self.fresh(s9, "call", "loop"), e9, s9)
            return [(e9, s9, None)]
        new = news[0]
        # at convergence two iterates with the same new value agree; a copy of another iterate is that iterate
        rep = {}
        for p in arrays:
            src = next((q for q in arrays if q != p and q not in rep and new[p] == syms[q]), None)
            src = src if src is not None else next((q for q in arrays if q in rep.values() and q != p and same(new[p], new[q]) is True), None)
            rep[p] = src if src is not None else p
        for p in arrays:
            while rep[rep[p]] != rep[p]:
                rep[p] = rep[rep[p]]
        sub = {}
        for p in arrays:
            if rep[p] != p:
                for a, b in zip(flatten(syms[p]), flatten(syms[rep[p]])):
                    sub[a.as_atom()] = b
        for p in arrays:
            r = rep[p]
            if r == p:
                self.book["eqs"].append((syms[p], mapped(new[p], sub)))
            for x in flatten(syms[r]):
                self.assume_cmp(s9, ">", x)
            self.write(p, self.mk(s9, syms[r]), e9, s9)
        for p in places:
            if p not in arrays and isinstance(self.read(p, env, st), Rat):
                self.write(p, self.fresh(s9, "call", "loop"), e9, s9)
        return [(e9, s9, None)]

    def symbols(self, x, name):
        if isinstance(x, list):
            return [self.symbols(y, f"{name}.{i}") for i, y in enumerate(x)]
        return S(name)

    def places(self, s, env, st):
        out = []
        for n in ast.walk(s):
            t = None
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                t = n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                t = n.value
                while isinstance(t, ast.Subscript):
                    t = t.value
            if isinstance(t, ast.Name):
                p = ("n", t.id)
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), Rat):
                p = ("a", t.value.id, t.attr)
            else:
                continue
            if p not in out and self.read(p, env, st) is not None:
                out.append(p)
        return out

    @staticmethod
    def read(p, env, st):
        if p[0] == "n":
            return env.get(p[1])
        a = env[p[1]].as_atom()
        return st.heap.get((a, p[2])) if a is not None else None

    @staticmethod
    def write(p, v, env, st):
        if p[0] == "n":
            env[p[1]] = v
        else:
            st.heap[(env[p[1]].as_atom(), p[2])] = v


def flatten(x):
    return [z for y in x for z in flatten(y)] if isinstance(x, list) else [x]


def mapped(x, sub):
    if isinstance(x, list):
        return [mapped(y, sub) for y in x]
    return deep_subst(x, sub) if sub else x


# ------------------------------------------------------------------ matrix arithmetic
def mul(a, b):
    return MatInterp.dotp(a, b)


def add(*ms):
    return [[total(m[i][j] for m in ms) for j in range(len(ms[0][0]))] for i in range(len(ms[0]))]


def scale(c, a):
    return [[c * x for x in r] for r in a]


def sub(a, b):
    return [[x - y for x, y in zip(r, q)] for r, q in zip(a, b)]


def chain(sizes):
    """matrices of rates of a level process: sizes of the levels 0..t, the last one repeats"""
    A, B, C, D = [], [], [], []
    t = len(sizes) - 1
    for k, n in enumerate(sizes):
        up, down = sizes[min(k + 1, t)], sizes[k - 1] if k else 1
        A.append([[S(f"a{k}.{i}.{j}") for j in range(up)] for i in range(n)])
        B.append([[S(f"b{k}.{i}.{j}") if k else ZERO for j in range(down)] for i in range(n)])
        C.append([[S(f"c{k}.{i}.{j}") if i != j else ZERO for j in range(n)] for i in range(n)])
        D.append([[S(f"d{k}.{i}") if i == j else ZERO for j in range(n)] for i in range(n)])
    return A, B, C, D


SRC = """import numpy as np
from most_queue.theory.utils.passage_time import passage_time_calc
def drive(A, B, C, D, clx, last, gaps):
    A = [np.array(x) for x in A]
    B = [np.array(x) for x in B]
    C = [np.array(x) for x in C]
    D = [np.array(x) for x in D]
    q = passage_time_calc(A, B, C, D, is_clx=clx, l_tilda=last)
    q.calc()
    out = [q.F, q.B, q.L, q.Fr, q.Br, q.Lr, q.G, q.Gr, q.Z]
    for i, j in gaps:
        out.append(q.G_gap_calc(i, j))
        out.append(q.Gr_gap_calc(i, j))
        out.append(q.Z_gap_calc(i, j))
    return out
"""


def passage(ctx, rep, tier):
    cases = [([1, 2, 2], False), ([2, 2], True), ([1, 1, 1], False)] + ([([2, 2, 2], False), ([1, 1, 1, 1, 1], True)] if tier == "thorough" else [])
    for sizes, clx, last in [c + (None,) for c in cases] + [([2, 2], False, 1)]:
        t = len(sizes) - 1
        label = f"levels of {sizes} states" + (", repeating level given" if last else "")
        A, B, C, D = chain(sizes)
        gaps = [(1, 0), (t + 1, 0), (t + 1, t - 1), (t, 0)] if max(sizes) == 1 else [(t + 1, t - 1), (t, 0)] if sizes[0] == 1 else []
        store = dict(n=0, eqs=[])
        m = Model(ctx, rep, label, interp=FixInterp, book=store)

        def run(m=m, sizes=sizes, t=t, label=label, A=A, B=B, C=C, D=D, clx=clx, gaps=gaps, store=store, last=last):
            rates = [x for mats in (A, C, B[1:]) for mt in mats for r in mt for x in r if not x.is_zero()] + [D[k][i][i] for k in range(t + 1) for i in range(sizes[k])]
            seen = 0
            for ip, st, v in m.run(SRC, [x + ([x[t]] * 2 if last else []) for x in (A, B, C, D)] + [clx, rat(last) if last else None, Tup(tuple(Tup((rat(i), rat(j))) for i, j in gaps))], rates):
                if "zerodiv" in {f[0] if isinstance(f, tuple) else f for f in st.flags}:
                    continue
                if not (isinstance(v, list) and len(v) == 9 + 3 * len(gaps)):
                    rep.ob("passage times", label, None if v is not None else False, f"{label}: the calculation raises")
                    continue
                if any(isinstance(z, Rat) and z.is_zero() for n in range(len(gaps)) for z in flatten(v[11 + 3 * n])):
                    continue            # a passage of probability zero
                seen += 1
                judge(rep, label, sizes, t, A, B, C, D, v, store["eqs"], gaps)
            if not seen:
                rep.ob("passage times", label, None, f"{label}: not analysed")
        rep.guard(label, run)


def shaped(x, r, c):
    return isinstance(x, list) and len(x) == r and all(isinstance(y, list) and len(y) == c and all(isinstance(z, Rat) for z in y) for y in x)


def verdict(m):
    vs = [True if z.is_zero() else None if contains_atom(z, lambda a: a.kind in OPAQUE) else False for r in m for z in r]
    return False if False in vs else None if None in vs else True


def fixed(rep, rule, where, X, f, eqs, factor=None):
    """X = f(X): either as it stands, or because X is what an iteration with that map leaves"""
    want = sub(f(X), X)
    d = verdict(want)
    if d is not True:
        for syms, new in eqs:
            if syms == X:
                d = verdict(sub(sub(new, X), want))
                if d is False and factor is not None:
                    # another iteration with the same fixed points
                    if verdict(sub(mul(factor(X), sub(new, X)), want)) is True:
                        d = True
                if d is False and any(z.den.const() is None if hasattr(z.den, "const") else False for r in new for z in r):
                    d = None
                break
    rep.ob(rule, where, d, f"{where}: the result does not satisfy its equation")


def judge(rep, label, sizes, t, A, B, C, D, v, eqs, gaps):
    F, Bq, L, Fr, Br, Lr, G, Gr, Z = v[:9]

    def lv(k):
        return min(k, t)
    size = lambda k: sizes[lv(k)]
    one = lambda k: [ONE / D[k][i][i] for i in range(sizes[k])]
    P = {}
    for nm, mats, got, gr in (("up", A, F, Fr), ("down", B, Bq, Br), ("within", C, L, Lr)):
        for k in range(t + 1):
            g = one(k)
            want = [[x * g[i] for x in r] for i, r in enumerate(mats[k])]
            P[nm, k, 0] = want
            ok = shaped(got[k], len(want), len(want[0])) and verdict(sub(got[k], want)) if isinstance(got, list) and len(got) > k else None
            rep.ob("probability of a jump = rate over the total rate of the state", f"{label}|{nm} {k}", ok, f"{label}, level {k}, {nm}")
            for r in (1, 2, 3):
                w = [[x * g[i] ** r * factorial(r) for x in row] for i, row in enumerate(want)]
                P[nm, k, r] = w
                x = gr[k][r - 1] if isinstance(gr, list) and len(gr) > k and len(gr[k]) >= r else None
                ok = verdict(sub(x, w)) if shaped(x, len(w), len(w[0])) else None
                rep.ob("moments of the time in a state before a jump", f"{label}|{nm} {k}, order {r}", ok, f"{label}, level {k}, {nm}, order {r}")
    if not (isinstance(G, list) and len(G) == t + 1 and isinstance(Gr, list) and len(Gr) == t + 1):
        rep.ob("passage probabilities", label, None, f"{label}: the result has no list of levels")
        return
    dn = lambda k: sizes[lv(k) - 1] if lv(k) else 1
    for k in range(t + 1):
        if not (shaped(G[k], sizes[k], dn(k) if k < t else sizes[t - 1] if t else 1)) or not all(shaped(x, sizes[k], len(G[k][0])) for x in Gr[k]) or len(Gr[k]) != 3:
            rep.ob("passage probabilities", f"{label}|{k}", None, f"{label}: level {k} has another form")
            return
    M = {k: [G[k]] + list(Gr[k]) for k in range(t + 1)}
    for k in range(t + 1):
        up = M[lv(k + 1)]
        for r in range(4):
            def f(X, k=k, r=r, up=up):
                # E[T^r] of: down, or one jump within and a passage, or up and two passages
                here = lambda q: X if q == r else M[k][q]
                above = lambda q: (here(q) if k == t else up[q])
                terms = [P["down", k, r]]
                for q in range(r + 1):
                    terms.append(scale(rat(comb(r, q)), mul(P["within", k, r - q], here(q))))
                    for p in range(q + 1):
                        terms.append(scale(rat(comb(r, q) * comb(q, p)), mul(P["up", k, r - q], mul(above(p), here(q - p)))))
                return add(*terms)

            def factor(X, k=k, r=r, up=up):
                n = sizes[k]
                e = [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
                return sub(sub(e, P["within", k, 0]), mul(P["up", k, 0], X if k == t and r == 0 else up[0]))
            fixed(rep, "passage to the level below: probabilities" if r == 0 else "passage to the level below: moments",
                  f"{label}|level {k}, order {r}", M[k][r], f, eqs, factor)
        for r in (1, 2, 3):
            for i in range(sizes[k]):
                for j in range(len(G[k][0])):
                    z = Z[k][r - 1][i][j]
                    ok = None
                    if isinstance(z, Rat):
                        g = G[k][i][j]
                        if g.is_zero():
                            ok = True
                        elif z.is_zero():
                            ok = True if not g.is_zero() else None      # a passage that is impossible
                        else:
                            ok = same(z * g, M[k][r][i][j])
                    rep.ob("conditional moments = moments over the probability", f"{label}|level {k}, order {r}", ok, f"{label}: state {i} to {j}")
    for n, (i, j) in enumerate(gaps):
        g, gr, gz = v[9 + 3 * n:12 + 3 * n]
        acc = None
        for k in range(i, j, -1):
            step = M[lv(k)]
            acc = step if acc is None else [add(*[scale(rat(comb(r, q)), mul(acc[q], step[r - q])) for q in range(r + 1)]) for r in range(4)]
        modulo(rep, "passage over several levels: probability", f"{label}|{i} to {j}", g, acc[0], eqs)
        for r in (1, 2, 3):
            modulo(rep, "passage over several levels: moments", f"{label}|{i} to {j}, order {r}", gr[r - 1] if isinstance(gr, list) and len(gr) == 3 else None, acc[r], eqs)
            ok = None
            h, w = len(acc[0]), len(acc[0][0])
            if isinstance(gz, list) and len(gz) == 3 and shaped(gz[r - 1], h, w) and shaped(g, h, w) and shaped(gr[r - 1], h, w):
                ps = [(fingerprint(z * x), fingerprint(y)) for z, x, y in zip(flatten(gz[r - 1]), flatten(g), flatten(gr[r - 1]))]
                ok = None if any(None in q for q in ps) else all(a == b for a, b in ps)
            rep.ob("conditional moments = moments over the probability", f"{label}|{i} to {j}, order {r}", ok, f"{label}: {i} to {j}")


def modulo(rep, rule, where, got, want, eqs):
    """equal, or equal after the linear equations X = f(X) of one-state levels are solved"""
    if not shaped(got, len(want), len(want[0])):
        rep.ob(rule, where, None if got is not None else False, f"{where}: {show(got)}")
        return
    sol = solution(eqs)
    ok, memo = True, {}
    for g, w in zip(flatten(got), flatten(want)):
        if not (g - w).is_zero():
            p, q = fingerprint(g, sol, memo), fingerprint(w, sol, memo)
            ok = ok and (None if p is None or q is None else p == q)
    rep.ob(rule, where, ok, f"{where}: not the passages of the levels one after the other")


def residue(x, sol):
    return fingerprint(x, sol, {})


def solution(eqs):
    """a point of the prime field at which the equations X = f(X) hold: linear ones are solved for X, the others for a rate"""
    sol = {}
    for syms, new in eqs:
        xs, fs = flatten(syms), flatten(new)
        u = [x.as_atom() for x in xs]

        def at(vals):
            s = dict(sol)
            s.update(zip(u, (rat(v) for v in vals)))
            return [residue(f, s) for f in fs]
        n = len(u)
        c = at([0] * n)
        cols = [at([int(i == j) for i in range(n)]) for j in range(n)]
        probe = [3 + 7 * i for i in range(n)]
        p = at(probe)
        if None in c or any(None in q for q in cols) or None in p:
            continue
        lin = [(c[i] + sum((cols[j][i] - c[i]) * probe[j] for j in range(n))) % PRIME for i in range(n)]
        if lin == p:
            # (I - M) x = c
            a = [[(int(i == j) - (cols[j][i] - c[i])) % PRIME for j in range(n)] + [c[i]] for i in range(n)]
            x = solve(a)
            if x is not None:
                sol.update(zip(u, (rat(v) for v in x)))
            continue
        for x, f in zip(xs, fs):
            b = [a for a in rates_down(f) if a not in sol]
            for q in b:
                k0, k1 = residue(f - x, {**sol, q: ZERO}), residue(f - x, {**sol, q: ONE})
                if k0 is not None and k1 is not None and (k1 - k0) % PRIME:
                    sol[q] = rat(-k0 * pow(k1 - k0, -1, PRIME) % PRIME)
                    break
    return sol


def rates_down(f):
    found = []
    contains_atom(f, lambda a: a.kind == "sym" and a.args[0].startswith("b") and a not in found and found.append(a) or False)
    return found


def solve(a):
    n = len(a)
    for i in range(n):
        k = next((r for r in range(i, n) if a[r][i]), None)
        if k is None:
            return None
        a[i], a[k] = a[k], a[i]
        v = pow(a[i][i], -1, PRIME)
        a[i] = [x * v % PRIME for x in a[i]]
        for r in range(n):
            if r != i and a[r][i]:
                a[r] = [(x - a[r][i] * y) % PRIME for x, y in zip(a[r], a[i])]
    return [r[n] for r in a]
