"""Moments of a sampled value: integrates an abstract value over its independent draws, path by path."""
from fractions import Fraction
from math import factorial

from . import alg
from .alg import Rat, rat, R, ZERO, ONE, contains_atom, r_pow, r_log


class Unknown(Exception):
    pass


def rnds(x):
    """the random draws an expression mentions"""
    out = {}

    def pred(a):
        if a.kind == "rnd":
            out[a] = 1
        return False
    contains_atom(x, pred)
    return list(out)


def spec(a):
    """(distribution name, arguments) of a draw; the generator and the serial number removed"""
    args = list(a.args)
    name = str(args[0]).split(".")[-1]
    rest = [x for x in args[1:-1] if not isinstance(x, alg.Atom)]
    if not str(args[0]).startswith(("numpy", "random")) and len(args) > 2 and not isinstance(args[1], alg.Atom):
        rest = args[2:-1]
    return name, rest


UNIT = ("random", "rand", "random_sample", "sample", "ranf")


def int_unit(s, j, lo, hi):
    """integral of u^s (ln u)^j over (lo, hi) within (0, 1)"""
    def F(c):
        if c is ONE or c == ONE:
            return rat((-1) ** j * factorial(j)) / (s + 1) ** (j + 1)
        out = ZERO
        lc = r_log(c)
        for i in range(j + 1):
            out = out + rat(Fraction((-1) ** i * factorial(j), factorial(j - i))) * lc ** (j - i) / (s + 1) ** (i + 1)
        return r_pow(c, s + 1) * out
    a = ZERO if lo is None else F(lo)
    return F(ONE if hi is None else hi) - a


def raw(name, args, k):
    """E X^k of a library draw"""
    if name == "uniform":
        if not args:
            lo, hi = ZERO, ONE
        elif len(args) == 2:
            lo, hi = args
        else:
            raise Unknown(name)
        if (hi - lo).is_zero():
            return lo ** k
        return (hi ** (k + 1) - lo ** (k + 1)) / ((hi - lo) * (k + 1))
    if name in ("exponential", "standard_exponential"):
        sc = args[0] if args else ONE
        return sc ** k * factorial(k)
    if name in ("expovariate",):
        return rat(factorial(k)) / args[0] ** k
    if name in ("gamma", "standard_gamma", "gammavariate"):
        sh = args[0]
        sc = args[1] if len(args) > 1 else ONE
        out = ONE
        for i in range(k):
            out = out * (sh + i)
        return out * sc ** k
    if name in ("normal", "gauss", "normalvariate", "standard_normal"):
        m = args[0] if args else ZERO
        s = args[1] if len(args) > 1 else ONE
        return {0: ONE, 1: m, 2: m ** 2 + s ** 2, 3: m ** 3 + 3 * m * s ** 2,
                4: m ** 4 + 6 * m ** 2 * s ** 2 + 3 * s ** 4}.get(k) or _unk(name)
    if name == "pareto":          # numpy: Lomax
        a = args[0]
        raise Unknown(name)
    raise Unknown(name)


def _unk(n):
    raise Unknown(n)


def bounds_of(facts, us, decide=None):
    """interval of every unit draw on this path; raises when a condition on a draw is not of the form draw <> constant"""
    iv = {}
    for key, (lo, los, hi, his, excl) in facts.b.items():
        rs = rnds(key)
        if not rs:
            continue
        if len(rs) != 1:
            raise Unknown("condition on several draws")
        u = rs[0]
        name, args = spec(u)
        if name not in UNIT and not (name == "uniform" and not args):
            raise Unknown("condition on a " + name)
        # key = a*u + c,  lo <= key <= hi
        c = alg.deep_subst(key, {u: ZERO})
        a = alg.deep_subst(key, {u: ONE}) - c
        if contains_atom(a, lambda x: x is u) or not (key - a * rat(u) - c).is_zero() or a.const() is None:
            raise Unknown("condition not linear in the draw")
        s = a.const()
        L = (rat(lo) - c) / a if lo is not None else None
        H = (rat(hi) - c) / a if hi is not None else None
        if s < 0:
            L, H = H, L
        l0, h0 = iv.get(u, (None, None))
        iv[u] = (_tight(l0, L, ZERO, decide), _tight(h0, H, ONE, decide, True))
    return iv


def _tight(old, new, trivial, decide=None, upper=False):
    if new is None or (new - trivial).is_zero():
        return old
    if old is None:
        return new
    if (old - new).is_zero():
        return old
    if decide is not None:
        v = decide(">=", old - new)
        if v is not None:
            return old if v != upper else new
    raise Unknown("several bounds on one draw")


def moment(value, k, facts, decide=None):
    """E[ value^k ; path ]; decide(op, x) tells which of several bounds on a draw is the tighter one"""
    v = value ** k
    iv = bounds_of(facts, None, decide)
    # split each monomial of numerator and denominator in random and deterministic part
    d, dr = _common(v.d)
    if d is None:
        raise Unknown("random denominator")
    tot = ZERO
    for m, c in v.n.items():
        det, rnd = _split(m)
        rnd = dict(rnd)
        for i, e in dr.items():
            rnd[i] = rnd.get(i, 0) - e
        t = Rat({tuple(det): c})
        groups = {}
        for i, e in rnd.items():
            if e == 0:
                continue
            rs = rnds(rat(alg._ATOM_LIST[i]))
            if len(rs) != 1:
                raise Unknown("atom over several draws")
            groups.setdefault(rs[0], []).append((alg._ATOM_LIST[i], e))
        for u in set(groups) | set(iv):
            t = t * one(u, groups.get(u, []), iv.get(u, (None, None)))
        tot = tot + t
    return tot / d


def _split(m):
    det, rnd = [], []
    for i, e in m:
        (rnd if contains_atom(rat(alg._ATOM_LIST[i]), lambda a: a.kind == "rnd") else det).append((i, e))
    return det, rnd


def _common(p):
    dr = None
    out = {}
    for m, c in p.items():
        det, rnd = _split(m)
        if dr is None:
            dr = dict(rnd)
        elif dict(rnd) != dr:
            return None, None
        out[tuple(det)] = c
    return Rat(out), dr


def one(u, factors, iv):
    """integral over one draw of a product of powers of atoms"""
    name, args = spec(u)
    lo, hi = iv
    if name in UNIT or name == "uniform" and not args:
        var = None
        s, j = ZERO, 0
        for a, e in factors:
            if a is u:
                v, ds, dj = "u", rat(e), 0
            elif a.kind == "log":
                v, ds, dj = _which(a.args[0], u), ZERO, e
            elif a.kind == "pow":
                v, ds, dj = _which(a.args[0], u), a.args[1] * e, 0
                if contains_atom(a.args[1], lambda x: x.kind == "rnd"):
                    raise Unknown("random exponent")
            elif a.kind == "sqrt":
                v, ds, dj = _which(a.args[0], u), rat(Fraction(e, 2)), 0
            else:
                raise Unknown(a.kind)
            if v is None or dj < 0 or var not in (None, v):
                raise Unknown("unsupported function of a uniform draw")
            var = v
            s, j = s + ds, j + dj
        if var == "1-u":
            lo, hi = (None if hi is None else ONE - hi), (None if lo is None else ONE - lo)
        return int_unit(s, j, lo, hi)
    if lo is not None or hi is not None:
        raise Unknown("condition on a " + name)
    k = 0
    for a, e in factors:
        if a is not u or e < 0:
            raise Unknown("function of a " + name)
        k += e
    return raw(name, args, k)


def _which(x, u):
    if (x - rat(u)).is_zero():
        return "u"
    if (x - 1 + rat(u)).is_zero():
        return "1-u"
    return None
