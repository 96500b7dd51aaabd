"""Normal forms for the arithmetic of the analysed code (value numbering).

A number is a ratio of two polynomials with rational coefficients over interned
*atoms*.  An atom is an opaque construct of the source (the value a field has on
entry, an element of a list, the result of a call, a non-polynomial operation).
Two expressions that are equal by the field axioms get the same normal form, so
rules compare what is computed and not how it is written.
"""
import hashlib
from fractions import Fraction

_ATOMS = {}
_ATOM_LIST = []


class Atom:
    __slots__ = ("kind", "args", "id", "_str")

    def __repr__(self):
        return show_atom(self)

    # identity hashing: atoms are interned


def atom(kind, *args):
    key = (kind,) + args
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(_ATOM_LIST)
        a._str = None
        _ATOMS[key] = a
        _ATOM_LIST.append(a)
    return a


def show_atom(a):
    if a._str is None:
        k, args = a.kind, a.args
        if k == "fld":
            s = f"{args[0]}.{args[1]}"
        elif k == "idx":
            s = f"{args[0]}[{args[1]}]"
        elif k == "var":
            s = str(args[0])
        elif k == "len":
            s = f"len({args[0]})"
        elif k == "obj":
            s = f"{args[0]}"
        else:
            s = f"{k}({', '.join(str(x) for x in args)})"
        a._str = s
    return a._str


# ---------------------------------------------------------------- polynomials
# poly: dict  monomial -> Fraction,   monomial: tuple of (atom id, exponent>0), sorted by id

def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, sb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + sb * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted((i, e) for i, e in d.items() if e))


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_lead(a):
    return max(a, key=lambda m: (sum(e for _, e in m), m))


def p_divexact(a, b, limit=400):
    """a / b when b divides a exactly, else None"""
    if not b:
        return None
    q = {}
    r = dict(a)
    order = lambda m: (sum(e for _, e in m), tuple((-i, e) for i, e in m))
    lb = max(b, key=order)
    steps = 0
    while r:
        steps += 1
        if steps > limit:
            return None
        lr = max(r, key=order)
        d = dict(lr)
        for i, e in lb:
            if d.get(i, 0) < e:
                return None
            d[i] -= e
        m = tuple(sorted((i, e) for i, e in d.items() if e))
        c = r[lr] / b[lb]
        q[m] = q.get(m, 0) + c
        r = p_add(r, p_mul({m: c}, b), -1)
    return q


def p_content_mono(a):
    it = iter(a)
    try:
        first = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        d = dict(m)
        for i in list(first):
            e = min(first[i], d.get(i, 0))
            if e:
                first[i] = e
            else:
                del first[i]
        if not first:
            break
    return tuple(sorted(first.items()))


def p_div_mono(a, mono):
    if not mono:
        return a
    r = {}
    dm = dict(mono)
    for m, c in a.items():
        d = dict(m)
        for i, e in dm.items():
            d[i] -= e
        r[tuple(sorted((i, e) for i, e in d.items() if e))] = c
    return r


MAXTERMS = 4000


class TooBig(Exception):
    pass


class Rat:
    __slots__ = ("n", "d", "_h", "_key")

    def __init__(self, n, d=None, norm=True):
        if d is None:
            d = {(): Fraction(1)}
        if len(n) > MAXTERMS or len(d) > MAXTERMS:
            raise TooBig()
        if norm and not p_is_const(d):
            if not n:
                d = {(): Fraction(1)}
            else:
                c = p_content_mono(d)
                if c:
                    cn = dict(p_content_mono(n))
                    common = tuple((i, min(e, cn[i])) for i, e in c if i in cn)
                    if common:
                        n = p_div_mono(n, common)
                        d = p_div_mono(d, common)
                if not p_is_const(d) and len(d) > 1:
                    q = p_divexact(n, d)
                    if q is not None:
                        n, d = q, {(): Fraction(1)}
                    elif len(n) > 1:
                        q = p_divexact(d, n)
                        if q is not None:
                            n, d = {(): Fraction(1)}, q
        if norm:
            lead = d[p_lead(d)]
            if lead != 1:
                n = p_scale(n, 1 / lead)
                d = p_scale(d, 1 / lead)
        self.n = n
        self.d = d
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.n.items()), frozenset(self.d.items()))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if not isinstance(o, Rat):
            return False
        if self.key == o.key:
            return True
        if p_is_const(self.d) and p_is_const(o.d):
            return False
        # hash-equality is only used on canonical keys; semantic equality via same()
        return False

    def same(self, o):
        """semantic equality (cross multiplication)"""
        if self.key == o.key:
            return True
        return (self - o).is_zero()

    def is_const(self):
        return p_is_const(self.n) and p_is_const(self.d)

    def const(self):
        if not self.is_const():
            return None
        return self.n.get((), Fraction(0)) / self.d[()]

    def is_zero(self):
        return not self.n

    def is_poly(self):
        return p_is_const(self.d)

    def as_atom(self):
        """the atom if the value is exactly one atom"""
        if p_is_const(self.d) and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _ATOM_LIST[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for i, _ in m:
                    s.add(_ATOM_LIST[i])
        return s

    def __add__(self, o):
        o = rat(o)
        if p_is_const(self.d) and p_is_const(o.d):
            return Rat(p_add(self.n, o.n), norm=False) if self.d[()] == 1 and o.d[()] == 1 else Rat(
                p_add(p_scale(self.n, 1 / self.d[()]), p_scale(o.n, 1 / o.d[()])))
        if self.d == o.d:
            return Rat(p_add(self.n, o.n), self.d)
        # use a common denominator when one divides the other
        q = p_divexact(self.d, o.d)
        if q is not None:
            return Rat(p_add(self.n, p_mul(o.n, q)), self.d)
        q = p_divexact(o.d, self.d)
        if q is not None:
            return Rat(p_add(p_mul(self.n, q), o.n), o.d)
        return Rat(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d))

    __radd__ = __add__

    def __neg__(self):
        return Rat(p_scale(self.n, -1), self.d, norm=False)

    def __sub__(self, o):
        return self + (-rat(o))

    def __rsub__(self, o):
        return rat(o) + (-self)

    def __mul__(self, o):
        o = rat(o)
        r = Rat(p_mul(self.n, o.n), p_mul(self.d, o.d))
        return reduce_special(r)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        return Rat(self.d, self.n)

    def __truediv__(self, o):
        return self * rat(o).inv()

    def __pow__(self, k):
        if k < 0:
            return (self ** (-k)).inv()
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def __repr__(self):
        return self.show()

    def show(self):
        def sp(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items(), key=lambda t: (sum(e for _, e in t[0]), t[0])):
                fs = []
                for i, e in m:
                    a = show_atom(_ATOM_LIST[i])
                    fs.append(a if e == 1 else f"{a}^{e}")
                if not fs:
                    out.append(str(c))
                elif c == 1:
                    out.append("*".join(fs))
                elif c == -1:
                    out.append("-" + "*".join(fs))
                else:
                    out.append(f"{c}*" + "*".join(fs))
            return " + ".join(out).replace("+ -", "- ")
        if p_is_const(self.d):
            s = self
            if self.d[()] != 1:
                s = Rat(p_scale(self.n, 1 / self.d[()]))
            return sp(s.n)
        return f"({sp(self.n)})/({sp(self.d)})"


def rat(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, Atom):
        return Rat({((x.id, 1),): Fraction(1)}, norm=False)
    if isinstance(x, bool):
        return Rat(p_const(int(x)), norm=False)
    if isinstance(x, float):
        return Rat(p_const(Fraction(repr(x)) if x == x and abs(x) != float("inf") else 0), norm=False)
    return Rat(p_const(x), norm=False)


ZERO = rat(0)
ONE = rat(1)
_IMAG = atom("imag")


def imag():
    return rat(_IMAG)


def R(kind, *args):
    return rat(atom(kind, *args))


def reduce_special(r):
    """apply  sqrt(x)^2 = x,  I^2 = -1"""
    for p in (r.n, r.d):
        for m in p:
            for i, e in m:
                if e >= 2:
                    a = _ATOM_LIST[i]
                    if a.kind in ("sqrt", "imag"):
                        return _reduce_special(r)
    return r


def _reduce_special(r):
    def red(p):
        tot = ZERO
        for m, c in p.items():
            t = Rat({(): c}, norm=False)
            keep = []
            extra = []
            for i, e in m:
                a = _ATOM_LIST[i]
                if e >= 2 and a.kind in ("sqrt", "imag"):
                    base = a.args[0] if a.kind == "sqrt" else rat(-1)
                    extra.append(base ** (e // 2))
                    if e % 2:
                        keep.append((i, 1))
                else:
                    keep.append((i, e))
            t = Rat({tuple(keep): c}, norm=False)
            for x in extra:
                t = t * x
            tot = tot + t
        return tot
    n = red(r.n)
    d = red(r.d)
    return Rat(p_mul(n.n, d.d), p_mul(n.d, d.n))


def rationalise(r):
    """remove a sqrt atom from the denominator by multiplying with the conjugate (one atom at a time)"""
    for _ in range(6):
        sq = None
        for m in r.d:
            for i, e in m:
                if _ATOM_LIST[i].kind in ("sqrt", "imag"):
                    sq = i
        if sq is None:
            return r
        conj = {}
        for m, c in r.d.items():
            s = 1
            for i, e in m:
                if i == sq and e % 2:
                    s = -s
            conj[m] = c * s
        cj = Rat(conj)
        num = Rat(r.n) * cj
        den = Rat(r.d) * cj
        if den.is_zero():
            return r
        r = Rat(p_mul(num.n, den.d), p_mul(num.d, den.n))
    return r


def r_pow(base, e):
    """base ** e in normal form; e a Rat"""
    base, e = rat(base), rat(e)
    c = e.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            if c < 0 and base.is_zero():
                return R("pow", base, e)
            return base ** int(c)
        if c == Fraction(1, 2):
            return r_sqrt(base)
    if base.is_const() and base.const() == 1:
        return ONE
    # split monomial bases (positive quantities): (a*b)^e = a^e * b^e
    if not base.is_const() and len(base.n) == 1 and len(base.d) == 1:
        (mn, cn), = base.n.items()
        (md, cd), = base.d.items()
        if cn / cd > 0 and (len(mn) + len(md) > 1 or cn / cd != 1):
            out = r_pow(Rat(p_const(cn / cd)), e)
            for i, k in mn:
                out = out * r_pow_atom(rat(_ATOM_LIST[i]), e * k)
            for i, k in md:
                out = out * r_pow_atom(rat(_ATOM_LIST[i]), e * (-k))
            return out
    # (num/den)^e for sums
    if not p_is_const(base.d):
        return r_pow(Rat(base.n), e) * r_pow(Rat(base.d), -e)
    return r_pow_atom(base, e)


def r_pow_atom(base, e):
    """base ** (sum c_m * m)  ->  prod  P(base, m) ** c_m"""
    if not p_is_const(e.d):
        return R("pow", base, e)
    e = Rat(p_scale(e.n, 1 / e.d[()])) if e.d[()] != 1 else e
    out = ONE
    for m, c in e.n.items():
        if m == ():
            if c.denominator == 1 and abs(c) <= 64:
                if base.is_zero() and c < 0:
                    out = out * R("pow", base, rat(c))
                else:
                    out = out * base ** int(c)
            elif c == Fraction(1, 2):
                out = out * r_sqrt(base)
            elif c == Fraction(-1, 2):
                out = out / r_sqrt(base)
            elif c < 0 and not base.is_zero():
                out = out / R("pow", base, rat(-c))
            else:
                out = out * R("pow", base, rat(c))
        else:
            if c.denominator == 1 and abs(c) <= 64:
                out = out * R("pow", base, Rat({m: Fraction(1)})) ** int(c)
            else:
                out = out * R("pow", base, Rat({m: c}))
    return out


_E = atom("e")


def r_exp(x):
    x = rat(x)
    if x.is_zero():
        return ONE
    # exp of a sum -> product; integer multiples become powers
    if p_is_const(x.d):
        return r_pow_atom(rat(_E), x)
    out = ONE
    for m, c in x.n.items():
        t = Rat({m: abs(c)}, x.d)
        a = R("pow", rat(_E), t)
        out = out * (a if c > 0 else a.inv())
    return out


def r_log(x):
    x = rat(x)
    if x.is_const() and x.const() == 1:
        return ZERO
    if len(x.n) == 1 and len(x.d) == 1:
        out = ZERO
        (mn, cn), = x.n.items()
        (md, cd), = x.d.items()
        if cn / cd > 0:
            if cn / cd != 1:
                out = out + R("log", rat(cn / cd))
            for i, k in mn:
                out = out + _log1(_ATOM_LIST[i]) * k
            for i, k in md:
                out = out - _log1(_ATOM_LIST[i]) * k
            return out
    return R("log", x)


def _log1(a):
    if a.kind == "pow":
        b = a.args[0]
        return (ONE if b.as_atom() is _E else r_log(b)) * a.args[1]
    if a is _E:
        return ONE
    return R("log", rat(a))


def _sqrt_const(c):
    """square root of a positive rational: rational * product of sqrt(prime) atoms"""
    p = c.numerator * c.denominator
    out, rest = Fraction(1, c.denominator), p
    odd = []
    f = 2
    while f * f <= rest and f < 2000:
        k = 0
        while rest % f == 0:
            rest //= f
            k += 1
        out *= f ** (k // 2)
        if k % 2:
            odd.append(f)
        f += 1
    if rest > 1:
        import math
        q = math.isqrt(rest)
        if q * q == rest:
            out *= q
        else:
            odd.append(rest)
    r = rat(out)
    for f in odd:
        r = r * R("sqrt", rat(f))
    return r


def r_sqrt(x, sign=None):
    """sign(Rat) -> True (positive) / False (negative) / None"""
    x = rat(x)
    c = x.const()
    if c is not None:
        if c < 0:
            return R("sqrt", x)
        return _sqrt_const(c) if c else ZERO
    if not p_is_const(x.d):
        # sqrt(n/d) = sqrt(n*d)/|d|
        d = Rat(x.d)
        if all(c > 0 for c in x.d.values()):
            pos = True
        elif all(c < 0 for c in x.d.values()):
            pos = False
        else:
            pos = sign(d) if sign else None
            if pos is None:
                return R("sqrt", x)
        return r_sqrt(Rat(p_mul(x.n, x.d))) / (d if pos else -d)
    # common even powers come out (positive quantities), numeric content as square roots of primes
    com = None
    for m in x.n:
        d = dict(m)
        com = d if com is None else {i: min(e, d[i]) for i, e in com.items() if i in d}
    com = {i: e - e % 2 for i, e in com.items() if e >= 2}
    import math
    g, l = 0, 1
    for c in x.n.values():
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    cont = Fraction(g, l)
    out = Rat({tuple(sorted((i, e // 2) for i, e in com.items())): Fraction(1)})
    rest = {}
    for m, c in x.n.items():
        rest[tuple((i, e - com.get(i, 0)) for i, e in m if e != com.get(i, 0))] = c / cont
    dd = x.d[()]
    out = out * _sqrt_const(cont / dd) if cont / dd > 0 else out * R("sqrt", rat(cont / dd))
    r = Rat(rest)
    c = r.const()
    if c is not None:
        return out * (r_sqrt(r))
    return out * R("sqrt", r)


def subst(r, f):
    """rebuild r with every atom replaced by f(atom) (a Rat)"""
    cache = {}

    def sp(p):
        tot = ZERO
        for m, c in p.items():
            t = rat(c)
            for i, e in m:
                v = cache.get(i)
                if v is None:
                    v = f(_ATOM_LIST[i])
                    cache[i] = v
                t = t * v ** e
            tot = tot + t
        return tot
    changed = False
    for p in (r.n, r.d):
        for m in p:
            for i, e in m:
                if i not in cache:
                    cache[i] = f(_ATOM_LIST[i])
                v = cache[i]
                if v.as_atom() is not _ATOM_LIST[i]:
                    changed = True
    if not changed:
        return r
    n = sp(r.n)
    if p_is_const(r.d):
        return n * rat(1 / r.d[()]) if r.d[()] != 1 else n
    return n / sp(r.d)


def deep_subst(r, mapping, memo=None):
    """substitute atoms (mapping: Atom -> Rat) everywhere, also inside the arguments of atoms"""
    if memo is None:
        memo = {}

    def fa(a):
        if a in memo:
            return memo[a]
        if a in mapping:
            v = mapping[a]
        else:
            nargs = tuple(sub_arg(x) for x in a.args)
            if all(x is y or x == y for x, y in zip(nargs, a.args)):
                v = rat(a)
            else:
                v = rebuild(a.kind, nargs)
        memo[a] = v
        return v

    def sub_arg(x):
        if isinstance(x, Rat):
            return subst(x, fa)
        if isinstance(x, Atom):
            v = fa(x)
            b = v.as_atom()
            return b if b is not None else x
        if isinstance(x, tuple):
            return tuple(sub_arg(y) for y in x)
        if hasattr(x, "deep_subst"):
            return x.deep_subst(sub_arg)
        return x

    return subst(r, fa)


def rebuild(kind, args):
    if kind == "pow":
        if args[0].as_atom() is _E:
            return r_exp(args[1])
        return r_pow(args[0], args[1])
    if kind == "sqrt":
        return r_sqrt(args[0])
    if kind == "log":
        return r_log(args[0])
    if kind == "abs" and isinstance(args[0], Rat) and args[0].const() is not None:
        return rat(abs(args[0].const()))
    return R(kind, *args)


def contains_atom(r, pred, memo=None):
    """does any atom, nested ones included, satisfy pred"""
    if memo is None:
        memo = {}

    def fa(a):
        if a in memo:
            return memo[a]
        memo[a] = False
        res = pred(a) or any(arg(x) for x in a.args)
        memo[a] = res
        return res

    def arg(x):
        if isinstance(x, Rat):
            return any(fa(a) for a in x.atoms())
        if isinstance(x, Atom):
            return fa(x)
        if isinstance(x, tuple):
            return any(arg(y) for y in x)
        if hasattr(x, "cond_args"):
            return any(arg(y) for y in x.cond_args())
        return False
    return arg(r)


def deriv(r, x):
    """d r / d x for atom x"""
    def da(a):
        if a is x:
            return ONE
        if a.kind == "pow":
            b, e = a.args
            if b.as_atom() is _E:
                return rat(a) * deriv(e, x)
            out = ZERO
            de = deriv(e, x)
            if not de.is_zero():
                out = out + rat(a) * r_log(b) * de
            db = deriv(b, x)
            if not db.is_zero():
                out = out + e * rat(a) / b * db
            return out
        if a.kind == "sqrt":
            return deriv(a.args[0], x) / (rat(2) * rat(a))
        if a.kind == "log":
            return deriv(a.args[0], x) / a.args[0]
        if contains_atom(rat(a), lambda q: q is x):
            return R("deriv", a, x)
        return ZERO

    def dp(p):
        tot = ZERO
        for m, c in p.items():
            for j, (i, e) in enumerate(m):
                a = _ATOM_LIST[i]
                d = da(a)
                if d.is_zero():
                    continue
                rest = Rat({tuple(t for k, t in enumerate(m) if k != j): c * e}) * rat(a) ** (e - 1)
                tot = tot + rest * d
        return tot
    n, d = Rat(r.n), Rat(r.d)
    dn = dp(r.n)
    if p_is_const(r.d):
        return dn / d
    dd = dp(r.d)
    return (dn * d - n * dd) / (d * d)


PRIME = (1 << 61) - 1


def fingerprint(r, names=None, memo=None):
    """residue of a rational expression in symbols at a fixed pseudo-random point of a prime field; None when other atoms occur or the
    denominator vanishes there. A residue other than zero proves the expression is not zero."""
    memo = {} if memo is None else memo

    def fa(i):
        if i in memo:
            return memo[i]
        a = _ATOM_LIST[i]
        if names and a in names:
            v = fr(names[a])
        elif a.kind == "sym":
            v = int.from_bytes(hashlib.sha256(repr(a.args).encode()).digest()[:8], "big") % PRIME
        else:
            v = None
        memo[i] = v
        return v

    def fp(p):
        out = 0
        for m, c in p.items():
            t = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
            for i, e in m:
                v = fa(i)
                if v is None:
                    return None
                if v == 0 and e < 0:
                    return None
                t = t * pow(v, e, PRIME) % PRIME
            out = (out + t) % PRIME
        return out

    def fr(x):
        n, d = fp(x.n), fp(x.d)
        if n is None or not d:
            return None
        return n * pow(d, -1, PRIME) % PRIME
    return fr(r)
