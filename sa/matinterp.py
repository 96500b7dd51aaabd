"""The abstract interpreter with arrays of known size (matrices of symbolic entries), stand-ins for chosen functions,
and bounded exploration of undecided loops; used for the analytic models."""
import ast
import itertools

from . import alg
from .alg import Rat, rat, R, ZERO, ONE, atom, contains_atom, deep_subst
from .interp import Interp, Tup, Fn, State, _as_load

MAXINV = 6
CREATORS = {"zeros", "ones", "eye", "identity", "array", "asarray", "zeros_like", "ones_like", "full", "copy", "dot", "matmul",
            "transpose", "inv", "solve", "sum", "concatenate", "hstack", "vstack", "diag", "trace", "outer", "multiply", "subtract",
            "add", "divide", "real", "isclose", "linspace", "arange", "prod", "cumsum", "empty", "lstsq", "ravel", "squeeze", "mean"}


class MatInterp(Interp):
    MAX_REC = 12

    def __init__(self, prog, *, stubs=None, ext=None, fork=0, after=None, mutable=(), **kw):
        super().__init__(prog, **kw)
        self.stubs = stubs or {}
        self.ext = ext or {}        # stand-ins for library functions, by dotted name
        self.fork = fork            # iterations explored of a loop whose condition is undecided
        self.max_steps = 4000000

    # ------------------------------------------------------------ arrays
    def nd(self, st, v):
        """dimensions of an array value, None otherwise"""
        if isinstance(v, Rat):
            a = v.as_atom()
            if a is not None:
                d = st.heap.get((a, "#nd"))
                return d.items if isinstance(d, Tup) else None
        return None

    def mk(self, st, x):
        """array of a nested python list (scalars stay scalars)"""
        if not isinstance(x, list):
            return x if isinstance(x, Rat) else self.num(x)
        kids = [self.mk(st, y) for y in x]
        v = self.new_list(st, kids)
        dims = (rat(len(x)),)
        if x and isinstance(x[0], list):
            sub = self.nd(st, kids[0])
            dims = dims + tuple(sub or ())
        st.heap[(v.as_atom(), "#nd")] = Tup(dims)
        return v

    def nest(self, st, v):
        """nested python list of an array, list or tuple; scalars as they are; None when the size is unknown"""
        if isinstance(v, Tup):
            out = [self.nest(st, x) for x in v.items]
            return None if any(x is None for x in out) else out
        if isinstance(v, Rat):
            a = v.as_atom()
            if a is not None:
                if a in st.lists:
                    out = [self.nest(st, x) for x in st.lists[a]]
                    return None if any(x is None for x in out) else out
                if self.is_list(st, v):
                    n = self.list_len(st, a).const()
                    if n is None or n > 400:
                        return None
                    out = [self.nest(st, self.elem_addr_value(st, a, rat(i))) for i in range(int(n))]
                    return None if any(x is None for x in out) else out
            return v
        if isinstance(v, (int, float, bool)):
            return rat(v) if not isinstance(v, bool) else rat(int(v))
        return None

    def seq_dims(self, st, v):
        d = self.nd(st, v)
        if d is not None:
            return d
        x = self.nest(st, v)
        out = []
        while isinstance(x, list):
            out.append(rat(len(x)))
            x = x[0] if x else None
        return tuple(out)

    @staticmethod
    def bcast(f, x, y):
        if not isinstance(x, list) and not isinstance(y, list):
            return f(x, y)
        dx, dy = depth(x), depth(y)
        if dx > dy:
            return [MatInterp.bcast(f, a, y) for a in x]
        if dy > dx:
            return [MatInterp.bcast(f, x, b) for b in y]
        if len(x) == len(y):
            return [MatInterp.bcast(f, a, b) for a, b in zip(x, y)]
        if len(x) == 1:
            return [MatInterp.bcast(f, x[0], b) for b in y]
        if len(y) == 1:
            return [MatInterp.bcast(f, a, y[0]) for a in x]
        raise ValueError("shapes")

    @staticmethod
    def dotp(x, y):
        dx, dy = depth(x), depth(y)
        if dx == 0 or dy == 0:
            return MatInterp.bcast(lambda a, b: a * b, x, y)
        if dx == 1 and dy == 1:
            if len(x) != len(y):
                raise ValueError("shapes")
            return total(a * b for a, b in zip(x, y))
        if dx == 1:
            if len(x) != len(y):
                raise ValueError("shapes")
            return [total(x[i] * y[i][j] for i in range(len(x))) for j in range(len(y[0]))]
        if dy == 1:
            return [MatInterp.dotp(r, y) for r in x]
        if len(x[0]) != len(y):
            raise ValueError("shapes")
        return [[total(r[i] * y[i][j] for i in range(len(y)) if not (r[i].is_zero() or y[i][j].is_zero()))
                 for j in range(len(y[0]))] for r in x]

    @staticmethod
    def inverse(m):
        n = len(m)
        if n > MAXINV or any(len(r) != n for r in m):
            raise alg.TooBig()
        a = [list(r) + [ONE if i == j else ZERO for j in range(n)] for i, r in enumerate(m)]
        return eliminate(a, n)

    def mk_dict(self, st, d):
        st.nfresh += 1
        a = atom("dict", st.nfresh)
        for k, v in d.items():
            st.heap[(a, k)] = v
        st.heap[(a, "#keys")] = Tup(tuple(d))
        return rat(a)

    # ------------------------------------------------------------ overrides
    def is_arr(self, st, v):
        return self.nd(st, v) is not None

    def binop(self, op, a, b, st, node):
        if self.is_arr(st, a) or self.is_arr(st, b):
            x, y = self.nest(st, a), self.nest(st, b)
            if x is None or y is None:
                return self.unknown(st, "array")
            try:
                if isinstance(op, ast.MatMult):
                    return self.mk(st, self.dotp(x, y))
                sup = super()
                f = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q,
                     ast.Div: lambda p, q: p / q}.get(type(op))
                if f is None:
                    f = lambda p, q: self.num(sup.binop(op, p, q, st, node))
                return self.mk(st, self.bcast(f, x, y))
            except (ValueError, ZeroDivisionError, alg.TooBig) as e:
                return self.unknown(st, f"array:{type(e).__name__}")
        return super().binop(op, a, b, st, node)

    def eval_index(self, sl, env, st):
        if isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
            res = [(st, ())]
            for part in sl.elts:
                res = [(y, acc + (k,)) for x, acc in res for y, k in self.eval_index(part, env, x)]
            return [(x, ("mix",) + acc) for x, acc in res]
        return super().eval_index(sl, env, st)

    def norm_key(self, k):
        if isinstance(k, tuple) and k and k[0] == "mix":
            return list(k[1:])
        if isinstance(k, Tup):
            return list(k.items)
        return [k]

    def select(self, n, k):
        """positions of one index; (positions, keeps the dimension) or None"""
        if isinstance(k, tuple) and k and k[0] == "slice":
            cs = []
            for v in k[1:]:
                if v is None:
                    cs.append(None)
                elif isinstance(v, Rat) and v.const() is not None:
                    cs.append(int(v.const()))
                else:
                    return None
            return list(range(n))[slice(*cs)], True
        if isinstance(k, Rat) and k.const() is not None and -n <= k.const() < n:
            return [int(k.const()) % n], False
        return None

    def getitem(self, st, b, k, node):
        if self.is_arr(st, b):
            keys = self.norm_key(k)

            def go(v, ks):
                if not ks:
                    return v
                a = v.as_atom()
                its = st.lists.get(a)
                if its is None:
                    return None
                sel = self.select(len(its), ks[0])
                if sel is None:
                    if all(self.nd(st, x) is None and x == its[0] for x in its):
                        return its[0] if its else None
                    return None
                pos, keep = sel
                if not keep:
                    return go(its[pos[0]], ks[1:])
                out = [go(its[i], ks[1:]) for i in pos]
                if any(x is None for x in out):
                    return None
                w = self.new_list(st, out)
                sub = self.nd(st, out[0]) if out else ()
                st.heap[(w.as_atom(), "#nd")] = Tup((rat(len(out)),) + tuple(sub or ()))
                return w
            r = go(b, keys)
            if r is None:
                return [(st, self.unknown(st, "array index"))]
            return [(st, r)]
        return super().getitem(st, b, k, node)

    def assign(self, t, v, env, st):
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.eval(t.value, env, st):
                for y, k in self.eval_index(t.slice, env, x):
                    if self.is_arr(y, b):
                        self.put(y, b, self.norm_key(k), v)
                    elif isinstance(k, tuple) and k and k[0] == "slice" and isinstance(b, Rat) and b.as_atom() in y.lists \
                            and self.nest(y, v) is not None and isinstance(self.nest(y, v), list):
                        its = list(y.lists[b.as_atom()])
                        sel = self.select(len(its), k)
                        if sel is None:
                            self.havoc_list(y, b.as_atom())
                        else:
                            pos, _ = sel
                            new = list(self.unpack(v, len(self.nest(y, v)), y))
                            if pos and pos == list(range(pos[0], pos[-1] + 1)) or not pos:
                                lo = pos[0] if pos else len(its)
                                its[lo:lo + len(pos)] = new
                                y.lists[b.as_atom()] = tuple(its)
                            else:
                                self.havoc_list(y, b.as_atom())
                    elif isinstance(b, Rat) and b.as_atom() is not None:
                        if isinstance(k, tuple) and k and k[0] == "slice":
                            self.havoc_list(y, b.as_atom())
                        else:
                            self.set_elem(y, b.as_atom(), k, v, t)
                    out.append((env, y))
            return out
        return super().assign(t, v, env, st)

    def put(self, st, b, keys, v):
        val = self.nest(st, v)
        a = b.as_atom()
        its = st.lists.get(a)
        sel = self.select(len(its), keys[0]) if its is not None else None
        if sel is None or val is None:
            self.spoil(st, b)
            return
        pos, keep = sel
        src = val
        for n, i in enumerate(pos):
            its = st.lists[a]
            if keep and isinstance(src, list) and depth(src) >= (len(self.nd(st, b)) if len(keys) == 1 else
                                                                 sum(1 for k in keys if isinstance(k, tuple))):
                part = src[n] if len(src) > 1 or len(pos) == 1 else src[0]
            else:
                part = src
            if self.nd(st, its[i]) is not None:
                rest = keys[1:] or [("slice", None, None, None)]
                self.put(st, its[i], rest, self.mk(st, part) if isinstance(part, list) else part)
            else:
                if isinstance(part, list):
                    while isinstance(part, list) and len(part) == 1:
                        part = part[0]
                    if isinstance(part, list):
                        self.spoil(st, b)
                        return
                l = list(st.lists[a])
                l[i] = part
                st.lists[a] = tuple(l)

    def spoil(self, st, b):
        a = b.as_atom()
        its = st.lists.get(a) or ()
        new = []
        for x in its:
            if self.nd(st, x) is not None:
                self.spoil(st, x)
                new.append(x)
            else:
                new.append(self.unknown(st, "array entry"))
        st.lists[a] = tuple(new)

    def x_AugAssign(self, s, env, st):
        load = _as_load(s.target)
        out = []
        for x, cur in self.eval(load, env, st):
            if self.is_arr(x, cur) and not isinstance(s.target, ast.Subscript):
                for y, v in self.eval(s.value, env, x):
                    r = self.binop(s.op, cur, v, y, s)
                    if self.nest(y, r) is not None and self.seq_dims(y, r) == self.nd(y, cur):
                        self.put(y, cur, [("slice", None, None, None)], r)
                        out.append((env, y, None))
                    else:
                        out.extend((e, z, None) for e, z in self.assign(s.target, r, env, y))
            else:
                return super().x_AugAssign(s, env, st)
        return out

    def getattr(self, st, b, name, node):
        d = self.nd(st, b)
        if d is not None:
            if name == "shape":
                return [(st, Tup(d))]
            if name == "T":
                return self.external(st, "numpy.transpose", [b], {}, node)
            if name in ("real", "flat"):
                return [(st, b)]
            if name == "size":
                n = ONE
                for x in d:
                    n = n * x
                return [(st, n)]
            if name == "ndim":
                return [(st, rat(len(d)))]
            return [(st, Fn("lbound", b, name))]
        if name in ("real", "imag") and isinstance(b, Rat) and b.const() is not None:
            return [(st, b if name == "real" else ZERO)]
        if name in ("real", "imag") and isinstance(b, Rat) and contains_atom(b, lambda a: a.kind == "imag"):
            b = alg.rationalise(b)
            re = deep_subst(b, {alg.imag().as_atom(): ZERO})
            return [(st, re if name == "real" else (b - re) / alg.imag())]
        return super().getattr(st, b, name, node)

    def method_call(self, st, recv, name, args, kwargs, node):
        if self.is_arr(st, recv):
            if name in ("dot", "sum", "copy", "transpose", "prod", "trace", "ravel", "squeeze", "mean"):
                return self.external(st, "numpy." + name, [recv] + list(args), kwargs, node)
            if name in ("tolist",):
                return [(st, self.plain(st, self.nest(st, recv)))]
            if name == "fill" and args:
                self.put(st, recv, [("slice", None, None, None)] * len(self.nd(st, recv)), args[0])
                return [(st, None)]
            if name in ("astype", "conj", "conjugate"):
                return [(st, recv)]
            if name in ("flatten",):
                return [(st, self.mk(st, list(flat(self.nest(st, recv)))))]
            if name == "item" and not args:
                return [(st, next(iter(flat(self.nest(st, recv)))))]
            return [(st, self.unknown(st, "array." + name))]
        return super().method_call(st, recv, name, args, kwargs, node)

    def plain(self, st, x):
        return self.new_list(st, [self.plain(st, y) for y in x]) if isinstance(x, list) else x

    def num(self, v):
        return super().num(v)

    def builtin(self, st, name, args, kwargs, node):
        a0 = args[0] if args else None
        if self.is_arr(st, a0):
            if name == "sum":
                x = self.nest(st, a0)
                tot = None
                for y in x:
                    tot = y if tot is None else self.bcast(lambda p, q: p + q, tot, y)
                return [(st, self.mk(st, tot) if tot is not None else ZERO)]
            if name == "pow" and len(args) == 2:
                return [(st, self.binop(ast.Pow(), a0, args[1], st, node))]
            if name in ("abs", "float", "complex"):
                x = self.nest(st, a0)
                if name == "abs":
                    return [(st, self.mk(st, self.map1(lambda q: Interp.builtin(self, st, "abs", [q], {}, node)[0][1], x)))]
                fl = list(flat(x))
                return [(st, fl[0] if len(fl) == 1 else self.unknown(st, name))]
        return super().builtin(st, name, args, kwargs, node)

    @staticmethod
    def map1(f, x):
        return [MatInterp.map1(f, y) for y in x] if isinstance(x, list) else f(x)

    def dims_of(self, st, v):
        x = self.nest(st, v)
        if isinstance(x, list):
            ds = x
        else:
            ds = [x]
        out = []
        for d in ds:
            c = d.const() if isinstance(d, Rat) else None
            if c is None or c.denominator != 1 or not 0 <= c <= 400:
                return None
            out.append(int(c))
        n = 1
        for d in out:
            n *= d
        return out if n <= 4000 else None

    def filled(self, st, dims, val):
        def go(ds):
            return [go(ds[1:]) for _ in range(ds[0])] if ds else val
        return self.mk(st, go(dims))

    def external(self, st, dotted, args, kwargs, node):
        if dotted in self.ext:
            return [(st, self.ext[dotted](self, st, list(args), dict(kwargs), None))]
        mod, _, base = dotted.rpartition(".")
        if dotted in ("copy.deepcopy", "copy.copy") and args and self.is_arr(st, args[0]):
            x = self.nest(st, args[0])
            return [(st, self.mk(st, x) if x is not None else self.unknown(st, dotted))]
        if dotted == "copy.deepcopy" and args and isinstance(args[0], Rat) and args[0].as_atom() in st.lists:
            kids = []
            for y in st.lists[args[0].as_atom()]:
                a = y.as_atom() if isinstance(y, Rat) else None
                deep = a is not None and (a in st.lists or a in self.objcls or self.is_arr(st, y))
                kids.append(self.external(st, dotted, [y], kwargs, node)[0][1] if deep else y)
            return [(st, self.new_list(st, kids))]
        if (mod == "numpy" or mod == "numpy.linalg") and base in CREATORS:
            r = self.np_call(st, mod, base, list(args), kwargs, node)
            if r is not NotImplemented:
                return [(st, r)]
        if mod == "numpy" and args and self.is_arr(st, args[0]) and base in (
                "exp", "sqrt", "power", "fabs", "abs", "absolute", "log", "float64", "complex128"):
            x = self.nest(st, args[0])
            return [(st, self.mk(st, self.map1(lambda q: Interp.external(self, st, dotted, [q] + list(args[1:]), kwargs, node)[0][1], x)))]
        if mod in ("math", "numpy", "cmath") and args and self.is_arr(st, args[0]):
            x = list(flat(self.nest(st, args[0])))
            if len(x) == 1:
                args = [x[0]] + list(args[1:])
        return super().external(st, dotted, args, kwargs, node)

    def np_call(self, st, mod, base, args, kwargs, node):
        a0 = args[0] if args else None
        if base in ("zeros", "empty", "ones", "full"):
            dims = self.dims_of(st, a0 if a0 is not None else kwargs.get("shape"))
            if dims is None:
                return NotImplemented
            val = ZERO if base in ("zeros", "empty") else ONE if base == "ones" else args[1]
            return self.filled(st, dims, val)
        if base in ("eye", "identity"):
            d = self.dims_of(st, a0)
            if not d or kwargs.get("k") is not None or len(args) > 2:
                return NotImplemented
            e = d
            if len(args) == 2 and base == "eye" and args[1] is not None:
                e = self.dims_of(st, args[1])
                if not e:
                    return NotImplemented
            return self.mk(st, [[ONE if i == j else ZERO for j in range(e[0])] for i in range(d[0])])
        if base == "arange":
            cs = [x.const() if isinstance(x, Rat) else None for x in args]
            if any(c is None or c.denominator != 1 for c in cs):
                return NotImplemented
            return self.mk(st, [rat(i) for i in range(*[int(c) for c in cs])])
        if base == "linspace":
            if len(args) < 3 or not isinstance(args[2], Rat) or args[2].const() is None:
                return NotImplemented
            n = int(args[2].const())
            return self.mk(st, [args[0] + (args[1] - args[0]) * i / (n - 1) for i in range(n)])
        if base in ("concatenate", "hstack", "vstack", "diag", "cumsum", "mean", "lstsq", "squeeze"):
            if base == "concatenate" and "axis" not in kwargs and len(args) == 1:
                x = self.nest(st, a0)
                if isinstance(x, list) and all(isinstance(y, list) for y in x):
                    return self.mk(st, [z for y in x for z in y])
            return NotImplemented
        xs = [self.nest(st, v) for v in args]
        if not xs or any(x is None for x in xs):
            return NotImplemented
        x = xs[0]
        if not any(isinstance(z, list) for z in xs):
            if base in ("dot", "matmul", "multiply") and len(xs) == 2:
                return xs[0] * xs[1]
            return NotImplemented if base not in ("array", "asarray", "copy", "real", "sum") else x
        try:
            if base in ("array", "asarray", "copy"):
                return self.mk(st, x)
            if base in ("real",):
                return a0
            if base in ("zeros_like", "ones_like"):
                return self.mk(st, self.map1(lambda q: ZERO if base[0] == "z" else ONE, x))
            if base in ("dot", "matmul") and len(xs) == 2:
                return self.mk(st, self.dotp(x, xs[1]))
            if base in ("add", "subtract", "multiply", "divide") and len(xs) == 2:
                f = {"add": lambda p, q: p + q, "subtract": lambda p, q: p - q, "multiply": lambda p, q: p * q,
                     "divide": lambda p, q: p / q}[base]
                return self.mk(st, self.bcast(f, x, xs[1]))
            if base == "outer":
                return self.mk(st, [[p * q for q in flat(xs[1])] for p in flat(x)])
            if base == "transpose":
                return self.mk(st, [list(r) for r in zip(*x)]) if depth(x) == 2 else a0
            if base == "ravel":
                return self.mk(st, list(flat(x)))
            if base == "trace":
                return total(x[i][i] for i in range(min(len(x), len(x[0]))))
            if base in ("sum", "prod"):
                ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
                op = (lambda p, q: p + q) if base == "sum" else (lambda p, q: p * q)
                if ax is None:
                    out = ZERO if base == "sum" else ONE
                    for q in flat(x):
                        out = op(out, q)
                    return out
                ax = int(ax.const()) % depth(x)
                rows = x if ax == 1 else [list(r) for r in zip(*x)]
                out = []
                for r in rows:
                    t = r[0]
                    for q in r[1:]:
                        t = op(t, q)
                    out.append(t)
                return self.mk(st, out)
            if base == "inv":
                return self.mk(st, self.inverse(x))
            if base == "solve":
                n = len(x)
                if n > MAXINV:
                    raise alg.TooBig()
                b = xs[1]
                vec = depth(b) == 1
                cols = [[q] for q in b] if vec else b
                r = eliminate([list(p) + list(q) for p, q in zip(x, cols)], n)
                return self.mk(st, [q[0] for q in r] if vec else r)
        except (ValueError, ZeroDivisionError, alg.TooBig, IndexError) as e:
            return self.unknown(st, f"{base}:{type(e).__name__}")
        return NotImplemented

    # ------------------------------------------------------------ stand-ins and loops
    def call_function(self, st, fi, args, kwargs, node, selfval=None):
        f = self.stubs.get(f"{fi.cls.name}.{fi.name}" if getattr(fi, "cls", None) else fi.name)
        if f is not None:
            return [(st, f(self, st, list(args), dict(kwargs), selfval))]
        return super().call_function(st, fi, args, kwargs, node, selfval=selfval)

    def x_While(self, s, env, st):
        if not self.fork:
            return super().x_While(s, env, st)
        cur, done = [(env, st)], []
        for n in range(200):
            nxt = []
            forked, before = False, len(done)
            for e, y in cur:
                br = self.branch(s.test, e, y)
                forked = forked or len(br) > 1
                for y2, b in br:
                    if not b:
                        done.append((e, y2, None))
                        continue
                    for e3, y3, o in self.exec_block(s.body, e, y2):
                        if o is None or o[0] == "continue":
                            nxt.append((e3, y3))
                        elif o[0] == "break":
                            done.append((e3, y3, None))
                        else:
                            done.append((e3, y3, o))
            cur = nxt
            if not cur or n + 1 >= self.fork and (forked or len(done) > before):
                break
        return done


def depth(x):
    n = 0
    while isinstance(x, list):
        n += 1
        x = x[0] if x else None
    return n


def flat(x):
    if isinstance(x, list):
        for y in x:
            yield from flat(y)
    else:
        yield x


def total(xs):
    out = ZERO
    for x in xs:
        out = out + x
    return out


def eliminate(a, n):
    """Gauss-Jordan on n rows; returns the right-hand block"""
    for c in range(n):
        piv = [r for r in range(c, n) if not a[r][c].is_zero()]
        if not piv:
            raise ZeroDivisionError
        p = min(piv, key=lambda r: len(a[r][c].n) + len(a[r][c].d))
        a[c], a[p] = a[p], a[c]
        k = a[c][c]
        a[c] = [q / k if not q.is_zero() else q for q in a[c]]
        for r in range(n):
            if r != c and not a[r][c].is_zero():
                m = a[r][c]
                a[r] = [q - m * w if not w.is_zero() else q for q, w in zip(a[r], a[c])]
    return [r[n:] for r in a]
