"""Abstract interpreter over the syntax tree.

Flow- and path-sensitive dataflow (disjunctive, states merged when they agree),
interprocedural by inlining resolved callees.  Values are algebraic normal forms
(alg.py); the content of an object or list that exists on entry is an opaque
atom.  Loops are summarised once for a generic iteration: additive changes are
accelerated to (number of iterations taking a path) x (change on that path),
element-wise writes become templates, anything else becomes an unknown.  No path
is handed to a solver: the only reasoning about branch conditions is an interval
per linear form.
"""
import ast
import math
from fractions import Fraction

from . import alg
from .alg import Rat, Atom, atom, rat, R, ZERO, ONE, deep_subst, contains_atom, r_pow, r_exp, r_log, r_sqrt
from .model import ClassInfo, FuncInfo, Module, AnalysisBroken

import sys
sys.setrecursionlimit(20000)


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return f"({', '.join(map(str, self.items))})"

    def cond_args(self):
        return self.items

    def deep_subst(self, f):
        return Tup(f(x) for x in self.items)


class Cond:
    """symbolic truth value: kind in cmp(op,Rat) bool(x) isnone(x) eqs(x,str) not(c)"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and self.args == o.args

    def __hash__(self):
        return hash((self.kind, self.args))

    def __repr__(self):
        if self.kind == "cmp":
            return f"[{self.args[1]} {self.args[0]} 0]"
        return f"{self.kind}{self.args}"

    def cond_args(self):
        return self.args

    def deep_subst(self, f):
        return Cond(self.kind, *[f(a) for a in self.args])


class Fn:
    """callable value: ('func', FuncInfo) ('bound', FuncInfo, selfval) ('class', ClassInfo) ('ext', dotted)
    ('builtin', name) ('lbound', recv, methodname) ('lambda', node, env, ctx) ('super', ...)"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __eq__(self, o):
        return isinstance(o, Fn) and self.kind == o.kind and all(
            a is b or (not isinstance(a, dict) and a == b) for a, b in zip(self.args, o.args))

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"<{self.kind} {self.args[:1]}>"


class Ev:
    __slots__ = ("kind", "data", "where", "facts", "more")

    def __init__(self, kind, data, where, facts, more=()):
        self.kind, self.data, self.where, self.facts = kind, data, where, facts
        self.more = more        # (facts, where) of the same event on paths that were merged with this one

    def every(self):
        """facts and place of the event on each of the paths"""
        return ((self.facts, self.where),) + self.more

    def __repr__(self):
        return f"{self.kind}{self.data}"

    def __eq__(self, o):
        return isinstance(o, Ev) and self.kind == o.kind and self.data == o.data

    def __hash__(self):
        return hash(self.kind)


def _steps(last, i):
    """the statement is i += 1"""
    one = lambda e: isinstance(e, ast.Constant) and e.value == 1
    isi = lambda e: isinstance(e, ast.Name) and e.id == i
    if isinstance(last, ast.AugAssign):
        return isi(last.target) and isinstance(last.op, ast.Add) and one(last.value)
    return isinstance(last, ast.Assign) and len(last.targets) == 1 and isi(last.targets[0]) and isinstance(last.value, ast.BinOp) \
        and isinstance(last.value.op, ast.Add) and (isi(last.value.left) and one(last.value.right)
                                                    or isi(last.value.right) and one(last.value.left))


def while_as_for(s):
    """while i < N: ...; i += 1  read as  for i in range(i, N): ...  (None when the loop is not of that form)"""
    f = getattr(s, "_as_for", 0)
    if f != 0:
        return f
    s._as_for = None
    if s.orelse or len(s.body) < 2:
        return None
    parts = list(s.test.values) if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
    step = None
    for k, t in enumerate(parts):
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            continue
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)) or isinstance(op, ast.NotEq) and not isinstance(l, ast.Name):
            l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}[type(op)]()
        if isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(l, ast.Name) and _steps(s.body[-1], l.id):
            step = (k, l.id, ast.BinOp(r, ast.Add(), ast.Constant(1)) if isinstance(op, ast.LtE) else r)
            break
    if step is None:
        return None
    k, i, n = step
    rest = parts[:k] + parts[k + 1:]
    used = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            used.add(x.id)
        elif isinstance(x, ast.Attribute):
            used.add("." + x.attr)
        elif isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("len", "int")):
            return None
    if i in used:
        return None
    grow = any(isinstance(x, ast.Call) for x in ast.walk(n))

    def bad(stmts, depth):
        for x in stmts:
            if isinstance(x, ast.Continue) and depth == 0:
                return True
            for y in ast.walk(x) if not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else []:
                if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)) and (y.id == i or y.id in used):
                    return True
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and "." + y.attr in used:
                    return True
                if grow and isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in (
                        "append", "pop", "remove", "insert", "extend", "clear"):
                    return True
            if isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(x, ast.For):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name) and (y.id == i or y.id in used):
                            return True
                d = depth + (1 if isinstance(x, (ast.For, ast.While)) else 0)
                for part in ("body", "orelse", "finalbody"):
                    if bad(getattr(x, part, []), d):
                        return True
        return False
    if bad(s.body[:-1], 0):
        return None
    f = ast.For(target=ast.Name(id=i, ctx=ast.Store()),
                iter=ast.Call(func=ast.Name(id="range", ctx=ast.Load()), args=[ast.Name(id=i, ctx=ast.Load()), n], keywords=[]),
                body=[ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], []), c) for c in rest] + s.body[:-1], orelse=[ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=n)])
    ast.copy_location(f, s)
    ast.fix_missing_locations(f)
    s._as_for = f
    return f


class LoopEv:
    """events of one generic iteration: alternatives = list of (events, exit kind)"""
    __slots__ = ("alts", "where", "trip", "idx")
    kind = "loop"

    def __init__(self, alts, where, trip, idx):
        self.alts, self.where, self.trip, self.idx = alts, where, trip, idx

    def __eq__(self, o):
        return isinstance(o, LoopEv) and self.idx == o.idx and self.alts == o.alts

    def __hash__(self):
        return hash(self.idx)

    def __repr__(self):
        return f"loop{self.alts}"


GH = atom("obj", "#ghost")
ZF = Fraction(0)
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}


class Facts:
    __slots__ = ("b", "t", "foralls", "minall", "order")

    def __init__(self):
        self.b = {}        # key Rat -> [lo, los, hi, his, frozenset excl]
        self.t = {}        # (kind, args) -> bool
        self.foralls = ()  # (list address, Cond/tuple, truth) over idx bv
        self.minall = ()   # (value Rat, template Rat with bv, list/range key)
        self.order = ()    # (Rat, op)   r <= 0 / r < 0 asserted comparisons between non-constant quantities

    def copy(self):
        f = Facts()
        f.b = dict(self.b)
        f.t = dict(self.t)
        f.foralls = self.foralls
        f.minall = self.minall
        f.order = self.order
        return f


def diff_pair(key):
    """(p, q) when the linear key is p - q for two atoms"""
    if len(key.n) != 2 or () in key.n or not alg.p_is_const(key.d):
        return None
    (m1, c1), (m2, c2) = key.n.items()
    if len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1 or c1 != -c2 or abs(c1) != 1:
        return None
    a1, a2 = alg._ATOM_LIST[m1[0][0]], alg._ATOM_LIST[m2[0][0]]
    return (a1, a2) if c1 > 0 else (a2, a1)


class Order:
    """order relations between quantities entailed by the facts (transitive, with minima)"""

    def __init__(self, facts, extra=()):
        self.e = {}
        mins = set()

        def note(a):
            if a.kind == "min" and a not in mins:
                mins.add(a)
                for x in a.args:
                    xa = x.as_atom() if isinstance(x, Rat) else None
                    if xa is not None:
                        self.add(a, xa, False)
                        note(xa)
        for key, e in facts.b.items():
            pq = diff_pair(key)
            if pq is None:
                continue
            p, q = pq
            note(p)
            note(q)
            if e[2] is not None and e[2] <= 0:
                self.add(p, q, e[2] < 0 or e[3])
            if e[0] is not None and e[0] >= 0:
                self.add(q, p, e[0] > 0 or e[1])
        for a in extra:
            note(a)
        self.mins = mins
        self.memo = {}

    def add(self, p, q, strict):
        d = self.e.setdefault(p, {})
        d[q] = d.get(q, False) or strict

    def above(self, a):
        """{b: strict} with a <= b (a < b)"""
        if a in self.memo:
            return self.memo[a]
        seen = {a: False}
        todo = [a]
        while todo:
            x = todo.pop()
            for y, st in self.e.get(x, {}).items():
                ns = seen[x] or st
                if y not in seen or (ns and not seen[y]):
                    seen[y] = ns
                    todo.append(y)
            if not todo:
                for m in self.mins:
                    if m in seen:
                        continue
                    ats = [r.as_atom() if isinstance(r, Rat) else None for r in m.args]
                    if all(r is not None and r in seen for r in ats):
                        seen[m] = all(seen[r] for r in ats)
                        todo.append(m)
        self.memo[a] = seen
        return seen

    def le(self, a, b):
        return b in self.above(a)

    def lt(self, a, b):
        return self.above(a).get(b, False)


def canon(r):
    """linear key: r = scale*(key) + const  ->  (key, scale, const)"""
    if alg.p_is_const(r.d):
        n = alg.p_scale(r.n, 1 / r.d[()]) if r.d[()] != 1 else r.n
        c = n.get((), Fraction(0))
        rest = {m: v for m, v in n.items() if m != ()}
        if not rest:
            return None, Fraction(0), c
        lead = max(rest)
        s = rest[lead]
        return Rat(alg.p_scale(rest, 1 / s), norm=False), s, c
    return r, Fraction(1), Fraction(0)


class State:
    __slots__ = ("heap", "lists", "facts", "trace", "nfresh", "templates", "alias", "flags")

    def __init__(self):
        self.heap = {}
        self.lists = {}
        self.facts = Facts()
        self.trace = ()
        self.nfresh = 0
        self.templates = {}
        self.alias = {}
        self.flags = frozenset()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.lists = dict(self.lists)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.nfresh = self.nfresh
        s.templates = dict(self.templates)
        s.alias = dict(self.alias)
        s.flags = self.flags
        return s

    def same_store(self, o):
        return (self.heap == o.heap and self.lists == o.lists and self.trace == o.trace
                and self.alias == o.alias and self.templates == o.templates and self.flags == o.flags)


REL_BASE = {"free_channels", "in_sys", "dropped", "arrived", "served", "sub_task_in_sys"}


class Budget(Exception):
    pass


PURE_METHODS = {"mean", "max", "min", "sum", "dot", "transpose", "shape", "reshape", "flatten", "real", "imag", "conj", "argmin",
                "argmax", "any", "all", "round", "std", "var", "prod", "cumsum", "astype", "count", "lower", "upper", "strip",
                "split", "startswith", "endswith", "replace", "size", "random", "generate", "get_bar", "refresh"}
INTKINDS = {"len", "cnt", "loopidx", "argmin", "bv", "floor", "lenf"}


class Interp:
    MAX_STATES = 3000
    MAX_DEPTH = 16
    MAX_REC = 2         # nested calls of one function that are followed

    def __init__(self, prog, *, choose=None, int_fields=(), nonneg_fields=(), nullable=(),
                 opaque=(), hooks=None, unroll=48, int_vars=(), nonneg_vars=(), list_params=None):
        self.prog = prog
        self.choose = choose or {}
        self.int_fields = set(int_fields)
        self.nonneg_fields = set(nonneg_fields)
        self.nullable = set(nullable)
        self.nonnull_lists = {"servers"}
        self.opaque = set(opaque)       # method/function names not inlined
        self.hooks = hooks
        self.unroll = unroll
        self.int_vars = set(int_vars)
        self.nonneg_vars = set(nonneg_vars)
        self.objcls = {}
        self.hint_cache = {}
        self.loop_ctr = 0
        self.loop_probe = 0
        self.stack = []
        self.inlined = set()
        self.nsteps = 0
        self.const_lists = {}
        self.unknowns = []
        self.max_steps = 400000

    # ------------------------------------------------------------------ types
    def hints(self, cls):
        if cls in self.hint_cache:
            return self.hint_cache[cls]
        res = {}
        self.hint_cache[cls] = res
        for c in reversed(cls.mro()):
            for f in c.methods.values():
                a = f.node.args
                if f.is_static or not a.args:
                    continue
                me = {a.args[0].arg}
                env = self._local_env(f)
                for nm, vs in env[2].items():
                    if any(isinstance(v, ast.Name) and v.id in me for v in vs):
                        me.add(nm)
                env = (me, cls) + env[2:]

                def mine(t):
                    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in me

                def held(t):
                    """the field that an expression (the field itself or a local bound to it) denotes"""
                    if isinstance(t, ast.Name):
                        vs = env[2].get(t.id, [])
                        fs = {v.attr for v in vs if mine(v)}
                        return fs.pop() if len(fs) == 1 and len(vs) >= 1 and all(mine(v) for v in vs) else None
                    return t.attr if mine(t) else None

                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if mine(t):
                                self._merge_hint(res, t.attr, self._classify(f.module, n.value, env))
                            elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                                    and len(t.elts) == len(n.value.elts):
                                for x, y in zip(t.elts, n.value.elts):
                                    if mine(x):
                                        self._merge_hint(res, x.attr, self._classify(f.module, y, env))
                            elif isinstance(t, ast.Subscript) and held(t.value):
                                self._merge_hint(res, held(t.value), ("list", self._classify(f.module, n.value, env)))
                    elif isinstance(n, ast.AnnAssign):
                        if mine(n.target):
                            h = self._classify(f.module, n.value, env) if n.value is not None else None
                            self._merge_hint(res, n.target.attr, h or self._annotation(f.module, n.annotation))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert") and n.args:
                        if held(n.func.value):
                            self._merge_hint(res, held(n.func.value), ("list", self._classify(f.module, n.args[-1], env)))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 \
                            and isinstance(n.args[1], ast.Constant) and isinstance(n.args[0], ast.Name) and n.args[0].id in me:
                        self._merge_hint(res, n.args[1].value, self._classify(f.module, n.args[2], env))
        return res

    def _local_env(self, f):
        """(receiver names, class, {local name: [assigned expressions]}, {local name: [elements put into it]}, depth)"""
        vals, elems = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, []).append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(n.value.elts):
                        for x, y in zip(t.elts, n.value.elts):
                            if isinstance(x, ast.Name):
                                vals.setdefault(x.id, []).append(y)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        elems.setdefault(t.value.id, []).append(n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.value is not None:
                vals.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                vals.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert") and n.args \
                    and isinstance(n.func.value, ast.Name):
                elems.setdefault(n.func.value.id, []).append(n.args[-1])
        me = {f.node.args.args[0].arg} if f.cls is not None and not f.is_static and f.node.args.args else set()
        return (me, f.cls, vals, elems, 0)

    def _annotation(self, module, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript) and isinstance(e.value, (ast.Name, ast.Attribute)):
            nm = e.value.id if isinstance(e.value, ast.Name) else e.value.attr
            if nm in ("list", "List", "deque", "Deque", "Sequence"):
                return ("list", self._annotation(module, e.slice))
            if nm == "Optional":
                return self._annotation(module, e.slice)
            return None
        r = self.prog.resolve_expr(module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return ("obj", (r,)) if isinstance(r, ClassInfo) else None

    def _merge_hint(self, res, f, h):
        if h is None:
            return
        o = res.get(f)
        if o is None:
            res[f] = h
        elif o[0] == "obj" and h[0] == "obj":
            res[f] = ("obj", o[1] + tuple(c for c in h[1] if c not in o[1]))
        elif o[0] == "list" and h[0] == "list":
            if o[1] is None:
                res[f] = h
        elif o[0] == "list" and h[0] == "obj":
            pass

    def _classify(self, module, e, env=None):
        if env is not None and env[4] > 6:
            return None
        down = env and env[:4] + (env[4] + 1,)
        if isinstance(e, ast.Call):
            r = self.prog.resolve_expr(module, e.func)
            if isinstance(r, ClassInfo):
                return ("obj", (r,))
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "deque", "tuple", "reversed", "sorted") and e.args:
                h = self._classify(module, e.args[0], env)
                return h if h and h[0] == "list" else ("list", None)
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "deque"):
                return ("list", None)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and env is not None \
                    and e.func.value.id in env[0] and env[1] is not None:
                r = env[1].find(e.func.attr)
            elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and env is not None and env[1] is not None \
                    and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                for c in env[1].mro()[1:]:
                    if e.func.attr in c.methods:
                        r = c.methods[e.func.attr]
                        break
            elif isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "deepcopy"):
                return self._classify(module, e.args[0] if e.args else e.func.value, down)
            if isinstance(r, FuncInfo) and env is not None:
                sub = self._local_env(r)
                sub = (sub[0], env[1] if r.cls is not None and env[1] is not None and r.cls in env[1].mro() else sub[1],
                       sub[2], sub[3], env[4] + 1)
                best = None
                for n in ast.walk(r.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        best = self._join_hint(best, self._classify(r.module, n.value, sub))
                if best is None and r.node.returns is not None:
                    best = self._annotation(r.module, r.node.returns)
                if best and best[0] == "obj" and len(best[1]) > 1:
                    return None      # a factory: which class is made depends on its argument
                return best
            return None
        if isinstance(e, ast.Name) and env is not None:
            best = None
            for v in env[2].get(e.id, ()):
                best = self._join_hint(best, self._classify(module, v, down))
            for v in env[3].get(e.id, ()):
                if best is None or best[0] == "list":
                    best = self._join_hint(best, ("list", self._classify(module, v, down)))
            return best
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and env is not None and e.value.id in env[0] and env[1] is not None:
            return self.hints(env[1]).get(e.attr)
        if isinstance(e, ast.Subscript) and env is not None:
            h = self._classify(module, e.value, down)
            if isinstance(e.slice, ast.Slice):
                return h
            return h[1] if h and h[0] == "list" else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return ("list", self._classify(module, e.elt, env))
        if isinstance(e, (ast.List, ast.Tuple)):
            return ("list", self._classify(module, e.elts[0], env) if e.elts else None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for x in (e.left, e.right):
                h = self._classify(module, x, env)
                if h and h[0] == "list":
                    return h
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            h, g = self._classify(module, e.left, env), self._classify(module, e.right, env)
            return self._join_hint(h, g)
        if isinstance(e, ast.NamedExpr):
            return self._classify(module, e.value, env)
        if isinstance(e, ast.IfExp):
            return self._join_hint(self._classify(module, e.body, env), self._classify(module, e.orelse, env))
        if isinstance(e, ast.BoolOp):
            best = None
            for x in e.values:
                best = self._join_hint(best, self._classify(module, x, env))
            return best
        return None

    def _join_hint(self, a, b):
        d = {}
        self._merge_hint(d, 0, a)
        self._merge_hint(d, 0, b)
        return d.get(0)

    def typeinfo(self, a, depth=0):
        if depth > 12:
            return None
        if a in self.objcls:
            return ("obj", (self.objcls[a],))
        if a.kind == "fld":
            c = self.cls_of(a.args[0], depth + 1)
            if c is not None:
                return self.hints(c).get(a.args[1])
        elif a.kind == "idx":
            h = self.typeinfo(a.args[0], depth + 1)
            if h and h[0] == "list":
                return h[1]
        return None

    def cls_of(self, a, depth=0):
        h = self.typeinfo(a, depth)
        if h and h[0] == "obj":
            if len(h[1]) == 1:
                return h[1][0]
            if a.kind == "fld":
                want = self.choose.get(a.args[1])
                if want:
                    for c in h[1]:
                        if c.name == want:
                            return c
            return h[1][0]
        return None

    # ------------------------------------------------------------------ facts
    def is_int_atom(self, a):
        k = a.kind
        if k in INTKINDS:
            return True
        if k == "fld":
            return a.args[1] in self.int_fields
        if k == "var":
            return a.args[0] in self.int_vars
        if k == "idx":
            b = a.args[0]
            return b.kind == "fld" and b.args[1] in self.int_fields
        if k == "lv":
            b = a.args[1]
            if isinstance(b, tuple) and len(b) == 2:
                if isinstance(b[1], str) and (b[1] in self.int_fields or b[1].startswith("#")):
                    return True
                if isinstance(b[0], Atom) and b[0].kind == "fld" and b[0].args[1] in self.int_fields:
                    return True
        return False

    def base_interval(self, a):
        k = a.kind
        if k in ("len", "cnt", "loopidx", "argmin", "lenf"):
            return Fraction(0), None
        if k == "fld" and a.args[1] in self.nonneg_fields:
            return Fraction(0), None
        if k == "var" and a.args[0] in self.nonneg_vars:
            return Fraction(0), None
        if k == "idx":
            b = a.args[0]
            if b.kind == "fld" and b.args[1] in self.nonneg_fields:
                return Fraction(0), None
        if k == "lv":
            b = a.args[1]
            if isinstance(b, tuple) and len(b) == 2 and isinstance(b[1], str) and (
                    b[1] in self.nonneg_fields or b[1] == "#len"):
                return Fraction(0), None
            if isinstance(b, tuple) and isinstance(b[0], Atom) and b[0].kind == "fld" and b[0].args[1] in self.nonneg_fields:
                return Fraction(0), None
        return None, None

    def interval(self, facts, r):
        """(lo, lo_strict, hi, hi_strict, integer)"""
        key, s, c = canon(r)
        if key is None:
            return (c, False, c, False, c.denominator == 1)
        lo = hi = None
        los = his = False
        integer = True
        # sum of atom intervals
        if alg.p_is_const(key.d):
            tlo = thi = Fraction(0)
            for m, v in key.n.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = alg._ATOM_LIST[m[0][0]]
                    if not self.is_int_atom(a) or v.denominator != 1:
                        integer = False
                    alo, ahi = self.base_interval(a)
                    e = facts.b.get(rat(a))
                    if e:
                        if e[0] is not None and (alo is None or e[0] > alo):
                            alo = e[0]
                        if e[2] is not None and (ahi is None or e[2] < ahi):
                            ahi = e[2]
                else:
                    integer = integer and all(self.is_int_atom(alg._ATOM_LIST[i]) for i, _ in m) and v.denominator == 1
                    alo = ahi = None
                if v < 0:
                    alo, ahi = ahi, alo
                tlo = None if tlo is None or alo is None else tlo + v * alo
                thi = None if thi is None or ahi is None else thi + v * ahi
            lo, hi = tlo, thi
        else:
            integer = False
        e = facts.b.get(key)
        if e:
            if e[0] is not None and (lo is None or e[0] > lo or (e[0] == lo and e[1])):
                lo, los = e[0], e[1]
            if e[2] is not None and (hi is None or e[2] < hi or (e[2] == hi and e[3])):
                hi, his = e[2], e[3]
        if s < 0:
            lo, los, hi, his = hi, his, lo, los
        lo = None if lo is None else lo * s + c
        hi = None if hi is None else hi * s + c
        return lo, los, hi, his, integer and s.denominator == 1 and c.denominator == 1

    def decide_cmp(self, facts, op, r):
        """truth of  r op 0  if decided by the facts, else None"""
        c = r.const()
        if c is not None:
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        lo, los, hi, his, integer = self.interval(facts, r)
        if op in ("==", "!="):
            res = None
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                res = False
            elif hi is not None and (hi < 0 or (hi == 0 and his)):
                res = False
            elif lo == 0 and hi == 0 and lo is not None and hi is not None:
                res = True
            else:
                key, s, cc = canon(r)
                e = facts.b.get(key)
                if e and s and (-cc / s) in e[4]:
                    res = False
            return res if op == "==" or res is None else not res
        if op == "<":
            if hi is not None and (hi < 0 or (hi == 0 and his)):
                return True
            if lo is not None and lo >= 0:
                return False
            return None
        if op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                return False
            return None
        if op == ">":
            v = self.decide_cmp(facts, "<=", r)
            return None if v is None else not v
        v = self.decide_cmp(facts, "<", r)
        return None if v is None else not v

    def assume_cmp(self, st, op, r):
        f = st.facts
        d = self.decide_cmp(f, op, r)
        if d is not None:
            if not d:
                return False
            if r.const() is not None:
                return True
        key, s, c = canon(r)
        if key is None:
            return True
        v = -c / s
        if s < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        e = list(f.b.get(key) or [None, False, None, False, frozenset()])
        _, _, _, _, integer = self.interval(f, key)
        integer = integer and v.denominator == 1
        if op == "==":
            e[0], e[1], e[2], e[3] = v, False, v, False
        elif op == "!=":
            e[4] = e[4] | {v}
        elif op in ("<", "<="):
            strict = op == "<"
            if strict and integer:
                v, strict = v - 1, False
            if e[2] is None or v < e[2] or (v == e[2] and strict):
                e[2], e[3] = v, strict
        else:
            strict = op == ">"
            if strict and integer:
                v, strict = v + 1, False
            if e[0] is None or v > e[0] or (v == e[0] and strict):
                e[0], e[1] = v, strict
        if integer:
            # tighten at excluded end points
            lo, _, hi, _, _ = self.interval(f, key)
            if e[0] is not None:
                lo = e[0] if lo is None else max(lo, e[0])
            if e[2] is not None:
                hi = e[2] if hi is None else min(hi, e[2])
            while lo is not None and lo in e[4]:
                lo += 1
            while hi is not None and hi in e[4]:
                hi -= 1
            e[0], e[2] = lo, hi
        if e[0] is not None and e[2] is not None and (
                e[0] > e[2] or (e[0] == e[2] and (e[1] or e[3] or e[0] in e[4]))):
            return False
        f.b[key] = tuple(e)
        if op in ("<", "<=", ">", ">=", "==") and len(key.atoms()) > 1:
            f.order = f.order + ((key, op, v),)
        return self.propagate(f, key)

    def propagate(self, f, start):
        """bounds of linear forms -> bounds of their variables (interval constraint propagation, few rounds)"""
        todo = [start]
        for _ in range(3):
            changed = set()
            tset = set()
            for k in todo:
                tset |= k.atoms()
            for k, e in list(f.b.items()):
                if k.as_atom() is not None or not alg.p_is_const(k.d) or not (k.atoms() & tset):
                    continue
                terms = []
                ok = True
                for m, v in k.n.items():
                    if len(m) != 1 or m[0][1] != 1:
                        ok = False
                        break
                    a = alg._ATOM_LIST[m[0][0]]
                    lo, hi = self.base_interval(a)
                    g = f.b.get(rat(a))
                    if g:
                        if g[0] is not None and (lo is None or g[0] > lo):
                            lo = g[0]
                        if g[2] is not None and (hi is None or g[2] < hi):
                            hi = g[2]
                    terms.append((a, v, lo, hi))
                if not ok:
                    continue
                tlo = [(v * lo if v > 0 else v * hi) if (lo if v > 0 else hi) is not None else None for a, v, lo, hi in terms]
                thi = [(v * hi if v > 0 else v * lo) if (hi if v > 0 else lo) is not None else None for a, v, lo, hi in terms]
                if e[2] is not None and all(x is not None for x in tlo) and (sum(tlo) > e[2]):
                    return False
                if e[0] is not None and all(x is not None for x in thi) and (sum(thi) < e[0]):
                    return False
                for i, (a, v, lo, hi) in enumerate(terms):
                    oth_lo = [x for j, x in enumerate(tlo) if j != i]
                    oth_hi = [x for j, x in enumerate(thi) if j != i]
                    nlo = nhi = None
                    if e[2] is not None and all(x is not None for x in oth_lo):
                        b = (e[2] - sum(oth_lo)) / v
                        if v > 0:
                            nhi = b
                        else:
                            nlo = b
                    if e[0] is not None and all(x is not None for x in oth_hi):
                        b = (e[0] - sum(oth_hi)) / v
                        if v > 0:
                            nlo = b if nlo is None else max(b, nlo)
                        else:
                            nhi = b if nhi is None else min(b, nhi)
                    ra = rat(a)
                    g = list(f.b.get(ra) or [None, False, None, False, frozenset()])
                    ch = False
                    if nlo is not None and (lo is None or nlo > lo):
                        g[0], g[1] = nlo, False
                        ch = True
                    if nhi is not None and (hi is None or nhi < hi):
                        g[2], g[3] = nhi, False
                        ch = True
                    if ch:
                        if g[0] is not None and g[2] is not None and g[0] > g[2]:
                            return False
                        f.b[ra] = tuple(g)
                        changed.add(ra)
            if not changed:
                return True
            todo = list(changed)
        return True

    def decide(self, st, c):
        """truth of a value used as a condition, or None"""
        if c is None:
            return False
        if isinstance(c, bool):
            return c
        if isinstance(c, str):
            return bool(c)
        if isinstance(c, Tup):
            return bool(c.items)
        if isinstance(c, Fn):
            return True
        if isinstance(c, Rat):
            k = c.const()
            if k is not None:
                return k != 0
            return self.decide(st, self.truth_cond(st, c))
        if isinstance(c, Cond):
            if c.kind == "cmp":
                return self.decide_cmp(st.facts, c.args[0], c.args[1])
            if c.kind == "not":
                v = self.decide(st, c.args[0])
                return None if v is None else not v
            v = st.facts.t.get((c.kind,) + c.args)
            if v is None and c.kind == "isnone":
                x = c.args[0]
                a = x.as_atom() if isinstance(x, Rat) else None
                if a is None or a.kind in ("obj", "list", "dict"):
                    return False
                if not self.is_nullable(a):
                    return False
            return v
        return None

    def is_nullable(self, a):
        if a.kind == "fld":
            return a.args[1] in self.nullable
        if a.kind == "var":
            return a.args[0] in self.nullable
        if a.kind == "idx" and a.args[0].kind == "fld" and a.args[0].args[1] in self.nonnull_lists:
            return False
        return a.kind in ("call", "lphi", "lv", "fresh", "idx")

    def truth_cond(self, st, v):
        """value -> Cond (or bool)"""
        if isinstance(v, Rat):
            k = v.const()
            if k is not None:
                return k != 0
            a = v.as_atom()
            if a is not None:
                if a.kind in ("obj", "newgen"):
                    return True
                if a in st.lists:
                    return len(st.lists[a]) > 0
                ti = self.typeinfo(a)
                if (ti and ti[0] == "list") or a.kind == "list" or (a, "#len") in st.heap:
                    return Cond("cmp", "!=", self.list_len(st, a))
                if ti and ti[0] == "obj":
                    return True
                if a.kind == "sym" and self.decide_cmp(st.facts, "!=", v):
                    return True
                if not self.is_int_atom(a) or self.is_nullable(a):
                    return Cond("bool", v)
            return Cond("cmp", "!=", v)
        if isinstance(v, Cond):
            return v
        return self.decide(st, v)

    def assume(self, st, c, truth):
        """restrict st; False if contradictory"""
        if not isinstance(c, (Rat, Cond)):
            d = self.decide(st, c)
            return d is None or d == truth
        if isinstance(c, Rat):
            c = self.truth_cond(st, c)
            if isinstance(c, bool):
                return c == truth
        if c.kind == "not":
            return self.assume(st, c.args[0], not truth)
        if c.kind == "cmp":
            op, r = c.args
            return self.assume_cmp(st, op if truth else NEG[op], r)
        d = self.decide(st, c)
        if d is not None:
            return d == truth
        st.facts.t[(c.kind,) + c.args] = truth
        if c.kind == "argminis":
            a = c.args[0].as_atom()
            n = len(a.args[0].items)
            if truth:
                if not self.assume_argmin(st, a, int(c.args[1].const())):
                    return False
            else:
                exc = {k[2].const() for k, v in st.facts.t.items() if k[0] == "argminis" and k[1] == c.args[0] and v is False}
                rest = [j for j in range(n) if j not in exc]
                if not rest:
                    return False
                if len(rest) == 1 and not self.assume_argmin(st, a, rest[0]):
                    return False
        if c.kind == "bool":
            x = c.args[0]
            if truth and isinstance(x, Rat):
                st.facts.t[("isnone", x)] = False
                a = x.as_atom()
                if a is not None and self.is_int_atom(a):
                    self.assume_cmp(st, "!=", x)
        if c.kind == "isnone" and truth:
            st.facts.t[("bool", c.args[0])] = False
        if c.kind == "eqs" and truth:
            for k in list(st.facts.t):
                if k[0] == "eqs" and k[1] == c.args[0] and k[2] != c.args[1] and st.facts.t[k] is True:
                    return False
        if self.hooks and hasattr(self.hooks, "after_assume"):
            if not self.hooks.after_assume(self, st, c, truth):
                return False
        return True

    # ------------------------------------------------------------------ heap
    def fresh(self, st, kind, *info):
        st.nfresh += 1
        return R(kind, *info, st.nfresh)

    def load(self, st, a, f, node=None):
        """field of object at address a"""
        v = st.heap.get((a, f), st)
        if v is not st:
            return v
        cls = self.cls_of(a)
        if a.kind == "obj" and a not in (GH,) and a.args[0] != "self" and cls is not None:
            ca = cls.class_attr(f)
            if ca:
                return self.class_attr_value(st, ca)
        return R("fld", a, f)

    def class_attr_value(self, st, ca):
        c, node = ca
        k = (atom("class", c.module.name, c.name),)
        try:
            v = ast.literal_eval(node)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return rat(v)
            if v is None or isinstance(v, (bool, str)):
                return v
        except Exception:
            pass
        return R("clsattr", c.name, ast.dump(node)[:40])

    def store(self, st, a, f, v, node=None):
        if self.hooks and hasattr(self.hooks, "before_store"):
            v = self.hooks.before_store(self, st, a, f, v, node)
        st.heap[(a, f)] = v

    def list_len(self, st, a):
        if a in st.lists:
            return rat(len(st.lists[a]))
        v = st.heap.get((a, "#len"))
        return v if v is not None else R("len", a)

    def list_front(self, st, a):
        v = st.heap.get((a, "#front"))
        return v if v is not None else ZERO

    def elem_addr_value(self, st, a, key):
        """value of a[key] for a list-like address (key: Rat | str | Tup)"""
        if a in st.lists:
            items = st.lists[a]
            if isinstance(key, Rat):
                c = key.const()
                if c is not None and c.denominator == 1:
                    c = int(c)
                    if -len(items) <= c < len(items):
                        return items[c]
                    return R("idx", a, key)
            v = st.heap.get((a, key), st)
            if v is not st:
                return v
            # symbolic index into a concrete list: all the same?
            if items and all(x == items[0] for x in items[1:]):
                return items[0]
            return R("idx", a, key)
        k = key
        if isinstance(key, Rat):
            fr = self.list_front(st, a)
            c = key.const()
            if c is not None and c < 0:
                k = key + fr + self.list_len(st, a)
            else:
                k = key + fr
        v = st.heap.get((a, k), st)
        if v is not st:
            return v
        for (off, tmpl, bv, lo, hi) in reversed(st.templates.get(a, ())):
            if isinstance(k, Rat):
                if (a, "#filter") in st.heap:
                    self.assume_selected(st, a, k)
                return self.subst_val(tmpl, {bv: k - off})
        d = st.heap.get((a, "#default"), st)
        if d is not st:
            return d
        return R("idx", a, k)

    def assume_selected(self, st, a, k):
        """an element taken from a filtered list passed the filter"""
        idx, sel, facts = st.heap[(a, "#filter")].items
        i, sel = idx.as_atom(), self.subst_val(sel, {atom("bv", 0): k})
        memo = {}
        for f in facts.items:
            kind, key, v = f.items
            if kind == "t":
                st.facts.t.setdefault(tuple(self.subst_val(x, {i: sel}, memo) for x in key), v)
            else:
                r = self.subst_val(key, {i: sel}, memo)
                lo, los, hi, his, excl = v
                for x in excl:
                    self.assume_cmp(st, "!=", r - rat(x))
                if lo is not None:
                    self.assume_cmp(st, ">" if los else ">=", r - rat(lo))
                if hi is not None:
                    self.assume_cmp(st, "<" if his else "<=", r - rat(hi))

    def set_elem(self, st, a, key, v, node=None):
        if self.hooks and hasattr(self.hooks, "before_store"):
            v = self.hooks.before_store(self, st, a, key, v, node)
        if a in st.lists:
            items = st.lists[a]
            if isinstance(key, Rat):
                c = key.const()
                if c is not None and c.denominator == 1 and -len(items) <= int(c) < len(items):
                    l = list(items)
                    l[int(c)] = v
                    st.lists[a] = tuple(l)
                    return
            self.to_symbolic(st, a)
        k = key
        if isinstance(key, Rat):
            fr = self.list_front(st, a)
            c = key.const()
            if c is not None and c < 0:
                k = key + fr + self.list_len(st, a)
            else:
                k = key + fr
        st.heap[(a, k)] = v

    def to_symbolic(self, st, a):
        items = st.lists.pop(a, None)
        if items is None:
            return
        st.heap[(a, "#len")] = rat(len(items))
        st.heap[(a, "#front")] = ZERO
        if items and all(x == items[0] for x in items[1:]):
            st.heap[(a, "#default")] = items[0]
        for i, x in enumerate(items):
            st.heap[(a, rat(i))] = x

    def new_list(self, st, items):
        st.nfresh += 1
        a = atom("list", st.nfresh)
        st.lists[a] = tuple(items)
        return rat(a)

    def new_sym_list(self, st, length, default=None, has_default=False):
        st.nfresh += 1
        a = atom("list", st.nfresh)
        st.heap[(a, "#len")] = length
        st.heap[(a, "#front")] = ZERO
        if has_default:
            st.heap[(a, "#default")] = default
        return rat(a)

    def subst_val(self, v, mp, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, Rat):
            return deep_subst(v, mp, memo)
        if isinstance(v, Cond):
            return v.deep_subst(lambda x: self.subst_val(x, mp, memo))
        if isinstance(v, Tup):
            return Tup(self.subst_val(x, mp, memo) for x in v.items)
        if isinstance(v, Fn):
            return Fn(v.kind, *[self.subst_val(x, mp, memo) if isinstance(x, (Rat, Tup)) else x for x in v.args])
        if isinstance(v, Atom):
            r = deep_subst(rat(v), mp, memo)
            b = r.as_atom()
            return b if b is not None else v
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, mp, memo) for x in v)
        return v

    def subst_facts(self, f, mp, memo):
        g = Facts()
        for k, e in f.b.items():
            nk = deep_subst(k, mp, memo)
            if nk is k or nk == k:
                g.b[k] = e
                continue
            kk, s, c = canon(nk)
            if kk is None:
                continue
            lo, los, hi, his, ex = e
            lo2 = None if lo is None else (lo - c) / s
            hi2 = None if hi is None else (hi - c) / s
            ex2 = frozenset((x - c) / s for x in ex)
            if s < 0:
                lo2, los, hi2, his = hi2, his, lo2, los
            old = g.b.get(kk) or f.b.get(kk)
            if old:
                if old[0] is not None and (lo2 is None or old[0] > lo2):
                    lo2, los = old[0], old[1]
                if old[2] is not None and (hi2 is None or old[2] < hi2):
                    hi2, his = old[2], old[3]
                ex2 |= old[4]
            g.b[kk] = (lo2, los, hi2, his, ex2)
        for k, v in f.t.items():
            g.t[(k[0],) + tuple(self.subst_val(x, mp, memo) for x in k[1:])] = v
        g.foralls = tuple((self.subst_val(a, mp, memo), self.subst_val(c, mp, memo), t) for a, c, t in f.foralls)
        g.minall = tuple((deep_subst(a, mp, memo), deep_subst(b, mp, memo), c) for a, b, c in f.minall)
        g.order = tuple((deep_subst(a, mp, memo), op, v) for a, op, v in f.order)
        return g

    def subst_state(self, st, mp):
        memo = {}
        s = State()
        for k, v in st.heap.items():
            s.heap[tuple(self.subst_val(x, mp, memo) for x in k)] = self.subst_val(v, mp, memo)
        for k, v in st.lists.items():
            s.lists[self.subst_val(k, mp, memo)] = tuple(self.subst_val(x, mp, memo) for x in v)
        s.facts = self.subst_facts(st.facts, mp, memo)
        s.trace = tuple(self.subst_ev(e, mp, memo) for e in st.trace)
        s.nfresh = st.nfresh
        s.templates = {self.subst_val(k, mp, memo): tuple(
            (self.subst_val(o, mp, memo), self.subst_val(t, mp, memo), bv, self.subst_val(lo, mp, memo),
             self.subst_val(hi, mp, memo)) for o, t, bv, lo, hi in v) for k, v in st.templates.items()}
        s.alias = {self.subst_val(k, mp, memo): v for k, v in st.alias.items()}
        s.flags = st.flags
        return s

    def subst_ev(self, e, mp, memo):
        if isinstance(e, LoopEv):
            return LoopEv(tuple((tuple(self.subst_ev(x, mp, memo) for x in evs), ex) for evs, ex in e.alts), e.where,
                          self.subst_val(e.trip, mp, memo), e.idx)
        return Ev(e.kind, tuple(self.subst_val(x, mp, memo) for x in e.data), e.where,
                  self.subst_facts(e.facts, mp, memo) if e.facts is not None else None,
                  tuple((self.subst_facts(f, mp, memo), w) for f, w in e.more))

    # ------------------------------------------------------------------ events
    def where(self, node):
        mod = self.stack[-1].module if self.stack else None
        return (mod.rel if mod else "?", getattr(node, "lineno", 0), self.stack[-1].qual if self.stack else "?")

    def event(self, st, kind, data, node):
        st.trace = st.trace + (Ev(kind, tuple(data), self.where(node), st.facts.copy()),)

    # ------------------------------------------------------------------ running functions
    def call_function(self, st, fi, args, kwargs, node, selfval=None):
        """inline; list of (state, value)"""
        if len(self.stack) > self.MAX_DEPTH or sum(1 for f in self.stack if f is fi) > self.MAX_REC:
            st.flags = st.flags | {("havoc", "recursion")}
            return [(st, self.unknown(st, f"rec:{fi.qual}"))]
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if selfval is not None:
            pos = [selfval] + pos
        for i, v in enumerate(pos):
            if i < len(names):
                env[names[i]] = v
            elif a.vararg:
                break
        if a.vararg:
            env[a.vararg.arg] = self.new_list(st, pos[len(names):]) if len(pos) > len(names) else self.new_list(st, [])
        for k, v in kwargs.items():
            env[k] = v
        defaults = a.defaults
        self.stack.append(fi)
        try:
            for n, d in zip(names[len(names) - len(defaults):], defaults):
                if n not in env:
                    r = self.eval(d, {}, st)
                    env[n] = r[0][1]
            for n, d in zip(a.kwonlyargs, a.kw_defaults):
                if n.arg not in env and d is not None:
                    env[n.arg] = self.eval(d, {}, st)[0][1]
            for n in names:
                if n not in env:
                    env[n] = R("var", f"{fi.qual}.{n}")
            if a.kwarg and a.kwarg.arg not in env:
                env[a.kwarg.arg] = R("var", f"{fi.qual}.{a.kwarg.arg}")
            self.inlined.add(fi)
            outs = self.exec_block(fi.node.body, env, st)
        finally:
            self.stack.pop()
        res = []
        for env2, s, out in outs:
            if out is None:
                res.append((s, None))
            elif out[0] == "ret":
                res.append((s, out[1]))
            elif out[0] == "raise":
                s.flags = s.flags | {"raise"}
                res.append((s, None))
        return self.merge_vals(res)

    def merge_vals(self, res):
        if len(res) < 2:
            return res
        out = []
        for s, v in res:
            for s2, v2 in out:
                if type(v) is type(v2) and v == v2 and s.same_store(s2) and not self.apart(s.facts, s2.facts):
                    self.join_facts(s2, s)
                    break
            else:
                out.append((s, v))
        return out

    def join_facts(self, s2, s):
        f, g = s2.facts, s.facts
        nb = {}
        for k, e in f.b.items():
            e2 = g.b.get(k)
            if e2 is None:
                continue
            lo = None if e[0] is None or e2[0] is None else min(e[0], e2[0])
            hi = None if e[2] is None or e2[2] is None else max(e[2], e2[2])
            ex = e[4] & e2[4]
            nb[k] = (lo, (e[1] and e2[1]), hi, (e[3] and e2[3]), ex)
        # order relations known on one side may follow on the other
        of = og = None
        for mine, other, w in ((f, g, 0), (g, f, 1)):
            for k, e in mine.b.items():
                o = nb.get(k)
                if o is not None and (o[0] is not None or o[2] is not None):
                    continue
                pq = diff_pair(k)
                if pq is None:
                    continue
                if of is None:
                    of, og = Order(f), Order(g)
                oth = og if w == 0 else of
                p, q = pq
                if e[2] is not None and e[2] <= 0 and oth.le(p, q):
                    nb[k] = (None, False, ZF, (e[2] < 0 or e[3]) and oth.lt(p, q), frozenset())
                elif e[0] is not None and e[0] >= 0 and oth.le(q, p):
                    nb[k] = (ZF, (e[0] > 0 or e[1]) and oth.lt(q, p), None, False, frozenset())
        f.b = nb
        f.t = {k: v for k, v in f.t.items() if g.t.get(k) == v}
        f.foralls = tuple(x for x in f.foralls if x in g.foralls)
        f.minall = tuple(x for x in f.minall if x in g.minall)
        f.order = tuple(x for x in f.order if x in g.order)
        s2.nfresh = max(s2.nfresh, s.nfresh)
        if s2.trace is not s.trace and any(a is not b for a, b in zip(s2.trace, s.trace)):
            s2.trace = tuple(self.join_events(a, b) for a, b in zip(s2.trace, s.trace))

    @staticmethod
    def join_events(a, b):
        if a is b or isinstance(a, LoopEv) or a.kind not in ("drop", "qappend", "qinsert") or a.facts is None or b.facts is None:
            return a
        have = list(a.every())
        new = [x for x in b.every() if not any(y[0] is x[0] or y[0].b == x[0].b and y[0].t == x[0].t for y in have)]
        return Ev(a.kind, a.data, a.where, a.facts, a.more + tuple(new[:16])) if new else a

    def merge_states(self, outs):
        if len(outs) < 2:
            return outs
        res = []
        for env, s, o in outs:
            for env2, s2, o2 in res:
                if self._same_out(o, o2) and env == env2 and s.same_store(s2) and not self.apart(s.facts, s2.facts):
                    self.join_facts(s2, s)
                    break
            else:
                res.append((env, s, o))
        if len(res) > self.MAX_STATES:
            raise Budget(f"more than {self.MAX_STATES} abstract states")
        return res

    @staticmethod
    def apart(f, g):
        """paths that differ in whether an optional setting is present, or in the tests made of the buffer, are not joined"""
        if any(k[0] == "isnone" and g.t.get(k, v) != v for k, v in f.t.items()):
            return True
        return f.b is not g.b and any((k in f.b) != (k in g.b) and any(a.kind == "fld" and a.args[1] == "buffer" for a in k.atoms())
                                      for b in (f.b, g.b) for k in b)

    @staticmethod
    def _same_out(a, b):
        if a is None or b is None:
            return a is b
        if a[0] != b[0]:
            return False
        if a[0] == "ret":
            return type(a[1]) is type(b[1]) and a[1] == b[1]
        return True

    def unknown(self, st, why):
        self.unknowns.append((why, self.stack[-1].qual if self.stack else ""))
        if why == "zerodiv":
            st.flags = st.flags | {("zerodiv", self.stack[-1].qual if self.stack else "")}
        return self.fresh(st, "call", why)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, env, st):
        cur = [(env, st, None)]
        for s in stmts:
            nxt = []
            for e, x, o in cur:
                if o is not None or "raise" in x.flags:
                    nxt.append((e, x, o if o is not None else ("raise", None)))
                else:
                    nxt.extend(self.exec(s, e, x))
            cur = self.merge_states(nxt) if len(nxt) > 1 else nxt
        return cur

    def exec(self, s, env, st):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise Budget("step budget")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            return [(env, st, None)]
        return m(s, env, st)

    def x_Expr(self, s, env, st):
        if isinstance(s.value, ast.Constant):
            return [(env, st, None)]
        return [(env, x, None) for x, v in self.eval(s.value, env, st)]

    def x_Pass(self, s, env, st):
        return [(env, st, None)]

    x_Import = x_ImportFrom = x_Global = x_Nonlocal = x_Pass

    def x_Return(self, s, env, st):
        if s.value is None:
            return [(env, st, ("ret", None))]
        return [(env, x, ("ret", v)) for x, v in self.eval(s.value, env, st)]

    def x_Break(self, s, env, st):
        return [(env, st, ("break",))]

    def x_Continue(self, s, env, st):
        return [(env, st, ("continue",))]

    def x_Raise(self, s, env, st):
        return [(env, st, ("raise", None))]

    def x_Assert(self, s, env, st):
        out = []
        for x, c in self.branch(s.test, env, st):
            if c:
                out.append((env, x, None))
        return out

    def x_FunctionDef(self, s, env, st):
        e = dict(env)
        fi = FuncInfo(s, self.stack[-1].module if self.stack else None, None)
        e[s.name] = Fn("closure", fi, e)
        return [(e, st, None)]

    def x_Assign(self, s, env, st):
        out = []
        for x, v in self.eval(s.value, env, st):
            cur = [(env, x)]
            for t in s.targets:
                nxt = []
                for e, y in cur:
                    nxt.extend(self.assign(t, v, e, y))
                cur = nxt
            out.extend((e, y, None) for e, y in cur)
        return out

    def x_AnnAssign(self, s, env, st):
        if s.value is None:
            return [(env, st, None)]
        out = []
        for x, v in self.eval(s.value, env, st):
            out.extend((e, y, None) for e, y in self.assign(s.target, v, env, x))
        return out

    def x_AugAssign(self, s, env, st):
        out = []
        load = _as_load(s.target)
        for x, cur in self.eval(load, env, st):
            for y, v in self.eval(s.value, env, x):
                if isinstance(s.op, ast.Add) and self.is_list(y, cur) and self.is_list(y, v):
                    a, b = cur.as_atom(), v.as_atom()
                    if a in y.lists and b in y.lists:
                        y.lists[a] = y.lists[a] + y.lists[b]
                        out.append((env, y, None))
                        continue
                r = self.binop(s.op, cur, v, y, s)
                out.extend((e, z, None) for e, z in self.assign(s.target, r, env, y))
        return out

    def x_Delete(self, s, env, st):
        cur = [(env, st)]
        for t in s.targets:
            nxt = []
            for e, x in cur:
                if isinstance(t, ast.Subscript):
                    for y, base in self.eval(t.value, e, x):
                        for z, k in self.eval_index(t.slice, e, y):
                            a = base.as_atom() if isinstance(base, Rat) else None
                            if a is not None:
                                self.list_pop(z, a, k, t)
                            nxt.append((e, z))
                else:
                    nxt.append((e, x))
            cur = nxt
        return [(e, x, None) for e, x in cur]

    def assign(self, t, v, env, st):
        """list of (env, state)"""
        if isinstance(t, ast.Name):
            e = dict(env)
            e[t.id] = v
            return [(e, st)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, env, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st)
            cur = [(env, st)]
            for tt, vv in zip(t.elts, items):
                nxt = []
                for e, x in cur:
                    nxt.extend(self.assign(tt, vv, e, x))
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.eval(t.value, env, st):
                if isinstance(b, Rat) and b.as_atom() is not None:
                    self.store(x, b.as_atom(), t.attr, v, t)
                elif isinstance(b, Fn) and b.kind == "class":
                    x.heap[(atom("class", b.args[0].name), t.attr)] = v
                out.append((env, x))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.eval(t.value, env, st):
                for y, k in self.eval_index(t.slice, env, x):
                    if isinstance(b, Rat) and b.as_atom() is not None:
                        if isinstance(k, tuple) and k and k[0] == "slice":
                            self.havoc_list(y, b.as_atom())
                        else:
                            self.set_elem(y, b.as_atom(), k, v, t)
                    out.append((env, y))
            return out
        return [(env, st)]

    def unpack(self, v, n, st):
        if isinstance(v, Tup) and len(v.items) == n:
            return v.items
        if isinstance(v, Rat):
            a = v.as_atom()
            if a is not None:
                return [self.elem_addr_value(st, a, rat(i)) for i in range(n)]
        return [R("unpack", v if isinstance(v, Rat) else repr(v), i) for i in range(n)]

    def havoc_list(self, st, a):
        st.lists.pop(a, None)
        for k in [k for k in st.heap if k[0] is a]:
            del st.heap[k]
        st.heap[(a, "#len")] = self.fresh(st, "lenf", "havoc")
        st.templates.pop(a, None)

    # -- branching
    def branch(self, test, env, st):
        """list of (state, bool)"""
        out = []
        for x, v in self.eval(test, env, st, cond=True):
            d = self.decide(x, v)
            if d is not None:
                # keep the information even when decided
                out.append((x, d))
                continue
            y = x.copy()
            if self.assume(x, v, True):
                out.append((x, True))
            if self.assume(y, v, False):
                out.append((y, False))
        return out

    def x_If(self, s, env, st):
        out = []
        for x, b in self.branch(s.test, env, st):
            out.extend(self.exec_block(s.body if b else s.orelse, env, x))
        return self.merge_states(out)

    def x_Match(self, s, env, st):
        out = []
        for x, subj in self.eval(s.subject, env, st):
            cur = [x]
            for case in s.cases:
                nxt = []
                for y in cur:
                    conds = self.match_pattern(case.pattern, subj)
                    if conds is True:
                        e = dict(env)
                        if isinstance(case.pattern, ast.MatchAs) and case.pattern.name:
                            e[case.pattern.name] = subj
                        if case.guard is not None:
                            for z, b in self.branch(case.guard, e, y):
                                if b:
                                    out.extend(self.exec_block(case.body, e, z))
                                else:
                                    nxt.append(z)
                        else:
                            out.extend(self.exec_block(case.body, e, y))
                        continue
                    rest = [y]
                    for c in conds:
                        rest2 = []
                        for z in rest:
                            cc = self.compare_vals(ast.Eq(), subj, c, z)
                            d = self.decide(z, cc)
                            if d is True:
                                out.extend(self.exec_block(case.body, env, z))
                                continue
                            if d is False:
                                rest2.append(z)
                                continue
                            w = z.copy()
                            if self.assume(z, cc, True):
                                out.extend(self.exec_block(case.body, env, z))
                            if self.assume(w, cc, False):
                                rest2.append(w)
                        rest = rest2
                    nxt.extend(rest)
                cur = nxt
            out.extend((env, y, None) for y in cur)
        return self.merge_states(out)

    def match_pattern(self, p, subj):
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return True
        if isinstance(p, ast.MatchOr):
            r = []
            for q in p.patterns:
                c = self.match_pattern(q, subj)
                if c is True:
                    return True
                r.extend(c)
            return r
        if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant):
            return [self.constval(p.value.value)]
        if isinstance(p, ast.MatchSingleton):
            return [p.value]
        return True

    def x_With(self, s, env, st):
        cur = [(env, st)]
        for it in s.items:
            nxt = []
            for e, x in cur:
                for y, v in self.eval(it.context_expr, e, x):
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, v, e, y))
                    else:
                        nxt.append((e, y))
            cur = nxt
        out = []
        for e, x in cur:
            out.extend(self.exec_block(s.body, e, x))
        return out

    def x_Try(self, s, env, st):
        outs = self.exec_block(s.body, env, st)
        res = []
        for e, x, o in outs:
            if o is not None and o[0] == "raise" and s.handlers:
                x.flags = x.flags - {"raise"}
                for h in s.handlers:
                    res.extend(self.exec_block(h.body, e, x.copy()))
            elif o is None and s.orelse:
                res.extend(self.exec_block(s.orelse, e, x))
            else:
                res.append((e, x, o))
        if s.finalbody:
            r2 = []
            for e, x, o in res:
                for e2, x2, o2 in self.exec_block(s.finalbody, e, x):
                    r2.append((e2, x2, o2 if o2 is not None else o))
            res = r2
        return res

    # ------------------------------------------------------------------ loops
    def iter_desc(self, v, st):
        """describe an iterable: ('items',[...]) | ('gen', trip, f(idx)->value)"""
        if isinstance(v, Tup):
            return ("items", list(v.items))
        if isinstance(v, tuple) and v and v[0] == "range":
            lo, hi, step = v[1:]
            cl, ch, cs = lo.const(), hi.const(), step.const()
            if cs is not None and cs == 1 or cs == -1:
                if cl is not None and ch is not None:
                    n = int((ch - cl) * cs) if cs > 0 else int(cl - ch)
                    if n <= self.unroll:
                        return ("items", [rat(int(cl) + int(cs) * i) for i in range(max(0, n))])
                if cs == 1:
                    return ("gen", hi - lo, lambda i: i, lo, hi, ("range", lo, hi))
                return ("gen", lo - hi, lambda i: i, hi + 1, lo + 1, ("range", hi + 1, lo + 1))
            if cl is not None and ch is not None and cs:
                items = [rat(x) for x in range(int(cl), int(ch), int(cs))]
                if len(items) <= self.unroll:
                    return ("items", items)
            return ("gen", self.fresh(st, "cnt", "trip"), lambda i: lo + step * i, ZERO, None, None)
        if isinstance(v, tuple) and v and v[0] in ("enumerate", "zip", "reversed"):
            subs = [self.iter_desc(x, st) for x in (v[1] if v[0] == "zip" else [v[1]])]
            if v[0] == "enumerate":
                d = subs[0]
                start = v[2]
                if d[0] == "items":
                    return ("items", [Tup([start + i, x]) for i, x in enumerate(d[1])])
                f = d[2]
                lo = d[3]
                return ("gen", d[1], lambda i: Tup([start + (i - lo), f(i)]), lo, d[4], d[5])
            if v[0] == "zip":
                if all(d[0] == "items" for d in subs):
                    return ("items", [Tup(t) for t in zip(*[d[1] for d in subs])])
                gens = [d for d in subs if d[0] == "gen"]
                if all(d[0] == "gen" for d in subs):
                    lo = gens[0][3]
                    fs = [(d[2], d[3]) for d in subs]
                    return ("gen", gens[0][1], lambda i: Tup([f(i - lo + l) for f, l in fs]), lo, gens[0][4], gens[0][5])
                return ("gen", self.fresh(st, "cnt", "trip"), lambda i: Tup([R("idx", atom("obj", "zip"), i)] * len(subs)),
                        ZERO, None, None)
            d = subs[0]
            if d[0] == "items":
                return ("items", list(reversed(d[1])))
            return d
        if isinstance(v, tuple) and v and v[0] == "filtered":
            # ('filtered', desc, f, cond, cnt)  lazily built generator with a symbolic filter
            return v[1]
        if isinstance(v, Rat):
            a = v.as_atom()
            if a is not None:
                if a in st.lists:
                    return ("items", list(st.lists[a]))
                fr = self.list_front(st, a)
                ln = self.list_len(st, a)
                c = ln.const()
                if c is not None and c <= self.unroll:
                    return ("items", [self.elem_addr_value(st, a, rat(i)) for i in range(int(c))])
                # the index used is the position from the current head
                if a in st.templates and any(k[0] is a and isinstance(k[1], Rat) for k in st.heap):
                    # built from another list and changed since
                    o = self.fresh(st, "call", "element").as_atom()
                    return ("gen", ln, lambda i: R("idx", o, i), ZERO, ln, None)
                return ("gen", ln, lambda i, a=a: ("elem", a, i), ZERO, ln, self.map_source(st, a) or ("list", a))
        if isinstance(v, str):
            return ("items", list(v))
        return ("gen", self.fresh(st, "cnt", "trip"), lambda i: R("idx", atom("obj", f"iter:{v!r}"[:60]), i), ZERO, None, None)

    def map_source(self, st, a):
        """what an unchanged, unfiltered list comprehension ranges over"""
        al = st.alias.get(a)
        if not al or al[0] != "map" or al[1] is None or al[1][0] == "range" and not rat(al[1][1]).is_zero():
            return None
        if al[2] != self.list_len(st, a) or not self.list_front(st, a).is_zero() or any(k[0] is a and isinstance(k[1], Rat) for k in st.heap):
            return None
        return al[1]

    def bind_iter_val(self, v, st):
        if isinstance(v, tuple) and v and v[0] == "elem":
            return self.elem_addr_value(st, v[1], v[2])
        if isinstance(v, Tup):
            return Tup([self.bind_iter_val(x, st) for x in v.items])
        return v

    def x_For(self, s, env, st):
        out = []
        for x, it in self.eval_iter(s.iter, env, st):
            d = self.iter_desc(it, x)
            if d[0] == "items":
                cur = [(env, x)]
                done = []
                for item in d[1]:
                    nxt = []
                    for e, y in cur:
                        for e2, y2 in self.assign(s.target, item, e, y):
                            for e3, y3, o in self.exec_block(s.body, e2, y2):
                                if o is None or o[0] == "continue":
                                    nxt.append((e3, y3, None))
                                elif o[0] == "break":
                                    done.append((e3, y3, None))
                                else:
                                    done.append((e3, y3, o))
                    cur = [(e, y) for e, y, _ in self.merge_states(nxt)]
                    if not cur:
                        break
                for e, y in cur:
                    if s.orelse:
                        out.extend(self.exec_block(s.orelse, e, y))
                    else:
                        out.append((e, y, None))
                out.extend(done)
            else:
                out.extend(self.sym_loop(s, env, x, d))
        return self.merge_states(out)

    def x_While(self, s, env, st):
        if self.loop_probe:
            # the state after exactly that many iterations of an undecided loop (conditions not used)
            cur, done = [(env, st.copy())], []
            for _ in range(self.loop_probe):
                nxt = []
                for e, y in cur:
                    for e3, y3, o in self.exec_block(s.body, e, y):
                        if o is None or o[0] == "continue":
                            nxt.append((e3, y3))
                        elif o[0] == "break":
                            done.append((e3, y3, None))
                        else:
                            done.append((e3, y3, o))
                cur = nxt
            return [(e, y, None) for e, y in cur] + done
        # try a bounded concrete unrolling when the condition stays decided
        cur, done, ok = [(env, st.copy())], [], True
        for _ in range(self.unroll):
            nxt = []
            for e, y in cur:
                br = self.branch(s.test, e, y)
                if len(br) != 1:
                    ok = False
                    break
                y2, b = br[0]
                if not b:
                    done.append((e, y2, None))
                    continue
                for e3, y3, o in self.exec_block(s.body, e, y2):
                    if o is None or o[0] == "continue":
                        nxt.append((e3, y3))
                    elif o[0] == "break":
                        done.append((e3, y3, None))
                    else:
                        done.append((e3, y3, o))
            if not ok:
                break
            cur = nxt
            if not cur:
                break
        else:
            ok = False
        if ok and not cur:
            return self.merge_states(done)
        f = while_as_for(s)
        if f is not None and isinstance(env.get(f.target.id), Rat):
            c0 = env[f.target.id]
            hi = [v for _, v in self.eval(f.iter.args[1], env, st.copy())]
            if len(hi) == 1 and isinstance(hi[0], Rat) and (c0.is_zero() or self.decide_cmp(st.facts, ">=", hi[0] - c0) is True):
                return self.merge_states(self.x_For(f, env, st))
        return self.merge_states(self.sym_loop(s, env, st, None))

    def sym_loop(self, s, env, st, desc):
        self.loop_ctr += 1
        L = self.loop_ctr
        # deterministic identity: position in the source + call chain
        L = (id(s) % 100000, tuple(f.qual for f in self.stack), st.nfresh, self.where(s)[1])
        Lk = R("loop", f"{self.where(s)[2]}:{self.where(s)[1]}", st.nfresh).as_atom()
        st.nfresh += 1
        idx = atom("loopidx", Lk)
        entry = st
        is_for = desc is not None
        mod_h, mod_e = set(), set()
        dropped_once = set()
        elim, tried_elim = {}, False
        for _round in range(11):
            s0 = entry.copy()
            s0.trace = ()
            e0 = dict(env)
            lv = {}
            for k in mod_h:
                s0.lists.pop(k[0], None) if k[1] in ("#len", "#front") else None
                if k in elim:
                    continue
                a = atom("lv", Lk, k)
                lv[k] = a
                s0.heap[k] = rat(a)
            for k, (i0, terms) in elim.items():
                v = i0
                for kk, (ix, c) in terms.items():
                    v = v + (rat(lv[kk]) - ix) * c
                s0.heap[k] = v
            for n in mod_e:
                a = atom("lv", Lk, ("$env", n))
                lv[("$env", n)] = a
                e0[n] = rat(a)
            base_h = dict(s0.heap)
            base_l = dict(s0.lists)
            outcomes = []
            if is_for:
                _, trip, f, lo, hi, src = desc
                self.assume_cmp(s0, ">=", rat(idx) - lo)
                if hi is not None:
                    self.assume_cmp(s0, "<", rat(idx) - hi)
                val = self.bind_iter_val(f(rat(idx)), s0)
                starts = self.assign(s.target, val, e0, s0)
                exits = []
            else:
                starts, exits = [], []
                for y, b in self.branch(s.test, e0, s0):
                    (starts if b else exits).append((e0, y))
            for e1, y in starts:
                for e2, z, o in self.exec_block(s.body, e1, y):
                    if o is not None and o[0] == "raise":
                        continue
                    if self.hooks and hasattr(self.hooks, "iter_end"):
                        self.hooks.iter_end(self, z, s)
                    outcomes.append((e2, z, o))
            # modified locations
            new_h, new_e = set(mod_h), set(mod_e)
            # a location written only because an address was not yet known to move with the loop
            for k in list(mod_h):
                if isinstance(k[1], str) and k[1][:1] != "#" and k not in dropped_once and k[0] is not GH and all(
                        z.heap.get(k) == base_h.get(k) for e2, z, o in outcomes) and _round > 0:
                    if k[0].kind == "idx":
                        new_h.discard(k)
                        dropped_once.add(k)
            fronts = {v for kk, v in lv.items() if kk[1] == "#front"}
            for e2, z, o in outcomes:
                if o is not None and o[0] in ("break", "ret"):
                    continue
                for k, v in z.heap.items():
                    b = base_h.get(k, None)
                    if k in base_h and type(b) is type(v) and b == v:
                        continue
                    if k not in base_h and isinstance(v, Rat) and isinstance(k[1], (str, Rat)):
                        i0 = self.loc_init(entry, k)
                        if isinstance(i0, Rat) and i0 == v:
                            continue
                    if self.moving(k, entry) or self.is_fresh_addr(k[0], entry):
                        continue
                    if fronts and k not in mod_h and self.mentions_any(k, fronts):
                        continue
                    new_h.add(k)
                for a, items in z.lists.items():
                    if self.moving((a,), entry) or self.is_fresh_addr(a, entry):
                        continue
                    if base_l.get(a) != items:
                        if a in entry.lists:
                            new_h.add((a, "#len"))
                            new_h.add((a, "#items"))
                for a in base_l:
                    if a not in z.lists and a in entry.lists:
                        new_h.add((a, "#len"))
                for n, v in e2.items():
                    if n in env and not (type(env[n]) is type(v) and n not in mod_e and v == env[n]):
                        if n in mod_e and isinstance(v, Rat) and v.as_atom() is lv.get(("$env", n)):
                            continue
                        new_e.add(n)
            tn = set(_target_names(s.target)) if is_for else set()
            new_e -= tn
            # concrete lists changed inside become symbolic before the loop
            conv = [k[0] for k in new_h if k[1] in ("#items",) or (k[1] == "#len" and k[0] in entry.lists)]
            for a in conv:
                if a in entry.lists:
                    self.to_symbolic(entry, a)
            new_h = {k for k in new_h if k[1] != "#items"}
            if (new_h | set(elim)) == mod_h and new_e == mod_e and not conv:
                # linear relations between loop-carried quantities, kept by every iteration
                fl = [(e, z) for e, z, o in outcomes if o is None or o[0] == "continue"]
                if elim:
                    ok = True
                    for k, (i0, terms) in elim.items():
                        for e2, z in fl:
                            d = z.heap.get(k)
                            if not isinstance(d, Rat):
                                ok = False
                                break
                            d = d - base_h[k]
                            for kk, (ix, c) in terms.items():
                                x = z.heap.get(kk)
                                d = d - (x - base_h[kk]) * c if isinstance(x, Rat) else None
                                if d is None:
                                    break
                            if d is None or not d.is_zero():
                                ok = False
                                break
                        if not ok:
                            break
                    if ok:
                        break
                    elim = {}
                    continue
                if not tried_elim and fl:
                    tried_elim = True
                    elim = self.linear_relations(entry, mod_h, lv, fl)
                    if elim:
                        continue
                break
            if tried_elim and elim:
                elim = {}
            mod_h, mod_e = new_h | mod_h if tried_elim else new_h, new_e
        else:
            if elim:
                raise Budget("loop relations do not settle")
        falls = [(e, z) for e, z, o in outcomes if o is None or o[0] == "continue"]
        breaks = [(e, z) for e, z, o in outcomes if o is not None and o[0] == "break"]
        rets = [(e, z, o) for e, z, o in outcomes if o is not None and o[0] == "ret"]
        lvatoms = set(lv.values())

        def has_lv(v):
            return self.mentions_any(v, lvatoms)

        # iteration counts
        trip = desc[1] if is_for else None
        complete = is_for       # on the exhausted exit every iteration has fallen through
        cnts = []
        eqfalls = []
        for j, (e, z) in enumerate(falls):
            eqfalls.append(is_for and self.pins_index(z.facts, idx, lvatoms))
        for j in range(len(falls)):
            cnts.append(R("cnt", Lk, j))
        if complete:
            if len(falls) == 1:
                cnts = [trip]
            elif len(falls) == 2 and sum(eqfalls) == 1:
                i1 = eqfalls.index(True)
                cnts[i1] = ONE
                cnts[1 - i1] = trip - ONE
            elif len(falls) >= 2:
                # the counts of all paths sum to the trip count
                rest = trip
                for c in cnts[:-1]:
                    rest = rest - c
                pol = self.filter_counts(falls, idx, lvatoms, desc)
                if pol:
                    cnts = pol
                else:
                    cnts[-1] = rest
        # final values after the loop
        init_h = {k: self.loc_init(entry, k) for k in mod_h}
        init_e = {n: env[n] for n in mod_e}
        after = {}     # lv key -> value after all iterations
        partial = {}   # lv key -> value before the iteration that leaves the loop
        pc = [R("cnt", Lk, "p", j) for j in range(len(falls))]
        if is_for and len(falls) == 1:
            pc = [rat(idx) - desc[3]]
        minidx = {}
        keys = [(k, "h") for k in mod_h if k not in elim] + [(n, "e") for n in mod_e]
        # minimum search
        self.min_found = None
        mins = self.find_min_idiom(falls, keys, lv, idx, lvatoms, desc,
                                   {**init_h, **{("$env", n): v for n, v in init_e.items()}})
        extra_facts = []
        min_bounds = []
        no_find = None
        for k, t in keys:
            kk = k if t == "h" else ("$env", k)
            init = init_h[k] if t == "h" else init_e[k]
            vals = [(z.heap.get(k) if t == "h" else e.get(k)) for e, z in falls]
            la = rat(lv[kk])
            if kk in mins:
                val, ff = mins[kk]
                after[kk] = partial[kk] = val
                extra_facts.extend(ff)
                if ff and isinstance(init, Rat) and isinstance(val, Rat):
                    sg = self.min_found[1]
                    min_bounds.append((sg * (val - init), self.min_found[2]))
                    c0 = (sg * init).const()
                    if c0 is None or c0 < 10 ** 9:
                        # the search need not improve on its starting value
                        no_find = (sg * init, self.min_found[3], self.min_found[4])
                continue
            fin = part = None
            if isinstance(init, Rat) and all(isinstance(v, Rat) for v in vals):
                deltas = [v - la for v in vals]
                if all(not has_lv(d) for d in deltas):
                    if all(not self.mentions(d, idx) for d in deltas):
                        fin, part = init, init
                        for d, c, p in zip(deltas, cnts, pc):
                            fin = fin + d * c
                            part = part + d * p
                    elif is_for:
                        bv = atom("bv", 0)
                        fin = part = init
                        for j, d in enumerate(deltas):
                            if d.is_zero():
                                continue
                            tm = deep_subst(d, {idx: rat(bv)})
                            if len(falls) == 1:
                                fin = fin + R("loopsum", tm, desc[3], desc[4] if desc[4] is not None else trip)
                            else:
                                cf = self.cond_key(falls[j][1].facts, idx, lvatoms, entry)
                                fin = fin + R("loopsum", tm, desc[3], desc[4] if desc[4] is not None else trip, cf)
                            part = part + R("loopsum", tm, desc[3], rat(idx))
                elif len(falls) == 1 and is_for:
                    # multiplicative recurrences
                    try:
                        q = vals[0] / la
                        if not has_lv(q):
                            if not self.mentions(q, idx):
                                fin = init * r_pow(q, trip)
                            else:
                                fin = init * R("loopprod", deep_subst(q, {idx: rat(atom("bv", 0))}), desc[3],
                                               desc[4] if desc[4] is not None else trip)
                            part = R("lphi", Lk, kk, "p")
                    except ZeroDivisionError:
                        pass
            if fin is None:
                # unchanged or always the same loop-invariant value
                ch = [v for v in vals if not (isinstance(v, Rat) and v == la)]
                if not ch:
                    fin = part = init
                else:
                    fin = R("lphi", Lk, kk)
                    part = R("lphi", Lk, kk, "p")
            after[kk] = fin
            partial[kk] = part
        for k, (i0, terms) in elim.items():
            for res in (after, partial):
                v = i0
                for kk, (ix, c) in terms.items():
                    x = res.get(kk)
                    v = v + (x - ix) * c
                res[k] = v
        out = []
        alts = tuple((z.trace, "next") for e, z in falls) + tuple((z.trace, "break") for e, z in breaks) + tuple(
            (z.trace, "ret") for e, z, o in rets)
        has_ev = any(len(t) for t, _ in alts)
        lost = frozenset(x for e, z in falls for x in z.flags if isinstance(x, tuple) and x[0] == "havoc")
        # ---- normal exit
        if is_for or exits or (not is_for):
            s1 = entry.copy()
            s1.flags = s1.flags | lost
            e1 = dict(env)
            mp_after = {lv[kk]: v for kk, v in after.items() if isinstance(v, Rat) and kk in lv}
            for kk, v in after.items():
                if kk[0] == "$env":
                    e1[kk[1]] = v
                else:
                    if kk[1] in ("#len", "#front"):
                        s1.lists.pop(kk[0], None)
                    s1.heap[kk] = v
            # variables first assigned inside the loop
            fresh_names = set()
            for e2, z2 in falls:
                fresh_names |= {n for n in e2 if n not in env}
            for n in fresh_names:
                vs = [(e2.get(n), z2) for e2, z2 in falls if n in e2]
                val = None
                v0 = vs[0][0]
                same = len(vs) == len(falls) and all(_eqv(v, v0) for v, _ in vs)
                if isinstance(v0, Rat) and (has_lv(v0)):
                    v0 = None
                if same and v0 is not None and not (isinstance(v0, Rat) and self.mentions(v0, idx)) and not isinstance(v0, (Tup, Cond)):
                    val = v0
                elif len(vs) == 1 and isinstance(v0, Rat) and is_for:
                    at = self.pinned_at(vs[0][1].facts, idx, lvatoms)
                    if at is not None:
                        val = deep_subst(v0, {idx: at})
                if val is None and isinstance(vs[0][0], Rat):
                    val = R("lphi", Lk, ("$new", n))
                if val is not None:
                    e1[n] = val
            # element-wise writes -> templates (induction variables replaced)
            ind = {}
            if is_for and falls:
                e2, z2 = falls[0]
                if len(falls) == 1:
                    for kk, a in lv.items():
                        init = init_h.get(kk) if kk[0] != "$env" else init_e.get(kk[1])
                        v = z2.heap.get(kk) if kk[0] != "$env" else e2.get(kk[1])
                        if isinstance(init, Rat) and isinstance(v, Rat):
                            d = v - rat(a)
                            if not has_lv(d) and not self.mentions(d, idx):
                                ind[a] = init + d * (rat(idx) - desc[3])
                self.elementwise(s1, falls, base_h, idx, ind, lvatoms, desc, entry, Lk, complete)
            else:
                self.elementwise(s1, falls, base_h, idx, {}, lvatoms, desc, entry, Lk, False)
            if has_ev:
                evs = tuple((tuple(self.subst_ev(x, ind, {}) for x in t), k) for t, k in alts)
                s1.trace = entry.trace + (LoopEv(evs if False else alts, self.where(s), trip, Lk),)
            feasible = True
            none_found = None
            if no_find is not None:
                # the exit on which no element improved on the starting value
                s0, e0x = s1.copy(), dict(e1)
                for kk in mins:
                    init = init_e[kk[1]] if kk[0] == "$env" else init_h[kk]
                    if kk[0] == "$env":
                        e0x[kk[1]] = init
                    else:
                        s0.heap[kk] = init
                s0.facts.minall = s0.facts.minall + (no_find,)
                none_found = (e0x, s0)
            for v, tmpl, src in extra_facts:
                s1.facts.minall = s1.facts.minall + ((v, tmpl, src),)
            for d, strict in min_bounds:
                if not self.assume_cmp(s1, "<" if strict and no_find is not None else "<=", d):
                    feasible = False
            if is_for:
                # facts common to every falling path hold for every element
                common = None
                for e2, z2 in falls:
                    fs = {(k, v) for k, v in z2.facts.t.items() if self.mentions(k[1:], idx) and not has_lv(k[1:])
                          and entry.facts.t.get(k) != v}
                    common = fs if common is None else common & fs
                bv = atom("bv", 0)
                if common:
                    for k, v in common:
                        c = tuple(self.subst_val(x, {idx: rat(bv)}) for x in k)
                        s1.facts.foralls = s1.facts.foralls + ((desc[5], c, v),)
                        if self.hooks and hasattr(self.hooks, "after_forall"):
                            if not self.hooks.after_forall(self, s1, desc[5], c, v):
                                feasible = False
                if falls and self.misses_minimum(s1, falls, idx, desc[5], has_lv):
                    feasible = False
                for k, b in self.common_bounds(falls, entry, idx, has_lv):
                    s1.facts.foralls = s1.facts.foralls + ((desc[5], ("cmp", deep_subst(k, {idx: rat(bv)})) + b, True),)
                if not falls:
                    # every iteration leaves: the exhausted exit needs zero iterations
                    if trip is not None and not self.assume_cmp(s1, "<=", trip):
                        feasible = False
            if none_found is not None and is_for:
                if s.orelse:
                    out.extend(self.exec_block(s.orelse, *none_found))
                else:
                    out.append((none_found[0], none_found[1], None))
            if feasible:
                if is_for:
                    for s1b in self.absorbing_split(s1, falls, cnts, base_h, e0, lv, mp_after, idx, entry, complete):
                        if s.orelse:
                            out.extend(self.exec_block(s.orelse, e1, s1b))
                        else:
                            out.append((e1, s1b, None))
                else:
                    for y, b in self.branch(s.test, e1, s1):
                        if not b:
                            out.append((e1, y, None))
                    if isinstance(s.test, ast.Constant) and s.test.value:
                        pass
        # ---- leaving by break / return
        prior = ()
        if is_for and falls:
            bv = atom("bv", 0)
            for k, b in self.common_bounds(falls, entry, idx, has_lv):
                prior += ((Tup(["prior", desc[3], rat(idx)]), ("cmp", deep_subst(k, {idx: rat(bv)})) + b, True),)
        for group in ([(e, z, None) for e, z in breaks], rets):
            for e, z, o in group:
                mp = {}
                for kk, a in lv.items():
                    v = partial.get(kk)
                    if isinstance(v, Rat):
                        mp[a] = v
                # a loop that leaves at the first match and changes nothing before: no iteration counts needed
                if all(not t for (t, k) in alts if k == "next") and all(
                        isinstance(partial[kk], Rat) and partial[kk] == (
                                init_h.get(kk) if kk[0] != "$env" else init_e.get(kk[1])) for kk in partial):
                    pass
                z2 = self.subst_state(z, mp) if mp else z.copy()
                z2.flags = z2.flags | lost
                e2 = {n: self.subst_val(v, mp) for n, v in e.items()} if mp else dict(e)
                tr = entry.trace
                fall_tr = tuple((t, k) for t, k in alts if k == "next")
                if any(len(t) for t, _ in fall_tr):
                    tr = tr + (LoopEv(fall_tr, self.where(s), None, Lk),)
                z2.trace = tr + z2.trace
                o2 = ("ret", self.subst_val(o[1], mp)) if o is not None else None
                if prior:
                    z2.facts.foralls = z2.facts.foralls + prior
                out.append((e2, z2, o2))
        return out

    def misses_minimum(self, st, falls, idx, src, has_lv):
        """no iteration that goes on can be the one at the minimum of the same collection: the loop cannot run to its end"""
        if src is None:
            return False
        for v, tmpl, s2 in st.facts.minall:
            if s2 != src:
                continue
            ams = []
            contains_atom(v, lambda a: ams.append(a) if a.kind == "argmin" else False)
            for am in ams:
                if deep_subst(tmpl, {atom("bv", 0): rat(am)}) != v:
                    continue
                if all(self.contradicts_at(z, idx, am, has_lv) for e, z in falls):
                    return True
        return False

    def contradicts_at(self, st, idx, am, has_lv):
        for k, (lo, los, hi, his, ex) in st.facts.b.items():
            if not self.mentions(k, idx) or has_lv(k):
                continue
            c = deep_subst(k, {idx: rat(am)}).const()
            if c is not None and (c in ex or lo is not None and (c < lo or los and c == lo) or hi is not None and (c > hi or his and c == hi)):
                return True
        return False

    def common_bounds(self, falls, entry, idx, has_lv):
        """bounds on quantities of one iteration that every path continuing the loop has: [(key, (lo, los, hi, his))]"""
        out = None
        for e2, z2 in falls:
            d = {}
            for k, b in z2.facts.b.items():
                if not self.mentions(k, idx) or has_lv(k) or k == rat(idx) or entry.facts.b.get(k) == b:
                    continue
                if (k - rat(idx)).is_zero() or not self.mentions_deep_only(k, idx):
                    continue
                d[k] = (b[0], b[1], b[2], b[3])
            out = d if out is None else {k: v for k, v in out.items() if d.get(k) == v}
        return sorted((out or {}).items(), key=lambda x: str(x[0]))

    @staticmethod
    def mentions_deep_only(k, idx):
        """the index occurs only inside other quantities (not as the loop bounds themselves)"""
        return all(a is not idx for a in k.atoms())

    def linear_relations(self, entry, mod_h, lv, falls):
        """locations whose change in every iteration is a fixed combination of the changes of others"""
        vecs = {}
        for k in mod_h:
            init = self.loc_init(entry, k)
            if not isinstance(init, Rat) or k[0] is not GH and not (k[0].kind == "obj" and k[1] in REL_BASE) or self.mentions_any(k, set(lv.values())):
                continue
            vec = []
            for e, z in falls:
                v = z.heap.get(k)
                d = v - rat(lv[k]) if isinstance(v, Rat) else None
                c = d.const() if d is not None else None
                if c is None:
                    vec = None
                    break
                vec.append(c)
            if vec is not None and any(vec):
                vecs[k] = (vec, init)
        if len(vecs) < 2:
            return {}

        def rank(k):
            o = ["free_channels", "in_sys", "#len", "arrived", "served", "dropped", "taked"]
            f = k[1] if isinstance(k[1], str) else ""
            return (k[0] is GH, o.index(f) if f in o else len(o), str(k))
        basis = []     # (reduced vector, pivot, combination {key: coef})
        elim = {}
        for k in sorted(vecs, key=rank):
            vec, init = vecs[k]
            red = list(vec)
            comb = {k: Fraction(1)}
            for bv_, p, bc in basis:
                if red[p]:
                    f = red[p] / bv_[p]
                    red = [x - f * y for x, y in zip(red, bv_)]
                    for kk, c in bc.items():
                        comb[kk] = comb.get(kk, 0) - f * c
            if any(red) or k[0] is not GH:
                if not any(red):
                    continue
                p = next(i for i, x in enumerate(red) if x)
                basis.append((red, p, comb))
            else:
                elim[k] = (init, {kk: (vecs[kk][1], -c) for kk, c in comb.items() if kk != k and c})
        return elim

    def absorbing_split(self, s1, falls, cnts, base_h, e0, lv, mp_after, idx, entry, complete):
        """A path that changes nothing keeps its guard true: once taken it is taken to the end.  So either it is
        never taken, or its guard holds when the loop is exhausted."""
        if not complete or len(falls) < 2:
            return [s1]
        j = None
        for i, (e, z) in enumerate(falls):
            if z.trace:
                continue
            if any(k in lv and not _eqv(z.heap.get(k), base_h.get(k)) for k in base_h):
                continue
            if any(not self.mentions(k, idx) and k in base_h and not _eqv(v, base_h[k]) for k, v in z.heap.items()):
                continue
            if any(kk[0] == "$env" and not _eqv(e.get(kk[1]), rat(a)) for kk, a in lv.items()):
                continue
            if any(k not in base_h for k in z.heap):
                continue
            guard = [(k, b) for k, b in z.facts.b.items() if entry.facts.b.get(k) != b and not self.mentions(k, idx)
                     and self.mentions_any(k, set(lv.values()))]
            if any(self.mentions(k, idx) and k.as_atom() is not idx and entry.facts.b.get(k) != b
                   and self.mentions_any(k, set(lv.values())) for k, b in z.facts.b.items()):
                continue
            if any(self.mentions(k[1:], idx) and entry.facts.t.get(k) != v for k, v in z.facts.t.items()):
                continue
            if not guard:
                continue
            j = i
            break
        if j is None:
            return [s1]
        outs = []
        a = s1.copy()
        if self.assume_cmp(a, "==", cnts[j]):
            a = self.pin_zero(a, cnts[j])
            outs.append(a)
        b = s1
        ok = self.assume_cmp(b, ">=", cnts[j] - 1) and all(self.assume_cmp(b, ">=", c) for c in cnts)
        for k, e in guard:
            kk = deep_subst(k, mp_after)
            if ok and e[0] is not None:
                ok = self.assume_cmp(b, ">" if e[1] else ">=", kk - rat(e[0]))
            if ok and e[2] is not None:
                ok = self.assume_cmp(b, "<" if e[3] else "<=", kk - rat(e[2]))
        if ok:
            outs.append(b)
        return outs

    def pin_zero(self, st, expr):
        """rewrite the state with the iteration count in `expr` solved from expr == 0"""
        for a in expr.atoms():
            if a.kind == "cnt":
                c0 = deep_subst(expr, {a: ZERO})
                d = deep_subst(expr, {a: ONE}) - c0
                if d.const():
                    return self.subst_state(st, {a: -c0 / d})
        return st

    def loc_init(self, st, k):
        v = st.heap.get(k, st)
        if v is not st:
            return v
        a, f = k
        if f == "#len":
            return self.list_len(st, a)
        if f == "#front":
            return ZERO
        if a is GH:
            return ZERO
        if isinstance(f, str):
            return self.load(st, a, f)
        # list element location (already shifted by the front offset)
        for (off, tmpl, bv, lo, hi) in reversed(st.templates.get(a, ())):
            if isinstance(f, Rat):
                return self.subst_val(tmpl, {bv: f - off})
        d = st.heap.get((a, "#default"), st)
        if d is not st:
            return d
        return R("idx", a, f)

    def is_fresh_addr(self, a, entry):
        """allocated inside the loop body"""
        if a.kind in ("list", "dict") and a not in entry.lists and (a, "#len") not in entry.heap:
            return not any(k[0] is a for k in entry.heap)
        if a.kind == "obj" and isinstance(a.args[-1], int):
            return not any(k[0] is a for k in entry.heap)
        if a.kind in ("fld", "idx"):
            return self.is_fresh_addr(a.args[0], entry)
        return False

    def moving(self, v, entry):
        """names an element picked by the index of a loop entered after this state"""
        n = entry.nfresh - 1
        return self._contains(v, lambda q: q.kind == "loopidx" and q.args[0].args[1] >= n)

    def _contains(self, v, p):
        if isinstance(v, Rat):
            return contains_atom(v, p)
        if isinstance(v, Atom):
            return contains_atom(rat(v), p)
        if isinstance(v, (tuple, list)):
            return any(self._contains(x, p) for x in v)
        if isinstance(v, Tup):
            return any(self._contains(x, p) for x in v.items)
        if isinstance(v, Cond):
            return any(self._contains(x, p) for x in v.args)
        return False

    def mentions(self, v, a):
        return self.mentions_any(v, {a})

    def mentions_any(self, v, s):
        if not s:
            return False
        p = lambda q: q in s
        if isinstance(v, Rat):
            return contains_atom(v, p)
        if isinstance(v, Atom):
            return contains_atom(rat(v), p)
        if isinstance(v, (tuple, list)):
            return any(self.mentions_any(x, s) for x in v)
        if isinstance(v, Tup):
            return any(self.mentions_any(x, s) for x in v.items)
        if isinstance(v, Cond):
            return any(self.mentions_any(x, s) for x in v.args)
        return False

    def pins_index(self, facts, idx, lvs):
        """the path is taken only by the one iteration with idx == e, e loop invariant"""
        for k, e in facts.b.items():
            if e[0] is not None and e[0] == e[2] and self.mentions(k, idx) and not self.mentions_any(k, lvs):
                # linear in idx with everything else free of idx
                ats = k.atoms()
                if idx in ats and not any(self.mentions(rat(a), idx) for a in ats if a is not idx):
                    return True
        return False

    def pinned_at(self, facts, idx, lvs):
        """the value the facts force on the loop index"""
        for key, e in facts.b.items():
            if e[0] is None or e[0] != e[2] or not alg.p_is_const(key.d):
                continue
            c = key.n.get(((idx.uid, 1),)) if hasattr(idx, "uid") else None
            if c is None:
                for m, cc in key.n.items():
                    if len(m) == 1 and m[0][1] == 1 and alg._ATOM_LIST[m[0][0]] is idx:
                        c = cc
            if c is None:
                continue
            v = rat(idx) - (key - e[0]) / c
            if self.mentions(v, idx) or self.mentions_any(v, lvs):
                continue
            return v
        return None

    def cond_key(self, facts, idx, lvs, entry):
        bv = rat(atom("bv", 0))
        items = []
        for k, v in facts.t.items():
            if self.mentions(k[1:], idx) and entry.facts.t.get(k) != v:
                items.append(repr((k[0], [self.subst_val(x, {idx: bv}) for x in k[1:]], v)))
        for k, e in facts.b.items():
            if self.mentions(k, idx) and entry.facts.b.get(k) != e and k.as_atom() is not idx:
                items.append(repr((deep_subst(k, {idx: bv}), [str(x) for x in e[:4]], sorted(map(str, e[4])))))
        return "&".join(sorted(items))

    def filter_counts(self, falls, idx, lvs, desc):
        """two paths split by one equality over the element: canonical counts of the two sides"""
        if len(falls) != 2 or desc[5] is None:
            return None
        pos = None
        for j, (e, z) in enumerate(falls):
            for k, b in z.facts.b.items():
                if b[0] is not None and b[0] == b[2] and self.mentions(k, idx) and not self.mentions_any(k, lvs):
                    pos = (j, k, b[0])
        if pos is None:
            return None
        j, k, v = pos
        c = R("cntif", self.src_key(desc[5]), deep_subst(k, {idx: rat(atom("bv", 0))}) - rat(v))
        res = [None, None]
        res[j] = c
        res[1 - j] = desc[1] - c
        return res

    def src_key(self, src):
        return src

    def find_min_idiom(self, falls, keys, lv, idx, lvs, desc, inits=None):
        """best/argbest search:  if e(i) < best: best = e(i); where = g(i)"""
        if desc is None or len(falls) < 2:
            return {}
        res = {}
        for j, (e, z) in enumerate(falls):
            for k, t in keys:
                kk = k if t == "h" else ("$env", k)
                la = rat(lv[kk])
                v = z.heap.get(k) if t == "h" else e.get(k)
                if not isinstance(v, Rat) or v == la or not self.mentions(v, idx) or self.mentions_any(v, lvs):
                    continue
                # all other paths leave it unchanged
                if any(not _eqv((z2.heap.get(k) if t == "h" else e2.get(k)), la) for i2, (e2, z2) in enumerate(falls) if i2 != j):
                    continue
                sign = ONE
                if self.decide_cmp(z.facts, "<=", v - la) is not True:
                    sign = -ONE
                    if self.decide_cmp(z.facts, ">=", v - la) is not True:
                        continue
                i0 = (inits or {}).get(kk)
                others_ok = all(self.decide_cmp(z2.facts, ">=", sign * (v - la)) is True or self.decide_cmp(z2.facts, ">", sign * (v - la))
                                or sign == ONE and self.never_less(z2, v, i0)
                                for i2, (e2, z2) in enumerate(falls) if i2 != j)
                strict = self.decide_cmp(z.facts, "<", sign * (v - la)) is True
                src = desc[5]
                # the search starts from the element before the range: that element belongs to the range
                if isinstance(src, tuple) and src[0] == "range" and inits and isinstance(src[1], Rat) \
                        and (src[1] - 1).const() is not None and (src[1] - 1).const() >= 0:
                    prev = {idx: src[1] - 1}

                    def begins(kx, vx):
                        i0 = inits.get(kx)
                        return isinstance(i0, Rat) and isinstance(vx, Rat) and i0 == deep_subst(vx, prev)
                    chg = [(kx, (z.heap.get(kx) if tx == "h" else e.get(kx[1]))) for kx, tx in
                           [((k3 if t3 == "h" else ("$env", k3)), t3) for k3, t3 in keys]]
                    if all(begins(kx, vx) for kx, vx in chg if isinstance(vx, Rat) and vx != rat(lv[kx])):
                        src = ("range", src[1] - 1, src[2])
                desc = desc[:5] + (src,)
                tmpl = sign * deep_subst(v, {idx: rat(atom("bv", 0))})
                am = rat(atom("argmin", self.src_key(desc[5]) if desc[5] is not None else idx, tmpl))
                best = deep_subst(v, {idx: am})
                res[kk] = (best, [(sign * best, tmpl, desc[5])] if others_ok else [])
                self.min_found = (kk, sign, strict, tmpl, desc[5])
                for k2, t2 in keys:
                    kk2 = k2 if t2 == "h" else ("$env", k2)
                    if kk2 == kk:
                        continue
                    v2 = z.heap.get(k2) if t2 == "h" else e.get(k2)
                    la2 = rat(lv[kk2])
                    if any(not _eqv((z3.heap.get(k2) if t2 == "h" else e3.get(k2)), la2) for i3, (e3, z3) in enumerate(falls) if i3 != j):
                        continue
                    if v2 is None or (isinstance(v2, Rat) and (v2 == la2 or self.mentions_any(v2, lvs))):
                        continue
                    res.setdefault(kk2, (self.subst_val(v2, {idx: am}), []))
                return res
        return res

    def never_less(self, st, v, init):
        """is an element that the search skips known to be no better than the starting value"""
        return isinstance(init, Rat) and self.hooks is not None and hasattr(self.hooks, "idle_time") and \
            self.hooks.idle_time(self, st, v, init)

    def elementwise(self, s1, falls, base_h, idx, ind, lvs, desc, entry, Lk, complete):
        """writes to locations named by the loop index"""
        bv = atom("bv", 0)
        single = len(falls) == 1 and complete
        for e2, z2 in falls:
            for k, v in z2.heap.items():
                if not self.moving(k, entry) or (k in base_h and _eqv(base_h[k], v)):
                    continue
                a, f = k
                if single and isinstance(f, Rat) and not self.mentions(a, idx) and isinstance(v, (Rat, Cond)):
                    ff = deep_subst(f, ind)
                    vv = self.subst_val(v, ind)
                    off = ff - rat(idx)
                    if not self.mentions(off, idx) and not self.mentions_any(off, lvs):
                        vv = self.subst_val(vv, {idx: rat(bv)})
                        s1.templates[a] = s1.templates.get(a, ()) + ((off, vv, bv, desc[3], desc[4]),)
                        continue
                # conditional or partial writes: element content unknown afterwards
                if isinstance(f, Rat) and not self.moving(a, entry):
                    if not any(isinstance(t[1], Rat) and t[1].as_atom() is not None and t[1].as_atom().kind == "lphi"
                               for t in s1.templates.get(a, ())):
                        s1.templates[a] = s1.templates.get(a, ()) + (
                            (ZERO, R("lphi", Lk, ("elem", a), rat(bv)), bv, None, None),)
                elif a.kind == "idx" and isinstance(f, str):
                    s1.flags = s1.flags | {("elemfld", a.args[0], f)}
        # drop per-element knowledge of the collections written in the loop
        colls = set()
        for e2, z2 in falls:
            for k, v in z2.heap.items():
                if self.moving(k, entry) and not (k in base_h and _eqv(base_h[k], v)):
                    a = k[0]
                    while a.kind in ("fld", "idx"):
                        if a.kind == "idx" and self.moving(a.args[1], entry):
                            colls.add(a.args[0])
                            break
                        a = a.args[0]
        for c in colls:
            for k in [k for k in s1.heap if k[0].kind == "idx" and k[0].args[0] is c and isinstance(k[1], str)]:
                del s1.heap[k]

    # ------------------------------------------------------------------ expressions
    def eval(self, e, env, st, cond=False):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise Budget("step budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, self.unknown(st, type(e).__name__))]
        try:
            return m(e, env, st)
        except alg.TooBig:
            return [(st, self.unknown(st, "toobig"))]
        except ZeroDivisionError:
            return [(st, self.unknown(st, "zerodiv"))]

    def constval(self, v):
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, complex):
            return rat(v.real) + rat(v.imag) * alg.imag()
        if isinstance(v, (int, float)):
            return rat(v)
        if v is Ellipsis:
            return None
        return R("const", repr(v))

    def e_Constant(self, e, env, st):
        return [(st, self.constval(e.value))]

    def e_JoinedStr(self, e, env, st):
        return [(st, R("str", "f"))]

    def e_Name(self, e, env, st):
        if e.id in env:
            return [(st, env[e.id])]
        mod = self.stack[-1].module if self.stack else None
        r = self.prog.lookup(mod, e.id) if mod else None
        return [(st, self.wrap_global(r, e.id, st))]

    def wrap_global(self, r, name, st):
        if isinstance(r, FuncInfo):
            return Fn("func", r)
        if isinstance(r, ClassInfo):
            return Fn("class", r)
        if isinstance(r, tuple):
            if r[0] == "module":
                return Fn("module", r[1])
            if r[0] == "ext":
                return Fn("ext", r[1])
            if r[0] == "global":
                _, m, n, node = r
                try:
                    v = ast.literal_eval(node)
                    return self.lift(v, st)
                except Exception:
                    a = R("global", m.name, n)
                    return a
        return Fn("builtin", name)

    def lift(self, v, st):
        if isinstance(v, (list,)):
            return self.new_list(st, [self.lift(x, st) for x in v])
        if isinstance(v, tuple):
            return Tup([self.lift(x, st) for x in v])
        if isinstance(v, dict):
            st.nfresh += 1
            a = atom("dict", st.nfresh)
            for k, x in v.items():
                st.heap[(a, self.lift(k, st))] = self.lift(x, st)
            st.heap[(a, "#keys")] = Tup([self.lift(k, st) for k in v])
            return rat(a)
        return self.constval(v)

    def e_Attribute(self, e, env, st):
        out = []
        for x, b in self.eval(e.value, env, st):
            out.extend(self.getattr(x, b, e.attr, e))
        return out

    def getattr(self, st, b, name, node):
        if isinstance(b, Fn):
            if b.kind == "module":
                m = self.prog.modules.get(b.args[0])
                if m is not None:
                    return [(st, self.wrap_global(self.prog.lookup(m, name), name, st))]
                return [(st, self.ext_value(b.args[0] + "." + name))]
            if b.kind == "ext":
                return [(st, self.ext_value(b.args[0] + "." + name))]
            if b.kind == "class":
                c = b.args[0]
                k = (atom("class", c.name), name)
                if k in st.heap:
                    return [(st, st.heap[k])]
                f = c.find(name)
                if f is not None:
                    return [(st, Fn("func", f))]
                if c.class_attr(name):
                    return [(st, R("fld", atom("class", c.name), name))]
                return [(st, R("fld", atom("class", c.name), name))]
            if b.kind == "super":
                cls, after, selfv = b.args
                f = cls.find_after(after, name)
                if f is not None:
                    return [(st, Fn("bound", f, selfv))]
                return [(st, Fn("builtin", "object." + name))]
            return [(st, R("attr", repr(b)[:60], name))]
        if isinstance(b, Rat):
            a = b.as_atom()
            if a is None:
                if name == "real":
                    return [(st, b)]
                if name == "imag":
                    return [(st, R("imagpart", b))]
                return [(st, Fn("lbound", b, name))]
            if (a, name) in st.heap:
                return [(st, st.heap[(a, name)])]
            cls = self.cls_of(a)
            if cls is not None:
                f = cls.find(name)
                if f is not None:
                    if f.is_property:
                        return self.call_function(st, f, [], {}, node, selfval=b)
                    if f.is_static:
                        return [(st, Fn("func", f))]
                    if f.is_classmethod:
                        return [(st, Fn("bound", f, Fn("class", cls)))]
                    return [(st, Fn("bound", f, b))]
            if name == "real" and cls is None:
                return [(st, b)]
            if name in LIST_METHODS and cls is None:
                return [(st, Fn("lbound", b, name))]
            if name in ("shape", "T"):
                return [(st, R("fld", a, name))]
            return [(st, self.load(st, a, name, node))]
        if isinstance(b, (Tup, str)):
            return [(st, Fn("lbound", b, name))]
        return [(st, Fn("lbound", b, name))]

    def ext_value(self, dotted):
        if dotted in ("math.pi", "numpy.pi"):
            return R("pi")
        if dotted in ("math.e", "numpy.e"):
            return rat(alg._E)
        if dotted in ("math.inf", "numpy.inf"):
            return R("inf")
        return Fn("ext", dotted)

    def e_Subscript(self, e, env, st):
        out = []
        for x, b in self.eval(e.value, env, st):
            for y, k in self.eval_index(e.slice, env, x):
                out.extend(self.getitem(y, b, k, e))
        return out

    def eval_index(self, sl, env, st):
        if isinstance(sl, ast.Slice):
            res = [(st, ())]
            for part in (sl.lower, sl.upper, sl.step):
                nxt = []
                for x, acc in res:
                    if part is None:
                        nxt.append((x, acc + (None,)))
                    else:
                        for y, v in self.eval(part, env, x):
                            nxt.append((y, acc + (v,)))
                res = nxt
            return [(x, ("slice",) + acc) for x, acc in res]
        return [(x, v) for x, v in self.eval(sl, env, st)]

    def getitem(self, st, b, k, node):
        if isinstance(k, tuple) and k and k[0] == "slice":
            lo, hi, step = k[1:]
            if isinstance(b, Tup):
                its = b.items
            elif isinstance(b, Rat) and b.as_atom() in st.lists:
                its = st.lists[b.as_atom()]
            else:
                if isinstance(b, Rat):
                    a = b.as_atom()
                    if a is not None and lo is None and hi is None and step is None:
                        return [(st, self.copy_list(st, a))]
                    return [(st, self.slice_list(st, b, k))]
                return [(st, self.unknown(st, "slice"))]
            cs = [None if v is None else (v.const() if isinstance(v, Rat) else "?") for v in (lo, hi, step)]
            if any(c == "?" for c in cs) or any((isinstance(v, Rat) and v.const() is None) for v in (lo, hi, step)):
                return [(st, self.unknown(st, "slice"))]
            sel = its[slice(*[None if c is None else int(c) for c in cs])]
            return [(st, Tup(sel) if isinstance(b, Tup) else self.new_list(st, sel))]
        if isinstance(b, Tup):
            if isinstance(k, Rat) and k.const() is not None and -len(b.items) <= k.const() < len(b.items):
                return [(st, b.items[int(k.const())])]
            r = self.pick_argmin(st, list(b.items), k)
            if r is not None:
                return r
            return [(st, R("unpack", repr(b)[:80], k if isinstance(k, Rat) else str(k)))]
        if isinstance(b, Rat):
            a = b.as_atom()
            if a is None:
                return [(st, R("getitem", b, k if isinstance(k, Rat) else str(k)))]
            if isinstance(k, bool):
                k = rat(int(k))
            if isinstance(k, Cond):
                outs = []
                d = self.decide(st, k)
                for t in ([True, False] if d is None else [d]):
                    y = st.copy()
                    if self.assume(y, k, t):
                        outs.append((y, self.elem_addr_value(y, a, rat(int(t)))))
                return outs
            if a in st.lists and isinstance(k, Rat) and k.const() is None:
                r = self.pick_argmin(st, list(st.lists[a]), k)
                if r is not None:
                    return r
            if a.kind == "dict" and isinstance(k, Rat) and k.const() is None:
                ks = st.heap.get((a, "#keys"))
                if isinstance(ks, Tup) and all(isinstance(x, Rat) and x.const() == i for i, x in enumerate(ks.items)):
                    r = self.pick_argmin(st, [st.heap[(a, x)] for x in ks.items], k)
                    if r is not None:
                        return r
            if isinstance(k, (Rat, str, Tup)):
                return [(st, self.elem_addr_value(st, a, k))]
            return [(st, self.unknown(st, "index"))]
        if isinstance(b, str) and isinstance(k, Rat) and k.const() is not None:
            try:
                return [(st, b[int(k.const())])]
            except IndexError:
                return [(st, self.unknown(st, "stridx"))]
        return [(st, self.unknown(st, "subscript"))]

    def pick_argmin(self, st, items, k):
        """items[np.argmin(times)]: one branch per alternative, each knowing that its time is the minimum"""
        a = k.as_atom() if isinstance(k, Rat) else None
        if a is None or a.kind != "argminlist" or len(a.args[0].items) != len(items):
            return None
        outs = []
        for j in range(len(items)):
            y = st.copy()
            if self.assume_argmin(y, a, j):
                outs.append((y, items[j]))
        return outs

    def assume_argmin(self, st, a, j):
        ts = a.args[0].items
        for k, v in st.facts.t.items():
            if k[0] == "argminis" and isinstance(k[1], Rat) and k[1] == rat(a) and v is False and k[2].const() == j:
                return False
        known = st.facts.t.get(("argmin_is", rat(a)))
        if known is not None and known != j:
            return False
        st.facts.t[("argmin_is", rat(a))] = j
        for i, t in enumerate(ts):
            if i != j and isinstance(t, Rat) and isinstance(ts[j], Rat):
                if not self.assume_cmp(st, "<=", ts[j] - t):
                    return False
        return True

    def copy_list(self, st, a):
        if a in st.lists:
            return self.new_list(st, st.lists[a])
        st.nfresh += 1
        b = atom("list", st.nfresh)
        st.heap[(b, "#len")] = self.list_len(st, a)
        st.heap[(b, "#front")] = ZERO
        bv = atom("bv", 0)
        st.templates[b] = ((ZERO, self.elem_addr_value(st, a, rat(bv)), bv, ZERO, None),)
        for k, v in list(st.heap.items()):
            if k[0] is a and isinstance(k[1], Rat):
                st.heap[(b, k[1] - self.list_front(st, a))] = v
        return rat(b)

    def slice_list(self, st, b, k):
        """list slice with symbolic content"""
        a = b.as_atom()
        if a is None or k[3] is not None:
            return self.unknown(st, "slice")
        lo, hi = k[1], k[2]
        ln = self.list_len(st, a)
        lo = ZERO if lo is None else lo
        hi2 = ln if hi is None else hi
        if not isinstance(lo, Rat) or not isinstance(hi2, Rat):
            return self.unknown(st, "slice")
        c = lo.const()
        if c is not None and c < 0:
            lo = ln + lo
        c = hi2.const()
        if c is not None and c < 0:
            hi2 = ln + hi2
        st.nfresh += 1
        n = atom("list", st.nfresh)
        st.heap[(n, "#len")] = hi2 - lo
        st.heap[(n, "#front")] = ZERO
        bv = atom("bv", 0)
        st.templates[n] = ((ZERO, self.elem_addr_value(st, a, rat(bv) + lo), bv, ZERO, None),)
        return rat(n)

    def e_Tuple(self, e, env, st):
        return [(x, Tup(v)) for x, v in self.eval_list(e.elts, env, st)]

    def e_List(self, e, env, st):
        return [(x, self.new_list(x, v)) for x, v in self.eval_list(e.elts, env, st)]

    e_Set = e_List

    def e_Dict(self, e, env, st):
        keys = [k for k in e.keys]
        if any(k is None for k in keys):
            return [(st, self.unknown(st, "dict"))]
        out = []
        for x, ks in self.eval_list(keys, env, st):
            for y, vs in self.eval_list(e.values, env, x):
                y.nfresh += 1
                a = atom("dict", y.nfresh)
                for k, v in zip(ks, vs):
                    y.heap[(a, k)] = v
                y.heap[(a, "#keys")] = Tup(ks)
                out.append((y, rat(a)))
        return out

    def eval_list(self, elts, env, st):
        res = [(st, [])]
        for el in elts:
            nxt = []
            for x, acc in res:
                if isinstance(el, ast.Starred):
                    for y, v in self.eval(el.value, env, x):
                        nxt.append((y, acc + list(self.spread(v, y))))
                else:
                    for y, v in self.eval(el, env, x):
                        nxt.append((y, acc + [v]))
            res = nxt
        return res

    def spread(self, v, st):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Rat) and v.as_atom() in st.lists:
            return st.lists[v.as_atom()]
        return [("star", v)]

    def e_UnaryOp(self, e, env, st):
        out = []
        for x, v in self.eval(e.operand, env, st):
            if isinstance(e.op, ast.Not):
                d = self.decide(x, v)
                if d is not None:
                    out.append((x, not d))
                else:
                    c = self.truth_cond(x, v)
                    if isinstance(c, bool):
                        out.append((x, not c))
                    elif c.kind == "cmp":
                        out.append((x, Cond("cmp", NEG[c.args[0]], c.args[1])))
                    elif c.kind == "not":
                        out.append((x, c.args[0]))
                    else:
                        out.append((x, Cond("not", c)))
            elif isinstance(e.op, ast.USub):
                out.append((x, -self.num(v)))
            else:
                out.append((x, v))
        return out

    def num(self, v):
        if isinstance(v, Rat):
            return v
        if isinstance(v, bool):
            return rat(int(v))
        if isinstance(v, Cond):
            return R("b2i", v)
        return R("num", repr(v)[:80])

    def is_list(self, st, v):
        if isinstance(v, Rat):
            a = v.as_atom()
            return a is not None and (a in st.lists or (a, "#len") in st.heap or a.kind == "list")
        return False

    def e_BinOp(self, e, env, st):
        out = []
        for x, a in self.eval(e.left, env, st):
            for y, b in self.eval(e.right, env, x):
                out.append((y, self.binop(e.op, a, b, y, e)))
        return out

    def binop(self, op, a, b, st, node):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            return R("str", "op")
        if isinstance(op, ast.Mult):
            for p, q in ((a, b), (b, a)):
                if self.is_list(st, p) and isinstance(q, Rat) and not self.is_list(st, q):
                    la = p.as_atom()
                    c = q.const()
                    if la in st.lists:
                        if c is not None and c.denominator == 1 and len(st.lists[la]) * max(int(c), 0) <= 256:
                            return self.new_list(st, list(st.lists[la]) * max(0, int(c)))
                        if len(st.lists[la]) == 1:
                            return self.new_sym_list(st, q, st.lists[la][0], True)
                        if len(st.lists[la]) == 0:
                            return self.new_list(st, [])
                    return self.new_sym_list(st, self.list_len(st, la) * q)
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if self.is_list(st, a) and self.is_list(st, b):
                x, y = a.as_atom(), b.as_atom()
                if x in st.lists and y in st.lists:
                    return self.new_list(st, st.lists[x] + st.lists[y])
                return self.new_sym_list(st, self.list_len(st, x) + self.list_len(st, y))
        a, b = self.num(a), self.num(b)
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                return a / b
            if isinstance(op, ast.Pow):
                return r_pow(a, b)
        except ZeroDivisionError:
            return self.unknown(st, "zerodiv")
        except alg.TooBig:
            return self.unknown(st, "toobig")
        if isinstance(op, ast.Mod):
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                return rat(ca % cb)
        if isinstance(op, ast.FloorDiv):
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                return rat(ca // cb)
        return R("op" + type(op).__name__, a, b)

    def e_BoolOp(self, e, env, st):
        is_and = isinstance(e.op, ast.And)
        cur = [(st, None)]
        done = []
        for i, v in enumerate(e.values):
            nxt = []
            for x, _ in cur:
                for y, val in self.eval(v, env, x):
                    if i == len(e.values) - 1:
                        done.append((y, val))
                        continue
                    d = self.decide(y, val)
                    if d is not None:
                        if d == is_and:
                            nxt.append((y, None))
                        else:
                            done.append((y, val))
                        continue
                    z = y.copy()
                    if self.assume(y, val, is_and):
                        nxt.append((y, None))
                    if self.assume(z, val, not is_and):
                        # the value is the deciding operand; as a condition it is known
                        done.append((z, (not is_and) if isinstance(val, Cond) else val))
            cur = nxt
        return done

    def e_IfExp(self, e, env, st):
        out = []
        for x, b in self.branch(e.test, env, st):
            out.extend(self.eval(e.body if b else e.orelse, env, x))
        return out

    def e_NamedExpr(self, e, env, st):
        out = []
        for x, v in self.eval(e.value, env, st):
            env[e.target.id] = v
            out.append((x, v))
        return out

    def e_Compare(self, e, env, st):
        cur = [(st, None, None)]
        out = []
        for x, left in self.eval(e.left, env, st):
            out.extend(self._cmp_chain(left, list(zip(e.ops, e.comparators)), env, x))
        return out

    def _cmp_chain(self, left, rest, env, st):
        op, right_e = rest[0]
        out = []
        for y, right in self.eval(right_e, env, st):
            c = self.compare_vals(op, left, right, y)
            if len(rest) == 1:
                out.append((y, c))
                continue
            d = self.decide(y, c)
            if d is False:
                out.append((y, False))
                continue
            if d is True:
                out.extend(self._cmp_chain(right, rest[1:], env, y))
                continue
            z = y.copy()
            if self.assume(y, c, True):
                out.extend(self._cmp_chain(right, rest[1:], env, y))
            if self.assume(z, c, False):
                out.append((z, False))
        return out

    FLIP = {"Lt": ast.Gt, "Gt": ast.Lt, "LtE": ast.GtE, "GtE": ast.LtE, "Eq": ast.Eq, "NotEq": ast.NotEq}

    def compare_vals(self, op, a, b, st):
        on = type(op).__name__
        if on in self.FLIP and isinstance(a, Rat) and isinstance(b, Rat) and a.const() is not None and b.const() is None:
            a, b, op = b, a, self.FLIP[on]()
            on = type(op).__name__
        if on in ("Is", "IsNot", "Eq", "NotEq"):
            neg = on in ("IsNot", "NotEq")
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    return not neg
                if isinstance(o, Rat) and o.const() is None:
                    c = Cond("isnone", o)
                    d = self.decide(st, c)
                    if d is not None:
                        return d != neg
                    return Cond("not", c) if neg else c
                return neg
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, str) and isinstance(b, str):
                    return (a == b) != neg
                o, s = (a, b) if isinstance(b, str) else (b, a)
                if isinstance(o, Rat) and o.const() is None:
                    # another constant already established?
                    for k, v in st.facts.t.items():
                        if k[0] == "eqs" and k[1] == o and v is True:
                            return (k[2] == s) != neg
                    c = Cond("eqs", o, s)
                    return Cond("not", c) if neg else c
                return neg
            if isinstance(a, bool) or isinstance(b, bool):
                o, t = (a, b) if isinstance(b, bool) else (b, a)
                if isinstance(o, bool):
                    return (o == t) != neg
                c = self.truth_cond(st, o) if isinstance(o, (Rat, Cond)) else o
                if isinstance(c, bool):
                    return (c == t) != neg
                if isinstance(c, Cond):
                    return c if (t != neg) else Cond("not", c)
        if on in ("In", "NotIn"):
            items = None
            if isinstance(b, Tup):
                items = b.items
            elif isinstance(b, Rat) and b.as_atom() in st.lists:
                items = st.lists[b.as_atom()]
            if isinstance(a, str) and items is not None and all(isinstance(x, str) for x in items):
                return (a in items) != (on == "NotIn")
            if items is not None and isinstance(a, Rat) and a.const() is not None and all(isinstance(x, Rat) and x.const() is not None for x in items):
                return any(x.const() == a.const() for x in items) != (on == "NotIn")
            if items is not None and len(items) and isinstance(a, Rat) and a.const() is None:
                # settled by an earlier test?
                for x in items:
                    if isinstance(x, str) and st.facts.t.get(("eqs", a, x)) is True:
                        return on == "In"
                for k, v in st.facts.t.items():
                    if k[0] == "eqs" and k[1] == a and v is True and k[2] not in items:
                        return on == "NotIn"
                c = Cond("inset", a, Tup(items))
                d = self.inset_decide(st, a, items)
                if d is not None:
                    return d != (on == "NotIn")
                return Cond("not", c) if on == "NotIn" else c
            c = Cond("in", a if isinstance(a, Rat) else repr(a), b if isinstance(b, Rat) else repr(b))
            return Cond("not", c) if on == "NotIn" else c
        if isinstance(a, Tup) and isinstance(b, Tup) and on in ("Eq", "NotEq"):
            if a == b:
                return on == "Eq"
        aa = a.as_atom() if isinstance(a, Rat) else None
        if aa is not None and aa.kind == "argminlist" and isinstance(b, Rat) and b.const() is not None and on in ("Eq", "NotEq"):
            j = int(b.const())
            n = len(aa.args[0].items)
            known = st.facts.t.get(("argmin_is", a))
            if known is not None:
                return (known == j) != (on == "NotEq")
            c = Cond("argminis", a, b)
            return c if on == "Eq" else Cond("not", c)
        opn = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "==", "IsNot": "!="}.get(on)
        if opn is None:
            return Cond("op" + on, self.num(a), self.num(b))
        ra, rb = self.num(a), self.num(b)
        try:
            diff = ra - rb
        except (ZeroDivisionError, alg.TooBig):
            return Cond("bool", self.unknown(st, "cmp"))
        d = self.decide_cmp(st.facts, opn, diff)
        if d is not None:
            return d
        return Cond("cmp", opn, diff)

    def inset_decide(self, st, a, items):
        if all(isinstance(x, str) and st.facts.t.get(("eqs", a, x)) is False for x in items):
            return False
        return None

    def e_Lambda(self, e, env, st):
        return [(st, Fn("lambda", e, env, self.stack[-1] if self.stack else None))]

    # comprehensions ---------------------------------------------------------
    def e_ListComp(self, e, env, st):
        return self.comp(e, e.generators, env, st, as_list=True)

    def e_GeneratorExp(self, e, env, st):
        return self.comp(e, e.generators, env, st, as_list=True)

    e_SetComp = e_ListComp

    def e_DictComp(self, e, env, st):
        return [(st, self.unknown(st, "dictcomp"))]

    def comp(self, e, gens, env, st, as_list):
        if len(gens) != 1:
            r = self.comp_nested(e, gens, env, st)
            return r
        g = gens[0]
        out = []
        for x, it in self.eval_iter(g.iter, env, st):
            d = self.iter_desc(it, x)
            if d[0] == "items":
                cur = [(x, [])]
                for item in d[1]:
                    nxt = []
                    for y, acc in cur:
                        for e2, y2 in self.assign(g.target, item, env, y):
                            keep = [(y2, True)]
                            for c in g.ifs:
                                k2 = []
                                for z, ok in keep:
                                    if not ok:
                                        k2.append((z, False))
                                    else:
                                        k2.extend(self.branch(c, e2, z))
                                keep = k2
                            for z, ok in keep:
                                if ok:
                                    for w, v in self.eval(e.elt, e2, z):
                                        nxt.append((w, acc + [v]))
                                else:
                                    nxt.append((z, acc))
                    cur = nxt
                for y, acc in cur:
                    out.append((y, self.new_list(y, acc)))
            else:
                out.extend(self.comp_sym(e, g, env, x, d))
        return out

    def comp_nested(self, e, gens, env, st):
        # concrete unrolling only
        def rec(i, env, st):
            if i == len(gens):
                return [(y, [v]) for y, v in self.eval(e.elt, env, st)]
            g = gens[i]
            res = []
            for x, it in self.eval_iter(g.iter, env, st):
                d = self.iter_desc(it, x)
                if d[0] != "items":
                    return None
                cur = [(x, [])]
                for item in d[1]:
                    nxt = []
                    for y, acc in cur:
                        for e2, y2 in self.assign(g.target, item, env, y):
                            if g.ifs:
                                return None
                            r = rec(i + 1, e2, y2)
                            if r is None:
                                return None
                            nxt.extend((z, acc + vs) for z, vs in r)
                    cur = nxt
                res.extend(cur)
            return res
        r = rec(0, env, st)
        if r is None:
            return [(st, self.new_sym_list(st, self.fresh(st, "lenf", "nest")))]
        return [(x, self.new_list(x, vs)) for x, vs in r]

    def comp_sym(self, e, g, env, st, d):
        """list built from a collection of unknown size"""
        _, trip, f, lo, hi, src = d
        Lk = R("loop", f"{self.where(e)[2]}:{self.where(e)[1]}", st.nfresh).as_atom()
        st.nfresh += 1
        idx = atom("loopidx", Lk)
        bv = atom("bv", 0)
        probe = st.copy()
        probe.trace = ()
        self.assume_cmp(probe, ">=", rat(idx) - lo)
        if hi is not None:
            self.assume_cmp(probe, "<", rat(idx) - hi)
        val = self.bind_iter_val(f(rat(idx)), probe)
        (e2, p2), = self.assign(g.target, val, env, probe)
        keep = [(p2, True)]
        for c in g.ifs:
            k2 = []
            for z, ok in keep:
                if ok:
                    k2.extend(self.branch(c, e2, z))
                else:
                    k2.append((z, False))
            keep = k2
        kept = [z for z, ok in keep if ok]
        drop = [z for z, ok in keep if not ok]
        if len(kept) != 1:
            st.nfresh = max([st.nfresh] + [z.nfresh for z in kept])
            return [(st, self.new_sym_list(st, self.fresh(st, "lenf", "comp")))]
        vals = self.eval(e.elt, e2, kept[0])
        z, v = vals[0]
        st.nfresh = max(st.nfresh, z.nfresh)
        st.flags = st.flags | frozenset(x for x in z.flags if isinstance(x, tuple) and x[0] == "havoc")
        # heap effects of the element expression (allocation of objects etc.) carry over
        for k, x in z.heap.items():
            if k not in st.heap and (self.is_fresh_addr(k[0], st)):
                st.heap[k] = x
        if z.trace:
            st.trace = st.trace + (LoopEv(((z.trace, "next"),), self.where(e), trip, Lk),)
        st.nfresh += 1
        a = atom("list", st.nfresh)
        st.heap[(a, "#front")] = ZERO
        if not g.ifs:
            st.heap[(a, "#len")] = trip
            if len(vals) == 1:
                tv = self.subst_val(v, {idx: rat(bv)})
                st.templates[a] = ((-lo, tv, bv, ZERO, None),)
            st.alias[a] = ("map", src, trip)
            st.heap[(a, "#elem")] = self.subst_val(v, {idx: rat(bv)})
        else:
            cnt = None
            if self.pins_index(kept[0].facts, idx, set()):
                cnt = ONE
            elif drop and len(drop) == 1 and self.pins_index(drop[0].facts, idx, set()):
                cnt = trip - ONE
            else:
                fc = self.filter_counts([({}, kept[0])] + [({}, z2) for z2 in drop], idx, set(), d) if len(drop) == 1 else None
                if fc:
                    cnt = fc[0]
                else:
                    cnt = R("cntif", src if src is not None else Lk, self.cond_key(kept[0].facts, idx, set(), st))
            st.heap[(a, "#len")] = cnt
            st.heap[(a, "#elem")] = self.subst_val(v, {idx: rat(bv)})
            # facts of a kept element, to be re-established when one is taken
            kf = kept[0].facts
            fcts = [Tup(["t", k, tv]) for k, tv in kf.t.items() if self.mentions(k[1:], idx)]
            fcts += [Tup(["b", k, tuple(b[:4]) + (tuple(b[4]),)]) for k, b in kf.b.items() if self.mentions(k, idx) and self.mentions_deep_only(k, idx)
                     and st.facts.b.get(k) != b]
            st.heap[(a, "#filter")] = Tup([rat(idx), R("selidx", Lk, rat(bv)), Tup(fcts)])
            st.alias[a] = ("filter", src)
            sel = atom("sel", Lk)
            st.templates[a] = ((ZERO, self.subst_val(v, {idx: R("selidx", Lk, rat(bv))}), bv, ZERO, None),)
        return [(st, rat(a))]

    def eval_iter(self, e, env, st):
        """evaluate an iterable; ranges and friends get a symbolic descriptor"""
        if isinstance(e, ast.Call):
            fn = None
            if isinstance(e.func, ast.Name):
                fn = e.func.id
            if fn == "tqdm" and e.args:
                return self.eval_iter(e.args[0], env, st)
            if fn in ("list", "tuple", "iter", "sorted") and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Call) \
                    and isinstance(e.args[0].func, ast.Name) and e.args[0].func.id in ("range", "enumerate", "zip"):
                return self.eval_iter(e.args[0], env, st)
            if fn == "range" and fn not in env:
                res = []
                for x, vs in self.eval_list(e.args, env, st):
                    vs = [self.num(v) for v in vs]
                    if len(vs) == 1:
                        vs = [ZERO, vs[0], ONE]
                    elif len(vs) == 2:
                        vs = vs + [ONE]
                    res.append((x, ("range",) + tuple(vs[:3])))
                return res
            if fn == "enumerate" and fn not in env:
                res = []
                for x, it in self.eval_iter(e.args[0], env, st):
                    start = ZERO
                    extra = e.args[1:] + [k.value for k in e.keywords if k.arg == "start"]
                    if extra:
                        start = self.num(self.eval(extra[0], env, x)[0][1])
                    res.append((x, ("enumerate", it, start)))
                return res
            if fn == "reversed" and e.args:
                return [(x, ("reversed", it)) for x, it in self.eval_iter(e.args[0], env, st)]
            if fn == "zip" and fn not in env:
                res = [(st, [])]
                for a in e.args:
                    nxt = []
                    for x, acc in res:
                        for y, it in self.eval_iter(a, env, x):
                            nxt.append((y, acc + [it]))
                    res = nxt
                return [(x, ("zip", acc)) for x, acc in res]
        return self.eval(e, env, st)

    # calls -------------------------------------------------------------------
    def e_Call(self, e, env, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env:
            fi = self.stack[-1]
            cls = fi.cls
            a = fi.node.args.args
            selfv = env.get(a[0].arg) if a else None
            dyn = cls
            if isinstance(selfv, Rat) and selfv.as_atom() is not None:
                dyn = self.cls_of(selfv.as_atom()) or cls
            return [(st, Fn("super", dyn, cls, selfv))]
        if isinstance(e.func, ast.Name) and e.func.id in ("range", "enumerate", "zip", "reversed") and e.func.id not in env:
            res = []
            for x, it in self.eval_iter(e, env, st):
                d = self.iter_desc(it, x)
                if d[0] == "items":
                    res.append((x, self.new_list(x, d[1])))
                else:
                    x.nfresh += 1
                    a = atom("list", x.nfresh)
                    x.heap[(a, "#len")] = d[1]
                    x.heap[(a, "#front")] = ZERO
                    bv = atom("bv", 0)
                    tv = self.bind_iter_val(d[2](rat(bv)), x)
                    x.templates[a] = ((-d[3], tv, bv, ZERO, None),)
                    x.heap[(a, "#elem")] = tv
                    res.append((x, rat(a)))
            return res
        # short-circuiting consumers of generators
        if isinstance(e.func, ast.Name) and e.func.id in ("next", "any", "all", "min", "max", "sum") and e.func.id not in env:
            r = self.gen_consumer(e, env, st)
            if r is not None:
                return r
        out = []
        for x, f in self.eval(e.func, env, st):
            for y, args in self.eval_list(e.args, env, x):
                kws = [(y, {})]
                for k in e.keywords:
                    nxt = []
                    for z, kw in kws:
                        for w, v in self.eval(k.value, env, z):
                            kw2 = dict(kw)
                            if k.arg is None:
                                kw2["**"] = v
                            else:
                                kw2[k.arg] = v
                            nxt.append((w, kw2))
                    kws = nxt
                for z, kw in kws:
                    if "**" in kw:
                        kw.pop("**")
                    out.extend(self.call(z, f, args, kw, e))
        return out

    def gen_consumer(self, e, env, st):
        name = e.func.id
        if name == "next" and e.args and isinstance(e.args[0], ast.GeneratorExp):
            g = e.args[0]
            if len(g.generators) != 1:
                return None
            # for t in it: if cond: break  else: default
            tmp = "$next"
            body = [ast.If(test=c, body=[], orelse=[]) for c in g.generators[0].ifs]
            inner = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=g.elt, lineno=e.lineno), ast.Break()]
            for c in reversed(g.generators[0].ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            orelse = []
            if len(e.args) > 1:
                orelse = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=e.args[1], lineno=e.lineno)]
            else:
                orelse = [ast.Raise(exc=None, cause=None)]
            loop = ast.For(target=g.generators[0].target, iter=g.generators[0].iter, body=inner, orelse=orelse,
                           lineno=e.lineno)
            ast.fix_missing_locations(ast.copy_location(loop, e))
            out = []
            for e2, x, o in self.exec(loop, env, st):
                if o is not None and o[0] == "raise":
                    continue
                out.append((x, e2.get(tmp)))
            return out
        if name in ("min", "max") and len(e.args) == 1:
            key = [k.value for k in e.keywords if k.arg == "key"]
            out = []
            arg = e.args[0]
            for x, it in self.eval_iter(arg, env, st) if not isinstance(arg, ast.GeneratorExp) else self.comp(arg, arg.generators, env, st, True):
                d = self.iter_desc(it, x)
                if d[0] == "items":
                    return None if key else self._minmax_items(name, d[1], x)
                _, trip, f, lo, hi, src = d
                bvr = rat(atom("bv", 0))
                val = self.bind_iter_val(f(bvr), x)
                kv = val
                if key:
                    fv = self.eval(key[0], env, x)[0][1]
                    r = self.call(x, fv, [val], {}, e)
                    if len(r) != 1:
                        return None
                    x, kv = r[0]
                if not isinstance(kv, Rat):
                    return None
                am = R("arg" + name, src if src is not None else repr(it)[:40], kv)
                mp = {atom("bv", 0): am}
                best = deep_subst(kv, mp)
                if name == "min":
                    dflt = [k.value for k in e.keywords if k.arg == "default"]
                    if dflt:
                        y = x.copy()
                        if self.assume_cmp(y, "<=", trip):
                            out.append((y, self.eval(dflt[0], env, y)[0][1]))
                        if not self.assume_cmp(x, ">=", trip - ONE):
                            continue
                    x.facts.minall = x.facts.minall + ((best, kv, src),)
                out.append((x, self.subst_val(val, mp)))
            return out
        if name in ("any", "all"):
            arg = e.args[0]
            if isinstance(arg, ast.GeneratorExp) and len(arg.generators) == 1:
                tmp = "$any"
                c = arg.elt
                test = c if name == "any" else ast.UnaryOp(op=ast.Not(), operand=c)
                inner = [ast.If(test=test, body=[ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                                                          value=ast.Constant(value=(name == "any"))), ast.Break()], orelse=[])]
                for cc in reversed(arg.generators[0].ifs):
                    inner = [ast.If(test=cc, body=inner, orelse=[])]
                loop = ast.For(target=arg.generators[0].target, iter=arg.generators[0].iter, body=inner,
                               orelse=[ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                                                  value=ast.Constant(value=(name != "any")))])
                ast.fix_missing_locations(ast.copy_location(loop, e))
                return [(x, e2.get(tmp)) for e2, x, o in self.exec(loop, env, st)]
            return None
        if name == "sum" and len(e.args) >= 1:
            arg = e.args[0]
            if isinstance(arg, ast.GeneratorExp) and len(arg.generators) == 1:
                tmp = "$sum"
                body = [ast.AugAssign(target=ast.Name(id=tmp, ctx=ast.Store()), op=ast.Add(), value=arg.elt)]
                for cc in reversed(arg.generators[0].ifs):
                    body = [ast.If(test=cc, body=body, orelse=[])]
                loop = ast.For(target=arg.generators[0].target, iter=arg.generators[0].iter, body=body, orelse=[])
                ast.fix_missing_locations(ast.copy_location(loop, e))
                e0 = dict(env)
                e0[tmp] = ZERO if len(e.args) == 1 else self.num(self.eval(e.args[1], env, st)[0][1])
                return [(x, e2.get(tmp)) for e2, x, o in self.exec(loop, e0, st)]
            return None
        return None

    def _minmax_items(self, name, items, st):
        if all(isinstance(v, Rat) for v in items) and items:
            if all(v.const() is not None for v in items):
                return [(st, rat((min if name == "min" else max)(v.const() for v in items)))]
            if len(items) == 1:
                return [(st, items[0])]
            # one branch per alternative
            outs = []
            for j, v in enumerate(items):
                y = st.copy()
                ok = True
                for i, w in enumerate(items):
                    if i != j:
                        op = "<=" if name == "min" else ">="
                        if not self.assume_cmp(y, op, v - w):
                            ok = False
                            break
                if ok:
                    outs.append((y, v))
            return outs
        return [(st, self.unknown(st, name))]

    def call(self, st, f, args, kwargs, node):
        if any(isinstance(a, tuple) and a and a[0] == "star" for a in args):
            na = []
            for a in args:
                if isinstance(a, tuple) and a and a[0] == "star":
                    v = a[1]
                    ad = v.as_atom() if isinstance(v, Rat) else None
                    # spread an opaque sequence over the remaining positional parameters
                    fi = f.args[0] if isinstance(f, Fn) and f.kind in ("func", "bound") else None
                    if fi is not None and ad is not None:
                        n = len(fi.node.args.args) - len(fi.node.args.defaults) - len(na) - (1 if f.kind == "bound" else 0)
                        for i in range(max(n, 0)):
                            na.append(self.elem_addr_value(st, ad, rat(i)))
                    else:
                        na.append(v if isinstance(v, Rat) else None)
                else:
                    na.append(a)
            args = na
        if isinstance(f, Fn):
            k = f.kind
            if k == "func":
                fi = f.args[0]
                return self.invoke(st, fi, args, kwargs, node, None)
            if k == "bound":
                return self.invoke(st, f.args[0], args, kwargs, node, f.args[1])
            if k == "closure":
                fi, cenv = f.args
                return self.call_closure(st, fi, cenv, args, kwargs, node)
            if k == "lambda":
                lam, cenv, ctx = f.args
                env = dict(cenv)
                names = [a.arg for a in lam.args.args]
                for n, v in zip(names, args):
                    env[n] = v
                env.update(kwargs)
                return self.eval(lam.body, env, st)
            if k == "class":
                return self.construct(st, f.args[0], args, kwargs, node)
            if k == "lambda_partial":
                return self.call(st, f.args[0], list(f.args[1]) + list(args), kwargs, node)
            if k == "lbound":
                return self.method_call(st, f.args[0], f.args[1], args, kwargs, node)
            if k == "builtin":
                return self.builtin(st, f.args[0], args, kwargs, node)
            if k == "ext":
                return self.external(st, f.args[0], args, kwargs, node)
            st.flags = st.flags | {("havoc", "call")}
            return [(st, self.unknown(st, "call"))]
        if isinstance(f, Rat):
            a = f.as_atom()
            if a is not None and a.kind == "fld":
                return self.method_call(st, rat(a.args[0]), a.args[1], args, kwargs, node)
        st.flags = st.flags | {("havoc", "call")}
        return [(st, self.unknown(st, "call"))]

    def call_closure(self, st, fi, cenv, args, kwargs, node):
        a = fi.node.args
        env = dict(cenv)
        names = [x.arg for x in a.args]
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env[n] = self.eval(d, cenv, st)[0][1]
        for n, v in zip(names, args):
            env[n] = v
        env.update(kwargs)
        self.stack.append(fi)
        try:
            outs = self.exec_block(fi.node.body, env, st)
        finally:
            self.stack.pop()
        res = []
        for e2, x, o in outs:
            if o is None:
                res.append((x, None))
            elif o[0] == "ret":
                res.append((x, o[1]))
            else:
                x.flags = x.flags | {"raise"}
                res.append((x, None))
        return self.merge_vals(res)

    def invoke(self, st, fi, args, kwargs, node, selfval):
        if self.hooks and hasattr(self.hooks, "on_call"):
            r = self.hooks.on_call(self, st, fi, args, kwargs, node, selfval)
            if r is not None:
                return r
        if fi.name in self.opaque or fi.qual in self.opaque:
            return [(st, R("ret", fi.qual, *[self.argkey(a) for a in args],
                           *[(k, self.argkey(v)) for k, v in sorted(kwargs.items())]))]
        return self.call_function(st, fi, args, kwargs, node, selfval)

    @staticmethod
    def argkey(a):
        return a if isinstance(a, Rat) else repr(a)

    def construct(self, st, cls, args, kwargs, node):
        st.nfresh += 1
        a = atom("obj", cls.name, st.nfresh)
        self.objcls[a] = cls
        init = cls.find("__init__")
        if init is None:
            # dataclass-like
            names = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for n, v in zip(names, args):
                st.heap[(a, n)] = v
            for n, v in kwargs.items():
                st.heap[(a, n)] = v
            return [(st, rat(a))]
        return [(x, rat(a)) for x, _ in self.call_function(st, init, args, kwargs, node, selfval=rat(a))]

    # builtin list / dict / object methods --------------------------------------
    def method_call(self, st, recv, name, args, kwargs, node):
        if name == "__contains__" and len(args) == 1 and not kwargs:
            return [(st, self.compare_vals(ast.In(), args[0], recv, st))]
        if isinstance(recv, Rat):
            a = recv.as_atom()
            if a is not None:
                if name in ("append", "appendleft", "insert", "pop", "popleft", "remove", "extend", "clear", "copy",
                            "sort", "reverse", "index", "count", "get", "items", "keys", "values", "tolist", "sum"):
                    r = self.list_method(st, a, name, args, kwargs, node)
                    if r is not None:
                        return r
                if name == "generate":
                    st.nfresh += 1
                    v = R("sample", a, st.nfresh)
                    self.event(st, "sample", (rat(a), v), node)
                    return [(st, v)]
                if name in ("random", "uniform", "exponential", "gamma", "normal", "rand", "integers", "choice", "pareto"):
                    st.nfresh += 1
                    v = R("rnd", name, a, *[self.argkey(x) for x in args], st.nfresh)
                    self.event(st, "rnd", (rat(a), name), node)
                    return [(st, v)]
                if name == "__str__":
                    return [(st, R("str", "s"))]
                if name in ("format", "join", "update", "set_description", "write"):
                    return [(st, R("str", "f"))]
        if isinstance(recv, str):
            return [(st, R("str", "f"))]
        if name == "real":
            return [(st, recv)]
        if name not in PURE_METHODS:
            st.flags = st.flags | {("havoc", name)}
        return [(st, self.fresh(st, "call", name, *[self.argkey(recv)]))]

    def list_method(self, st, a, name, args, kwargs, node):
        conc = a in st.lists
        H = self.hooks if self.hooks and hasattr(self.hooks, "list_op") else None
        if name == "append" and len(args) == 1:
            if H:
                H.list_op(self, st, a, "append", self.list_len(st, a), args[0], node)
            if conc:
                st.lists[a] = st.lists[a] + (args[0],)
            else:
                ln = self.list_len(st, a)
                st.heap[(a, ln + self.list_front(st, a))] = args[0]
                st.heap[(a, "#len")] = ln + 1
            return [(st, None)]
        if name in ("appendleft",) or (name == "insert" and args and isinstance(args[0], Rat) and args[0].const() is not None):
            v = args[-1]
            pos = ZERO if name == "appendleft" else args[0]
            if H:
                H.list_op(self, st, a, "insert", pos, v, node)
            if conc:
                l = list(st.lists[a])
                l.insert(int(pos.const()), v)
                st.lists[a] = tuple(l)
            else:
                fr = self.list_front(st, a)
                if pos.is_zero():
                    st.heap[(a, "#front")] = fr - 1
                    st.heap[(a, fr - 1)] = v
                st.heap[(a, "#len")] = self.list_len(st, a) + 1
            return [(st, None)]
        if name == "insert":
            if H:
                H.list_op(self, st, a, "insert", args[0] if args else None, args[-1] if args else None, node)
            self.to_symbolic(st, a)
            st.heap[(a, "#len")] = self.list_len(st, a) + 1
            return [(st, None)]
        if name == "extend":
            v = args[0]
            if conc and isinstance(v, Rat) and v.as_atom() in st.lists:
                st.lists[a] = st.lists[a] + st.lists[v.as_atom()]
                return [(st, None)]
            if isinstance(v, Rat) and v.as_atom() is not None:
                ln2 = self.list_len(st, v.as_atom())
                if H:
                    H.list_op(self, st, a, "extend", ln2, v, node)
                self.to_symbolic(st, a)
                st.heap[(a, "#len")] = self.list_len(st, a) + ln2
            else:
                self.havoc_list(st, a)
            return [(st, None)]
        if name in ("pop", "popleft"):
            if kwargs:
                return None
            ti = self.typeinfo(a)
            if name == "popleft":
                pos = ZERO
            elif args:
                if len(args) > 1 or isinstance(args[0], str):
                    return None
                pos = args[0]
            else:
                pos = rat(-1)
            if not isinstance(pos, Rat):
                return None
            v = self.list_pop(st, a, pos, node)
            return [(st, v)]
        if name == "remove":
            if H:
                H.list_op(self, st, a, "remove", None, args[0], node)
            self.to_symbolic(st, a)
            ln = self.list_len(st, a)
            self.forget_elems(st, a)
            st.heap[(a, "#len")] = ln - 1
            return [(st, None)]
        if name == "clear":
            if H:
                H.list_op(self, st, a, "clear", self.list_len(st, a), None, node)
            for k in [k for k in st.heap if k[0] is a]:
                del st.heap[k]
            st.lists[a] = ()
            st.templates.pop(a, None)
            return [(st, None)]
        if name == "copy":
            return [(st, self.copy_list(st, a))]
        if name in ("sort", "reverse"):
            if H:
                H.list_op(self, st, a, name, None, None, node)
            ln = self.list_len(st, a)
            self.havoc_list(st, a)
            st.heap[(a, "#len")] = ln
            return [(st, None)]
        if name == "index":
            x = args[0] if args else None
            if conc and isinstance(x, Rat):
                for j, it in enumerate(st.lists[a]):
                    if isinstance(it, Rat) and it == x:
                        return [(st, rat(j))]
            if not conc and isinstance(x, Rat):
                found = []
                contains_atom(x, lambda at: found.append(at) if at.kind == "argmin" else False)
                for am in found:
                    if self.elem_addr_value(st, a, rat(am)) == x:
                        return [(st, rat(am))]
            return [(st, self.fresh(st, "cnt", "index"))]
        if name == "get" and args:
            v = self.elem_addr_value(st, a, args[0]) if isinstance(args[0], (Rat, str)) else None
            return [(st, v)]
        if name == "sum":
            return [(st, R("sumall", a))]
        if name == "tolist":
            return [(st, rat(a))]
        if name in ("items", "keys", "values", "count"):
            return [(st, self.fresh(st, "call", name, rat(a)))]
        return None

    def forget_elems(self, st, a):
        for k in [k for k in st.heap if k[0] is a and isinstance(k[1], Rat)]:
            del st.heap[k]
        st.templates.pop(a, None)
        st.nfresh += 1
        bv = atom("bv", 0)
        st.templates[a] = ((ZERO, R("shift", a, st.nfresh, rat(bv)), bv, None, None),)

    def list_pop(self, st, a, pos, node):
        H = self.hooks if self.hooks and hasattr(self.hooks, "list_op") else None
        if a in st.lists:
            items = list(st.lists[a])
            c = pos.const()
            if c is not None and items and -len(items) <= c < len(items):
                v = items.pop(int(c))
                st.lists[a] = tuple(items)
                if H:
                    H.list_op(self, st, a, "pop", pos, v, node)
                return v
            self.to_symbolic(st, a)
        v = self.elem_addr_value(st, a, pos)
        if H:
            H.list_op(self, st, a, "pop", pos, v, node)
        ln = self.list_len(st, a)
        fr = self.list_front(st, a)
        if pos.is_zero():
            st.heap[(a, "#front")] = fr + 1
        elif pos.const() is None or pos.const() != -1:
            self.forget_elems(st, a)
        st.heap[(a, "#len")] = ln - 1
        return v

    # builtins -----------------------------------------------------------------
    def builtin(self, st, name, args, kwargs, node):
        a0 = args[0] if args else None
        if name == "len":
            if isinstance(a0, Tup):
                return [(st, rat(len(a0.items)))]
            if isinstance(a0, str):
                return [(st, rat(len(a0)))]
            if isinstance(a0, Rat) and a0.as_atom() is not None:
                a = a0.as_atom()
                c = self.cls_of(a)
                if c is not None:
                    f = c.find("__len__")
                    if f is not None:
                        return self.call_function(st, f, [], {}, node, selfval=a0)
                    self.event(st, "badlen", (a0, c.name), node)
                return [(st, self.list_len(st, a))]
            return [(st, self.fresh(st, "lenf", "len"))]
        if name in ("float", "complex", "int", "round", "abs"):
            if name == "complex" and len(args) == 2:
                return [(st, self.num(a0) + self.num(args[1]) * alg.imag())]
            if isinstance(a0, Rat):
                c = a0.const()
                if c is not None:
                    if name == "int":
                        return [(st, rat(int(c)))]
                    if name == "abs":
                        return [(st, rat(abs(c)))]
                    return [(st, a0)]
                if name in ("float", "complex"):
                    return [(st, a0)]
                if name == "int":
                    if all(self.is_int_atom(x) for x in a0.atoms()) and a0.is_poly():
                        return [(st, a0)]
                    return [(st, R("floor", a0))]
                return [(st, R(name, a0))]
            return [(st, R(name, repr(a0)[:60]))]
        if name == "pow" and len(args) == 2:
            return [(st, r_pow(self.num(a0), self.num(args[1])))]
        if name in ("min", "max"):
            items = args
            if len(args) == 1:
                if isinstance(a0, Tup):
                    items = list(a0.items)
                elif isinstance(a0, Rat) and a0.as_atom() in st.lists:
                    items = list(st.lists[a0.as_atom()])
                else:
                    return [(st, R(name, self.argkey(a0)))]
            return self._minmax_items(name, items, st)
        if name == "sum":
            if isinstance(a0, Rat) and a0.as_atom() in st.lists:
                tot = ZERO
                for v in st.lists[a0.as_atom()]:
                    tot = tot + self.num(v)
                return [(st, tot)]
            if isinstance(a0, Tup):
                tot = ZERO
                for v in a0.items:
                    tot = tot + self.num(v)
                return [(st, tot)]
            if isinstance(a0, Rat) and a0.as_atom() is not None:
                return [(st, R("sumall", a0.as_atom()))]
            return [(st, self.unknown(st, "sum"))]
        if name in ("list", "tuple", "sorted"):
            if not args:
                return [(st, self.new_list(st, []))]
            if isinstance(a0, Tup):
                return [(st, self.new_list(st, a0.items))]
            if isinstance(a0, Rat) and a0.as_atom() is not None and name != "sorted":
                return [(st, self.copy_list(st, a0.as_atom()))]
            return [(st, self.new_sym_list(st, self.fresh(st, "lenf", name)))]
        if name == "print":
            return [(st, None)]
        if name == "isinstance":
            nm = ""
            if isinstance(args[1], Fn):
                nm = str(args[1].args[0])
            if isinstance(a0, Rat) and a0.as_atom() is not None and nm in ("list", "tuple"):
                if a0.as_atom() in st.lists:
                    return [(st, nm == "list")]
            if isinstance(a0, Rat) and a0.const() is not None:
                return [(st, False if nm in ("list", "dict", "tuple", "str") else True)]
            if isinstance(a0, Rat) and nm in ("list", "dict", "tuple", "str") and (
                    a0.as_atom() is None or a0.as_atom().kind == "sym" and (a0.as_atom(), "#len") not in st.heap):
                return [(st, False)]
            return [(st, Cond("isinst", self.argkey(a0), nm))]
        if name == "str":
            return [(st, R("str", "s"))]
        if name == "bool":
            d = self.decide(st, a0)
            if d is not None:
                return [(st, d)]
            return [(st, self.truth_cond(st, a0))]
        if name == "deque":
            if args and isinstance(a0, Rat) and a0.as_atom() is not None:
                return [(st, self.copy_list(st, a0.as_atom()))]
            return [(st, self.new_list(st, []))]
        if name in ("dict", "set"):
            st.nfresh += 1
            return [(st, rat(atom("dict", st.nfresh)))]
        if name in ("getattr", "hasattr") and len(args) >= 2 and isinstance(args[1], str):
            r = self.dyn_attr(st, name, a0, args, node)
            if r is not None:
                return r
        if name == "setattr" and len(args) == 3 and isinstance(args[1], str) and isinstance(a0, Rat) and a0.as_atom() is not None:
            self.store(st, a0.as_atom(), args[1], args[2], node)
            return [(st, None)]
        if name == "next" and isinstance(a0, Rat) and a0.as_atom() is not None:
            return [(st, self.elem_addr_value(st, a0.as_atom(), ZERO))]
        if name == "divmod":
            return [(st, Tup([R("floordiv", self.num(a0), self.num(args[1])), R("mod", self.num(a0), self.num(args[1]))]))]
        return [(st, self.unknown(st, name))]

    def dyn_attr(self, st, name, obj, args, node):
        """getattr / hasattr with a constant name"""
        f = args[1]
        if name == "getattr" and len(args) == 2:
            return self.getattr(st, obj, f, node)
        a = obj.as_atom() if isinstance(obj, Rat) else None
        if a is None:
            return None
        c = self.cls_of(a)
        known = (a, f) in st.heap or c is not None and (c.find(f) is not None or c.class_attr(f))
        if not known and not self.prog.stores_attr(f):
            return [(st, False if name == "hasattr" else args[2])]
        key = ("hasattr", a, f)
        if known or st.facts.t.get(key) is True:
            return [(st, True)] if name == "hasattr" else self.getattr(st, obj, f, node)
        if st.facts.t.get(key) is False:
            return [(st, False if name == "hasattr" else args[2])]
        no = st.copy()
        st.facts.t[key] = True
        no.facts.t[key] = False
        if name == "hasattr":
            return [(st, True), (no, False)]
        return self.getattr(st, obj, f, node) + [(no, args[2])]

    def external(self, st, dotted, args, kwargs, node):
        base = dotted.split(".")[-1]
        mod = dotted.rsplit(".", 1)[0]
        a0 = args[0] if args else None
        if mod in ("math", "cmath", "numpy") or mod.startswith("numpy"):
            if base in ("pow", "power"):
                return [(st, r_pow(self.num(a0), self.num(args[1])))]
            if base == "exp":
                return [(st, r_exp(self.num(a0)))]
            if base in ("log",) and len(args) == 1:
                return [(st, r_log(self.num(a0)))]
            if base == "sqrt":
                def sign(d):
                    return True if self.decide_cmp(st.facts, ">", d) is True else \
                        False if self.decide_cmp(st.facts, "<", d) is True else None
                return [(st, r_sqrt(self.num(a0), sign))]
            if base == "factorial":
                v = self.num(a0)
                c = v.const()
                if c is not None and c.denominator == 1 and 0 <= c <= 170:
                    return [(st, rat(math.factorial(int(c))))]
                # n! with an integer offset:  (m+2)! = (m+2)(m+1) m!
                if v.is_poly():
                    key, s, cc = canon(v)
                    if s == 1 and cc.denominator == 1 and 0 < cc <= 12:
                        out = R("fact", key)
                        for j in range(1, int(cc) + 1):
                            out = out * (key + j)
                        return [(st, out)]
                return [(st, R("fact", v))]
            if base in ("fabs", "absolute", "abs"):
                if isinstance(a0, Cond):
                    d = self.decide(st, a0)
                    a0 = a0 if d is None else d
                if isinstance(a0, bool):
                    return [(st, rat(int(a0)))]
                if isinstance(a0, Cond):
                    return [(st, a0)]          # the truth of a comparison is 0 or 1
                return self.builtin(st, "abs", args, kwargs, node)
            if base in ("real",):
                return [(st, a0)]
            if base == "dot" and len(args) == 2:
                x, y = self.num(a0), self.num(args[1])
                if x.const() is not None or y.const() is not None:
                    return [(st, x * y)]
                return [(st, R("dot", x, y))]
            if base == "argmin":
                v = a0
                its = None
                if isinstance(v, Rat) and v.as_atom() in st.lists:
                    its = st.lists[v.as_atom()]
                elif isinstance(v, Tup):
                    its = v.items
                if its is not None:
                    return [(st, R("argminlist", Tup(its)))]
                if isinstance(v, Rat) and v.as_atom() is not None:
                    el = st.heap.get((v.as_atom(), "#elem"))
                    src = self.map_source(st, v.as_atom())
                    if isinstance(el, Rat) and src is not None:
                        am = R("argmin", src if src is not None else v.as_atom(), el)
                        best = deep_subst(el, {atom("bv", 0): am})
                        st.facts.minall = st.facts.minall + ((best, el, src),)
                        return [(st, am)]
                return [(st, self.fresh(st, "argmin", "np"))]
            if base in ("min", "amin"):
                return self.builtin(st, "min", args, kwargs, node)
            if base in ("sum",):
                return self.builtin(st, "sum", args, kwargs, node)
            if base in ("array", "asarray") and args:
                return [(st, a0)]
            if base == "zeros":
                st.nfresh += 1
                a = atom("list", st.nfresh)
                if isinstance(a0, Rat):
                    st.heap[(a, "#len")] = a0
                st.heap[(a, "#default")] = ZERO
                st.heap[(a, "#shape")] = a0
                return [(st, rat(a))]
            if base in ("floor",):
                v = self.num(a0)
                c = v.const()
                if c is not None:
                    return [(st, rat(math.floor(c)))]
                return [(st, R("floor", v))]
            if base in ("float64", "float32", "complex128"):
                return [(st, a0)]
            if base in ("default_rng", "RandomState", "Generator"):
                st.nfresh += 1
                return [(st, R("newgen", dotted, st.nfresh))]
            if mod.endswith("random"):
                st.nfresh += 1
                v = R("rnd", dotted, *[self.argkey(x) for x in args], st.nfresh)
                self.event(st, "rnd", ("global", dotted), node)
                return [(st, v)]
            if base == "isclose":
                if len(args) == 2 and mod == "math" and not kwargs and all(isinstance(x, Rat) for x in args) and (args[1].is_zero() or a0.is_zero()):
                    # with no absolute tolerance only zero itself is close to zero
                    return [(st, Cond("cmp", "==", a0 if args[1].is_zero() else args[1]))]
                return [(st, Cond("isclose", *[self.argkey(x) for x in args]))]
        if dotted == "random.Random":
            st.nfresh += 1
            return [(st, R("newgen", dotted, st.nfresh))]
        if mod == "random":
            st.nfresh += 1
            self.event(st, "rnd", ("global", dotted), node)
            return [(st, R("rnd", dotted, st.nfresh))]
        if dotted in ("copy.deepcopy", "copy.copy"):
            if isinstance(a0, Rat) and a0.as_atom() is not None:
                a = a0.as_atom()
                if a in st.lists or (a, "#len") in st.heap or (self.typeinfo(a) or (None,))[0] == "list":
                    return [(st, self.copy_list(st, a))]
                st.nfresh += 1
                return [(st, R("copyof", a, st.nfresh))]
            return [(st, a0)]
        if dotted == "collections.deque":
            return self.builtin(st, "deque", args, kwargs, node)
        if base in ("tqdm",) and args:
            return [(st, a0)]
        if base == "partial" and mod == "functools" and isinstance(a0, Fn):
            return [(st, Fn("lambda_partial", a0, tuple(args[1:])))]
        if base in ("comb", "binom", "perm") and mod in ("math", "scipy.special", "scipy") and len(args) >= 2:
            n, k = (x.const() if isinstance(x, Rat) else None for x in args[:2])
            if n is not None and k is not None and n.denominator == k.denominator == 1 and n >= 0 and (mod != "math" or k >= 0):
                f = math.perm if base == "perm" else math.comb
                return [(st, rat(f(int(n), int(k)) if k >= 0 else 0))]
        if any(isinstance(x, Rat) for x in args) or not args:
            pure = mod in ("math", "cmath", "scipy.special", "numpy", "numpy.linalg", "scipy.stats", "scipy.stats.gamma",
                           "scipy.special._ufuncs")
            if pure:
                return [(st, R("ext", dotted, *[self.argkey(x) for x in args]))]
        return [(st, self.fresh(st, "call", dotted, *[self.argkey(x) for x in args]))]


LIST_METHODS = {"append", "appendleft", "insert", "pop", "popleft", "remove", "extend", "clear", "copy", "sort", "reverse",
                "index", "count", "generate", "random", "uniform", "exponential", "gamma", "normal", "get", "items", "keys",
                "values", "format", "join", "update", "set_description", "tolist", "sum", "__contains__"}


def _eqv(a, b):
    return type(a) is type(b) and a == b


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


def _target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
