"""Evaluating single functions of the program on symbolic arguments."""
from . import alg
from .alg import Rat, atom, rat, R, ZERO, ONE, deep_subst, contains_atom
from .interp import Interp, State, Tup, Fn
from .model import AnalysisBroken


class Sym:
    """an interpreter over the program with convenience for plain functions"""

    def __init__(self, prog, **kw):
        self.prog = prog
        self.kw = kw

    def ip(self, **kw):
        k = dict(self.kw)
        k.update(kw)
        return k.pop('interp', Interp)(self.prog, **k)

    def func(self, mod, name):
        m = self.prog.modules.get(mod)
        if m is None:
            raise AnalysisBroken(f'no module {mod}')
        f = None
        if "." in name:
            c, n = name.split(".")
            ci = m.classes.get(c)
            f = ci.find(n) if ci else None
        else:
            f = m.functions.get(name)
        if f is None:
            raise AnalysisBroken(f"{mod} has no {name}")
        return f

    def call(self, mod, name, args, kwargs=None, setup=None, ip=None, st=None, selfval=None):
        """list of (state, value) of the call"""
        ip = ip or self.ip()
        st = st or State()
        if setup:
            setup(ip, st)
        f = self.func(mod, name)
        self.last = f
        return ip, ip.call_function(st, f, [lift(ip, st, a) for a in args], {k: lift(ip, st, v) for k, v in (kwargs or {}).items()},
                                    f.node, selfval=selfval)

    def drive(self, src, args, ip=None, st=None, kwargs=None, entry="drive"):
        """interpret drive(...) of a small entry program over the repository's classes"""
        name = f"entry{abs(hash(src)) % 10 ** 8}"
        if name not in self.prog.modules:
            self.prog.add_source(name, src)
        return self.call(name, entry, args, kwargs, ip=ip, st=st)

    def new(self, mod, cls, args, kwargs=None, ip=None, st=None):
        ip = ip or self.ip()
        st = st or State()
        ci = self.prog.cls(mod, cls)
        return ip, ip.construct(st, ci, [lift(ip, st, a) for a in args],
                                {k: lift(ip, st, v) for k, v in (kwargs or {}).items()}, ci.node)

    def method(self, ip, st, obj, name, args, kwargs=None):
        ci = ip.objcls.get(obj.as_atom())
        f = ci.find(name)
        if f is None:
            raise AnalysisBroken(f"{ci.name} has no {name}")
        return ip.call_function(st, f, [lift(ip, st, a) for a in args], {k: lift(ip, st, v) for k, v in (kwargs or {}).items()},
                                f.node, selfval=obj)


def lift(ip, st, a):
    if isinstance(a, list):
        return ip.new_list(st, [lift(ip, st, x) for x in a])
    if isinstance(a, bool) or a is None or isinstance(a, (str, Rat, Tup, Fn)):
        return a
    if isinstance(a, (int, float)):
        return rat(a)
    return a


def items(ip, st, v, n=None):
    """the elements of a returned list / tuple as python list (None when not a known-length sequence)"""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Rat) and v.as_atom() is not None:
        a = v.as_atom()
        if a in st.lists:
            return list(st.lists[a])
        ln = ip.list_len(st, a)
        if n is None:
            c = ln.const()
            if c is None:
                return None
            n = int(c)
        return [ip.elem_addr_value(st, a, rat(i)) for i in range(n)]
    return None
