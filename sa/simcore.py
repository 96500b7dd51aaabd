"""Abstract transition systems of the simulators.

For every simulator class the public step function is interpreted once per entry
region (a conjunction that together describe the reachable states); the result
is the set of abstract transitions: final store in terms of the entry store, the
path facts, and the list of job movements (start / end of service, queue
operations, statistic updates) recorded on the way.
"""
from fractions import Fraction

from . import alg, interp
from .alg import Rat, Atom, atom, rat, R, ZERO, ONE, deep_subst
from .interp import Interp, State, GH, Tup, Cond, LoopEv, Ev

ME = atom("obj", "self")
INF = rat(10 ** 16)

INT_FIELDS = {"n", "in_sys", "free_channels", "arrived", "served", "dropped", "taked", "total", "k", "buffer", "m",
              "sub_task_in_sys", "sources_left", "k_num", "n_num", "served_subtask_in_task", "ppnz_moments",
              "zero_wait_arrivals_num", "task_id", "class_on_service", "in_node_class_num", "starts_times",
              "warm_after_cold_starts", "num_of_states", "id", "subtask_num", "nodes", "nodes_prty", "reneged"}
NONNEG = {"n", "in_sys", "free_channels", "arrived", "served", "dropped", "taked", "total", "buffer", "k", "m",
          "sub_task_in_sys", "sources_left", "served_subtask_in_task", "ppnz_moments", "k_num", "n_num", "reneged"}
NULLABLE = {"buffer", "tsk_on_service", "class_on_service"}
STAT_LISTS = {"w", "v", "ppnz", "v_network", "w_network"}


def fld(a, *path):
    """atom of a field path"""
    for f in path:
        a = atom("fld", a, f)
    return a


def F(*path):
    """entry value of self.<path> (elements of the path: str or ('idx', key))"""
    a = ME
    for f in path:
        a = atom("idx", a, f[1]) if isinstance(f, tuple) else atom("fld", a, f)
    return rat(a)


class SimHooks:
    def __init__(self, me=ME):
        self.me = me
        self.queue_roots = {fld(me, "queue"): "queue", fld(me, "queues"): "queues"}
        self.stat_roots = {fld(me, s): s for s in STAT_LISTS}
        self.forall_axioms = []

    # ---------------------------------------------------------------- ghosts
    def bump(self, st, key, d):
        st.heap[(GH, key)] = st.heap.get((GH, key), ZERO) + d

    def queue_of(self, a, st):
        """(root name, sub key or None) when a is (the inner list of) a queue of the simulator"""
        key = None
        while True:
            if a in self.queue_roots:
                return (self.queue_roots[a], key)
            r = st.heap.get((GH, ("#root", a)))
            if r is not None:
                return (r, key)
            if a.kind == "fld":
                a = a.args[0]
            elif a.kind == "idx":
                key = a.args[1]
                a = a.args[0]
            else:
                return None

    def stat_of(self, a, st):
        key = None
        while a.kind == "idx":
            key = a.args[1]
            a = a.args[0]
        if a in self.stat_roots:
            return (self.stat_roots[a], key)
        r = st.heap.get((GH, ("#sroot", a)))
        return (r, key) if r is not None else None

    # ---------------------------------------------------------------- hooks
    def before_store(self, ip, st, a, f, v, node):
        if f == "is_free":
            prev = st.heap.get((a, "is_free"))
            if not isinstance(prev, bool):
                prev = st.facts.t.get(("bool", R("fld", a, "is_free")))
            db = st.heap.get((GH, "#busy"), ZERO)
            if v is True:
                ip.event(st, "end", (rat(a), prev, db), node)
                if prev is not True:
                    self.bump(st, "#busy", rat(-1))
                    self.bump(st, "#ends", ONE)
            elif v is False:
                ip.event(st, "start", (rat(a), prev, db), node)
                if prev is not False:
                    self.bump(st, "#busy", ONE)
                self.bump(st, "#starts", ONE)
            else:
                ip.event(st, "odd_is_free", (rat(a), v), node)
            return v
        if f == "time_to_end_service":
            ip.event(st, "clock", (rat(a), v), node)
        if f == "start_ppnz" and a is self.me:
            ip.event(st, "ppnzstart", (v, self.saturated(ip, st)), node)
        if a is self.me and f == "dropped" or a is fld(self.me, "dropped"):
            q = R("len", INNERQ)
            try:
                inner = ip.load(st, ip.load(st, self.me, "queue").as_atom(), "queue").as_atom()
                q = ip.list_len(st, inner)
            except Exception:
                pass
            ip.event(st, "drop", (f if isinstance(f, Rat) else None, v, q, st.heap.get((GH, "#q"), ZERO)), node)
        if f == "tsk_on_service" and v is not None:
            ip.event(st, "assign", (rat(a), v, self.snap(ip, st, v)), node)
            return v
        # statistics
        if isinstance(f, Rat):
            s = self.stat_of(a, st)
            if s is not None and f.const() is not None and isinstance(v, Rat):
                return self.stat(ip, st, a, s, f, v, node)
        elif a is self.me and f in STAT_LISTS and isinstance(v, Rat):
            b = v.as_atom()
            if b is not None and b is not fld(self.me, f) and b in st.lists:
                cur = st.heap.get((a, f), rat(fld(self.me, f))).as_atom()
                new = []
                for i, x in enumerate(st.lists[b]):
                    old = ip.elem_addr_value(st, cur, rat(i))
                    new.append(self._stat_ev(ip, st, (f, None), rat(i), old, x, node))
                st.lists[b] = tuple(new)
                st.heap[(GH, ("#sroot", b))] = f
            return v
        # wholesale replacement of a queue's content
        q = None
        if isinstance(f, str) and isinstance(v, Rat) and v.as_atom() is not None:
            tgt = fld(a, f)
            q = self.queue_of(tgt, st)
            if q is not None:
                b = v.as_atom()
                cur = ip.load(st, a, f)
                ca = cur.as_atom()
                if b is not ca:
                    d = ip.list_len(st, b) - ip.list_len(st, ca)
                    self.bump(st, "#q", d)
                    ip.event(st, "requeue", (rat(ca), v, d), node)
                    if self.selection(ip, st, ca, b):
                        return rat(ca)
                    st.heap[(GH, ("#root", b))] = q[0]
        elif isinstance(f, Rat) and isinstance(v, Rat) and v.as_atom() is not None and a in self.queue_roots:
            b = v.as_atom()
            cur = ip.elem_addr_value(st, a, f)
            ca = cur.as_atom()
            if b is not ca and ca is not None:
                d = ip.list_len(st, b) - ip.list_len(st, ca)
                self.bump(st, ("#q", f), d)
                self.bump(st, "#q", d)
                ip.event(st, "requeue", (rat(ca), v, d), node)
                if self.selection(ip, st, ca, b):
                    return rat(ca)
        return v

    @staticmethod
    def idle_time(ip, st, v, init):
        """a server without a job has its completion at infinity (rule S10)"""
        a = v.as_atom()
        c = init.const()
        if a is None or a.kind != "fld" or a.args[1] != "time_to_end_service" or c is None or c > 10 ** 10:
            return False
        srv = a.args[0]
        return st.facts.t.get(("bool", rat(fld(srv, "is_free")))) is True or \
            st.facts.t.get(("isnone", rat(fld(srv, "tsk_on_service")))) is True

    @staticmethod
    def selection(ip, st, cur, new):
        """the queue keeps some of its own jobs, in order: the same queue, shorter"""
        al = st.alias.get(new)
        if cur in st.lists or not (isinstance(al, tuple) and al[0] == "filter" and al[1] == ("list", cur)) or \
                any(k[0] is new and isinstance(k[1], Rat) for k in st.heap):
            return False
        st.heap[(cur, "#len")] = ip.list_len(st, new)
        return True

    def stat(self, ip, st, a, s, f, v, node):
        old = ip.elem_addr_value(st, a, f)
        return self._stat_ev(ip, st, s, f, old, v, node)

    def _stat_ev(self, ip, st, s, f, old, v, node):
        if isinstance(old, Rat) and old == v:
            return v
        ip.event(st, "stat", (s[0], s[1] if s[1] is not None else None, f, old, v), node)
        k = ("#stat", s[0], s[1], f)
        n = st.heap.get((GH, k), ZERO)
        st.heap[(GH, k)] = n + 1
        return R("statv", s[0], s[1] if s[1] is not None else ZERO, f, n)

    def saturated(self, ip, st):
        """is every server busy now: True / False / None"""
        fc = ip.load(st, self.me, "free_channels")
        return ip.decide_cmp(st.facts, "==", fc) if isinstance(fc, Rat) else None

    def iter_end(self, ip, st, node):
        if any(not isinstance(e, LoopEv) and e.kind in ("start", "end") for e in st.trace):
            ip.event(st, "iterend", (self.saturated(ip, st),), node)

    def list_op(self, ip, st, a, op, pos, v, node):
        q = self.queue_of(a, st)
        if q is None:
            ip.event(st, "listop", (rat(a), op, pos, v, self.snap_all(ip, st, v)), node)
            return
        d = {"append": ONE, "insert": ONE, "pop": rat(-1), "remove": rat(-1)}.get(op)
        if op == "extend":
            d = pos
        if op == "clear":
            d = -pos
        ln = ip.list_len(st, a)
        tot = st.heap.get((GH, "#q"), ZERO)
        if d is not None:
            self.bump(st, "#q", d)
            if q[1] is not None:
                self.bump(st, ("#q", q[1]), d)
        ip.event(st, "q" + op, (rat(a), q[1], pos, v, ln, tot, self.snap(ip, st, v), self.saturated(ip, st)), node)

    SNAP = ("arr_time", "wait_time", "start_waiting_time")

    def snap(self, ip, st, v):
        """fields of a job created in this transition, at the moment it is stored"""
        a = v.as_atom() if isinstance(v, Rat) else None
        if a is None or a.kind != "obj":
            return None
        out = []
        for f in self.SNAP:
            x = st.heap.get((a, f))
            out.append(x if isinstance(x, Rat) else None)
        return Tup(out)

    def snap_all(self, ip, st, v):
        """every known field of an object created in this transition: (name, value, name, value, ...)"""
        a = v.as_atom() if isinstance(v, Rat) else None
        if a is None or a.kind not in ("obj", "idx"):
            return None
        out = []
        for (o, f), x in st.heap.items():
            if o is a and isinstance(f, str) and isinstance(x, Rat):
                out += [f, x]
        return Tup(out)

    def after_forall(self, ip, st, src, c, truth):
        for ax in self.forall_axioms:
            if not ax(ip, st, src, c, truth):
                return False
        return True


def servers_forall_axiom(ip, st, src, c, truth):
    """no server is free  =>  the number of free servers is zero"""
    if c[0] == "bool" and truth is False and isinstance(c[1], Rat):
        x = c[1].as_atom()
        if x is not None and x.kind == "fld" and x.args[1] == "is_free" and x.args[0].kind == "idx" \
                and x.args[0].args[0] is fld(ME, "servers"):
            fc = F("free_channels") - st.heap.get((GH, "#busy"), ZERO)
            return ip.assume_cmp(st, "==", fc)
    return True


class Tr:
    """one abstract transition"""

    def __init__(self, sim, region, ip, st, ret, st0):
        self.sim, self.region, self.ip, self.st, self.ret, self.st0 = sim, region, ip, st, ret, st0
        self.facts = st.facts

    def ent(self, *path):
        """value on entry"""
        a = ME
        for f in path[:-1]:
            a = self.ip.load(self.st0, a, f).as_atom() if not isinstance(f, tuple) else \
                self.ip.elem_addr_value(self.st0, a, f[1]).as_atom()
        f = path[-1]
        return self.ip.elem_addr_value(self.st0, a, f[1]) if isinstance(f, tuple) else self.ip.load(self.st0, a, f)

    def get(self, *path):
        a = ME
        for f in path[:-1]:
            v = self.load(a, f)
            a = v.as_atom()
        return self.load(a, path[-1])

    def load(self, a, f):
        if isinstance(f, tuple):
            return self.ip.elem_addr_value(self.st, a, f[1])
        return self.ip.load(self.st, a, f)

    def delta(self, *path):
        v = self.get(*path)
        e = self.ent(*path)
        return v - e if isinstance(v, Rat) and isinstance(e, Rat) else None

    def ghost(self, key):
        return self.st.heap.get((GH, key), ZERO)

    def cells(self, addr):
        """modified elements of a collection"""
        return {k[1]: v for k, v in self.st.heap.items() if k[0] is addr and isinstance(k[1], Rat)}

    def decide(self, op, r, facts=None):
        return self.ip.decide_cmp(facts or self.facts, op, r)

    def truth(self, r, facts=None):
        """known truth of a boolean entry value"""
        f = facts or self.facts
        return f.t.get(("bool", r))

    def events(self, kinds=None):
        """(event, loop stack) in order; events inside summarised loops included"""
        def walk(tr, stack):
            for e in tr:
                if isinstance(e, LoopEv):
                    for evs, ex in e.alts:
                        yield from walk(evs, stack + (e,))
                elif kinds is None or e.kind in kinds:
                    yield e, stack
        return list(walk(self.st.trace, ()))

    def zero(self, r):
        if r is None:
            return None
        if r.is_zero():
            return True
        c = r.const()
        if c is not None:
            return c == 0
        return self.decide("==", r)


class Sim:
    def __init__(self, name, mod, cls, regions, choose=None, nullable=(), opaque=(), setup=None, step="run_one_step",
                 args=None, prune=None, axioms=(), nonneg=(), ints=(), hooks=None):
        self.name, self.mod, self.clsname = name, mod, cls
        self.regions, self.choose, self.nullable, self.opaque = regions, choose or {}, nullable, opaque
        self.setup, self.step, self.args, self.prune, self.axioms = setup, step, args, prune, axioms
        self.nonneg, self.ints, self.hooks = nonneg, ints, hooks or SimHooks

    def run(self, prog):
        cls = prog.cls(self.mod, self.clsname)
        f = cls.find(self.step)
        from .model import AnalysisBroken
        if f is None:
            raise AnalysisBroken(f"{self.clsname} has no {self.step}")
        out = []
        self.stats = {"paths": 0, "functions": set(), "unknowns": [], "pruned": 0}
        for rname, init in self.regions.items():
            hooks = self.hooks()
            hooks.forall_axioms = [servers_forall_axiom] + list(self.axioms)
            ip = Interp(prog, choose=self.choose, int_fields=INT_FIELDS | set(self.ints), nonneg_fields=NONNEG | set(self.nonneg),
                        nullable=NULLABLE | set(self.nullable), opaque=self.opaque, hooks=hooks)
            ip.objcls[ME] = cls
            st = State()
            if self.setup:
                self.setup(ip, st)
            if init:
                init(ip, st)
            args = self.args(ip, st) if self.args else []
            st0 = st.copy()
            res = ip.call_function(st, f, args, {}, f.node, selfval=rat(ME))
            self.stats["functions"] |= {x.qual for x in ip.inlined}
            self.stats["unknowns"] += ip.unknowns
            for s, v in res:
                if "raise" in s.flags:
                    continue
                t = Tr(self, rname, ip, s, v, st0)
                if self.prune and self.prune(t):
                    self.stats["pruned"] += 1
                    continue
                out.append(t)
        self.stats["paths"] = len(out)
        self.cls = cls
        return out


def assume(ip, st, op, r):
    return ip.assume_cmp(st, op, r)


def common_setup(ip, st):
    n, fc = F("n"), F("free_channels")
    assume(ip, st, ">=", n - 1)
    assume(ip, st, ">=", fc)
    assume(ip, st, ">=", n - fc)
    assume(ip, st, ">=", F("taked"))
    st.heap[(fld(ME, "servers"), "#len")] = n      # one server per channel, one queue per server (rule S13)
    st.facts.t[("bool", F("generator"))] = True
    st.facts.t[("isnone", F("generator"))] = False


def single_setup(ip, st):
    """one queue, one class: what is in the system is waiting or on a server (re-established by rule S01/S02)"""
    common_setup(ip, st)
    st.heap[(ME, "in_sys")] = QLEN() + F("n") - F("free_channels")


PHASES = ("warm_phase", "cold_phase", "cold_delay_phase")


def phases_off(st, which=PHASES):
    for p in which:
        a = fld(ME, p)
        st.heap[(a, "is_start")] = False
        st.heap[(a, "end_time")] = INF


def phase_on(st, p):
    a = fld(ME, p)
    st.heap[(a, "is_start")] = True
    st.heap[(a, "is_set")] = True


def setb(st, *path, value):
    a = ME
    for f in path[:-1]:
        a = fld(a, f)
    st.heap[(a, path[-1])] = value


INNERQ = fld(ME, "queue", "queue")


def QLEN(inner=INNERQ):
    return R("len", inner)


def region_base():
    n, fc, q = F("n"), F("free_channels"), QLEN()

    def A(ip, st):
        phases_off(st)
        assume(ip, st, "==", q)

    def B(ip, st):
        phases_off(st)
        assume(ip, st, ">=", q - 1)
        assume(ip, st, "==", fc)

    def C(ip, st):
        phases_off(st, ("warm_phase", "cold_delay_phase"))
        phase_on(st, "cold_phase")
        assume(ip, st, "==", fc - n)
        assume(ip, st, ">=", q)

    def D(ip, st):
        phases_off(st, ("warm_phase", "cold_phase"))
        phase_on(st, "cold_delay_phase")
        setb(st, "cold_phase", "is_set", value=True)
        assume(ip, st, "==", fc - n)
        assume(ip, st, "==", q)

    def E(ip, st):
        phases_off(st, ("cold_phase", "cold_delay_phase"))
        phase_on(st, "warm_phase")
        assume(ip, st, "==", fc - n)
        assume(ip, st, ">=", q - 1)

    return dict(split_free(A), **{"saturated,queue": B, "cooling": C, "cooling-delay": D, "warming": E})


def split_free(A):
    """the states with an empty queue, by the number of idle servers"""
    n, fc = F("n"), F("free_channels")

    def empty(ip, st):
        A(ip, st)
        assume(ip, st, "==", fc - n)

    def partial(ip, st):
        A(ip, st)
        assume(ip, st, ">=", fc - 1)
        assume(ip, st, ">=", n - fc - 1)

    def full(ip, st):
        A(ip, st)
        assume(ip, st, "==", fc)
    return {"empty": empty, "some servers idle": partial, "all servers busy,no queue": full}


def region_phases():
    """finer regions for the phase automaton: configuration flags and single/multiple servers fixed"""
    n, fc, q = F("n"), F("free_channels"), QLEN()
    base = region_base()
    fine = {
        "empty": base["empty"],
        "one busy": lambda ip, st: (base["some servers idle"](ip, st), assume(ip, st, "==", fc + 1 - n)),
        "several busy, some idle": lambda ip, st: (base["some servers idle"](ip, st), assume(ip, st, ">=", n - fc - 2)),
        "the only server busy,no queue": lambda ip, st: (base["all servers busy,no queue"](ip, st), assume(ip, st, "==", n - 1)),
        "all servers busy,no queue": lambda ip, st: (base["all servers busy,no queue"](ip, st), assume(ip, st, ">=", n - 2)),
        "saturated,queue": base["saturated,queue"],
        "cooling,no queue": lambda ip, st: (base["cooling"](ip, st), assume(ip, st, "==", q)),
        "cooling,queue": lambda ip, st: (base["cooling"](ip, st), assume(ip, st, ">=", q - 1)),
        "cooling-delay": base["cooling-delay"],
        "warming": base["warming"],
    }
    out = {}
    for nm, reg in fine.items():
        for warm in (False, True):
            for cold, delay in ((False, False), (True, False), (True, True)):
                if nm.startswith("cooling") and not cold or nm == "cooling-delay" and not delay or nm == "warming" and not warm:
                    continue

                def f(ip, st, reg=reg, warm=warm, cold=cold, delay=delay):
                    reg(ip, st)
                    setb(st, "warm_phase", "is_set", value=warm)
                    setb(st, "cold_phase", "is_set", value=cold)
                    setb(st, "cold_delay_phase", "is_set", value=delay)
                cfg = "+".join(x for x, y in (("warm-up", warm), ("cooling", cold), ("delay", delay)) if y) or "plain"
                out[f"{nm} [{cfg}]"] = f
    return out


def region_plain():
    n, fc, q = F("n"), F("free_channels"), QLEN()

    def off(st):
        phases_off(st)
        for p in PHASES:
            setb(st, p, "is_set", value=False)

    def A(ip, st):
        off(st)
        assume(ip, st, "==", q)

    def B(ip, st):
        off(st)
        assume(ip, st, ">=", q - 1)
        assume(ip, st, "==", fc)
    return dict(split_free(A), **{"saturated,queue": B})


def prune_std(t):
    """events that cannot happen: an inactive phase ending, a service ending while every server is idle"""
    tk = t.get("ttek")
    if isinstance(tk, Rat) and tk.const() is not None:
        return True
    fc = F("free_channels")
    ends = [e for e, _ in t.events({"end"})]
    if ends and t.decide("==", fc - F("n")) is True:
        return True
    # a service that starts needs an idle server
    return False
