"""Finite sources; the state a configured simulator starts from; reported probabilities."""
from . import alg
from .simcore import *
from .alg import rat, R, ZERO, ONE, atom, contains_atom
from .rules_sim import opaque, verdict_zero, start_effects, sites, event_name, tname, fresh_sample
from .fn import Sym, items
from .interp import State, Tup
from .expect import moment, Unknown
from . import rules_dist as RD
from . import rules_rand as RR

TIMES = fld(ME, "arrival_times")


def sources(ctx, rep, names):
    """every source is either thinking (one pending request) or has its one job in the system"""
    for s, t in start_effects(ctx, rep, names):
        en, ev, tk = tname(t), event_name(t), t.get("ttek")
        left = t.get("sources_left") - t.ent("sources_left")
        pop = t.get("in_sys") - t.ent("in_sys")
        rep.ob("thinking sources + jobs in the system = sources", en, verdict_zero(t, left + pop),
               f"thinking sources change by {left}, jobs by {pop}", sites(t))
        cells = {k: v for k, v in t.cells(TIMES).items() if not (isinstance(v, Rat) and v == R("idx", TIMES, k))}
        if t.st.templates.get(TIMES, ()) or t.get("arrival_times") != rat(TIMES):
            for e, f in looped_samples(t.st.trace):
                carried = f is None or any(contains_atom(x, lambda a: a.kind in ("lphi", "lv")) for x in
                                           [k for k in f.b] + [z for k in f.t for z in k[1:] if isinstance(z, Rat)])
                rep.ob("a completion makes one source think again", en, None if carried else False,
                       "every source without a request gets one, not only that of the served job", [e.where])
            rep.ob("requests of the sources", en, None)
            continue
        if ev == "arrival":
            k = tk.as_atom().args[1] if tk.as_atom() is not None and tk.as_atom().kind == "idx" else None
            others = [x for x in cells if not (k is not None and isinstance(x, Rat) and (x - k).is_zero())]
            rep.ob("a request concerns one source only", en, not others or (None if any(map(opaque, others)) else False),
                   f"requests of sources {others} change as well", sites(t))
            v = cells.get(k)
            lost = t.zero(pop)
            if lost:
                ok, _ = fresh_sample(v - tk if isinstance(v, Rat) else None, fld(ME, "source"))
                rep.ob("a source whose job is lost thinks again, one fresh draw", en, ok if isinstance(v, Rat) else False, f"its next request is {v}", sites(t))
            else:
                ok = isinstance(v, Rat) and v.const() is not None and v.const() >= 10 ** 9
                rep.ob("a source with a job in the system has no pending request", en, ok or (None if isinstance(v, Rat) and opaque(v) else False),
                       f"its next request is {v}", sites(t))
        elif ev == "service completion":
            if not cells:
                seen = any(contains_in(c, TIMES) for _, c, _ in t.facts.foralls) or any(opaque(x) for x in t.facts.b)
                if not seen:
                    rep.ob("the source of a served job thinks again, one fresh draw", en, False, "no source gets a new request", sites(t))
                continue        # no idle source at all: excluded by the population equation
            rep.ob("one source thinks again", en, len(cells) == 1, f"{len(cells)} sources get a request", sites(t))
            for k, v in list(cells.items())[:1]:
                ok, _ = fresh_sample(v - tk if isinstance(v, Rat) else None, fld(ME, "source"))
                rep.ob("the source of a served job thinks again, one fresh draw", en, ok, f"request at {v}", sites(t))
                big = t.decide(">", R("idx", TIMES, k) - 10 ** 9)
                rep.ob("the source that thinks again had no pending request", en, big if big else (None if opaque(k) else False),
                       f"request of source {k} is overwritten", sites(t))


def looped_samples(trace):
    """draws of the source in loop iterations that go on to the next iteration"""
    for e in trace:
        if isinstance(e, LoopEv):
            for evs, ex in e.alts:
                for x in evs:
                    if not isinstance(x, LoopEv) and x.kind == "sample" and x.data[0] == F("source") and ex != "break":
                        yield x, x.facts


def contains_in(c, a):
    if isinstance(c, (tuple, list)):
        return any(contains_in(x, a) for x in c)
    if isinstance(c, Rat):
        return contains_atom(c, lambda z: z is a)
    if hasattr(c, "args"):
        return any(contains_in(x, a) for x in c.args)
    if hasattr(c, "items") and not callable(c.items):
        return any(contains_in(x, a) for x in c.items)
    return False


# ----------------------------------------------------------------------------- base case
LAWMEAN = {"M": lambda s: ONE / RD.S("mu" + s)}


def start_state(ctx, rep, tier):
    """a configured simulator is empty: nobody waits, every server is idle, all counters and times are zero, the first arrival is one draw away"""
    sym = Sym(ctx.prog)
    A, B, X = RD.by_notation(), RD.by_notation("_s"), RD.by_notation("_0")
    for cls, (mod, args, body) in RR.SIMS.items():
        def run(cls=cls, mod=mod, args=args, body=body):
            ip, st = sym.ip(), State()
            RD.notation_setup(ip, st)
            st.facts.t[("bool", RR.GEN)] = True
            src = RR.QS.format(cls=cls, mod=mod, args=args, body="\n".join("    " + l for l in body))
            _, res = sym.drive(src, [RR.GEN, rat(2), "M", A["M"][1], "M", B["M"][1], "M", X["M"][1]], ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            rep.count("paths", len(res))
            for s, v in res:
                if "raise" in s.flags or not isinstance(v, Rat):
                    continue
                check_start(ctx, rep, cls, ip, s, v.as_atom(), rat(2))
        rep.guard(cls, run)


ZEROS = ("in_sys", "served", "arrived", "dropped", "taked", "total", "ttek", "t_old", "sub_task_in_sys")


def check_start(ctx, rep, cls, ip, s, q, n):
    def val(o, f):
        return s.heap.get((o, f))

    def ob(what, verdict, msg):
        rep.ob("initial state: " + what, cls, verdict, msg)

    def flat(v):
        """leaves of a nested list of known shape; a list filled with one value counts as that value"""
        if isinstance(v, Rat) and v.as_atom() is not None:
            a = v.as_atom()
            d = s.heap.get((a, "#default"))
            if d is not None and not any(k[0] is a and isinstance(k[1], Rat) for k in s.heap):
                return [d]
            xs = items(ip, s, v)
            if xs is None:
                tm = s.templates.get(a)
                if tm:
                    return [t[1] for t in tm]
                return None
            if len(xs) > 8 and all(isinstance(x, Rat) and x == xs[0] for x in xs[:50]):
                xs = [x for x in xs if not (isinstance(x, Rat) and x == xs[0])] + [xs[0]]
            out = []
            for x in xs:
                if isinstance(x, Rat) and (x.as_atom() is not None and x.as_atom().kind == "list"):
                    y = flat(x)
                    if y is None:
                        return None
                    out += y
                else:
                    out.append(x)
            return out
        return [v]
    for f in ZEROS + ("p", "v", "w", "ppnz", "busy", "busy_moments", "ppnz_moments"):
        v = val(q, f)
        if v is None:
            continue
        xs = flat(v if isinstance(v, Rat) else rat(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v)
        if xs is None:
            ob(f"{f} is zero", None, f"{f} = {v}")
            continue
        bad = [x for x in xs if not (isinstance(x, Rat) and x.is_zero())]
        ob(f"{f} is zero", not bad or (None if any(isinstance(x, Rat) and opaque(x) for x in bad) else False), f"{f} starts at {[str(b) for b in bad[:3]]}")
    fc = val(q, "free_channels")
    ob("all servers are free", None if not isinstance(fc, Rat) else verdict(fc - n), f"free_channels = {fc}")
    srv = val(q, "servers")
    xs = items(ip, s, srv) if isinstance(srv, Rat) else None
    ob("as many servers as channels", None if xs is None else rat(len(xs)) == n, f"{None if xs is None else len(xs)} servers")
    for i, x in enumerate(xs or []):
        a = x.as_atom() if isinstance(x, Rat) else None
        if a is None:
            continue
        free, end = val(a, "is_free"), val(a, "time_to_end_service")
        ob("every server is idle", free is True or (isinstance(free, Rat) and free == ONE) or (None if isinstance(free, Rat) and opaque(free) else False),
           f"server {i} starts with is_free = {free}")
        c = end.const() if isinstance(end, Rat) else None
        ob("no service is pending", True if c is not None and c >= 10 ** 9 else None if isinstance(end, Rat) and opaque(end) else False,
           f"server {i} has a pending completion at {end}")
    if xs and len({x for x in xs if isinstance(x, Rat)}) != len(xs):
        ob("servers are distinct", False, "the same server object stands for several channels")
    # first arrivals
    name = "arrival_times" if val(q, "arrival_times") is not None else "arrival_time"
    at = val(q, name)
    aa = at.as_atom() if isinstance(at, Rat) else None
    many = aa is not None and aa.kind == "list"
    arr = items(ip, s, at) if many else [at]
    if arr is None:
        ob("the first arrival is one draw away", None, f"{name} = {at}")
        return
    used = set()
    for i, x in enumerate(arr):
        if not isinstance(x, Rat):
            ob("the first arrival is one draw away", None if x is None else False, f"{name} = {x}")
            continue
        mean = ONE / RD.S("mu_0" if cls.startswith("Priority") and i == 1 else "mu")
        try:
            ok = all(zero_(moment(x, k, s.facts) - k * mean ** k) for k in (1, 2))
        except Unknown:
            ok = None
        from .expect import rnds
        d = set(rnds(x))
        if d & used:
            ok = False
        used |= d
        ob("the first arrival is one draw away", ok, f"{name}[{i}] = {x}")
    if name == "arrival_times":
        ob("every source has a request", rat(len(arr)) == val(q, "m"), f"{len(arr)} requests")
        ob("every source thinks", val(q, "sources_left") == val(q, "m"), f"sources_left = {val(q, 'sources_left')}")


def verdict(r):
    return True if r.is_zero() else None if opaque(r) else False


def zero_(r):
    return RD.zero(r)


# ----------------------------------------------------------------------------- what a simulator reports
REPORT = '''
from most_queue.sim.{mod} import {cls}
def drive(n, p, T, a, b, c):
    q = {cls}({args})
    q.p = p
    q.num_of_states = 3
    q.ttek = T
    return q.{what}
'''
RUN = '''
from most_queue.sim.{mod} import {cls}
class Probe({cls}):
    def run_one_step(self):
        self.steps = self.steps + 1
        if self.steps % 2 == 0:
            {serve}
def drive(n, total, real):
    q = Probe({args})
    q.steps = 0
    q.run(total, real)
    return q.steps
'''


def reports(ctx, rep, tier):
    """probabilities are occupation times over simulated time; a run goes on until the requested number of jobs is served (or of events is handled)"""
    sym = Sym(ctx.prog)
    p = [RD.S(f"p{i}") for i in range(3)]
    T, a, b, c = (RD.S(x) for x in "Tabc")
    for cls, (mod, args, body) in RR.SIMS.items():
        prio = cls.startswith("Priority")
        if cls == "QueueingFiniteSourceSim":
            args = "n, 2"

        def run(cls=cls, mod=mod, args=args, prio=prio):
            ip, st = sym.ip(), State()
            for x in (T, a, b, c):
                ip.assume_cmp(st, ">", x)
            pv = [p, p[::-1]] if prio else p
            _, res = sym.drive(REPORT.format(cls=cls, mod=mod, args=args, what="get_p()"), [rat(2), pv, T, a, b, c], ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            for s, v in res:
                if "raise" in s.flags:
                    rep.ob("state probability = time in the state / simulated time", cls, False, "get_p raises")
                    continue
                rows = items(ip, s, v)
                if rows is None:
                    rep.ob("state probability = time in the state / simulated time", cls, None)
                    continue
                if prio:
                    got = [y for r in rows for y in (items(ip, s, r) or [None])]
                    want = p + p[::-1]
                else:
                    got, want = rows, p
                rep.ob("one probability per state", cls, len(got) == len(want), f"{len(got)} probabilities for {len(want)} states")
                for i, (g, w) in enumerate(zip(got, want)):
                    rep.ob("state probability = time in the state / simulated time", f"{cls}|{i}",
                           RD.decided(g - w / T) if isinstance(g, Rat) else None, f"probability {i} is {g}, expected {w / T}")
        rep.guard(cls, run)
        serve = "self.served[0] = self.served[0] + 1" if prio else "self.served = self.served + 1"

        def steps(cls=cls, mod=mod, args=args, serve=serve):
            for total, real, want in ((1, True, 2), (3, True, 6), (3, False, 3)):
                ip, st = sym.ip(), State()
                _, res = sym.drive(RUN.format(cls=cls, mod=mod, args=args, serve=serve), [rat(2), rat(total), real], ip=ip, st=st)
                for s, v in res:
                    if "raise" in s.flags:
                        continue
                    k = v.const() if isinstance(v, Rat) else v
                    rep.ob("a run ends with the last requested job" if real else "a run handles the requested number of events", f"{cls}",
                           None if k is None else k == want, f"{k} events for {total} {'jobs' if real else 'events'}, expected {want}")
        rep.guard(cls, steps)
    phases(ctx, rep, sym, T)


PHASE = '''
from most_queue.sim.qs_sim import QueueingSystemSimulator
def drive(n, T, a, b, c, what):
    q = QueueingSystemSimulator(n)
    q.ttek = T
    q.warm_phase.prob = a
    q.cold_phase.prob = b
    q.cold_delay_phase.prob = c
    if what == 0:
        return q.get_warmup_prob()
    if what == 1:
        return q.get_cold_prob()
    return q.get_cold_delay_prob()
'''


def phases(ctx, rep, sym, T):
    xs = [RD.S(x) for x in "abc"]
    for i, x in enumerate(xs):
        def run(i=i, x=x):
            ip, st = sym.ip(), State()
            for y in (T, *xs):
                ip.assume_cmp(st, ">", y)
            _, res = sym.drive(PHASE, [rat(2), T, *xs, rat(i)], ip=ip, st=st)
            for s, v in res:
                rep.ob("phase probability = time in the phase / simulated time", ("warm-up", "cooling", "cooling delay")[i],
                       RD.decided(v - x / T) if isinstance(v, Rat) else None, f"returns {v}, expected {x / T}")
        rep.guard(f"phase {i}", run)


# ----------------------------------------------------------------------------- networks
NETSIM = '''
from most_queue.sim.priority_network import PriorityNetwork
from most_queue.sim.priority_queue_sim import Task
import numpy as np
def drive(K, L, R, n, prty, serv, order):
    q = PriorityNetwork(K, L, [np.array(x) for x in R], n, prty, serv, order)
    times = []
    for node in q.smos:
        row = []
        for ch in node.servers:
            kinds = []
            for o in range(K):
                ts = Task(0, 0, True)
                ts.in_node_class_num = o
                ch.start_service(ts, 0, None, True)
                kinds.append(ch.time_to_end_service)
                ch.end_service()
            row.append(kinds)
        times.append(row)
    zero = [q.ttek, q.total] + list(q.served) + list(q.in_sys) + list(q.arrived)
    for k in range(K):
        zero = zero + list(q.v_network[k]) + list(q.w_network[k])
    again = [s.generate() for s in q.sources]
    return [times, list(q.arrival_time), again, [s.prty_type for s in q.smos], [s.n for s in q.smos], [s.k for s in q.smos], [s.free_channels for s in q.smos], zero]
'''


def network_start(ctx, rep, tier):
    """node m serves the class of priority o with the parameters of the class that has priority o in node m, on its own channels"""
    from .rules_theory import py
    from .matinterp import MatInterp
    sym = Sym(ctx.prog, interp=MatInterp)
    cases = [(2, [[0, 1], [1, 0]], [1, 2], ["PR", "NP"]), (3, [[1, 2, 0], [2, 0, 1]], [2, 1], ["RS", "RW"]), (1, [[0], [0]], [1, 1], ["NP", "PR"])]
    for K, order, n, prty in cases:
        label = f"network of 2 nodes and {K} classes"

        def run(K=K, order=order, n=n, prty=prty, label=label):
            ip, st = sym.ip(), State()
            L = [RD.S(f"L{k}") for k in range(K)]
            mu = [[RD.S(f"mu{m}{k}") for k in range(K)] for m in range(2)]
            for x in L + [y for r in mu for y in r]:
                ip.assume_cmp(st, ">", x)
            serv = []
            for m in range(2):
                serv.append(ip.new_list(st, [ip.mk_dict(st, {"type": "M", "params": mu[m][k]}) for k in range(K)]))
            Rm = [[rat(1), rat(0), rat(0)], [rat(0), rat(1) / 2, rat(1) / 2], [rat(1) / 3, rat(0), rat(2) / 3]]
            _, res = sym.drive(NETSIM, [rat(K), L, [Rm] * K, [rat(x) for x in n], prty, ip.new_list(st, serv), [[rat(x) for x in r] for r in order]], ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            rep.count("paths", len(res))
            for s, v in res:
                if "raise" in s.flags:
                    rep.ob("a network can be built", label, False, "the constructor raises")
                    continue
                v = py(ip, s, v)
                if not (isinstance(v, list) and len(v) == 8 and all(isinstance(x, list) for x in v)):
                    rep.ob("a network can be built", label, None, str(v)[:200])
                    continue
                times, first, again, kinds, ns, ks, free, zero = v

                def num(rule, got, want):
                    ok = all(isinstance(g, Rat) for g in got)
                    rep.ob(rule, label, len(got) == len(want) and all(g == w for g, w in zip(got, want)) if ok else None, f"{[str(g) for g in got]}, expected {want}")
                num("every node has its own number of channels", [rat(len(r)) if isinstance(r, list) else r for r in times], [rat(x) for x in n])
                num("every node knows its number of channels", ns, [rat(x) for x in n])
                num("every node distinguishes all classes", ks, [rat(K)] * 2)
                num("a new network is idle", free, [rat(x) for x in n])
                rep.ob("every node has its own kind of priority", label, kinds == prty if all(isinstance(k, str) for k in kinds) else None, f"{kinds}")
                ok = all(isinstance(z, Rat) for z in zero)
                rep.ob("a new network is empty", label, all(z.is_zero() for z in zero) if ok else None, f"{[str(z) for z in zero]}")
                law("an external arrival of a class comes at its own rate", first, [ONE / x for x in L])
                law("an external arrival of a class comes at its own rate", again, [ONE / x for x in L])
                for m in range(2):
                    for row in times[m] if isinstance(times[m], list) else []:
                        want = [None] * K
                        for k in range(K):
                            want[order[m][k]] = ONE / mu[m][k]
                        law("a node serves the class with a priority by the parameters of that class", row, want)

        def law(rule, got, means, label=label):
            if not isinstance(got, list) or len(got) != len(means):
                rep.ob(rule, label, None if not isinstance(got, list) else False, f"{got}")
                return
            for i, (x, mean) in enumerate(zip(got, means)):
                try:
                    ok = all(zero_(moment(x, k, State().facts) - rat(k) * mean ** k) for k in (1, 2)) if isinstance(x, Rat) else None
                except Unknown:
                    ok = None
                rep.ob(rule, label, ok, f"{rule}: draw {i} is {x}, expected mean {mean}")
        rep.guard(label, run)
