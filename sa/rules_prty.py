"""Rules over the abstract transitions of the priority-queue simulator (alone and as a node of a network)."""
from . import alg
from .simcore import *
from .alg import rat, R, ZERO, ONE, atom, contains_atom, deep_subst
from . import rules_sim as RS
from .rules_sim import opaque, verdict_zero, start_effects, sites, total_delta, stat_groups, decompose, counter_of, \
    counter_loc, full_range, leq, opaque_facts
from .model import AnalysisBroken

MOD, CLS = "most_queue.sim.priority_queue_sim", "PriorityQueueSimulator"
MODES = ("NP", "PR", "RS", "RW", "No")
PREEMPT = ("PR", "RS", "RW")
SERVERS, QUEUE, SOURCES = fld(ME, "servers"), fld(ME, "queue"), fld(ME, "sources")
NOW, TS, CLSARG, CH = R("var", "moment"), R("var", "ts"), R("var", "k"), R("var", "c")


def sims():
    out = {}

    def setup(mode, net):
        def f(ip, st):
            common_setup(ip, st)
            st.heap[(ME, "prty_type")] = mode
            st.heap[(ME, "is_next_calc")] = False
            if mode != "No":
                st.heap[(fld(ME, "queue"), "#len")] = F("k")
            st.heap[(fld(ME, "arrival_time"), "#len")] = F("k")
            ip.assume_cmp(st, ">=", F("k") - 1)
            if net:
                ip.assume_cmp(st, ">", NOW)
                for x in (NOW, TS):
                    st.facts.t[("bool", x)] = True
                    st.facts.t[("isnone", x)] = False
                ip.assume_cmp(st, ">=", CLSARG)
                ip.assume_cmp(st, "<", CLSARG - F("k"))
                ip.assume_cmp(st, ">=", CH)
                ip.assume_cmp(st, "<", CH - F("n"))
                st.heap[(ME, "is_warm_up_set")] = False
        return f

    def idle(ip, st):
        ip.assume_cmp(st, ">=", F("free_channels") - 1)

    def busy(ip, st):
        ip.assume_cmp(st, "==", F("free_channels"))
    regions = {"idle server": idle, "all servers busy": busy}

    def add(name, mode, net, **kw):
        s = Sim(name, MOD, CLS, regions, setup=setup(mode, net), ints=("k", "c"), **kw)
        s.family, s.mode, s.net, s.phases, s.w_mode = "prio", mode, net, False, None
        s.population = "in_sys"
        s.jobclass = "in_node_class_num" if net else "k"
        out[name] = s
    for m in MODES:
        add(f"priority-{m}", m, False)
        add(f"node-{m}-arrival", m, True, step="arrival", args=lambda ip, st: [CLSARG, NOW, TS])
        add(f"node-{m}-completion", m, True, step="serving", args=lambda ip, st: [CH, True])
    return out


NAMES = [f"priority-{m}" for m in MODES] + [f"node-{m}-{x}" for m in MODES for x in ("arrival", "completion")]


# ----------------------------------------------------------------------------- description of a transition
class D:
    """kind of event, class of the job, server"""

    def __init__(self, s, t):
        self.s, self.t = s, t
        self.now = t.get("ttek")
        self.kind = self.cls = self.server = None
        a = self.now.as_atom() if isinstance(self.now, Rat) else None
        if a is not None:
            if a.kind == "idx" and a.args[0] is fld(ME, "arrival_time"):
                self.kind, self.cls = "arrival", a.args[1]
            elif rat(a) == NOW:
                self.kind, self.cls = "arrival", CLSARG
            elif a.kind == "fld" and a.args[1] == "time_to_end_service" and a.args[0].kind == "idx" and a.args[0].args[0] is SERVERS:
                self.kind, self.server = "completion", a.args[0]
                self.job = fld(self.server, "tsk_on_service")
                self.cls = self.norm(rat(fld(self.job, s.jobclass)))
        self.top = [e for e in t.st.trace if not isinstance(e, LoopEv)]
        self.where = f"{s.name}|{self.kind}|{t.region}"

    def norm(self, r):
        """class recorded on a server = class of the job in service; class of a waiting job = its queue"""
        if not isinstance(r, Rat):
            return r
        mp = {}

        def visit(a):
            if a.kind == "fld" and a.args[1] == "class_on_service":
                mp[a] = rat(fld(fld(a.args[0], "tsk_on_service"), self.s.jobclass))
            elif a.kind == "fld" and a.args[1] == self.s.jobclass and a.args[0].kind == "idx":
                q = a.args[0].args[0]
                if q.kind == "idx" and q.args[0] is QUEUE and self.s.mode != "No":
                    mp[a] = q.args[1]
            return False
        contains_atom(r, visit)
        return deep_subst(r, mp) if mp else r

    def same(self, a, b):
        """are two class numbers equal: True / False / None"""
        a, b = self.norm(a), self.norm(b)
        if not isinstance(a, Rat) or not isinstance(b, Rat):
            return None
        return verdict_zero(self.t, a - b)

    def ev(self, *kinds):
        return [e for e in self.top if e.kind in kinds]

    def cells(self, field):
        """{class: change} of a per-class counter"""
        t, base = self.t, fld(ME, field)
        if t.st.templates.get(base, ()):
            return None
        if t.get(field) != rat(base):
            return None
        out = {}
        for k, v in t.cells(base).items():
            if not isinstance(v, Rat):
                return None
            d = v - t.ip.elem_addr_value(t.st0, base, k)
            if not d.is_zero():
                out[self.norm(k)] = d
        return out


def each(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        d = D(s, t)
        if d.kind is None:
            rep.ob("the event is recognised", f"{s.name}|{t.region}", None if opaque(d.now) else False,
                   f"the clock becomes {d.now}, which is neither a pending arrival nor a completion", sites(t))
            continue
        if d.kind == "completion" and t.decide("==", F("free_channels") - F("n")) is True:
            continue
        yield s, t, d


def only(rep, d, field, want, rule, msg):
    """the per-class counter changes exactly by want = {class: delta}"""
    c = d.cells(field)
    if c is None:
        rep.ob(rule, d.where, None)
        return
    bad = None
    left = dict(c)
    for k, dv in want.items():
        got = None
        for kk in list(left):
            if d.same(kk, k) is True:
                got = left.pop(kk)
        got = ZERO if got is None else got
        z = verdict_zero(d.t, got - dv)
        if z is not True:
            bad = (z, f"{msg}: {field}[{k}] changes by {got}, expected {dv}")
    for kk, v in left.items():
        z = None if opaque(kk) or opaque(v) else False
        if verdict_zero(d.t, v) is not True:
            bad = (z, f"{msg}: {field}[{kk}] changes by {v}")
    rep.ob(rule, d.where, True if bad is None else bad[0], bad[1] if bad else "", sites(d.t))


# ----------------------------------------------------------------------------- P01
def conservation(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        q, b = t.ghost("#q"), t.ghost("#busy")
        if d.kind == "arrival":
            only(rep, d, "arrived", {d.cls: ONE}, "an arrival is counted once, in its class", "arrival")
            drops = d.cells("dropped")
            lost = ZERO
            if drops is not None:
                for k, v in drops.items():
                    lost = lost + v
                only(rep, d, "dropped", {d.cls: lost} if drops else {}, "a refused job is counted in its class", "arrival")
                rep.ob("at most one job is refused per arrival", d.where, True if verdict_zero(t, lost) or verdict_zero(t, lost - 1)
                       else (None if opaque(lost) else False), f"{lost} jobs refused", sites(t))
                only(rep, d, "in_sys", {d.cls: ONE - lost}, "the population of the class counts its jobs", "arrival")
            only(rep, d, "served", {}, "only completions count served jobs", "arrival")
            pop = ONE - lost
        else:
            only(rep, d, "arrived", {}, "only arrivals count arrivals", "completion")
            only(rep, d, "dropped", {}, "only arrivals are refused", "completion")
            only(rep, d, "served", {d.cls: ONE}, "a completion is counted once, in the class of the finished job", "completion")
            only(rep, d, "in_sys", {d.cls: rat(-1)}, "the population of the class counts its jobs", "completion")
            tot = t.delta("total")
            rep.ob("the total counts completions", d.where, verdict_zero(t, tot - 1) if isinstance(tot, Rat) else None,
                   f"total changes by {tot}", sites(t))
            pop = rat(-1)
        rep.ob("in-system = waiting + in service", d.where, verdict_zero(t, pop - q - b),
               f"population changes by {pop}, waiting by {q}, busy servers by {b}", sites(t))
        fc = t.delta("free_channels")
        rep.ob("free-server counter follows the servers", d.where, verdict_zero(t, fc + b) if isinstance(fc, Rat) else None,
               f"free-server counter changes by {fc}, busy servers by {b}", sites(t))
        for e in d.ev("start"):
            srv, prev, db = e.data
            f = e.facts or t.facts
            v = True if prev is True else False if prev is False else None
            if v is None:
                if t.decide("==", F("free_channels") - F("n"), f) is True:
                    v = True
                else:
                    v = None if opaque(srv) and not contains_atom(srv, lambda a: a.kind in ("loopidx", "argmin")) else False
            rep.ob("service starts only on an idle server", d.where, v, f"service starts on {srv} without evidence that it is idle",
                   [e.where])
        for e in d.ev("end"):
            rep.ob("only a busy server finishes", d.where, e.data[1] is not True, f"{e.data[0]} is released although idle", [e.where])
        for e in d.top:
            if e.kind in ("qclear", "qremove", "requeue", "qextend", "odd_is_free"):
                rep.ob("jobs join and leave the queues one by one", d.where, None if e.kind == "odd_is_free" else False,
                       f"{e.kind} on {e.data[0]}", [e.where])


# ----------------------------------------------------------------------------- P02
def is_new(d, v):
    """the arriving job"""
    if not isinstance(v, Rat):
        return False
    if d.s.net:
        return v == TS
    a = v.as_atom()
    return a is not None and a.kind == "obj"


def queue_class(d, e):
    """class of the queue of a queue event (None: the shared queue)"""
    return e.data[1]


def discipline(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        starts, ends = d.ev("start"), d.ev("end")
        app, pops = d.ev("qappend", "qinsert"), d.ev("qpop")
        assign = d.ev("assign")
        lost = any(v.const() != 0 for v in (d.cells("dropped") or {}).values())
        own = {e.data[0]: e.data[1] for e in assign}
        if d.kind == "arrival":
            newq = [e for e in app if is_new(d, e.data[3])]
            newstart = [e for e in starts if is_new(d, own.get(e.data[0]))]
            oldq = [e for e in app if e not in newq]
            n_out = len(newq) + len(newstart) + (1 if lost else 0)
            rep.ob("an arriving job is served, queued or refused", d.where, n_out == 1 or (None if unresolved(d) else False),
                   f"the arriving job starts {len(newstart)} times, is queued {len(newq)} times, refused: {lost}", sites(t))
            rep.ob("only the arriving job is served or queued at an arrival", d.where,
                   len(starts) == len(newstart) and not pops or (None if unresolved(d) else False),
                   "another job starts service or leaves the queue at an arrival", sites(t))
            if t.region == "idle server":
                rep.ob("an idle server takes the arriving job at once", d.where, len(newstart) == 1 or (None if unresolved(d) else False),
                       "a server is idle but the arriving job does not start service", sites(t))
                rep.ob("no job is interrupted while a server is idle", d.where, not ends, "a job is interrupted although a server is idle",
                       [e.where for e in ends])
                continue
            # saturated
            for e in newq:
                if s.mode == "No":
                    v = rat(QUEUE) == e.data[0]
                    rep.ob("a waiting job joins the single queue", d.where, v or (None if opaque(e.data[0]) else False),
                           f"job queued in {e.data[0]}", [e.where])
                else:
                    v = d.same(e.data[1], d.cls) if isinstance(e.data[1], Rat) else False
                    rep.ob("a waiting job joins the queue of its class", d.where, v, f"a job of class {d.cls} joins {e.data[0]}", [e.where])
                rep.ob("a new waiting job joins the end of the queue", d.where, at_end(e), f"job inserted at {e.data[2]} of {e.data[4]}",
                       [e.where])
                buffer_ok(rep, s, t, d, e, False)
            for e in d.ev("drop"):
                buffer_ok(rep, s, t, d, e, True)
            weaker = no_weaker(d)
            if s.mode in PREEMPT:
                if newq or lost:
                    rep.ob("a job waits only when no job of a lower class is in service", d.where, weaker,
                           f"a job of class {d.cls} waits without evidence that no job of a lower class is in service", sites(t))
                if newstart:
                    preempt_ok(rep, s, t, d, newstart[0], ends, oldq)
            else:
                rep.ob("service is not interrupted", d.where, not ends and not newstart,
                       "a job in service is interrupted although the discipline does not preempt", sites(t))
        else:
            rep.ob("one server finishes per completion", d.where, len(ends) == 1 and ends[0].data[0] == rat(d.server) or
                   (None if unresolved(d) else False), f"servers released: {[str(e.data[0]) for e in ends]}", sites(t))
            rep.ob("a completion queues no job", d.where, not app, "a job joins a queue at a completion", [e.where for e in app])
            rep.ob("a freed server takes at most one job", d.where, len(starts) <= 1 and len(pops) == len(starts) or
                   (None if unresolved(d) else False), f"{len(pops)} jobs leave the queue, {len(starts)} start", sites(t))
            for e in starts:
                rep.ob("the freed server takes the next job", d.where, verdict_same(t, e.data[0], rat(d.server)),
                       f"{e.data[0]} starts instead of {d.server}", [e.where])
            if len(pops) == 1 and len(starts) == 1:
                p = pops[0]
                j = own.get(starts[0].data[0])
                rep.ob("the job taken from the queue is the one served", d.where,
                       isinstance(j, Rat) and j == p.data[3] or (None if not isinstance(j, Rat) or opaque(j) else False),
                       f"{p.data[3]} leaves the queue, {j} starts", [starts[0].where])
                rep.ob("jobs of a class leave in order", d.where, at_front(t, p), f"the job taken is at position {p.data[2]}", [p.where])
                if s.mode != "No":
                    rep.ob("the highest waiting class is served first", d.where, *highest(d, p))
            elif not pops and not unresolved(d):
                rep.ob("no server idles while a job waits", d.where, *queues_empty(d))


def unresolved(d):
    """events inside loops that were not attributed to one iteration"""
    for e in d.t.st.trace:
        if isinstance(e, LoopEv):
            for evs, ex in e.alts:
                if ex == "next" and any((not isinstance(x, LoopEv)) and x.kind in ("start", "end", "qpop", "qappend", "qinsert") for x in evs):
                    return True
    return False


def verdict_same(t, a, b):
    if a == b:
        return True
    if opaque(a) or opaque(b):
        return None
    return False


def at_end(e):
    if e.kind == "qappend":
        return True
    return (e.data[2] - e.data[4]).is_zero() if isinstance(e.data[2], Rat) and isinstance(e.data[4], Rat) else None


def at_front(t, e):
    p = e.data[2]
    if not isinstance(p, Rat):
        return None
    v = t.decide("==", p)
    if v is not None:
        return v
    return None if opaque(p) else False


def class_template(d, x):
    """server key when x is the class of the job on servers[bv]"""
    x = d.norm(x)
    a = x.as_atom() if isinstance(x, Rat) else None
    if a is not None and a.kind == "fld" and a.args[1] == d.s.jobclass:
        b = a.args[0]
        if b.kind == "fld" and b.args[1] == "tsk_on_service" and b.args[0].kind == "idx" and b.args[0].args[0] is SERVERS:
            return b.args[0]
    return None


def no_weaker(d):
    """evidence that the class of every job in service is at most the class of the arriving job"""
    for v, tmpl, src in d.t.facts.minall:
        m = class_template(d, -tmpl)
        if m is not None and full_range(d.t, src, F("n"), SERVERS):
            x = d.norm(-v)          # max class in service <= x
            if d.same(x, d.cls) is True or leq(d.t, x, d.cls) is True:
                return True
    for src, c, truth in d.t.facts.foralls:
        if c[0] == "cmp" and truth is True and full_range(d.t, src, F("n"), SERVERS):
            m, k = split_cmp(d, c)
            if m is not None and k is True:
                return True
    return None if opaque_facts(d.t) else False


def split_cmp(d, c):
    """('cmp', key, lo, los, hi, his): does it say class(servers[bv]) <= class of the arriving job"""
    key = d.norm(c[1])
    for sg in (1, -1):
        x = key * sg
        bnd = c[4] if sg == 1 else (None if c[2] is None else -c[2])
        y = x + d.norm(d.cls)
        if class_template(d, y) is not None:
            return y, bnd is not None and bnd <= 0
    return None, None


def preempt_ok(rep, s, t, d, start, ends, oldq):
    srv = start.data[0]
    a = srv.as_atom()
    ok = len(ends) == 1 and ends[0].data[0] == srv
    rep.ob("the new job takes the server of the interrupted job", d.where, ok or (None if unresolved(d) else False),
           f"released {[str(e.data[0]) for e in ends]}, started {srv}", sites(t))
    if not ok:
        return
    vcls = d.norm(rat(fld(fld(a, "tsk_on_service"), s.jobclass)))
    lower = t.decide(">", vcls - d.cls, t.facts)
    if lower is None:
        lower = None if opaque(vcls) or opaque_facts(t) else False
    rep.ob("only a job of a lower class is interrupted", d.where, lower, f"a job of class {vcls} is interrupted by class {d.cls}",
           [ends[0].where])
    best = None
    for v, tmpl, src in t.facts.minall:
        m = class_template(d, -tmpl)
        if m is not None and full_range(t, src, F("n"), SERVERS):
            if d.same(-v, vcls) is True:
                best = True
    if best is None:
        best = None if opaque(srv) and not contains_atom(srv, lambda q: q.kind == "argmin") or opaque_facts(t) else False
    rep.ob("the job interrupted is of the lowest class in service", d.where, best,
           f"the interrupted job on {srv} is not shown to be of the lowest class in service", [ends[0].where])
    vic = fld(a, "tsk_on_service")
    back = [e for e in oldq if e.data[3] == rat(vic)]
    rep.ob("the interrupted job returns to a queue", d.where, len(back) == 1 and len(oldq) == 1 or (None if unresolved(d) else False),
           f"the interrupted job is queued {len(back)} times", sites(t))
    for e in back:
        v = d.same(e.data[1], vcls) if isinstance(e.data[1], Rat) else False
        rep.ob("the interrupted job returns to the queue of its class", d.where, v, f"it joins {e.data[0]}", [e.where])


def highest(d, p):
    """all queues of higher classes are empty when the job is taken"""
    K, t = p.data[1], d.t
    site = [p.where]
    msg = f"a job of class {K} is taken without evidence that no job of a higher class waits"
    if not isinstance(K, Rat):
        return None if opaque_facts(t) else False, msg, site
    tmpl = R("len", atom("idx", QUEUE, rat(atom("bv", 0))))
    for src, c, truth in t.facts.foralls:
        if c[0] != "cmp" or truth is not True or c[1] != tmpl or c[4] is None or c[4] > 0:
            continue
        if isinstance(src, Tup) and src.items[0] == "prior" and d.same(src.items[2], K) is True:
            lo = src.items[1]
            if lo.is_zero():
                return True, msg, site
            # preemption keeps every class above the one in service empty
            if d.s.mode in PREEMPT and d.same(lo, d.cls) is True:
                return True, msg, site
            return (None if opaque(lo) else False), f"classes below {lo} are not examined", site
    for v, tm, src in t.facts.minall:
        if tm == rat(atom("bv", 0)) and d.same(v, K) is True:
            return True, msg, site
    if contains_atom(K, lambda a: a.kind == "loopidx"):
        return False, msg, site
    if t.decide("==", K) is True:
        return True, msg, site
    return (None if opaque(K) or opaque_facts(t) else False), msg, site


def queues_empty(d):
    t = d.t
    msg = "a server stays idle without evidence that every queue is empty"
    if t.region == "idle server":
        return True, msg      # jobs wait only while every server is busy
    if d.s.mode == "No":
        v = t.decide("<=", R("len", QUEUE))
        return (v if v is not None else False), msg, sites(t)
    tmpl = R("len", atom("idx", QUEUE, rat(atom("bv", 0))))
    for src, c, truth in t.facts.foralls:
        if c[0] != "cmp" or truth is not True or c[1] != tmpl or c[4] is None or c[4] > 0 or not isinstance(src, tuple):
            continue
        if src[0] == "list" and full_range(t, src, F("k"), QUEUE):
            return True, msg
        if src[0] == "range" and ((src[2] - F("k")).is_zero() or src[2] == R("len", QUEUE)):
            if src[1].is_zero() or d.s.mode in PREEMPT and d.same(src[1], d.cls) is True:
                return True, msg
    tot = [k for k in t.facts.b if is_total(d, k)]
    for k in tot:
        if t.decide("<=", k) is True:
            return True, msg
    return (None if opaque_facts(t) else False), msg, sites(t)


def is_total(d, r):
    """total number of waiting jobs"""
    if d.s.mode == "No":
        return r == R("len", QUEUE)
    a = r.as_atom() if isinstance(r, Rat) else None
    if a is None or a.kind != "loopsum":
        return False
    tmpl = R("len", atom("idx", QUEUE, rat(atom("bv", 0))))
    hi = a.args[2]
    return a.args[0] == tmpl and a.args[1].is_zero() and (hi == R("len", QUEUE) or hi == F("k")) and len(a.args) == 3


def buffer_ok(rep, s, t, d, e, refused):
    for f, where in e.every():
        buffer_path(rep, s, t, d, e, refused, f or t.facts, where)


def buffer_path(rep, s, t, d, e, refused, f, where):
    buf = F("buffer")
    none = f.t.get(("isnone", buf))
    rule = "a job is refused only when the buffer is full" if refused else "a job waits only when the buffer has room"
    v = None
    if none is True:
        v = not refused
    else:
        tot = []
        for k in f.b:
            if buf.as_atom() in k.atoms():
                for sg in (1, -1):
                    x = k * sg + buf
                    if is_total(d, x):
                        tot.append(x)
        for x in tot:
            v = t.decide(">=" if refused else "<", x - buf, f)
            if v is not None:
                break
        if v is None:
            v = None if opaque_facts_except_total(d, f) else False
    rep.ob(rule, d.where, v, "no test of the number of waiting jobs against the buffer supports this", [where])


def opaque_facts_except_total(d, f):
    for k in f.b:
        if opaque(k) and not any(is_total(d, x) for x in (k, k + F("buffer"), F("buffer") - k)):
            return True
    return False


# ----------------------------------------------------------------------------- P03
def service_times(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        assign = {}
        for e in d.top:
            if e.kind == "assign":
                assign[e.data[0]] = e.data[1]
            if e.kind != "start":
                continue
            srv = e.data[0]
            a = srv.as_atom()
            job = assign.get(srv)
            if not isinstance(job, Rat) or a is None:
                rep.ob("the job in service is recorded", d.where, None if a is None or unresolved(d) else False,
                       f"service starts on {srv} without recording the job", [e.where])
                continue
            clk = [x for x in d.top if x.kind == "clock" and x.data[0] == srv]
            v = clk[-1].data[1] if clk else None
            if not isinstance(v, Rat):
                rep.ob("service time", d.where, False if not clk else None, "the end of service is not set", [e.where])
                continue
            x = v - d.now
            tot = t.load(a, "total_time_to_serve")
            if s.mode == "RW":
                rep.ob("the server keeps the service time of the job", d.where,
                       verdict_zero(t, tot - x) if isinstance(tot, Rat) else None,
                       f"service lasts {x} but {tot} is recorded", [e.where])
            c = t.load(a, "class_on_service")
            jc = d.cls if is_new(d, job) and d.kind == "arrival" else d.norm(rat(fld(job.as_atom(), s.jobclass)))
            rep.ob("the class in service is that of the job", d.where, d.same(c, jc) if isinstance(c, Rat) else None,
                   f"class {c} recorded for a job of class {jc}", [e.where])
            if is_new(d, job) and d.kind == "arrival":
                fresh_class(rep, d, x, a, jc, e, "a new job gets a fresh service time of its class")
            else:
                ja = job.as_atom()
                pr = rat(fld(ja, "is_pr"))
                flag = (e.facts or t.facts).t.get(("bool", pr))
                if flag is True:
                    rep.ob("an interrupted job resumes with its stored time", d.where,
                           verdict_zero(t, x - rat(fld(ja, "time_to_end_service"))), f"service lasts {x}", [e.where])
                elif flag is False:
                    fresh_class(rep, d, x, a, jc, e, "a job not interrupted gets a fresh service time of its class")
                else:
                    fresh = isinstance(x.as_atom(), Atom) and x.as_atom().kind == "sample"
                    if s.mode in PREEMPT:
                        rep.ob("an interrupted job resumes with its stored time", d.where, None if opaque_facts(t) else False,
                               f"service lasts {x} whether or not the job was interrupted", [e.where])
                    else:
                        fresh_class(rep, d, x, a, jc, e, "a job not interrupted gets a fresh service time of its class")
        for e in d.ev("end"):
            a = e.data[0].as_atom()
            if any(x.kind == "start" and x.data[0] == e.data[0] for x in d.top):
                continue
            v = t.load(a, "time_to_end_service")
            ok = isinstance(v, Rat) and v.const() is not None and v.const() >= 10 ** 9
            rep.ob("a released server has no pending completion", d.where, ok, f"completion time {v} is kept", [e.where])
        if d.kind == "arrival":
            new = [e.data[1] for e in d.top if e.kind == "assign" and is_new(d, e.data[1])] + \
                  [e.data[3] for e in d.top if e.kind in ("qappend", "qinsert") and is_new(d, e.data[3])]
            for j in new[:1]:
                f = t.load(j.as_atom(), "is_pr")
                rep.ob("a new job counts as not interrupted", d.where, f is False or (isinstance(f, Rat) and f.is_zero()) or
                       (None if isinstance(f, Rat) and opaque(f) else False), f"is_pr = {f}", sites(t))
            if s.mode in PREEMPT:
                for e in d.ev("end"):
                    a = e.data[0].as_atom()
                    vic = fld(a, "tsk_on_service")
                    vcls = d.norm(rat(fld(vic, s.jobclass)))
                    x = t.load(vic, "time_to_end_service")
                    rep.ob("an interrupted job is marked as such", d.where, t.load(vic, "is_pr") is True, "is_pr is not set", [e.where])
                    if s.mode == "PR":
                        rep.ob("preemptive resume keeps the remaining service time", d.where,
                               verdict_zero(t, x - (rat(fld(a, "time_to_end_service")) - d.now)) if isinstance(x, Rat) else None,
                               f"the interrupted job keeps {x}", [e.where])
                    elif s.mode == "RW":
                        rep.ob("preemptive repeat keeps the whole service time", d.where,
                               verdict_zero(t, x - rat(fld(a, "total_time_to_serve"))) if isinstance(x, Rat) else None,
                               f"the interrupted job keeps {x}", [e.where])
                    elif s.mode == "RS":
                        fresh_class(rep, d, x, a, vcls, e, "preemptive repeat draws a new service time of the interrupted class")


def fresh_class(rep, d, x, srv, cls, e, rule):
    t = d.t
    a = x.as_atom() if isinstance(x, Rat) else None
    v = None
    if a is not None and a.kind == "sample":
        src = a.args[0]
        if src.kind == "idx" and src.args[0].kind == "fld" and src.args[0].args[1] == "dist":
            own = src.args[0].args[0]
            v = d.same(src.args[1], cls)
            if v is True and not (own.kind == "idx" and own.args[0] is SERVERS):
                v = None
        elif src.kind == "idx" and src.args[0] is fld(ME, "warm_up") and d.kind == "arrival":
            v = d.same(src.args[1], cls)
            if v is True and t.decide("==", F("free_channels") - F("n")) is not True:
                v = False
        else:
            v = False
    elif isinstance(x, Rat):
        v = None if opaque(x) else False
    rep.ob(rule, d.where, v, f"service time {x} for a job of class {cls}", [e.where])


# ----------------------------------------------------------------------------- P04
def time_accounting(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        p = fld(ME, "p")
        if not isinstance(d.cls, Rat):
            continue
        told = t.ip.elem_addr_value(t.st0, fld(ME, "t_old"), d.cls)
        n0 = t.ip.elem_addr_value(t.st0, fld(ME, "in_sys"), d.cls)
        tot, odd, unk = ZERO, None, False
        for (a, k), v in t.st.heap.items():
            if isinstance(a, Atom) and a.kind == "idx" and a.args[0] is p and isinstance(k, Rat):
                if not isinstance(v, Rat):
                    unk = True
                    continue
                dv = v - R("idx", a, k)
                if dv.is_zero():
                    continue
                if d.same(a.args[1], d.cls) is True and verdict_zero(t, d.norm(k) - d.norm(n0)) is True:
                    tot = tot + dv
                else:
                    odd = (a.args[1], k)
        rep.ob("only the state left by the class of the event is credited", d.where, (None if odd and (opaque(odd[0]) or opaque(odd[1])) else
               odd is None), f"time is credited to state {odd}", sites(t))
        rep.ob("credited time = time since the previous event of the class", d.where,
               None if unk else verdict_zero(t, d.norm(tot) - d.norm(d.now - told)),
               f"state {n0} of class {d.cls} is credited {tot}, elapsed {d.now - told}", sites(t))
        c = d.cells("t_old")
        if c is None:
            rep.ob("accounting clock of the class = simulation clock", d.where, None)
        else:
            v = t.ip.elem_addr_value(t.st, fld(ME, "t_old"), d.cls)
            raw = [x for k, x in t.cells(fld(ME, "t_old")).items() if d.same(k, d.cls) is True]
            v = raw[0] if raw else v
            rep.ob("accounting clock of the class = simulation clock", d.where, verdict_zero(t, d.norm(v) - d.norm(d.now)),
                   f"accounting clock set to {v}", sites(t))
            others = [k for k in c if d.same(k, d.cls) is not True]
            rep.ob("accounting clocks of other classes are kept", d.where, not others or (None if any(map(opaque, others)) else False),
                   f"the accounting clock of class {others} moves", sites(t))


# ----------------------------------------------------------------------------- P05
def statistics(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        groups = [g for g in stat_groups(t) if g[0] in ("v", "w") and not g[3]]
        if d.kind == "arrival":
            rep.ob("samples are taken at completions only", d.where, not groups, "a sample is taken at an arrival",
                   [g[5].where for g in groups])
            new = [e for e in d.top if (e.kind in ("qappend", "qinsert") and is_new(d, e.data[3])) or
                   (e.kind == "assign" and is_new(d, e.data[1]))]
            for e in new[:1]:
                j = (e.data[3] if e.kind != "assign" else e.data[1]).as_atom()
                at, wt, sw = t.load(j, "arr_time"), t.load(j, "wait_time"), t.load(j, "start_waiting_time")
                rep.ob("the arrival instant of a job is recorded", d.where, verdict_zero(t, at - d.now) if isinstance(at, Rat) else None,
                       f"arrival time {at}", [e.where])
                rep.ob("a new job has not waited", d.where, verdict_zero(t, wt) if isinstance(wt, Rat) else None, f"wait {wt}", [e.where])
                if e.kind != "assign":
                    rep.ob("waiting starts when the job joins the queue", d.where, verdict_zero(t, sw - d.now) if isinstance(sw, Rat) else
                           None, f"start of waiting {sw}", [e.where])
            for e in d.ev("qappend", "qinsert"):
                if not is_new(d, e.data[3]) and isinstance(e.data[3], Rat):
                    sw = t.load(e.data[3].as_atom(), "start_waiting_time")
                    rep.ob("waiting starts when the job joins the queue", d.where, verdict_zero(t, sw - d.now) if isinstance(sw, Rat) else
                           None, f"start of waiting {sw}", [e.where])
                    wt = t.load(e.data[3].as_atom(), "wait_time")
                    rep.ob("an interruption keeps the waiting time so far", d.where,
                           verdict_zero(t, wt - rat(fld(e.data[3].as_atom(), "wait_time"))) if isinstance(wt, Rat) else None,
                           f"wait {wt}", [e.where])
            continue
        for l in ("v", "w"):
            gs = [g for g in groups if g[0] == l]
            rep.ob("one sample per completed job", f"{d.where}|{l}", len(gs) == 1 or (None if unresolved(d) else False),
                   f"{len(gs)} samples of {l}", sites(t))
            for _, key, dd, stack, j, e in gs[:1]:
                rep.ob("the sample goes to the class of the completed job", f"{d.where}|{l}", d.same(key, d.cls) if isinstance(key, Rat) else
                       False, f"class {key}", [e.where])
                idxs = sorted(int(i.const()) for i in dd if i.const() is not None)
                rep.ob("three moments updated together", f"{d.where}|{l}", idxs == [0, 1, 2], f"moments {idxs}", [e.where])
                xs = {}
                for i, (old, new) in dd.items():
                    dc = decompose(old, new) if isinstance(new, Rat) else None
                    if dc is None:
                        rep.ob("running mean", f"{d.where}|{l}", None, f"moment {i} is not of the running-mean form", [e.where])
                        continue
                    c, x = dc
                    xs[i] = x
                    srv = t.ip.elem_addr_value(t.st0, fld(ME, "served"), d.cls)
                    rep.ob("weight = number of samples", f"{d.where}|{l}", verdict_zero(t, d.norm(c) - d.norm(srv) - 1),
                           f"sample weighted 1/({c})", [e.where])
                x1 = xs.get(ZERO)
                if x1 is None:
                    continue
                for i, x in xs.items():
                    rep.ob("moment k uses the k-th power", f"{d.where}|{l}{i}", verdict_zero(t, x - x1 ** (int(i.const()) + 1)),
                           f"moment {i} is fed {x}", [e.where])
                want = d.now - rat(fld(d.job, "arr_time")) if l == "v" else rat(fld(d.job, "wait_time"))
                rep.ob("sojourn sample = departure - arrival" if l == "v" else "waiting sample = total wait of the job", d.where,
                       verdict_zero(t, x1 - want), f"sample {x1}, expected {want}", [e.where])
        for p in d.ev("qpop"):
            j = p.data[3].as_atom() if isinstance(p.data[3], Rat) else None
            if j is None:
                continue
            for f in (("wait_time", "wait_network") if s.net else ("wait_time",)):
                w = t.load(j, f)
                want = rat(fld(j, f)) + d.now - rat(fld(j, "start_waiting_time"))
                rep.ob("the wait of a job grows by its time in the queue", f"{d.where}|{f}", verdict_zero(t, w - want) if isinstance(w, Rat)
                       else None, f"wait becomes {w}, expected {want}", [p.where])
        if s.net:
            r = t.ret
            rep.ob("a node hands over the finished job", d.where, isinstance(r, Rat) and r == rat(d.job) or
                   (None if isinstance(r, Rat) and opaque(r) else False), f"the completed job is {d.job}, returned {r}", sites(t))


# ----------------------------------------------------------------------------- P06
def event_order(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        if s.net:
            continue
        arr = fld(ME, "arrival_time")

        def is_arr(tmpl, src):
            a = tmpl.as_atom() if isinstance(tmpl, Rat) else None
            return a is not None and a.kind == "idx" and a.args[0] is arr and full_range(t, src, F("k"), arr)

        def is_srv(tmpl, src):
            a = tmpl.as_atom() if isinstance(tmpl, Rat) else None
            return a is not None and a.kind == "fld" and a.args[1] == "time_to_end_service" and a.args[0].kind == "idx" \
                and a.args[0].args[0] is SERVERS and full_range(t, src, F("n"), SERVERS)
        for nm, pred in (("every class's next arrival", is_arr), ("every server's completion", is_srv)):
            v = RS.min_of_group(t, d.now, pred)
            if v is None and not opaque_facts(t):
                v = False
            rep.ob("no earlier pending event is skipped", f"{d.where}|{nm}", v,
                   f"an event at {d.now} is processed without evidence that it precedes {nm}", sites(t))
        c = {}
        for k, v in t.cells(arr).items():
            c[k] = v
        if d.kind == "arrival":
            v = [x for k, x in c.items() if d.same(k, d.cls) is True]
            others = [k for k, x in c.items() if d.same(k, d.cls) is not True and
                      not (isinstance(x, Rat) and x == R("idx", arr, k))]
            x = v[0] - d.now if v and isinstance(v[0], Rat) else None
            a = x.as_atom() if x is not None else None
            ok = a is not None and a.kind == "sample" and a.args[0].kind == "idx" and a.args[0].args[0] is SOURCES and \
                d.same(a.args[0].args[1], d.cls)
            if not ok and (x is None or opaque(x)) and v:
                ok = None
            rep.ob("next arrival = this arrival + one fresh interval of the class", d.where, ok if ok is not False else False,
                   f"next arrival set to {v}", sites(t))
            rep.ob("other arrivals keep their time", d.where, not others or (None if any(map(opaque, others)) else False),
                   f"arrivals of {others} move", sites(t))
        else:
            ch = [k for k, x in c.items() if not (isinstance(x, Rat) and x == R("idx", arr, k))]
            rep.ob("other arrivals keep their time", d.where, not ch or (None if any(map(opaque, ch)) else False),
                   f"arrivals of {ch} move", sites(t))
