"""Rules over the abstract transitions of the network simulator."""
from . import alg
from .simcore import *
from .alg import rat, R, ZERO, ONE, atom, contains_atom, deep_subst

from . import rules_sim as RS
from .rules_sim import opaque, verdict_zero, start_effects, sites, full_range, decompose, stat_groups, opaque_facts, leq
from .rules_prty import only, D as PD

MOD, CLS = "most_queue.sim.priority_network", "PriorityNetwork"
NODES = fld(ME, "smos")


class NetHooks(SimHooks):
    """the nodes of the network are taken as units: an arrival at a node and a completion in a node are events"""

    def on_call(self, ip, st, fi, args, kwargs, node, selfval):
        sa = selfval.as_atom() if isinstance(selfval, Rat) else None
        if fi.name == "generate" and sa is not None and sa.kind == "idx" and sa.args[0] is fld(ME, "sources"):
            st.nfresh += 1
            v = R("sample", sa, st.nfresh)
            ip.event(st, "sample", (rat(sa), v), node)
            return [(st, v)]
        if fi.cls is None or getattr(fi.cls, "name", fi.cls) != "PriorityQueueSimulator" or fi.name not in ("arrival", "serving"):
            return None
        names = [a.arg for a in fi.node.args.args][1:]
        b = dict(zip(names, args))
        b.update(kwargs)
        if fi.name == "arrival":
            job = b.get(names[2]) if len(names) > 2 else None
            ip.event(st, "node_in", (selfval, b.get(names[0]), b.get(names[1]), job, self.snap_all(ip, st, job)), node)
            return [(st, None)]
        srv = b.get(names[0])
        ip.event(st, "node_out", (selfval, srv, b.get(names[1])), node)
        a = selfval.as_atom()
        job = rat(fld(atom("idx", fld(a, "servers"), srv), "tsk_on_service"))
        return [(st, job)]


def sims():
    def setup(ip, st):
        ip.assume_cmp(st, ">=", F("k_num") - 1)
        ip.assume_cmp(st, ">=", F("n_num") - 1)
        st.heap[(NODES, "#len")] = F("n_num")
        st.heap[(fld(ME, "arrival_time"), "#len")] = F("k_num")
    s = Sim("network", MOD, CLS, {"any": None}, setup=setup, hooks=NetHooks)
    s.family, s.phases, s.w_mode, s.population = "net", False, None, "in_sys"
    return {"network": s}


class D(PD):
    """kind of event and class of the job"""

    def __init__(self, s, t):
        self.s, self.t = s, t
        self.now = t.get("ttek")
        self.kind = self.cls = self.node = self.job = None
        a = self.now.as_atom() if isinstance(self.now, Rat) else None
        if a is not None and a.kind == "idx" and a.args[0] is fld(ME, "arrival_time"):
            self.kind, self.cls = "arrival", a.args[1]
        elif a is not None and a.kind == "fld" and a.args[1] == "time_to_end_service":
            b = a.args[0]
            if b.kind == "idx" and b.args[0].kind == "fld" and b.args[0].args[1] == "servers":
                c = b.args[0].args[0]
                if c.kind == "idx" and c.args[0] is NODES:
                    self.kind, self.node, self.ch = "completion", c.args[1], b.args[1]
                    self.job = fld(b, "tsk_on_service")
                    self.cls = rat(fld(self.job, "k"))
        self.top = [e for e in t.st.trace if not isinstance(e, LoopEv)]
        self.where = f"{s.name}|{self.kind}"

    def norm(self, r):
        return r


def each(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        d = D(s, t)
        if d.kind is None:
            rep.ob("the event is recognised", f"{s.name}|{t.region}", None if opaque(d.now) else False,
                   f"the clock becomes {d.now}, which is neither a pending arrival nor a completion in a node", sites(t))
            continue
        yield s, t, d


def route(d):
    """(next node, True when drawn from the right row, message); a constant next node is the numerical fallback"""
    t = d.t
    row = ZERO if d.kind == "arrival" else d.node + 1
    ins = d.ev("node_in")
    cand = None
    for k, b in t.facts.b.items():
        for sg in (1, -1):
            x = k * sg
            lo = b[0] if sg == 1 else (None if b[2] is None else -b[2])
            us = [a for a in x.atoms() if a.kind == "rnd"]
            if len(us) != 1 or lo is None or lo < 0:
                continue
            y = x + rat(us[0])
            if contains_atom(y, lambda a: a is us[0]):
                continue
            Rk = atom("idx", fld(ME, "R"), d.cls)
            for a in y.atoms():
                if a.kind == "idx" and a.args[0] is Rk:
                    ix = a.args[1]
                    key = ix.items if isinstance(ix, Tup) else ix
                    cand = (us[0], y, a)
    return cand


def routing(ctx, rep, names):
    found = 0
    for s, t, d in each(ctx, rep, names):
        ins, outs = d.ev("node_in"), d.ev("node_out")
        left = d.cells("served")
        leaves = bool(left)
        X = None
        if len(ins) == 1:
            a = ins[0].data[0].as_atom()
            if a is not None and a.kind == "idx" and a.args[0] is NODES:
                X = a.args[1]
        elif leaves:
            X = F("n_num")
        rep.ob("a job goes to one node or leaves", d.where, len(ins) + (1 if leaves else 0) == 1,
               f"the job enters {len(ins)} nodes and leaves: {leaves}", sites(t))
        if X is None:
            continue
        if X.const() is not None:
            continue        # fallback for a row that does not sum to one
        row = ZERO if d.kind == "arrival" else d.node + 1
        v, msg = drawn(d, X, row, leaves)
        if v is True:
            found += 1
        rep.ob("the next node is drawn from the routing row of the job", f"{d.where}|{'out' if leaves else 'in'}", v, msg, sites(t))
    if not found:
        rep.ob("the next node is drawn from the routing row of the job", names[0], None, "no routing decision was recognised")


def drawn(d, X, row, leaves):
    t = d.t
    if not leaves and d.kind != "arrival":
        ne = t.decide("==", X - F("n_num"))
        if ne is not False:
            return (None if opaque(X) else False), f"a job enters node {X} which may be the way out"
    Rk = atom("idx", fld(ME, "R"), d.cls)
    bv = rat(atom("bv", 0))
    for k, b in t.facts.b.items():
        for sg in (1, -1):
            x = k * sg
            lo, los = (b[0], b[1]) if sg == 1 else (None if b[2] is None else -b[2], b[3])
            us = [a for a in x.atoms() if a.kind == "rnd"]
            if len(us) != 1 or lo is None or lo < 0:
                continue
            y = flat_cells(x + rat(us[0]))
            ix = index_of(y, Rk)
            if ix is None:
                if index_any(y):
                    return (None if opaque(y) else False), f"routing uses {y}, expected row {row} of the matrix of class {d.cls}"
                continue
            idxv = ix
            if leaves and verdict_zero(t, idxv - X) is not True:
                return False, f"the job leaves although the drawn column is {idxv}"
            if not leaves and not (idxv - X).is_zero():
                return False, f"the drawn column is {idxv} but the job enters node {X}"
            cell = atom("idx", Rk, Tup([row, idxv]))
            want = rat(cell) + R("loopsum", rat(atom("idx", Rk, Tup([row, bv]))), ZERO, idxv)
            if y == want:
                if us[0].args[0] != "random":
                    return False, f"the draw is {us[0]}"
                return True, ""
            return (None if opaque(y - rat(cell)) and not contains_atom(y, lambda a: a.kind == "loopsum") else False), \
                f"the cumulative probability is {y}, expected {want}"
    return None if opaque_facts(t) else False, f"next node {X} without a draw from the routing matrix"


def flat_cells(y):
    """R[k][i][j] and R[k][i, j] are one cell"""
    root = fld(ME, "R")
    found = []

    def note(a):
        if a.kind == "idx" and a.args[0].kind == "idx" and not isinstance(a.args[1], Tup) and not isinstance(a.args[0].args[1], Tup):
            b = a.args[0]
            if b.args[0].kind == "idx" and b.args[0].args[0] is root:
                found.append(a)
        return False
    contains_atom(y, note)
    mp = {a: rat(atom("idx", a.args[0].args[0], Tup([a.args[0].args[1], a.args[1]]))) for a in found}
    y = deep_subst(y, mp) if mp else y
    # partial sums: constants in front, the last terms apart
    mp = {}
    for a in y.atoms():
        if a.kind == "loopsum" and len(a.args) == 3 and all(isinstance(x, Rat) for x in a.args):
            f, lo, hi = a.args
            m = min(f.n)
            c = f.n[m] if alg.p_is_const(f.d) else 1
            f = f / rat(c)
            out, k = ZERO, hi.n.get((), 0) if alg.p_is_const(hi.d) else 0
            if hi.const() is None and k > 0 and k == int(k) and k < 5:
                hi = hi - rat(k)
                for j in range(int(k)):
                    out = out + alg.subst(f, lambda x, v=hi + j: column(x, v))
            mp[a] = (R("loopsum", f, lo, hi) + out) * rat(c)
    return alg.subst(y, lambda a: mp.get(a, rat(a))) if mp else y


def column(a, v):
    if a.kind == "idx" and isinstance(a.args[1], Tup) and len(a.args[1].items) == 2 and a.args[1].items[1] == rat(atom("bv", 0)):
        return rat(atom("idx", a.args[0], Tup([a.args[1].items[0], v])))
    return rat(a)


def index_of(y, Rk):
    for a in y.atoms():
        if a.kind == "idx" and a.args[0] is Rk:
            ix = a.args[1]
            if isinstance(ix, Tup) and len(ix.items) == 2:
                return ix.items[1]
    return None


def index_any(y):
    return contains_atom(y, lambda a: a.kind == "idx" and a.args[0].kind == "idx" and a.args[0].args[0] is fld(ME, "R"))


def transfers(ctx, rep, names):
    """the job handed to a node: class by the priorities of that node, instant, identity"""
    for s, t, d in each(ctx, rep, names):
        for e in d.ev("node_in"):
            node, cls, mom, job, snap = e.data
            a = node.as_atom()
            if a is None or a.kind != "idx":
                rep.ob("a job enters a node of the network", d.where, None, f"node {node}", [e.where])
                continue
            X = a.args[1]
            want = rat(atom("idx", atom("idx", fld(ME, "nodes_prty"), X), d.cls))
            rep.ob("the class in a node is the priority of the job's class there", d.where,
                   True if isinstance(cls, Rat) and cls == want else (None if not isinstance(cls, Rat) or opaque(cls) else False),
                   f"class {cls} at node {X}, expected {want}", [e.where])
            rep.ob("a job enters a node at the instant of the event", d.where, verdict_zero(t, mom - d.now) if isinstance(mom, Rat) else
                   False, f"entered at {mom}, now {d.now}", [e.where])
            if d.kind == "completion":
                rep.ob("the job that moves on is the one that finished", d.where,
                       isinstance(job, Rat) and job == rat(d.job) or (None if isinstance(job, Rat) and opaque(job) else False),
                       f"job {job}", [e.where])
            else:
                ja = job.as_atom() if isinstance(job, Rat) else None
                if ja is None:
                    rep.ob("a new job is handed to the node", d.where, None if isinstance(job, Rat) else False, f"job {job}", [e.where])
                    continue
                rep.ob("a new job carries its class", d.where, d.same(t.load(ja, "k"), d.cls), f"class {t.load(ja, 'k')}", [e.where])
                an, wn = t.load(ja, "arr_network"), t.load(ja, "wait_network")
                rep.ob("a new job carries its arrival instant", d.where, verdict_zero(t, an - d.now) if isinstance(an, Rat) else None,
                       f"arrival at {an}", [e.where])
                rep.ob("a new job has not waited", d.where, verdict_zero(t, wn) if isinstance(wn, Rat) else None, f"wait {wn}", [e.where])
        outs = d.ev("node_out")
        if d.kind == "completion":
            ok = len(outs) == 1 and outs[0].data[0] == rat(atom("idx", NODES, d.node)) and outs[0].data[1] == d.ch and \
                outs[0].data[2] is True
            rep.ob("the completion is carried out in its node", d.where, ok or (None if len(outs) == 1 and opaque(outs[0].data[0]) else False),
                   f"completions: {[str(o.data) for o in outs]}", sites(t))
        else:
            rep.ob("an arrival completes no service", d.where, not outs, "a node completes a service at an arrival", sites(t))


def counters(ctx, rep, names):
    for s, t, d in each(ctx, rep, names):
        left = bool(d.cells("served"))
        if d.kind == "arrival":
            only(rep, d, "arrived", {d.cls: ONE}, "an arrival is counted once, in its class", "arrival")
            only(rep, d, "in_sys", {d.cls: ONE}, "the population of the class counts its jobs", "arrival")
            only(rep, d, "served", {}, "only departures count served jobs", "arrival")
        else:
            only(rep, d, "arrived", {}, "only arrivals count arrivals", "completion")
            if left or not d.ev("node_in"):
                only(rep, d, "served", {d.cls: ONE}, "a departure is counted once, in its class", "departure")
                only(rep, d, "in_sys", {d.cls: rat(-1)}, "the population of the class counts its jobs", "departure")
            else:
                only(rep, d, "in_sys", {}, "the population of the class counts its jobs", "transfer")
        groups = [g for g in stat_groups(t) if g[0] in ("v_network", "w_network") and not g[3]]
        if not left:
            rep.ob("samples are taken at departures only", d.where, not groups, "a sample is taken for a job that stays", sites(t))
            continue
        for l in ("v_network", "w_network"):
            gs = [g for g in groups if g[0] == l]
            rep.ob("one sample per departing job", f"{d.where}|{l}", len(gs) == 1, f"{len(gs)} samples of {l}", sites(t))
            for _, key, dd, stack, j, e in gs[:1]:
                rep.ob("the sample goes to the class of the job", f"{d.where}|{l}", d.same(key, d.cls) if isinstance(key, Rat) else False,
                       f"class {key}", [e.where])
                idxs = sorted(int(i.const()) for i in dd if i.const() is not None)
                rep.ob("three moments updated together", f"{d.where}|{l}", idxs == [0, 1, 2], f"moments {idxs}", [e.where])
                xs = {}
                srv = t.ip.elem_addr_value(t.st0, fld(ME, "served"), d.cls)
                for i, (old, new) in dd.items():
                    dc = decompose(old, new) if isinstance(new, Rat) else None
                    if dc is None:
                        rep.ob("running mean", f"{d.where}|{l}", None, f"moment {i}", [e.where])
                        continue
                    xs[i] = dc[1]
                    rep.ob("weight = number of samples", f"{d.where}|{l}", verdict_zero(t, dc[0] - srv - 1), f"weight 1/({dc[0]})", [e.where])
                if ZERO not in xs:
                    continue
                for i, x in xs.items():
                    rep.ob("moment k uses the k-th power", f"{d.where}|{l}{i}", verdict_zero(t, x - xs[ZERO] ** (int(i.const()) + 1)),
                           f"moment {i} is fed {x}", [e.where])
                want = d.now - rat(fld(d.job, "arr_network")) if l == "v_network" else rat(fld(d.job, "wait_network"))
                rep.ob("network sojourn = departure - arrival" if l == "v_network" else "network waiting = wait accumulated over the nodes",
                       d.where, verdict_zero(t, xs[ZERO] - want), f"sample {xs[ZERO]}", [e.where])


def event_order(ctx, rep, names):
    arr = fld(ME, "arrival_time")
    for s, t, d in each(ctx, rep, names):
        def is_arr(tmpl, src):
            a = tmpl.as_atom() if isinstance(tmpl, Rat) else None
            return a is not None and a.kind == "idx" and a.args[0] is arr and full_range(t, src, F("k_num"), arr)
        v = RS.min_of_group(t, d.now, is_arr)
        if v is None and not opaque_facts(t):
            v = False
        rep.ob("no earlier pending event is skipped", f"{d.where}|arrivals", v, f"an event at {d.now} without evidence that it precedes every arrival",
               sites(t))
        # the earliest completion over nodes and channels
        v = None
        for x in earliest_completions(t):
            if x == d.now or leq(t, d.now, x) is True:
                v = True
        if v is None and not opaque_facts(t):
            v = False
        rep.ob("no earlier pending event is skipped", f"{d.where}|completions", v,
               f"an event at {d.now} without evidence that it precedes every completion", sites(t))
        c = t.cells(arr)
        if d.kind == "arrival":
            xs = [x for k, x in c.items() if d.same(k, d.cls) is True]
            x = xs[0] - d.now if xs and isinstance(xs[0], Rat) else None
            a = x.as_atom() if x is not None else None
            ok = a is not None and a.kind == "sample" and a.args[0] is atom("idx", fld(ME, "sources"), d.cls)
            rep.ob("next arrival = this arrival + one fresh interval of the class", d.where, ok or (None if x is not None and opaque(x) else False),
                   f"next arrival set to {xs}", sites(t))
            others = [k for k, y in c.items() if d.same(k, d.cls) is not True]
        else:
            others = [k for k, y in c.items() if not (isinstance(y, Rat) and y == R("idx", arr, k))]
        rep.ob("other arrivals keep their time", d.where, not others or (None if any(map(opaque, others)) else False),
               f"arrivals of {others} move", sites(t))


def earliest_completions(t):
    """quantities known to be the earliest completion over every node and channel"""
    bv = rat(atom("bv", 0))
    out = []
    seen = set()

    def visit(a):
        if a in seen:
            return False
        seen.add(a)
        if a.kind == "fld" and a.args[1] == "time_to_end_service" and a.args[0].kind == "idx":
            b = a.args[0]
            if b.args[0].kind == "fld" and b.args[0].args[1] == "servers" and b.args[0].args[0].kind == "idx" and b.args[0].args[0].args[0] is NODES:
                M = b.args[0].args[0].args[1]
                C = b.args[1]
                ma = M.as_atom() if isinstance(M, Rat) else None
                if ma is not None and ma.kind == "argmin" and whole(ma.args[0], F("n_num"), NODES):
                    inner = atom("fld", atom("idx", fld(atom("idx", NODES, bv), "servers"), bv), "time_to_end_service")
                    nb = rat(atom("idx", fld(ME, "nodes"), bv))
                    tm = ma.args[1]
                    ta = tm.as_atom()
                    if ta is not None and ta.kind == "fld" and ta.args[0].kind == "idx":
                        cc = ta.args[0].args[1].as_atom()
                        if cc is not None and cc.kind == "argmin" and cc.args[1] == rat(inner) and whole(
                                cc.args[0], nb, fld(atom("idx", NODES, bv), "servers"), R("fld", atom("idx", NODES, bv), "n")):
                            ca = C.as_atom()
                            if ca is not None and ca.kind == "argmin":
                                out.append(rat(a))
        return False
    for k in t.facts.b:
        contains_atom(k, visit)
    tk = t.get("ttek")
    if isinstance(tk, Rat):
        contains_atom(tk, visit)
    return out


def whole(src, n, lst, n2=None):
    if isinstance(src, Tup):
        src = src.items
    if not isinstance(src, tuple):
        return False
    if src[0] == "list":
        return src[1] is lst or (isinstance(src[1], Rat) and src[1].as_atom() is lst)
    if src[0] == "range" and isinstance(src[1], Rat) and src[1].is_zero():
        return src[2] == n or src[2] == R("len", lst) or (n2 is not None and src[2] == n2)
    return False
