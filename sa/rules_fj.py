"""Fork-join and split-join: parts of a job, completion of a job."""
from .alg import Rat, rat, ZERO, ONE, contains_atom
from .interp import LoopEv
from .rules_sim import (start_effects, tname, event_name, sites, verdict_zero, total_delta, opaque, opaque_facts)
from .simcore import F, ME, fld, R


def parts_total(s):
    return F("k") if s.name.endswith("-delta") else F("n")


def needed(s):
    """parts that must be finished before the job leaves"""
    return F("n") if s.mode == "SJ" else F("k")


def finished_count(t):
    """the per-job counter that this completion advances: (entry value, final value) or None"""
    best = []
    for (a, k), v in t.st.heap.items():
        if not isinstance(v, Rat) or not hasattr(a, "kind"):
            continue
        about = a if not isinstance(k, Rat) else None
        isjob = isinstance(k, Rat) and contains_atom(k, lambda x: x.kind == "fld" and x.args[1] == "tsk_on_service") or \
            about is not None and contains_atom(rat(about), lambda x: x.kind == "fld" and x.args[1] == "tsk_on_service")
        if not isjob:
            continue
        if isinstance(k, Rat):
            old = t.ip.elem_addr_value(t.st0, a, k)
        elif isinstance(k, str):
            old = t.ip.load(t.st0, a, k)
        else:
            continue
        if isinstance(old, Rat):
            best.append((old, v))
    return best


def completion(ctx, rep, names):
    """a job leaves exactly when the required number of its parts is finished"""
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        if event_name(t) != "service completion":
            continue
        srv = total_delta(t, "served")
        cs = finished_count(t)
        if srv is None or len(cs) != 1:
            rep.ob("a job leaves with its last required part", en, None, "per-job counter of finished parts not recognised")
            continue
        old, new = cs[0]
        d = new - old
        up = d.const()
        rep.ob("a finished part is counted once for its job", en, None if up is None and opaque(d) else up in (1, -1),
               f"the counter of finished parts of the job changes by {d}", sites(t))
        if up != 1:
            continue
        need, tot = needed(s), parts_total(s)
        st = t.st.copy()
        # the part that finishes was not counted yet, and with purging no part outlives the k-th
        cap = need if s.name in ("fork-join-purge",) else tot
        t.ip.assume_cmp(st, ">=", cap - new)
        t.ip.assume_cmp(st, ">=", old)
        z = t.ip.decide_cmp(st.facts, "==", new - need)
        one = verdict_zero(t, srv - 1)
        none = verdict_zero(t, srv)
        if one is True:
            v = z
            if v is None:
                v = None if opaque_facts(t) else False
            rep.ob("a job leaves with its last required part", en, v,
                   f"a job is counted as served with {new} finished parts; {need} are required", sites(t))
        elif none is True:
            v = None if z is None else not z
            if v is None:
                v = None if opaque_facts(t) else False
            rep.ob("a job leaves with its last required part", en, v,
                   f"no job is counted as served although {new} parts can be finished and {need} are required", sites(t))
        else:
            rep.ob("a job leaves with its last required part", en, None if opaque(srv) else False,
                   f"one completion changes the served counter by {srv}", sites(t))


def new_parts(t):
    """[(list address, snapshot, event)] parts created in this transition"""
    out = []
    for e, stack in t.events({"listop"}):
        if e.data[1] == "append" and e.data[4] is not None:
            it = e.data[4].items
            d = dict(zip(it[::2], it[1::2]))
            if "task_id" in d and "arr_time" in d and isinstance(e.data[3], Rat) and e.data[3].as_atom() is not None \
                    and e.data[3].as_atom().kind == "obj":
                out.append((e.data[0].as_atom(), d, e))
    return out


def splitting(ctx, rep, names):
    """an accepted job is split into the right number of parts, stamped, registered, and each part is dispatched"""
    for s, t in start_effects(ctx, rep, names):
        if event_name(t) != "arrival":
            continue
        en = tname(t)
        ins = total_delta(t, "in_sys")
        if ins is None:
            rep.ob("a job is split into its parts", en, None)
            continue
        if verdict_zero(t, ins) is True:
            moved = t.events({"qappend", "start", "qinsert"})
            rep.ob("a refused job leaves no part behind", en, not moved, "a part of a job that is not in the system is queued or served",
                   [e.where for e, _ in moved])
            continue
        parts = new_parts(t)
        if not parts:
            rep.ob("a job is split into its parts", en, None, "creation of the parts not recognised")
            continue
        tk = t.get("ttek")
        lst = parts[0][0]
        ln = t.ip.list_len(t.st, lst)
        rep.ob("a job is split into its parts", en, verdict_zero(t, ln - parts_total(s)),
               f"a job is split into {ln} parts, {parts_total(s)} expected", [parts[0][2].where])
        key = parts[0][1]["task_id"]
        for a, d, e in parts:
            rep.ob("a part carries the arrival time of its job", en, verdict_zero(t, d["arr_time"] - tk),
                   f"a part of a job arriving at {tk} is stamped {d['arr_time']}", [e.where])
            rep.ob("the parts of a job share its number", en, verdict_zero(t, d["task_id"] - key),
                   f"parts of one job carry {key} and {d['task_id']}", [e.where])
        cell = t.st.heap.get((fld(ME, "served_subtask_in_task"), key))
        if cell is None and not t.cells(fld(ME, "served_subtask_in_task")):
            cell = None
            rep.ob("a new job has no finished part", en, None)
        else:
            rep.ob("a new job has no finished part", en, verdict_zero(t, cell) if isinstance(cell, Rat) else False,
                   f"the counter of finished parts of the new job {key} is {cell}; set are "
                   f"{[str(k) for k in t.cells(fld(ME, 'served_subtask_in_task'))]}", sites(t))
        # the number of the next job differs
        a = key.as_atom()
        if a is not None and a.kind == "fld":
            nx = t.ip.load(t.st, a.args[0], a.args[1])
            v = t.decide(">=", nx - key - 1) if isinstance(nx, Rat) else None
            rep.ob("job numbers are not reused", en, v if v is not None else (None if opaque(nx) else False),
                   f"after the arrival the next job number is {nx}, this job has {key}", sites(t))
        dispatch(rep, s, t, en, lst)


def dispatch(rep, s, t, en, lst):
    """fork-join: part i goes to server i or its queue; otherwise every part to the shared queue, a server, or the delay list"""
    seen = ZERO
    for e, stack in t.events({"qappend", "qinsert", "assign", "listop"}):
        if e.kind == "listop":
            if e.data[1] not in ("append", "insert"):
                continue
            part, tgt = e.data[3], None
        elif e.kind == "assign":
            part, tgt = e.data[1], e.data[0].as_atom()
        else:
            part, tgt = e.data[3], e.data[0].as_atom()
        pa = part.as_atom() if isinstance(part, Rat) else None
        if pa is None or pa.kind != "idx" or pa.args[0] is not lst:
            continue
        i = pa.args[1]
        if s.mode == "FJ" and tgt is not None:
            j = tgt.args[1] if tgt.kind == "idx" else None
            rep.ob("part i goes to server i or its queue", f"{en}|{e.where[2]}",
                   None if j is None or opaque(i - j) else (i - j).is_zero() or t.decide("==", i - j) is True,
                   f"part {i} of the job is sent to server {j}", [e.where])
        if stack:
            v = contains_atom(i, lambda x: x.kind == "loopidx")
            rep.ob("every part is dispatched once", f"{en}|{e.where[2]}", True if v else None,
                   f"the same part {i} is dispatched in every round", [e.where])


def own_queue(ctx, rep, names):
    """fork-join: server c takes the head of its own queue"""
    for s, t in start_effects(ctx, rep, names):
        if s.mode != "FJ" or event_name(t) == "arrival":
            continue
        en = tname(t)
        for e, stack in t.events({"assign"}):
            srv, part = e.data[0].as_atom(), e.data[1].as_atom()
            if part is None or part.kind != "idx" or srv is None or srv.kind != "idx":
                rep.ob("a server takes the head of its own queue", f"{en}|{e.where[2]}", None)
                continue
            q = part.args[0]
            own = q.kind == "idx" and q.args[0] is fld(ME, "queues")
            if not own:
                rep.ob("a server takes the head of its own queue", f"{en}|{e.where[2]}", None)
                continue
            d = q.args[1] - srv.args[1]
            v = True if d.is_zero() else t.decide("==", d, e.facts or t.facts)
            rep.ob("a server takes the head of its own queue", f"{en}|{e.where[2]}",
                   v if v is not None else (None if opaque(d) else False),
                   f"server {srv.args[1]} takes a part from the queue of server {q.args[1]}", [e.where])
            pos = part.args[1]
            z = verdict_zero(t, pos, e.facts)
            rep.ob("a server takes the head of its own queue", f"{en}|{e.where[2]}|head", z,
                   f"server {srv.args[1]} takes the part at position {pos}", [e.where])


def _server_index(x):
    """index of a server named by its address"""
    a = x.as_atom() if isinstance(x, Rat) else x
    if a is not None and a.kind == "idx" and a.args[0] is fld(ME, "servers"):
        return a.args[1]
    return None


def _len_zero(ip, facts, q):
    """do the facts say that the queue is empty"""
    for key, (lo, los, hi, his, excl) in facts.b.items():
        if contains_atom(key, lambda x: x.kind == "len" and isinstance(x.args[0], type(q)) and x.args[0] is q):
            if ip.decide_cmp(facts, "<=", key) is True and _coef_positive(key, q) or ip.decide_cmp(facts, ">=", key) is True and not _coef_positive(key, q):
                return True
    return None


def _coef_positive(key, q):
    from .alg import deep_subst
    a = R("len", q).as_atom()
    c = (deep_subst(key, {a: rat(1)}) - deep_subst(key, {a: ZERO})).const()
    return c is not None and c > 0


def work_conserving(ctx, rep, names):
    """a part waits only while its server is busy; a server whose queue holds a part does not stay idle"""
    for s, t in start_effects(ctx, rep, names):
        en, ev = tname(t), event_name(t)
        if ev == "arrival" and s.mode in ("FJ", "FJD", "SJ"):
            for e, stack in t.events({"qappend", "qinsert"}):
                for f, where in e.every():
                    busy = None
                    if s.mode == "FJ":
                        a = e.data[0].as_atom()
                        i = a.args[1] if a is not None and a.kind == "idx" else None
                        if i is not None:
                            b = f.t.get(("bool", R("fld", R("idx", fld(ME, "servers"), i).as_atom(), "is_free")))
                            busy = True if b is False else None
                    cur = F("n") if s.mode == "SJ" else ONE
                    known = [x for x in f.b if contains_atom(x, lambda z: z is fld(ME, "free_channels") or z.kind == "lv" and "free_channels" in str(z))]
                    if busy is None:
                        for x in [F("free_channels")] + free_now(known):
                            if t.ip.decide_cmp(f, "<", x - cur) is True:
                                busy = True
                    op = any(opaque(x) for x in known) or any(opaque(k[1]) for k in f.t if k[0] == "bool" and isinstance(k[1], Rat))
                    rep.ob("a part waits only while it cannot be served", f"{en}|{where[2]}", busy if busy else None if op else False,
                           "a part is queued without evidence that its server is busy", [where])
        if ev != "service completion" or s.mode == "SJD":
            continue
        if s.mode == "SJ":
            srv = total_delta(t, "served")
            started = t.ghost("#starts")
            if srv is None or not isinstance(started, Rat) or verdict_zero(t, srv - 1) is not True:
                continue
            empty = t.decide("==", R("len", INNER))
            if empty is True:
                rep.ob("the next job starts when a job leaves", en, verdict_zero(t, started), f"{started} services start from an empty queue", sites(t))
            else:
                some = t.decide(">=", R("len", INNER) - 1)
                v = verdict_zero(t, started - F("n"))
                if some is not True and v is not True:
                    v = None
                rep.ob("the next job starts when a job leaves", en, v, f"{started} services start although a job waits", sites(t))
            continue
        # fork-join: every server that ends starts again, or nobody waits for it
        for evs, stack in _scopes(t.st.trace):
            ended = {}
            for e in evs:
                if isinstance(e, LoopEv):
                    continue
                if e.kind == "end":
                    ended[e.data[0]] = e
                elif e.kind == "start":
                    ended.pop(e.data[0], None)
            for srv, e in ended.items():
                i = _server_index(srv)
                if i is None:
                    rep.ob("a server with waiting parts goes on", f"{en}|{e.where[2]}", None)
                    continue
                if s.mode == "FJD":
                    q = INNER
                else:
                    q = R("idx", fld(ME, "queues"), i).as_atom()
                f = t.facts
                if stack:
                    last = [x for x in evs if not isinstance(x, LoopEv)][-1]
                    f = last.facts or t.facts
                # a start of the same server in a loop of this scope
                later = [x for ev2, st2 in _scopes([y for y in evs if isinstance(y, LoopEv)]) for x in ev2
                         if not isinstance(x, LoopEv) and x.kind == "start"]
                z = _len_zero(t.ip, f, q)
                if z is None and not stack:
                    try:
                        z = True if t.ip.decide_cmp(f, "==", t.ip.list_len(t.st, q)) is True else None
                    except Exception:
                        z = None
                if z is None and any((_server_index(x.data[0]) is None or opaque(_server_index(x.data[0]))) for x in later):
                    rep.ob("a server with waiting parts goes on", f"{en}|{e.where[2]}", None)
                    continue
                rep.ob("a server with waiting parts goes on", f"{en}|{'purged part' if stack else 'finished part'}",
                       True if z else None if any(opaque(x) for x in f.b if contains_atom(x, lambda y: y.kind == "len" and y.args[0] is q)) else False,
                       f"server {i} stays idle without evidence that its queue is empty", [e.where])


def free_now(known):
    """values of the free-server counter that conditions mention"""
    out = []
    for x in known:
        contains_atom(x, lambda z: out.append(rat(z)) if z.kind == "lv" and "free_channels" in str(z) else False)
    return out


def _scopes(trace):
    out = []

    def walk(tr, stack):
        for e in tr:
            if isinstance(e, LoopEv):
                for evs, ex in e.alts:
                    walk(evs, stack + (e,))
        out.append((tr, stack))
    walk(trace, ())
    return out


def purging(ctx, rep, names):
    """with purging, and only then, a finished job takes its other parts with it: all of them and no others"""
    for s, t in start_effects(ctx, rep, names):
        if event_name(t) != "service completion":
            continue
        en = tname(t)
        srv = total_delta(t, "served")
        if srv is None:
            continue
        removed = t.events({"qremove", "qset", "qclear"})
        ends = [(e, st) for e, st in t.events({"end"})]
        first = ends[0][0].data[0] if ends else None
        others = [(e, st) for e, st in ends if e.data[0] != first]
        leaves = verdict_zero(t, srv - 1)
        pops = [e for e, st in t.events({"qpop"})]
        if s.name != "fork-join-purge" or leaves is not True:
            if s.mode in ("FJ", "SJ", "FJD"):
                rep.ob("a part leaves only by being served, unless its finished job is purged", en, not removed and not others,
                       "parts of a job are withdrawn", [e.where for e, _ in removed + others])
            continue
        if not removed:
            # a queue rewritten in another way counts as unknown
            changed = any(k[0] in ("queues",) for k in t.st.heap if isinstance(k, tuple) and isinstance(k[0], str))
            odd = [e for e, _ in t.events({"listop"}) if e.data[1] not in ("append", "pop")]
            rewritten = t.st.templates.get(fld(ME, "queues"), ()) or [k for k in t.st.heap if k[0] is fld(ME, "queues")]
            rep.ob("a finished job takes its waiting parts with it", en, None if odd or rewritten or changed else False,
                   "no waiting part is withdrawn when the job is finished", sites(t))
        for e, stack in removed:
            if e.kind != "qremove":
                continue
            part = e.data[3]
            own = part.as_atom() if isinstance(part, Rat) else None
            if own is None or first is None:
                rep.ob("only parts of the finished job are withdrawn", en, None)
                continue
            d = R("fld", own, "task_id") - R("fld", R("fld", first.as_atom(), "tsk_on_service").as_atom(), "task_id")
            v = t.ip.decide_cmp(e.facts, "==", d)
            rep.ob("only parts of the finished job are withdrawn", f"{en}|waiting", v if v is not None else None if opaque(d) else False,
                   f"a waiting part is withdrawn without evidence that it belongs to the finished job ({d})", [e.where])
            if stack:
                rep.ob("parts are withdrawn at every server", f"{en}|waiting", verdict_zero(t, stack[0].trip - F("n")) if isinstance(stack[0].trip, Rat) else None,
                       f"queues of {stack[0].trip} servers are searched", [e.where])
        if not others:
            rep.ob("a finished job takes its parts in service with it", en, False, "no other part in service is withdrawn when the job is finished", sites(t))
        for e, stack in others:
            d = R("fld", R("fld", e.data[0].as_atom(), "tsk_on_service").as_atom(), "task_id") - \
                R("fld", R("fld", first.as_atom(), "tsk_on_service").as_atom(), "task_id")
            v = t.ip.decide_cmp(e.facts, "==", d)
            rep.ob("only parts of the finished job are withdrawn", f"{en}|in service", v if v is not None else None if opaque(d) else False,
                   f"a part in service is withdrawn without evidence that it belongs to the finished job ({d})", [e.where])
            if stack:
                rep.ob("parts are withdrawn at every server", f"{en}|in service", verdict_zero(t, stack[0].trip - F("n")) if isinstance(stack[0].trip, Rat) else None,
                       f"{stack[0].trip} servers are searched", [e.where])


INNER = None


def _init():
    global INNER
    from .simcore import INNERQ
    INNER = INNERQ


_init()
