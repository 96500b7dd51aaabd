"""Rules over the abstract transitions of the simulators."""
from . import alg, sims as simdefs
from .simcore import *
from .alg import rat, R, ZERO, ONE, atom, contains_atom, deep_subst
from .interp import Order
from .model import AnalysisBroken

OPAQUE_KINDS = {"selidx", "call", "lphi", "lenf", "loopsum", "cntif", "loopprod", "iter", "clsattr"}


def opaque(r):
    return contains_atom(r, lambda a: a.kind in OPAQUE_KINDS)


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.sims = simdefs.make()
        self.cache = {}

    def trs(self, name):
        if name not in self.cache:
            self.cache[name] = self.sims[name].run(self.prog)
        return self.cache[name]


def field_chain(r):
    """names of the fields mentioned by a value"""
    out = set()

    def pred(a):
        if a.kind == "fld":
            out.add(a.args[1])
        return False
    if isinstance(r, Rat):
        contains_atom(r, pred)
    return out


def event_name(t):
    """which kind of event a transition handles, judged from the clock value it moves to"""
    if hasattr(t, "_en"):
        return t._en
    tk = t.get("ttek")
    n = "?"
    a = tk.as_atom() if isinstance(tk, Rat) else None
    if a is not None and a.kind == "idx":
        a2 = a.args[0]
        n = "arrival" if a2.kind == "fld" and a2.args[1] in ("arrival_times", "arrival_time") else "?"
    elif a is not None and a.kind == "fld":
        f, o = a.args[1], a.args[0]
        if f == "arrival_time":
            n = "arrival"
        elif f == "time_to_end_service":
            n = "service completion"
        elif f == "moment_to_leave":
            n = "reneging"
        elif f == "future_arr_time":
            n = "part arrival"
        elif f == "end_time" and o.kind == "fld":
            n = {"warm_phase": "end of warm-up", "cold_phase": "end of cooling", "cold_delay_phase": "end of cooling delay"}.get(
                o.args[1], "end of phase")
        elif f == "ttek":
            n = "no event"
    t._en = n
    return n


def where_of(t):
    fs = []
    for e, _ in t.events():
        if e.where and e.where[2] not in fs:
            fs.append(e.where[2])
    return fs


def tname(t):
    return f"{t.sim.name}|{event_name(t)}|{t.region}"


def sites(t, kinds=None):
    s = []
    for e, _ in t.events(kinds):
        if e.where and e.where not in s:
            s.append(e.where)
    return s[:6]


def verdict_zero(t, r, facts=None):
    """is r zero: True / False / None (not decidable in this domain)"""
    if r is None:
        return None
    z = t.zero(r) if facts is None else (True if r.is_zero() else t.decide("==", r, facts))
    if z is not None:
        return z
    if opaque(r):
        return None
    return False


def holds(t, op, r, facts=None):
    v = t.decide(op, r, facts)
    if v is not None:
        return v
    return None


def total_delta(t, field):
    """sum of the changes of a per-class list or scalar field"""
    v = t.get(field)
    base = fld(ME, field)
    cells = t.cells(base)
    if cells:
        tot = ZERO
        for k, x in cells.items():
            if not isinstance(x, Rat):
                return None
            tot = tot + (x - t.ip.elem_addr_value(t.st0, base, k))
        return tot
    d = t.delta(field)
    return d


def start_effects(ctx, rep, names):
    for n in names:
        ts = ctx.trs(n)
        s = ctx.sims[n]
        rep.functions(s.stats["functions"])
        rep.count("transitions", len(ts))
        rep.count("paths", len(ts) + s.stats["pruned"])
        rep.count("classes")
        if not ts:
            raise AnalysisBroken(f"no transition found for {n}")
        for t in ts:
            h = sorted(k[1] for k in t.st.flags if isinstance(k, tuple) and k[0] == "havoc")
            if h:
                rep.ob("transition understood", tname(t), None, f"calls that cannot be resolved: {h}")
                continue
            # on a path that depends on a value the interpretation lost, nothing is concluded against the code
            rep.soft = unresolved_path(t)
            try:
                yield s, t
            finally:
                rep.soft = False


LOST = {"call", "lphi", "lenf", "iter"}


def unresolved_path(t):
    if hasattr(t, "_up"):
        return t._up

    def lost(a):
        return a.kind in LOST or a.kind == "cnt" and a.args[0] in ("trip", "index") or a.kind == "argmin" and (
            a.args[0] == "np" or isinstance(a.args[0], tuple) and a.args[0][0] == "list" and isinstance(a.args[0][1], Atom) and a.args[0][1].kind in ("list", "dict"))

    def op(x):
        if isinstance(x, Rat):
            return contains_atom(x, lost)
        if isinstance(x, Atom):
            return contains_atom(rat(x), lost)
        return isinstance(x, tuple) and any(op(y) for y in x)
    f = t.facts
    t._up = any(op(k) for k in f.b) or any(op(k[1:]) for k in f.t) or any(op(a) or op(b) for a, b, c in f.minall)
    return t._up


# ----------------------------------------------------------------------------- S01
def lone_count(t, d):
    """c * (number of waiting jobs of the entry state that satisfy a condition): not zero for every state"""
    if not alg.p_is_const(d.d) or len(d.n) != 1:
        return False
    (m, c), = d.n.items()
    if len(m) != 1 or m[0][1] != 1:
        return False
    a = alg._ATOM_LIST[m[0][0]]
    if a.kind == "loopsum" and len(a.args) == 3 and isinstance(a.args[0], Rat) and len(a.args[0].atoms()) == 1:
        x = list(a.args[0].atoms())[0]
        if (a.args[0] / rat(x)).const() is not None:
            a = x
    if a.kind != "cntif":
        return False
    inner = alg.contains_atom(rat(a), lambda x: x.kind in ("call", "lphi", "lenf", "selidx", "iter"))
    seen = any(alg.contains_atom(k, lambda x: x.kind == "cntif") for k in t.facts.b)
    return not inner and not seen


def conservation(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        pop = total_delta(t, s.population)
        q, b = t.ghost("#q"), t.ghost("#busy")
        en = tname(t)
        if pop is None:
            rep.ob("in-system = waiting + in service", en, None, "population not tracked")
        else:
            d = pop - q - b
            v = verdict_zero(t, d)
            if v is None and lone_count(t, d):
                v = False
            rep.ob("in-system = waiting + in service", en, v,
                   f"the number in the system changes by {pop} while the queue changes by {q} and the busy servers by {b}",
                   sites(t))
        arr, ins, srv, drp = (total_delta(t, f) for f in ("arrived", "in_sys", "served", "dropped"))
        if None in (arr, ins, srv, drp):
            rep.ob("arrived = in system + served + lost", en, None)
        else:
            lost = drp
            if event_name(t) == "reneging":
                lost = ZERO     # a reneging job is reported both as served and as lost
                rep.ob("reneging job reported once in each total", en,
                       verdict_zero(t, drp - 1) and verdict_zero(t, srv - 1),
                       f"a reneging job changes served by {srv} and lost by {drp}", sites(t))
            rep.ob("arrived = in system + served + lost", en, verdict_zero(t, arr - ins - srv - lost),
                   f"arrivals counted {arr}, population {ins}, served {srv}, lost {drp}", sites(t))
        # every arrival is counted, every completion is counted
        ev = event_name(t)
        if ev == "arrival" and s.name != "batch":
            rep.ob("an arrival event counts one arrival", en, verdict_zero(t, arr - 1) if arr is not None else None,
                   f"arrival event changes the arrival counter by {arr}", sites(t))
        if ev in ("service completion",) and s.family == "single":
            rep.ob("a completion counts one served job", en, verdict_zero(t, srv - 1) if srv is not None else None,
                   f"completion changes the served counter by {srv}", sites(t))
        if ev not in ("arrival",) and arr is not None:
            rep.ob("only arrival events count arrivals", en, verdict_zero(t, arr),
                   f"{ev} changes the arrival counter by {arr}", sites(t))
        if ev not in ("service completion", "reneging") and srv is not None:
            rep.ob("only completions count served jobs", en, verdict_zero(t, srv),
                   f"{ev} changes the served counter by {srv}", sites(t))


# ----------------------------------------------------------------------------- S02
def scopes(t):
    """(events, loop stack) per straight-line scope"""
    def walk(tr, stack):
        here = []
        for e in tr:
            if isinstance(e, LoopEv):
                for evs, ex in e.alts:
                    yield from walk(evs, stack + (e,))
                here.append(e)
            else:
                here.append(e)
        yield here, stack
    return list(walk(t.st.trace, ()))


def occupancy(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        fc = t.delta("free_channels")
        b = t.ghost("#busy")
        rep.ob("free-server counter follows the servers", en, verdict_zero(t, fc + b) if fc is not None else None,
               f"free-server counter changes by {fc} while the number of busy servers changes by {b}",
               sites(t, {"start", "end"}) or sites(t))
        for evs, stack in scopes(t):
            for e in evs:
                if isinstance(e, LoopEv):
                    continue
                if e.kind == "start":
                    srv, prev, db = e.data
                    v = None
                    if prev is True:
                        v = True
                    elif prev is False:
                        v = False
                    else:
                        v = idle_evidence(t, s, srv, stack, e)
                    rep.ob("service starts only on an idle server", f"{en}|{e.where[2]}", v,
                           f"service starts on {srv} without evidence that it is idle", [e.where])
                elif e.kind == "end":
                    srv, prev, db = e.data
                    v = prev is not True
                    rep.ob("only a busy server finishes", f"{en}|{e.where[2]}", v,
                           f"{srv} is released although it is idle", [e.where])
        if s.family == "single":
            rep.ob("no idle server while a job waits", en, *exit_region(t, s))


def idle_evidence(t, s, srv, stack, e):
    a = srv.as_atom()
    f = e.facts if e.facts is not None else t.facts
    fc0, n = t.ent("free_channels"), t.ent("n")
    fc0 = F("free_channels") if fc0 is None else fc0
    all_idle = t.decide("==", F("free_channels") - F("n"), t.facts) is True
    if a is not None and a.kind == "idx" and isinstance(a.args[1], Rat):
        i = a.args[1].as_atom()
        if i is not None and i.kind == "loopidx":
            if all_idle:
                return True
            if s.name.startswith("split-join") and event_name(t) == "service completion":
                return True if all_parts_done(t) else None
        if all_idle and not stack:
            return True
    if contains_atom(srv, lambda x: x.kind in OPAQUE_KINDS or x.kind in ("lv",)):
        return None
    if any(k[0] == "elemfld" for k in t.st.flags if isinstance(k, tuple)):
        return None      # servers were released one by one in a loop: which ones is not tracked
    return False


def all_parts_done(t):
    """split-join: the completion that finishes the last part of the job in service"""
    return not t.zero(t.delta("in_sys"))


def exit_region(t, s):
    """a waiting job at the end of a transition implies saturation or an active phase"""
    q = t.get("queue", "queue")
    qa = q.as_atom()
    qn = t.ip.list_len(t.st, qa)
    fc = t.get("free_channels")
    msg = f"after the event the queue holds {qn} jobs with {fc} idle servers and no warm-up or cooling in progress"
    for p in ("warm_phase", "cold_phase"):
        if t.load(fld(ME, p), "is_start") is True and s.phases:
            return True, msg
    if t.decide("==", qn) is True or t.decide("<=", qn) is True:
        return True, msg
    if t.decide("==", fc) is True or t.decide("<=", fc) is True:
        return True, msg
    # the arrival that found no idle server / the completion handed the server on
    if t.decide("==", fc) is None and verdict_product(t, qn, fc):
        return True, msg
    # jobs join the queue only while every server is busy, and no server is released
    if not t.events({"end"}) and (t.decide("==", QLEN()) is True or t.decide("==", F("free_channels")) is True):
        adds = [e for e, _ in t.events() if e.kind in ("qappend", "qinsert", "qextend", "requeue")]
        if all(e.kind in ("qappend", "qinsert") and e.data[7] is True for e in adds):
            return True, msg
        bad = [e for e in adds if e.kind in ("qappend", "qinsert") and e.data[7] is False]
        if bad:
            return False, "a job is put into the queue while a server is idle", [e.where for e in bad]
    if opaque(qn) or opaque(fc):
        return None, msg
    return False, msg, sites(t)


def verdict_product(t, a, b):
    """a == 0 or b == 0 known as a disjunction: entry said so and neither can have grown"""
    return False


# ----------------------------------------------------------------------------- S03
def time_accounting(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        p = fld(ME, "p")
        tk = t.get("ttek")
        told0, told1 = t.ent("t_old"), t.get("t_old")
        told_changed = isinstance(told1, Rat) and told1 != told0
        cells = t.cells(p)
        if t.get("p") != rat(p):
            rep.ob("occupied time credited to the state left", en, None)
            continue
        n0 = t.ent("in_sys")
        tot = ZERO
        odd = None
        for k, v in cells.items():
            if not isinstance(v, Rat):
                odd = k
                continue
            d = v - R("idx", p, k)
            if d.is_zero():
                continue
            if (k - n0).is_zero() or t.decide("==", k - n0) is True:
                tot = tot + d
            else:
                odd = k
        tmpl = t.st.templates.get(p, ())
        if tmpl:
            odd = tmpl[-1][1]
        rep.ob("only the state left is credited", en, odd is None,
               f"time is credited to state {odd} although the system was in state {n0} since the previous event", sites(t))
        want = (told1 - told0) if isinstance(told1, Rat) else None
        rep.ob("credited time = time since the previous event", en,
               verdict_zero(t, tot - want) if want is not None else None,
               f"state {n0} is credited {tot}, elapsed time is {want}", sites(t))
        if told_changed:
            rep.ob("accounting clock = simulation clock", en, verdict_zero(t, told1 - tk),
                   f"accounting clock set to {told1} while the event happens at {tk}", sites(t))
        elif isinstance(t.delta("in_sys"), Rat) and t.zero(t.delta("in_sys")) is not True:
            rep.ob("accounting clock = simulation clock", en, False,
                   f"the number in the system changes by {t.delta('in_sys')} without closing the elapsed interval", sites(t))
        # never credited when the clock does not move
        if not told_changed and not tot.is_zero():
            rep.ob("credited time = time since the previous event", en + "|double", False,
                   "time is credited without moving the accounting clock", sites(t))


# ----------------------------------------------------------------------------- S04
def decompose(old, new):
    """new = old*(1-1/c) + x/c  ->  (c, x), or None"""
    oa = old.as_atom() if isinstance(old, Rat) else None
    if oa is None:
        return None
    try:
        w = alg.deriv(new, oa)
    except Exception:
        return None
    if contains_atom(w, lambda a: a is oa):
        return None
    om = ONE - w
    if om.is_zero():
        return None
    c = ONE / om
    x = (new - old * w) * c
    return c, x


def counter_of(c):
    """counter expression = location + constant"""
    ats = [a for a in c.atoms()]
    if len(ats) != 1:
        return None
    k = c - rat(ats[0])
    if k.const() is None:
        return None
    return ats[0], k.const()


def counter_loc(a):
    """the location a counter atom denotes (inside loops: the loop-carried value of a location)"""
    if a.kind == "lv":
        k = a.args[1]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], Atom):
            return atom("fld", k[0], k[1]) if isinstance(k[1], str) else atom("idx", k[0], k[1])
        return None
    return a


def task_fields(t, x):
    return field_chain(x)


def stat_groups(t):
    """[(list, class key, {i: (old,new)}, stack, order, event)]"""
    out = []
    for evs, stack in scopes(t):
        cur = {}
        seq = 0
        for e in evs:
            if isinstance(e, LoopEv) or e.kind != "stat":
                continue
            l, key, i, old, new = e.data
            g = cur.setdefault((l, key), [])
            if not g or i in g[-1][0]:
                g.append(({}, e))
            g[-1][0][i] = (old, new)
        for (l, key), gs in cur.items():
            for j, (d, e) in enumerate(gs):
                out.append((l, key, d, stack, j, e))
    return out


def statistics(ctx, rep, names):
    for name in names:
        counters = {}
        for s, t in start_effects(ctx, rep, [name]):
            en = tname(t)
            nsamp = {}
            for l, key, d, stack, j, e in stat_groups(t):
                idxs = sorted(int(i.const()) for i in d if i.const() is not None)
                rep.ob("three moments updated together", f"{en}|{l}", idxs == [0, 1, 2],
                       f"sample of {l} updates the moments {idxs}", [e.where])
                xs, cs = {}, {}
                bad = False
                for i, (old, new) in d.items():
                    dc = decompose_stat(old, new) if isinstance(new, Rat) else None
                    if dc is None:
                        bad = True
                        rep.ob("running mean", f"{en}|{l}", None, f"moment {i} of {l} not of the running-mean form", [e.where])
                        continue
                    cs[i], xs[i] = dc
                if bad or not xs:
                    continue
                c0 = next(iter(cs.values()))
                rep.ob("same weight for all moments", f"{en}|{l}", all((c - c0).is_zero() for c in cs.values()),
                       f"moments of {l} use different weights {list(map(str, cs.values()))}", [e.where])
                x1 = xs.get(ZERO)
                if x1 is None:
                    continue
                for i, x in xs.items():
                    k = int(i.const()) + 1
                    z = verdict_zero(t, x - x1 ** k, e.facts)
                    rep.ob("moment k uses the k-th power", f"{en}|{l}{k}", z,
                           f"moment {k} of {l} is fed {x} for the sample {x1}", [e.where])
                co = counter_of(c0)
                if co is None:
                    if c0.const() is not None and t.decide("==", c0 - c0.const()) is True:
                        pass
                    rep.ob("weight = number of samples", f"{en}|{l}", None if opaque(c0) else False,
                           f"a sample of {l} is weighted 1/({c0})", [e.where])
                else:
                    a, k = co
                    loc = counter_loc(a)
                    rep.ob("weight = number of samples", f"{en}|{l}", k == j + 1,
                           f"sample number {j + 1} of {l} in this event is weighted 1/({c0})", [e.where])
                    if loc is not None:
                        base = loc
                        counters.setdefault(l, {}).setdefault(_gen(base), []).append((t, key, base, e))
                sample_value(rep, s, t, en, l, x1, e, stack)
            # number of samples against the counter and against the job movements
            for l in ("w", "v", "ppnz"):
                nsamp[l] = stat_count(t, l)
            t._nsamp = nsamp
            samples_due(rep, s, t, en, nsamp)
        for l, cs in counters.items():
            if l == "ppnz" and len(cs) > 1:
                pass
            rep.ob("one counter per statistic", f"{name}|{l}", len(cs) == 1,
                   f"{l} is weighted by different counters: {sorted(cs)}", [x[0][3].where for x in cs.values()])
            if len(cs) != 1:
                continue
            base = next(iter(cs.values()))[0][2]
            for t in ctx.trs(name):
                dn = stat_count(t, l)
                if base.kind == "fld":
                    dc = t.load(base.args[0], base.args[1])
                    e0 = t.ip.load(t.st0, base.args[0], base.args[1])
                    dc = dc - e0 if isinstance(dc, Rat) else None
                else:
                    dc = total_delta(t, base.args[0].args[1])
                if dc is None or dn is None:
                    rep.ob("counter counts the samples", f"{tname(t)}|{l}", None)
                    continue
                rep.ob("counter counts the samples", f"{tname(t)}|{l}", verdict_zero(t, dc - dn),
                       f"{dn} samples of {l} are added while their counter {base} changes by {dc}", sites(t))


def _gen(a):
    return str(a) if a.kind == "fld" else str(a.args[0]) + "[k]"


def decompose_stat(old, new):
    """the old value may be the location value of an earlier sample (statv) or loop-carried"""
    return decompose(old, new)


def stat_count(t, l):
    tot = ZERO
    for (a, k), v in t.st.heap.items():
        if a is GH and isinstance(k, tuple) and k[0] == "#stat" and k[1] == l and isinstance(k[3], Rat) and k[3].is_zero():
            if not isinstance(v, Rat):
                return None
            tot = tot + v
    return tot


def sample_value(rep, s, t, en, l, x, e, stack):
    tk = now_at(t, stack)
    if l == "v":
        d = tk - x
        f = d.as_atom()
        ok = None
        if f is not None and f.kind == "fld" and f.args[1] == "arr_time":
            ok = True
        elif f is not None and f.kind == "idx" and f.args[0].kind == "fld" and f.args[0].args[1] == "first_subtask_arr_time":
            ok = True
        elif opaque(x):
            ok = None
        else:
            ok = False
        rep.ob("sojourn sample = departure - arrival", f"{en}|v", ok,
               f"the sojourn sample at time {tk} is {x}", [e.where])
        if ok and f.kind == "fld":
            job = f.args[0]
            rep.ob("sojourn sample is that of the departing job", f"{en}|v", departing(t, job),
                   f"the sojourn sample uses the arrival time of {job}, which is not the departing job", [e.where])
    elif l == "w":
        if x.is_zero():
            ok = True
            rep.ob("waiting sample", f"{en}|w", True)
            return
        d = x - tk
        ok = None
        ats = field_chain(d)
        forms = waiting_forms(d)
        if forms:
            ok = True
        elif x.as_atom() is not None and x.as_atom().kind == "fld" and x.as_atom().args[1] == "wait_time":
            ok = True
        elif opaque(x):
            ok = None
        else:
            ok = False
        rep.ob("waiting sample", f"{en}|w", ok, f"the waiting sample at time {tk} is {x}", [e.where])


def waiting_forms(d):
    """d = wait_time - start_waiting_time of one job, or -start_waiting_time, or -arr_time"""
    pos, neg = [], []
    if not alg.p_is_const(d.d):
        return False
    for m, c in d.n.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            return False
        a = alg._ATOM_LIST[m[0][0]]
        if a.kind != "fld":
            return False
        (pos if c > 0 else neg).append(a)
    if len(neg) != 1:
        return False
    j = neg[0].args[0]
    if neg[0].args[1] == "arr_time":
        return not pos
    if neg[0].args[1] != "start_waiting_time":
        return False
    return not pos or (len(pos) == 1 and pos[0].args[0] is j and pos[0].args[1] == "wait_time")


def now_at(t, stack):
    return t.get("ttek")


def departing(t, job):
    """job is the task of a server that finishes in this transition, or the one that leaves the queue"""
    if job.kind == "fld" and job.args[1] == "tsk_on_service":
        return any(e.data[0].as_atom() is job.args[0] for e, _ in t.events({"end"}))
    if event_name(t) == "reneging":
        tk = t.get("ttek").as_atom()
        return tk is not None and tk.kind == "fld" and tk.args[0] is job
    if job.kind in ("idx",):
        return None
    return False


def samples_due(rep, s, t, en, ns):
    srv = total_delta(t, "served")
    if ns["v"] is not None and srv is not None:
        rep.ob("one sojourn sample per departure", en, verdict_zero(t, ns["v"] - srv),
               f"{ns['v']} sojourn samples for {srv} departures", sites(t))
    if s.w_mode == "stop-waiting" and ns["w"] is not None:
        starts = t.ghost("#starts")
        due = starts + (ONE if event_name(t) == "reneging" else ZERO)
        rep.ob("one waiting sample per job that stops waiting", en, verdict_zero(t, ns["w"] - due),
               f"{ns['w']} waiting samples for {due} jobs that stop waiting", sites(t))
    if s.w_mode == "departure" and ns["w"] is not None and srv is not None:
        rep.ob("one waiting sample per departure", en, verdict_zero(t, ns["w"] - srv),
               f"{ns['w']} waiting samples for {srv} departures", sites(t))


# ----------------------------------------------------------------------------- S05
def buffer_rule(ctx, rep, names):
    buf = F("buffer")
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        if event_name(t) != "arrival":
            d = total_delta(t, "dropped")
            if d is not None and event_name(t) != "reneging":
                rep.ob("only arrivals are refused", en, verdict_zero(t, d), f"{event_name(t)} changes the lost counter by {d}",
                       sites(t))
            continue
        for e, stack in t.events({"drop", "qappend", "qinsert"}):
            for f, where in e.every():
                f = f or t.facts
                none = f.t.get(("isnone", buf))
                if e.kind == "drop":
                    ln = e.data[2]
                    v = False if none is True else t.decide(">=", ln - buf, f)
                    if v is None:
                        v = None if opaque(ln) else False
                    rep.ob("a job is refused only when the buffer is full", en, v,
                           f"a job is refused with {ln} jobs waiting", [where])
                else:
                    ln = e.data[4]
                    if none is True:
                        v = True
                    else:
                        v = t.decide("<", ln - buf, f)
                        if v is None:
                            v = None if opaque(ln) else False
                    rep.ob("a job waits only when the buffer has room", en, v,
                           f"a job joins {ln} waiting jobs without a test against the buffer", [where])


def parts_buffer(ctx, rep, names):
    """fork-join, split-join: a job is lost exactly when its parts that would have to wait do not fit"""
    buf, n, fc = F("buffer"), F("n"), F("free_channels")
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        if event_name(t) != "arrival":
            d = total_delta(t, "dropped")
            if d is not None:
                rep.ob("only arrivals are refused", en, verdict_zero(t, d), f"{event_name(t)} changes the lost counter by {d}",
                       sites(t))
            continue
        for e, stack in t.events({"drop", "qappend", "qinsert"}):
            for f, where in e.every():
                f = f or t.facts
                none = f.t.get(("isnone", buf))
                refused = e.kind == "drop"
                rule = "a job is refused only when its parts do not fit" if refused else "parts wait only when the buffer has room for them"
                if none is True:
                    rep.ob(rule, en, not refused, "a job is refused though the buffer is unlimited", [where])
                    continue
                cands = [x - buf for x in waiting_after(s, f, buf, n, fc)]
                v = None
                for x in cands:
                    v = t.decide(">" if refused else "<=", x, f)
                    if v is not None:
                        break
                if v is not False and refused and s.mode == "SJ":
                    w = t.decide("<", fc - n, f)
                    v = False if w is False else v if w else None if opaque(fc - n) else False
                if v is None:
                    v = None if any(opaque(without_totals(k)) and not any((k * sg - x).is_zero() for x in cands for sg in (1, -1)) for k in f.b
                                    if buf.as_atom() in k.atoms()) else False
                rep.ob(rule, en, v, "no test of the waiting parts against the buffer supports this", [where])


def waiting_after(s, f, buf, n, fc):
    """number of waiting parts if the job were accepted, as the tests of this path may express it"""
    if s.mode == "SJ":
        return [R("len", fld(fld(ME, "queue"), "queue")) + n]
    out = [F("sub_task_in_sys")]
    for k in f.b:
        if buf.as_atom() in k.atoms():
            for sg in (1, -1):
                x = k * sg + buf - n + fc
                a = x.as_atom()
                if a is not None and is_parts_total(a):
                    out.append(x + n - fc)
    return out


def without_totals(k):
    mp = {a: F("sub_task_in_sys") for a in k.atoms() if is_parts_total(a)}
    return deep_subst(k, mp) if mp else k


def is_parts_total(a):
    """sum of the lengths of all the queues of the servers"""
    if a.kind != "loopsum" or len(a.args) != 3:
        return False
    q = fld(ME, "queues")
    return a.args[0] == R("len", atom("idx", q, rat(atom("bv", 0)))) and rat(a.args[1]).is_zero() and a.args[2] in (F("n"), R("len", q))


# ----------------------------------------------------------------------------- S06
def fifo(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        for evs, stack in scopes(t):
            popped = []
            for e in evs:
                if isinstance(e, LoopEv):
                    continue
                if e.kind == "qappend":
                    rep.ob("new jobs join at the back", f"{en}|{e.where[2]}", True)
                    job = e.data[3]
                    if s.family == "single":
                        new_job(rep, s, t, en, job, e, queued=True)
                elif e.kind == "qinsert":
                    pos, ln = e.data[2], e.data[4]
                    v = verdict_zero(t, pos - ln, e.facts) if isinstance(pos, Rat) and isinstance(ln, Rat) else None
                    rep.ob("new jobs join at the back", f"{en}|{e.where[2]}", v, f"a job is inserted at position {pos}", [e.where])
                elif e.kind in ("qpop", "qremove"):
                    pos = e.data[2]
                    v = None
                    if isinstance(pos, Rat):
                        v = verdict_zero(t, pos, e.facts)
                        if v is False and contains_atom(pos, lambda a: a.kind in ("argmin", "cnt", "loopidx")) and \
                                event_name(t) == "reneging":
                            v = True
                    rep.ob("service takes the head of the queue", f"{en}|{e.where[2]}", v,
                           f"the job at position {pos} is taken", [e.where])
                    popped.append(e.data[3])
                elif e.kind == "assign":
                    job = e.data[1]
                    if isinstance(job, Rat) and job.as_atom() is not None:
                        ja = job.as_atom()
                        if ja.kind == "obj":
                            if s.family == "single":
                                new_job(rep, s, t, en, job, e, queued=False)
                        elif s.family == "single":
                            rep.ob("the job put in service is the one taken from the queue", f"{en}|{e.where[2]}",
                                   any(isinstance(p, Rat) and p == job for p in popped) or (None if opaque(job) else False),
                                   f"the server receives {job}", [e.where])
                elif e.kind == "requeue" and s.family == "single":
                    d = e.data[2]
                    rep.ob("leaving the queue keeps the order of the others", f"{en}|{e.where[2]}",
                           verdict_zero(t, d + 1, e.facts) if event_name(t) == "reneging" else
                           verdict_zero(t, d, e.facts), f"the waiting list is rebuilt with a change of {d}", [e.where])


def new_job(rep, s, t, en, job, e, queued):
    a = job.as_atom() if isinstance(job, Rat) else None
    if a is None or a.kind != "obj":
        return
    tk = t.get("ttek")
    snap = e.data[2] if e.kind == "assign" else e.data[6]
    arr, wt, sw = snap.items
    rep.ob("a new job is stamped with its arrival time", f"{en}|{e.where[2]}",
           verdict_zero(t, arr - tk) if isinstance(arr, Rat) else None, f"new job stamped {arr} at time {tk}", [e.where])
    rep.ob("a new job has not waited", f"{en}|{e.where[2]}", verdict_zero(t, wt) if isinstance(wt, Rat) else None,
           f"new job has waiting time {wt}", [e.where])
    if queued:
        rep.ob("waiting starts when the job is queued", f"{en}|{e.where[2]}",
               verdict_zero(t, sw - tk) if isinstance(sw, Rat) else None, f"start of waiting {sw} at time {tk}", [e.where])


# ----------------------------------------------------------------------------- S07
def leq(t, a, b, facts=None):
    f = facts or t.facts
    if a == b or t.decide("<=", a - b, f) is True:
        return True
    aa, bb = a.as_atom(), b.as_atom()
    if aa is None or bb is None:
        return None
    o = Order(f, (aa, bb))
    return True if o.le(aa, bb) else None


def opaque_facts(t):
    """do the path conditions mention values the interpretation could not resolve"""
    if hasattr(t, "_of"):
        return t._of
    f = t.facts

    def op(x):
        if isinstance(x, Rat):
            return opaque(x) or contains_atom(x, lambda a: a.kind == "argminlist")
        if isinstance(x, Atom):
            return opaque(rat(x))
        if isinstance(x, tuple):
            return any(op(y) for y in x)
        return False
    r = any(op(k) for k in f.b) or any(op(k[1:]) for k in f.t if k[0] not in ("argmin_is",)) \
        or any(op(a) or op(b) for a, b, c in f.minall) or any(op(a) for a, o, b in f.order)
    t._of = r
    return r


def min_of_group(t, tk, pred, facts=None):
    """tk <= every member of a group of times recognised by pred(template)"""
    f = facts or t.facts
    for v, tmpl, src in f.minall:
        if pred(tmpl, src):
            if v == tk or leq(t, tk, v, f):
                return True
            if isinstance(v, Rat) and leq(t, tk, v, f):
                return True
    return None


def _tmpl_field(tmpl):
    a = tmpl.as_atom() if isinstance(tmpl, Rat) else None
    return a


def event_order(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        tk = t.get("ttek")
        if not isinstance(tk, Rat) or opaque(tk):
            rep.ob("the earliest pending event is processed", en, None)
            continue
        cands = []
        servers = fld(ME, "servers")

        def is_servers(tmpl, src):
            a = _tmpl_field(tmpl)
            return a is not None and a.kind == "fld" and a.args[1] == "time_to_end_service" and a.args[0].kind == "idx" \
                and a.args[0].args[0] is servers and full_range(t, src, F("n"), servers)
        cands.append(("every server's completion", lambda: min_of_group(t, tk, is_servers)))
        if s.name == "finite-source":
            times = fld(ME, "arrival_times")

            def is_src(tmpl, src):
                a = _tmpl_field(tmpl)
                return a is not None and a.kind == "idx" and a.args[0] is times and full_range(t, src, F("m"), times)

            def fin():
                if t.decide("==", t.ent("sources_left")) is True:
                    return True
                return min_of_group(t, tk, is_src)
            cands.append(("every source's next request", fin))
        elif s.family != "prio":
            cands.append(("the next arrival", lambda: leq(t, tk, t.ent("arrival_time"))))
        if s.phases:
            for p, nm in (("warm_phase", "the end of warm-up"), ("cold_phase", "the end of cooling"),
                          ("cold_delay_phase", "the end of the cooling delay")):
                pe = t.ent(p, "end_time")
                if pe.const() is None:
                    cands.append((nm, lambda pe=pe: leq(t, tk, pe)))
        if s.name == "impatient":
            q = INNERQ

            def is_q(tmpl, src):
                a = _tmpl_field(tmpl)
                return a is not None and a.kind == "fld" and a.args[1] == "moment_to_leave" and full_range(t, src, None, q)

            def ren():
                if t.decide("==", QLEN()) is True:
                    return True
                return min_of_group(t, tk, is_q)
            cands.append(("every waiting job's patience", ren))
        if s.name.endswith("-delta"):
            sq = fld(ME, "subtask_arr_queue")

            def is_sub(tmpl, src):
                a = _tmpl_field(tmpl)
                return a is not None and a.kind == "fld" and a.args[1] == "future_arr_time" and full_range(
                    t, src, R("len", sq), sq)
            cands.append(("every pending part", lambda: min_of_group(t, tk, is_sub)))
        ev = event_name(t)
        rep.ob("the clock moves to a pending event", en, True if ev not in ("?", "no event") else False,
               f"the clock becomes {tk}", sites(t))
        for nm, chk in cands:
            v = chk()
            if v is None and not opaque_facts(t):
                v = False
            rep.ob("no earlier pending event is skipped", f"{en}|{nm}", v,
                   f"an event at {tk} is processed without evidence that it precedes {nm}", sites(t))


def full_range(t, src, n, lst):
    """does an iteration source cover the whole collection"""
    if not isinstance(src, tuple):
        return False
    if src[0] == "list":
        return src[1] is lst or (isinstance(src[1], Rat) and src[1].as_atom() is lst)
    if src[0] == "range":
        lo, hi = src[1], src[2]
        if not (isinstance(lo, Rat) and lo.is_zero()):
            return False
        if n is not None and (hi - n).is_zero():
            return True
        return isinstance(hi, Rat) and hi == R("len", lst)
    return False


# ----------------------------------------------------------------------------- S12
def clocks(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        tk = t.get("ttek")
        ev = event_name(t)
        used = {}

        def use(x, what, where):
            if x is None:
                return
            if x in used and used[x] != what:
                rep.ob("a random draw is used once", f"{en}|{what}", False,
                       f"the same draw sets {used[x]} and {what}", [where])
            else:
                used[x] = what
                rep.ob("a random draw is used once", f"{en}|{what}", True)
        # arrivals
        if s.name == "finite-source":
            pass
        elif s.family != "prio":
            a1, a0 = t.get("arrival_time"), t.ent("arrival_time")
            if ev == "arrival":
                d = a1 - a0 if isinstance(a1, Rat) else None
                v, smp = fresh_sample(d, fld(ME, "source"))
                rep.ob("next arrival = this arrival + one fresh interval", en, v, f"next arrival set to {a1} (this one {a0})",
                       sites(t, {"sample"}))
                use(smp, "the next arrival", None)
            else:
                rep.ob("other events leave the next arrival alone", en, verdict_zero(t, a1 - a0),
                       f"next arrival changes by {a1 - a0}", sites(t))
        # service
        for evs, stack in scopes(t):
            clk = {}
            for e in evs:
                if not isinstance(e, LoopEv) and e.kind == "clock":
                    clk.setdefault(e.data[0], []).append(e)
            for e in evs:
                if isinstance(e, LoopEv):
                    continue
                if e.kind == "start":
                    srv = e.data[0]
                    cs = clk.get(srv, [])
                    if not cs:
                        rep.ob("service time = one fresh draw from the server's distribution", f"{en}|{e.where[2]}", False,
                               f"{srv} starts a service without setting its end", [e.where])
                        continue
                    v = cs[-1].data[1]
                    d = v - tk if isinstance(v, Rat) else None
                    ok, smp = fresh_sample(d, fld(srv.as_atom(), "dist"))
                    rep.ob("service time = one fresh draw from the server's distribution", f"{en}|{e.where[2]}", ok,
                           f"end of service at {srv} set to {v}, now {tk}", [cs[-1].where])
                    use(smp, "a service", e.where)
                elif e.kind == "end":
                    srv = e.data[0]
                    cs = clk.get(srv, [])
                    started = any((not isinstance(x, LoopEv)) and x.kind == "start" and x.data[0] == srv for x in evs)
                    last = cs[-1].data[1] if cs else None
                    ok = started or (isinstance(last, Rat) and last.const() is not None and last.const() >= 10 ** 9)
                    rep.ob("a released server has no pending completion", f"{en}|{e.where[2]}", ok,
                           f"{srv} is released but keeps the completion time {last}", [e.where])


def fresh_sample(d, dist):
    """d is exactly one draw from dist"""
    if not isinstance(d, Rat):
        return None, None
    a = d.as_atom()
    if a is not None and a.kind == "sample":
        return (a.args[0] is dist), a
    if opaque(d):
        return None, None
    return False, None


# ----------------------------------------------------------------------------- S08
PH = {"warm": "warm_phase", "cold": "cold_phase", "delay": "cold_delay_phase"}


def phases(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        tk = t.get("ttek")
        ev = event_name(t)
        on0 = {k: t.ent(p, "is_start") is True for k, p in PH.items()}
        on1 = {}
        isset = {}
        for k, p in PH.items():
            v = t.load(fld(ME, p), "is_start")
            on1[k] = v if isinstance(v, bool) else None
            x = t.load(fld(ME, p), "is_set")
            isset[k] = x if isinstance(x, bool) else t.truth(F(p, "is_set"))
        for k, p in PH.items():
            ph = fld(ME, p)
            end1, prob, sm = t.load(ph, "end_time"), t.load(ph, "prob"), t.load(ph, "start_mom")
            prob0, sm0 = t.ent(p, "prob"), t.ent(p, "start_mom")
            d = prob - prob0 if isinstance(prob, Rat) else None
            nm = f"{en}|{k}"
            if on1[k] is None:
                rep.ob("phase state known", nm, None)
                continue
            if on0[k] and not on1[k]:
                rep.ob("a phase that ends is credited its length", nm, verdict_zero(t, d - (tk - sm0)) if d is not None else None,
                       f"phase {k} credited {d} instead of {tk - sm0}", sites(t))
            else:
                rep.ob("a phase is credited only when it ends", nm, verdict_zero(t, d) if d is not None else None,
                       f"phase {k} credited {d}", sites(t))
            if on1[k] and not on0[k]:
                rep.ob("a phase that starts records its start", nm, verdict_zero(t, sm - tk) if isinstance(sm, Rat) else None,
                       f"phase {k} records the start {sm} at time {tk}", sites(t))
                v, smp = fresh_sample(end1 - tk if isinstance(end1, Rat) else None, fld(ph, "dist"))
                rep.ob("phase length = one fresh draw from the phase distribution", nm, v,
                       f"end of phase {k} set to {end1} at time {tk}", sites(t))
                st1, st0 = t.load(ph, "starts_times"), t.ent(p, "starts_times")
                rep.ob("phase starts are counted", nm, verdict_zero(t, st1 - st0 - 1) if isinstance(st1, Rat) else None,
                       f"start counter of phase {k} changes by {st1 - st0 if isinstance(st1, Rat) else '?'}", sites(t))
            elif on1[k] and on0[k]:
                rep.ob("a running phase keeps its end", nm,
                       verdict_zero(t, end1 - t.ent(p, "end_time")) if isinstance(end1, Rat) else None,
                       f"end of running phase {k} changed to {end1}", sites(t))
            else:
                rep.ob("an inactive phase has no pending end", nm,
                       isinstance(end1, Rat) and end1.const() is not None and end1.const() >= 10 ** 15,
                       f"inactive phase {k} ends at {end1}", sites(t))
        if None in on1.values():
            continue
        # specification of the phase automaton
        fc0, n = F("free_channels"), F("n")
        q0 = R("len", INNERQ)
        q1 = t.ip.list_len(t.st, t.get("queue", "queue").as_atom())
        fc1 = t.get("free_channels")
        want = dict(on0)
        ok = True

        def known(op, r):
            nonlocal ok
            v = t.decide(op, r)
            if v is None:
                ok = False
            return v

        def iss(k):
            nonlocal ok
            if isset[k] is None:
                ok = False
            return isset[k]
        serve_all = None
        if ev == "arrival":
            if on0["delay"]:
                want["delay"] = False
            elif not on0["cold"] and not on0["warm"]:
                if known("==", fc0 - n) and iss("warm"):
                    want["warm"] = True
        elif ev == "service completion":
            empty = known("==", fc0 + 1 - n) and known("==", q0)
            if empty is None:
                # undecided emptiness: no phase may start then unless the path knows it
                ok = False
            if empty and iss("cold"):
                want["delay" if iss("delay") else "cold"] = True
        elif ev == "end of warm-up":
            want["warm"] = False
            serve_all = True
        elif ev == "end of cooling":
            want["cold"] = False
            if iss("warm"):
                if known(">=", q0 - 1):
                    want["warm"] = True
            else:
                serve_all = True
        elif ev == "end of cooling delay":
            want["delay"] = False
            want["cold"] = True
        else:
            ok = False
        if not ok:
            # not every condition of the specification is decided on this path: only what differs for sure counts
            changed = [k for k in PH if on0[k] != on1[k]]
            rep.ob("phase automaton", en, True if not changed and ev in ("arrival", "service completion") and
                   phase_irrelevant(t, ev, isset) else None,
                   f"{ev}: phases on before {on0}, after {on1}", sites(t))
        else:
            rep.ob("phase automaton", en, want == on1,
                   f"{ev}: phases on before {_on(on0)}, after {_on(on1)}, expected {_on(want)}", sites(t))
        if serve_all:
            # after the phase the queue is drained into the idle servers
            rep.ob("queue is served when the phase ends", en, *drained(t, q1, fc1))
        if ev == "arrival" and (on0["cold"] or on0["warm"]):
            rep.ob("no service while warming up or cooling", en, verdict_zero(t, t.ghost("#starts")),
                   f"{t.ghost('#starts')} services start during a phase", sites(t))
        if ev == "arrival" and want["warm"] and not on0["warm"] and ok:
            rep.ob("no service while warming up or cooling", en, verdict_zero(t, t.ghost("#starts")),
                   f"{t.ghost('#starts')} services start although warm-up begins", sites(t))


def phase_irrelevant(t, ev, isset):
    """no phase can be due: cooling not configured (completion) or servers all busy / warm-up not configured (arrival)"""
    if ev == "service completion":
        return isset["cold"] is False or t.decide(">=", R("len", INNERQ) - 1) is True or \
            t.decide("==", F("free_channels") + 1 - F("n")) is False
    return isset["warm"] is False or t.decide("==", F("free_channels") - F("n")) is False


def drained(t, q1, fc1):
    if t.decide("==", q1) is True or t.decide("<=", q1) is True or t.decide("==", fc1) is True or t.decide("<=", fc1) is True:
        return True, ""
    m = f"after the phase {q1} jobs wait with {fc1} idle servers"
    return (None if opaque(q1) or opaque(fc1) else False), m, sites(t)


def _on(d):
    return [k for k, v in d.items() if v] or "none"


# ----------------------------------------------------------------------------- S13 busy period
def busy_period(ctx, rep, names):
    for s, t in start_effects(ctx, rep, names):
        en = tname(t)
        fc0, fc1 = t.ent("free_channels"), t.get("free_channels")
        tk = t.get("ttek")
        b0 = t.decide("==", fc0)
        b1 = t.decide("==", fc1)
        if b1 is None and t.decide("<=", fc1) is True:
            b1 = True
        sp0, sp1 = t.ent("start_ppnz"), t.get("start_ppnz")
        ns = stat_count(t, "ppnz")
        loops_start = any(stack for e, stack in t.events({"start"}))
        if b1 is None and loops_start and not t.events({"end"}):
            # several services may start: judged per start
            for e, stack in t.events({"ppnzstart"}):
                rep.ob("a busy period starts when the last idle server is taken", en,
                       None if e.data[1] is None else (e.data[1] is True and verdict_zero(t, e.data[0] - tk, e.facts)),
                       f"start of the busy period recorded as {e.data[0]} at time {tk}", [e.where])
            for evs, stack in scopes(t):
                st_ = [e for e in evs if not isinstance(e, LoopEv) and e.kind == "start"]
                if not st_:
                    continue
                if not any(not isinstance(e, LoopEv) and e.kind == "ppnzstart" for e in evs):
                    ends_ = [e for e in evs if not isinstance(e, LoopEv) and e.kind == "iterend"]
                    if ends_ and stack:
                        rep.ob("a busy period starts when the last idle server is taken", en,
                               True if ends_[-1].data[0] is False else None if t.events({"ppnzstart"}) else False,
                               "a service starts without recording the start of the busy period although it may take the "
                               "last idle server", [st_[0].where])
            continue
        if b0 is False and b1 is None and isinstance(sp1, Rat) and isinstance(fc1, Rat) and not loops_start:
            # the last idle server may or may not have been taken: the case in which it was
            if not opaque(fc1) and not opaque_facts(t):
                st2 = t.st.copy()
                if t.ip.assume_cmp(st2, "==", fc1):
                    rep.ob("a busy period starts when the last idle server is taken", en, verdict_zero(t, sp1 - tk, st2.facts),
                           f"start of the busy period recorded as {sp1} at time {tk} when the last idle server may have been taken", sites(t))
                    continue
        if b0 is None or b1 is None or not isinstance(sp1, Rat):
            rep.ob("busy period bookkeeping", en, None, f"saturation before {b0}, after {b1}")
            continue
        ends = b0 and not b1
        starts = b1 and not b0
        rep.ob("a busy period is sampled exactly when it ends", en, verdict_zero(t, ns - (1 if ends else 0)),
               f"{ns} busy-period samples; all servers busy before: {b0}, after: {b1}", sites(t))
        if starts:
            z = verdict_zero(t, sp1 - tk)
            rep.ob("a busy period starts when the last idle server is taken", en, z,
                   f"start of the busy period recorded as {sp1} at time {tk}", sites(t))
        elif not ends:
            if b0 and b1:
                rep.ob("a running busy period keeps its start", en, verdict_zero(t, sp1 - sp0),
                       f"start of the running busy period moved to {sp1}", sites(t))
        if ends:
            for l, key, d, stack, j, e in stat_groups(t):
                if l != "ppnz" or ZERO not in d:
                    continue
                dc = decompose(*d[ZERO])
                if dc is None:
                    continue
                rep.ob("busy-period sample = end - start", en, verdict_zero(t, dc[1] - (tk - sp0)),
                       f"busy-period sample is {dc[1]}", [e.where])
