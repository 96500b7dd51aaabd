"""Laws that a simulator realises with its own draws: batch sizes, patience."""
from .alg import rat, R, ZERO, ONE, contains_atom, deep_subst
from .fn import Sym
from .interp import State
from .expect import moment, rnds, Unknown
from . import rules_dist as RD
from . import rules_rand as RR
from .simcore import *

S = RD.S
BATCH = '''
from most_queue.sim.batch_sim import QueueingSystemBatchSim
def drive(g, n, probs, l, mu, calls):
    q = QueueingSystemBatchSim(n, probs)
    q.generator = g
    q.set_sources(l, "M")
    q.set_servers(mu, "M")
    out = []
    for i in range(calls):
        before = q.arrived
        q.arrival()
        out.append(q.arrived - before)
    return out
'''


def batches(ctx, rep, tier):
    """a batch has i jobs with the i-th configured probability, whatever the other batches"""
    sym = Sym(ctx.prog)
    cases = [("one size", 1, 1), ("two sizes", 2, 1), ("three sizes", 3, 1), ("two sizes, two batches", 2, 2)]
    if tier == "thorough":
        cases.append(("four sizes", 4, 1))
    for label, m, calls in cases:
        def run(label=label, m=m, calls=calls):
            ip, st = sym.ip(), State()
            b = [S(f"b{i}") for i in range(m - 1)]
            for x in b:
                ip.assume_cmp(st, ">", x)
            rest = ONE - sum(b, ZERO)
            ip.assume_cmp(st, ">", rest)
            for i in range(m - 1):
                ip.assume_cmp(st, ">", ONE - sum(b[:i + 1], ZERO))
            probs = b + [rest]
            l, mu = S("l"), S("mu")
            for x in (l, mu):
                ip.assume_cmp(st, ">", x)
            st.facts.t[("bool", RR.GEN)] = True
            _, res = sym.drive(BATCH, [RR.GEN, rat(8), probs, l, mu, rat(calls)], ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            rep.count("paths", len(res))
            got = {}
            for s, v in res:
                if "raise" in s.flags:
                    rep.ob("a batch can arrive", label, False, "the arrival raises")
                    continue
                xs = [ip.elem_addr_value(s, v.as_atom(), rat(i)) for i in range(calls)]
                cs = [x.const() if isinstance(x, Rat) else None for x in xs]
                if None in cs:
                    raise Unknown(f"batch of {xs} jobs")
                key = tuple(int(c) for c in cs)
                got[key] = got.get(key, ZERO) + moment(ONE, 1, s.facts, lambda op, x, s=s: ip.decide_cmp(s.facts, op, x))
            import itertools
            for key in set(got) | set(itertools.product(range(1, m + 1), repeat=calls)):
                want = ONE
                for i in key:
                    want = want * (probs[i - 1] if 1 <= i <= m else ZERO)
                have = got.get(key, ZERO)
                rep.ob("batch sizes follow the configured probabilities", f"{label}|{','.join(map(str, key))}", RD.decided(have - want),
                       f"a batch of {key} jobs has probability {have}, configured {want}")
        RD.guard(rep, label, run)


PATIENCE = '''
from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
def drive(g, n, l, mu, a, pa):
    q = ImpatientQueueSim(n)
    q.generator = g
    q.set_sources(l, "M")
    q.set_servers(mu, "M")
    q.set_impatiens(pa, a)
    q.arrival()
    out = []
    for i in range(2):
        q.arrival()
    for t in q.queue.queue:
        out.append([t.moment_to_leave - t.arr_time, t.start_waiting_time - t.arr_time])
    return out
'''


def patience(ctx, rep, tier):
    """every job gets one fresh draw of the configured patience, counted from its arrival"""
    sym = Sym(ctx.prog)
    A = RD.by_notation()
    for nt in ("M", "Uniform", "Gamma"):
        def run(nt=nt):
            ip, st = sym.ip(), State()
            RD.notation_setup(ip, st)
            l, mu = S("l"), S("nu")
            for x in (l, mu):
                ip.assume_cmp(st, ">", x)
            st.facts.t[("bool", RR.GEN)] = True
            _, res = sym.drive(PATIENCE, [RR.GEN, rat(1), l, mu, nt, A[nt][1]], ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            _, ref = sym.new(RD.M, A[nt][0], [A[nt][1], RR.GEN], ip=ip, st=State())
            for s, v in res:
                if "raise" in s.flags:
                    rep.ob("patience can be configured", nt, False, "configuring or arriving raises")
                    continue
                from .rules_theory import py
                rows = py(ip, s, v)
                if not isinstance(rows, list) or not all(isinstance(r, list) and all(isinstance(x, Rat) for x in r) for r in rows):
                    rep.ob("a job's patience is one fresh draw of the configured law", nt, None, str(rows)[:200])
                    continue
                rep.ob("two jobs wait behind the one in service", nt, len(rows) == 2, f"{len(rows)} jobs wait")
                used = set()
                for i, (x, w) in enumerate(rows):
                    rep.ob("waiting starts at the arrival", nt, RD.decided(w), f"waiting starts {w} after the arrival")
                    try:
                        ok = all(RD.zero(moment(x, k, s.facts) - reference(ip, sym, nt, A, k)) for k in (1, 2))
                    except Unknown as e:
                        ok = None
                    d = set(rnds(x))
                    rep.ob("a job's patience is one fresh draw of the configured law", nt, False if d & used else ok, f"patience of waiting job {i} is {x}")
                    used |= d
        RD.guard(rep, nt, run)


def reference(ip, sym, nt, A, k):
    for cls, params, law, label in RD.laws("quick"):
        if cls == A[nt][0]:
            break
    # documented moments of the law with the parameters of the notation table
    if nt == "M":
        mu = A[nt][1]
        return rat([1, 1, 2][k]) / mu ** k
    if nt == "Uniform":
        m, h = A[nt][1]
        return m if k == 1 else m ** 2 + h ** 2 / 3
    mu, al = A[nt][1]
    return al / mu if k == 1 else al * (al + 1) / mu ** 2


PHASES = '''
from most_queue.sim.qs_sim import QueueingSystemSimulator
def drive(g, n, which, a, pa, b, pb, c, pc):
    q = QueueingSystemSimulator(n)
    q.generator = g
    if which[0]:
        q.set_warm(pa, a)
    if which[1]:
        q.set_cold(pb, b)
    if which[2]:
        q.set_cold_delay(pc, c)
    out = []
    for i, p in enumerate([q.warm_phase, q.cold_phase, q.cold_delay_phase]):
        row = [p.is_set, p.is_start, p.end_time, p.prob, p.starts_times]
        if which[i]:
            row.append(p.dist.generate())
        out.append(row)
    return out
'''
NAMES = ("warm-up", "cooling", "cooling delay")


def phase_laws(ctx, rep, tier):
    """each phase that was configured, and no other, is set, has not begun, and lasts one draw of its own law"""
    from .rules_theory import py
    sym = Sym(ctx.prog)
    kinds = [("M", S("mu")), ("Uniform", [S("mean_s"), S("half_s")]), ("Gamma", [S("mu_0"), S("alpha_0")])]

    def law(i, k):
        nt, p = kinds[i]
        if nt == "M":
            return rat([1, 1, 2][k]) / p ** k
        if nt == "Uniform":
            return p[0] if k == 1 else p[0] ** 2 + p[1] ** 2 / 3
        return p[1] / p[0] if k == 1 else p[1] * (p[1] + 1) / p[0] ** 2
    for which in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1), (0, 0, 1)):
        label = " + ".join(n for n, w in zip(NAMES, which) if w) or "no phases"

        def run(which=which, label=label):
            ip, st = sym.ip(), State()
            RD.notation_setup(ip, st)
            st.facts.t[("bool", RR.GEN)] = True
            args = [x for nt, p in kinds for x in (nt, p)]
            _, res = sym.drive(PHASES, [RR.GEN, rat(2), [bool(w) for w in which]] + args, ip=ip, st=st)
            rep.functions({f.qual for f in ip.inlined})
            rep.count("paths", len(res))
            for s, v in res:
                if which == (0, 0, 1):
                    rep.ob("a cooling delay without cooling is refused", label, "raise" in s.flags, "it is accepted")
                    continue
                if "raise" in s.flags:
                    rep.ob("the phases can be configured", label, False, "configuring the phases raises")
                    continue
                rows = py(ip, s, v)
                if not isinstance(rows, list) or len(rows) != 3:
                    rep.ob("the phases can be configured", label, None, str(rows)[:200])
                    continue
                for i, row in enumerate(rows):
                    w = f"{label}|{NAMES[i]}"
                    setv, begun, end, prob, times = row[:5]
                    tr = lambda x: x if isinstance(x, bool) else None if not isinstance(x, Rat) or x.const() is None else bool(x.const())
                    a = tr(setv)
                    rep.ob("a phase is set when it was configured, and only then", w, None if a is None else a == bool(which[i]), f"is_set = {setv}")
                    a = tr(begun)
                    rep.ob("no phase has begun before the run", w, None if a is None else not a, f"is_start = {begun}")
                    c = end.const() if isinstance(end, Rat) else None
                    rep.ob("no phase has begun before the run", w, None if c is None else c >= 10 ** 9, f"end_time = {end}")
                    for nm, x in (("time in the phase", prob), ("number of starts", times)):
                        rep.ob("no phase has begun before the run", w + "|" + nm, RD.decided(x) if isinstance(x, Rat) else None, f"{nm} starts at {x}")
                    if which[i]:
                        x = row[5]
                        try:
                            ok = all(RD.zero(moment(x, k, s.facts) - law(i, k)) for k in (1, 2)) if isinstance(x, Rat) else None
                        except Unknown:
                            ok = None
                        rep.ob("a phase lasts one draw of its configured law", w, ok, f"a draw is {x}")
        RD.guard(rep, label, run)


DELAY = '''
from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
def drive(g, n, parts, delta, l, mu, sj):
    q = ForkJoinSimDelta(n, parts, delta, sj)
    q.generator = g
    q.set_sources(l, "M")
    q.set_servers(mu, "M")
    q.task_arrival()
    return [t.future_arr_time - t.arr_time for t in q.subtask_arr_queue]
'''


def part_delays(ctx, rep, tier):
    """part i of a delayed job is released i delays after the job's arrival"""
    from .rules_theory import py
    sym = Sym(ctx.prog)
    d1, d2, d3 = (S(f"d{i}") for i in (1, 2, 3))
    for kind, delta in (("number", d1), ("moments", [d1, d2, d3])):
        for sj in (False, True):
            label = f"{'split-join' if sj else 'fork-join'}|delay given as {kind}"

            def run(kind=kind, delta=delta, sj=sj, label=label):
                ip, st = sym.ip(), State()
                for x in (d1, d2, d3, d2 - d1 ** 2, S("l"), S("mu")):
                    ip.assume_cmp(st, ">", x)
                st.facts.t[("bool", RR.GEN)] = True
                _, res = sym.drive(DELAY, [RR.GEN, rat(4), rat(4), delta, S("l"), S("mu"), sj], ip=ip, st=st)
                rep.functions({f.qual for f in ip.inlined})
                for s, v in res:
                    if "raise" in s.flags:
                        rep.ob("a delayed job can arrive", label, False, "the arrival raises")
                        continue
                    xs = py(ip, s, v)
                    if not isinstance(xs, list) or not all(isinstance(x, Rat) for x in xs):
                        rep.ob("part i is released i delays after the job", label, None, str(xs)[:200])
                        continue
                    rep.ob("every part but the first is delayed", label, len(xs) == 3, f"{len(xs)} parts are delayed")
                    used = set()
                    for j, x in enumerate(xs):
                        i = j + 1
                        if kind == "number":
                            ok = RD.decided(x - i * d1)
                        else:
                            m1 = rat(i) * d1
                            m2 = rat(i) * (d2 - d1 ** 2) + m1 ** 2
                            try:
                                ok = RD.zero(moment(x, 1, s.facts) - m1) and RD.zero(moment(x, 2, s.facts) - m2)
                            except Unknown:
                                ok = None
                            d = set(rnds(x))
                            if d & used:
                                ok = False
                            used |= d
                        rep.ob("part i is released i delays after the job", f"{label}|part {i}", ok, f"part {i} comes {x} after the job")
            RD.guard(rep, label, run)
