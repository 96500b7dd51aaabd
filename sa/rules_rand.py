"""Where the simulators take their randomness from."""
from .alg import rat, R, atom, ONE
from .simcore import *
from .fn import Sym
from .interp import State
from . import rules_dist as RD
from .model import AnalysisBroken

GEN = rat(atom("obj", "gen"))
QS = '''
from most_queue.sim.{mod} import {cls}
def drive(g, n, a, pa, b, pb, x, px):
    q = {cls}({args})
    q.generator = g
{body}
    return q
'''
BASIC = ["q.set_sources(pa, a)", "q.set_servers(pb, b)"]
WARM = ["q.set_warm(px, x)", "q.set_cold(px, x)", "q.set_cold_delay(px, x)"]
SIMS = {
    "QueueingSystemSimulator": ("qs_sim", "n", BASIC + WARM),
    "QueueingSystemBatchSim": ("batch_sim", "n, [0.2, 0.8]", BASIC),
    "ImpatientQueueSim": ("impatient_queue_sim", "n", BASIC + ["q.set_impatiens(px, x)"]),
    "QueueingFiniteSourceSim": ("queue_finite_source_sim", "n, 4", BASIC),
    "ForkJoinSim": ("fj_sim", "n, 2", BASIC),
    "ForkJoinSimDelta": ("fj_delta_sim", "n, 2, [1.0, 2.0]", BASIC),
    "PriorityQueueSimulator": ("priority_queue_sim", "n, 2, 'RS'",
                               ["q.set_sources([{'type': a, 'params': pa}, {'type': x, 'params': px}])",
                                "q.set_servers([{'type': b, 'params': pb}, {'type': x, 'params': px}])",
                                "q.set_warm_up([{'type': b, 'params': pb}, {'type': x, 'params': px}])"]),
}


def is_gen(r):
    return isinstance(r, Rat) and r == GEN


def dist_objects(ctx, ip, st):
    """distribution objects of the heap"""
    mod = ctx.prog.modules.get(RD.M)
    for o, c in ip.objcls.items():
        if mod is not None and c.module is mod:
            yield o, c


def configured(ctx, rep, tier):
    """every distribution that a simulator builds draws from the generator of that simulator"""
    sym = Sym(ctx.prog)
    A, B, X = RD.by_notation(), RD.by_notation("_s"), RD.by_notation("_0")
    jobs = [("M", "E", "H"), ("C", "Pa", "Gamma"), ("Uniform", "Norm", "M")]
    for cls, (mod, args, body) in SIMS.items():
        for a, b, x in jobs:
            def run(cls=cls, mod=mod, args=args, body=body, a=a, b=b, x=x):
                src = QS.format(cls=cls, mod=mod, args=args, body="\n".join("    " + l for l in body))
                ip, st = sym.ip(), State()
                RD.notation_setup(ip, st)
                st.facts.t[("bool", GEN)] = True
                _, res = sym.drive(src, [GEN, rat(2), a, A[a][1], b, B[b][1], x, X[x][1]], ip=ip, st=st)
                rep.functions({f.qual for f in ip.inlined})
                seen = 0
                for s, v in res:
                    if "raise" in s.flags:
                        continue
                    for o, c in dist_objects(ctx, ip, s):
                        if c.name == "Det_dist":
                            continue
                        if (o, "generator") not in s.heap:
                            continue
                        g = s.heap[(o, "generator")]
                        seen += 1
                        rep.ob("a distribution built by a simulator has its generator", f"{cls}|{c.name}",
                               is_gen(g) or (None if isinstance(g, Rat) and RD.contains_atom(g, lambda z: z.kind in RD.OPAQUE) else False),
                               f"{c.name} is built with generator {g}")
                    for e in s.trace:
                        if getattr(e, "kind", None) == "rnd":
                            rep.ob("configuring draws from the generator of the simulator", f"{cls}|{e.where[2]}", is_gen(e.data[0]),
                                   f"a draw of {e.data[1]} from {e.data[0]}", [e.where])
                if not seen:
                    rep.ob("a distribution built by a simulator has its generator", cls, None, "no distribution was recognised")
            rep.guard(f"{cls}|{a},{b},{x}", run)


def samplers(ctx, rep, tier):
    """a distribution with a generator draws from it and from nothing else"""
    sym = Sym(ctx.prog)
    for cls, params, law, label in RD.laws("quick"):
        if cls == "Det_dist":
            continue
        for static in (False, True):
            def run(cls=cls, params=params, label=label, static=static):
                ip, st = sym.ip(), State()
                RD.POS(ip, st)
                st.facts.t[("bool", GEN)] = True
                if static:
                    _, res = sym.call(RD.M, f"{cls}.generate_static", RD.flat(params) + [GEN], ip=ip, st=st)
                    res = list(res)
                else:
                    _, objs = sym.new(RD.M, cls, [params, GEN], ip=ip, st=st)
                    res = [r for s1, o in objs for r in sym.method(ip, s1, o, "generate", [])]
                n = 0
                for s, v in res:
                    for e in s.trace:
                        if getattr(e, "kind", None) == "rnd":
                            n += 1
                            rep.ob("a sampler draws from its generator", f"{label}|{e.where[2]}", is_gen(e.data[0]),
                                   f"a draw of {e.data[1]} from {e.data[0]}", [e.where])
                if not n:
                    rep.ob("a sampler draws from its generator", label, None, "no draw recognised")
            rep.guard(f"{label}|{static}", run)


def steps(ctx, rep, tier):
    """the events of a simulation draw from the generator of the simulator (or from the distributions it configured)"""
    for name, s in ctx.sim.sims.items():
        def run(name=name):
            for t in ctx.sim.trs(name):
                rep.count("transitions")
                for e, _ in t.events(("rnd",)):
                    g = e.data[0]
                    own = isinstance(g, Rat) and (g == F("generator") or
                                                  (g.as_atom() is not None and g.as_atom().kind == "fld" and g.as_atom().args[1] == "generator"))
                    rep.ob("an event draws from the generator of the simulator", f"{name}|{e.where[2]}", own or
                           (None if isinstance(g, Rat) and RD.contains_atom(g, lambda z: z.kind in RD.OPAQUE) else False),
                           f"a draw of {e.data[1]} from {g}", [e.where])
        rep.guard(name, run)


OWN = '''
from most_queue.sim.{mod} import {cls}
def drive(n):
    return {cls}({args})
'''
NETWORK = '''
from most_queue.sim.priority_network import PriorityNetwork
def drive(g, l0, l1):
    R0 = [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
    b = [{"type": "M", "params": 1.0}, {"type": "M", "params": 2.0}]
    return PriorityNetwork(2, [l0, l1], [R0, R0], [1, 1], ["NP", "PR"], [b, b], [[0, 1], [1, 0]])
'''


def own_generator(ctx, rep, tier):
    """each simulator owns one generator, made when it is built; nothing seeds a shared one"""
    import ast
    sym = Sym(ctx.prog)
    for m in ctx.prog.modules.values():
        if not m.name.startswith("most_queue.sim"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                r = ctx.prog.resolve_expr(m, n.func)
                if isinstance(r, tuple) and r[0] == "ext" and r[1] in ("numpy.random.seed", "random.seed", "numpy.random.set_state"):
                    rep.ob("no simulator seeds the global generators", m.rel, False, f"{r[1]} at line {n.lineno}", [f"{m.rel}:{n.lineno}"])
        rep.ob("no simulator seeds the global generators", m.rel, True)
    for cls, (mod, args, body) in SIMS.items():
        def run(cls=cls, mod=mod, args=args):
            ip, st = sym.ip(), State()
            RD.notation_setup(ip, st)
            _, res = sym.drive(OWN.format(cls=cls, mod=mod, args=args), [rat(2)], ip=ip, st=st)
            for s, v in res:
                g = s.heap.get((v.as_atom(), "generator")) if isinstance(v, Rat) else None
                ga = g.as_atom() if isinstance(g, Rat) else None
                rep.ob("a simulator makes its own generator", cls, True if ga is not None and ga.kind == "newgen" else
                       None if isinstance(g, Rat) and RD.contains_atom(g, lambda z: z.kind in ("call",)) else False, f"generator {g}")
        rep.guard(cls, run)

    def net():
        ip, st = sym.ip(), State()
        for x in (RD.S("l0"), RD.S("l1")):
            ip.assume_cmp(st, ">", x)
        _, res = sym.drive(NETWORK, [GEN, RD.S("l0"), RD.S("l1")], ip=ip, st=st)
        for s, v in res:
            if "raise" in s.flags or not isinstance(v, Rat):
                continue
            own = s.heap.get((v.as_atom(), "generator"))
            oa = own.as_atom() if isinstance(own, Rat) else None
            rep.ob("a simulator makes its own generator", "PriorityNetwork", oa is not None and oa.kind == "newgen", f"generator {own}")
            for o, c in dist_objects(ctx, ip, s):
                if (o, "generator") not in s.heap or c.name == "Det_dist":
                    continue
                g = s.heap[(o, "generator")]
                ga = g.as_atom() if isinstance(g, Rat) else None
                rep.ob("a distribution of the network draws from a generator made by it or its nodes", f"PriorityNetwork|{c.name}",
                       True if ga is not None and ga.kind == "newgen" else None if isinstance(g, Rat) and RD.contains_atom(
                           g, lambda z: z.kind in RD.OPAQUE) else False, f"generator {g}")
            for e in s.trace:
                if getattr(e, "kind", None) == "rnd":
                    rep.ob("configuring draws from the generator of the simulator", f"PriorityNetwork|{e.where[2]}", e.data[0] != "global",
                           f"a draw of {e.data[1]} from {e.data[0]}", [e.where])
    rep.guard("PriorityNetwork", net)
