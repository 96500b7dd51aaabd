"""Which rules decide which property."""
from . import rules_sim as RS
from . import rules_fj as RF
from . import rules_dist as RD
from . import rules_prty as RP
from . import rules_net as RN
from . import rules_rand as RR
from . import rules_init as RI
from . import rules_theory as RT
from . import rules_mg1 as RG
from . import rules_class as RC
from . import rules_forms as RO
from . import rules_tt as RTT
from . import rules_ttout as RTO
from . import rules_pass as RPS
from . import rules_num as RNU
from . import rules_law as RL

SINGLE = ["multichannel", "multichannel-deque", "batch", "impatient", "finite-source"]
FJ = ["fork-join", "fork-join-purge", "split-join", "fork-join-delta", "split-join-delta"]

LIMITS = [
    "real arithmetic: floating-point rounding is not modelled",
    "ghost relation assumed on entry of every event and re-established by the rules S01/S02: population = waiting + in service",
    "two pending events never fall on the same instant (continuous interval distributions)",
    "run() only repeats run_one_step; the loop itself is not unrolled",
]


def sim(rule, names):
    def run(ctx, rep, tier):
        for n in names:
            rep.guard(n, lambda: rule(ctx.sim, rep, [n]))
    return run


def both(*runs):
    def run(ctx, rep, tier):
        for r in runs:
            r(ctx, rep, tier)
    return run


REG = {
    "S01": dict(run=both(sim(RS.conservation, SINGLE + FJ), sim(RF.completion, FJ))),
    "S02": dict(run=both(sim(RS.occupancy, SINGLE + FJ), sim(RF.work_conserving, FJ))),
    "S03": dict(run=sim(RS.time_accounting, SINGLE + FJ)),
    "S04": dict(run=sim(RS.statistics, SINGLE + FJ)),
    "S05": dict(run=both(sim(RS.buffer_rule, SINGLE), sim(RS.parts_buffer, ["fork-join", "fork-join-purge", "split-join"]))),
    "S06": dict(run=sim(RS.fifo, SINGLE)),
    "S07": dict(run=sim(RS.event_order, SINGLE + FJ)),
    "S08": dict(run=sim(RS.phases, ["multichannel-phases"])),
    "S09": dict(run=sim(RS.busy_period, SINGLE)),
    "S10": dict(run=sim(RS.clocks, SINGLE + FJ)),
    "S11": dict(run=both(sim(RF.completion, FJ), sim(RF.splitting, FJ), sim(RF.own_queue, FJ), sim(RF.purging, FJ))),
}
for _id, _rule in (("P01", RP.conservation), ("P02", RP.discipline), ("P03", RP.service_times), ("P04", RP.time_accounting),
                   ("P05", RP.statistics), ("P06", RP.event_order)):
    REG[_id] = dict(run=sim(_rule, RP.NAMES))
NET = ["network"]
REG["N01"] = dict(run=both(sim(RN.routing, NET), sim(RN.transfers, NET)))
REG["N02"] = dict(run=sim(RN.counters, NET))
REG["N03"] = dict(run=sim(RN.event_order, NET))
DIST_LIMITS = ["real arithmetic: floating-point rounding is not modelled",
               "a draw of the generator is a standard uniform (random), gamma, normal or uniform variable as numpy documents",
               "parameters are in the documented range (probabilities in (0, 1), positive rates, at most the checked Erlang orders)"]
DIST_EXPL = ("Symbolic abstract interpretation of the distribution classes from /repo's current source; every path's result is a rational "
             "expression in parameters and draws, integrated in closed form over the draws and compared, as a normal form, with the documented law.")
REG["D01"] = dict(run=both(RD.sampler, RD.theory_moments), assumptions=DIST_LIMITS, explanation=DIST_EXPL)
REG["D02"] = dict(run=RD.fitting, assumptions=DIST_LIMITS, explanation=DIST_EXPL)
REG["D03"] = dict(run=RD.functions, assumptions=DIST_LIMITS, explanation=DIST_EXPL)
REG["D04"] = dict(run=RD.dispatch, assumptions=DIST_LIMITS, explanation=DIST_EXPL)
REG["S12"] = dict(run=sim(RI.sources, ["finite-source"]))
START = ["a concrete number of servers, classes and parts (2 each) and exponential distributions; rates symbolic"]
REG["S13"] = dict(run=RI.start_state, assumptions=START, explanation="Abstract interpretation of constructors and configuration methods over "
                  "symbolic parameters; the resulting object graph is compared with the empty state that the inductive rules S01-S12 start from.")
REG["S14"] = dict(run=RI.reports, assumptions=["small concrete sizes; occupation times and simulated time symbolic", "run() is followed with a "
                  "stand-in step that serves a job every second event"], explanation="Abstract interpretation of the reporting functions and of run() over symbolic statistics; results compared as normal forms.")
REG["S15"] = dict(run=both(RL.batches, RL.patience, RL.phase_laws, RL.part_delays), assumptions=DIST_LIMITS + [
    "up to four batch sizes and two consecutive batches, two waiting jobs, four parts"],
    explanation="Abstract interpretation of configuration and arrival handlers over symbolic parameters and draws; the value or the branch that a draw "
    "selects is integrated in closed form and compared, as a normal form, with the configured law.")
REG["N04"] = dict(run=RI.network_start, assumptions=["two nodes, one to three classes, exponential services; all rates symbolic"],
                  explanation="Abstract interpretation of the network's constructor and of a service start on every channel for every priority; the sampled laws are compared with the class that has that priority.")
REG["R01"] = dict(run=both(RR.configured, RR.samplers, RR.steps, RR.own_generator), assumptions=[
    "draws are recognised as calls of numpy.random, random, or draw methods of an object; a generator hidden behind other library calls is not seen"],
    explanation="Effect analysis: every draw of random numbers reachable from configuring a simulator, from a sampler or from an event is "
    "collected with the generator it uses, on all abstract paths, and compared with the generator that owns it.")
TH_LIMITS = ["real arithmetic: rounding, overflow and the error of numerical differentiation are not modelled",
             "sizes (servers, sources, classes, moments, buffer places) are the small concrete ones listed in the evidence; rates, moments and probabilities are symbolic",
             "iterations whose length depends on the data are followed for a few steps"]
TH_EXPL = ("Symbolic abstract interpretation of the analytic models from /repo's current source: every result is a rational expression in the "
           "symbolic rates and moments, substituted into the balance or transform equation that defines the model and compared as a normal form.")
for _id, _runs in (("T01", (RT.mmnr, RT.engset, RT.batch, RT.impatience)), ("T02", (RG.conv, RG.qpois, RG.mg1, RG.warm)),
                   ("T03", (RG.gim1, RG.gimn, RG.deterministic)),
                   ("T04", (RO.fork_join, RO.ratios, RO.maxima)), ("T05", (RO.balance, RO.network)),
                   ("T07", (RTT.generators, RTT.priority_generators)), ("T09", (RNU.differences, RNU.weights, RNU.student, RNU.flow_sum)), ("T10", (RPS.passage,)), ("T08", (RTO.outputs, RTO.sweeps, RTO.probabilities)),
                   ("T06", (RC.busy, RC.preemptive, RC.means, RC.nonpreemptive, RC.invariant))):
    REG[_id] = dict(run=both(*_runs), assumptions=TH_LIMITS, explanation=TH_EXPL)
for k in REG:
    REG[k].setdefault("assumptions", LIMITS)
    REG[k].setdefault("explanation",
                      "Path-sensitive abstract interpretation of the simulator's step function from /repo's current source, once "
                      "per entry region of its state; each obligation is one rule applied to one abstract transition (all paths, "
                      "loops summarised), decided in a domain of rational expressions, bounds and order facts.")
