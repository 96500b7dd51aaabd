"""The simulators analysed, with the entry regions of each."""
from .simcore import *

S = "most_queue.sim."
Q = {"queue": "QsQueueList"}
QD = {"queue": "QsQueueDeque"}


def flags(**kw):
    def f(ip, st):
        for k, v in kw.items():
            st.heap[(ME, k)] = v
    return f


def with_flags(region, **kw):
    g = flags(**kw)

    def f(ip, st):
        g(ip, st)
        region(ip, st)
    return f


def fin_setup(ip, st):
    single_setup(ip, st)
    st.heap[(ME, "sources_left")] = F("m") - st.heap[(ME, "in_sys")]
    assume(ip, st, ">=", F("m") - 1)
    assume(ip, st, ">=", F("m") - QLEN() - F("n") + F("free_channels"))


def fj_setup(ip, st):
    common_setup(ip, st)
    st.heap[(fld(ME, "queues"), "#len")] = F("n")
    assume(ip, st, ">=", F("k") - 1)
    assume(ip, st, ">=", F("n") - F("k"))


def sj_regions(**kw):
    g = flags(**kw)

    def A(ip, st):
        g(ip, st)
        assume(ip, st, "==", QLEN())

    def B(ip, st):
        g(ip, st)
        assume(ip, st, ">=", QLEN() - 1)
        assume(ip, st, ">=", F("n") - F("free_channels") - 1)
    return {"no-queue": A, "queue": B}


def make():
    out = {}

    def add(s, **attrs):
        for k, v in attrs.items():
            setattr(s, k, v)
        out[s.name] = s
        return s

    base = dict(family="single", w_mode="stop-waiting", population="in_sys", shared_queue=True)
    add(Sim("multichannel", S + "qs_sim", "QueueingSystemSimulator", region_base(), choose=Q, setup=single_setup,
            prune=prune_std), **base, phases=True)
    add(Sim("multichannel-deque", S + "qs_sim", "QueueingSystemSimulator", region_base(), choose=QD, setup=single_setup,
            prune=prune_std), **base, phases=True)
    add(Sim("multichannel-phases", S + "qs_sim", "QueueingSystemSimulator", region_phases(), choose=Q, setup=single_setup,
            prune=prune_std), **base, phases=True)
    add(Sim("batch", S + "batch_sim", "QueueingSystemBatchSim", region_plain(), choose=Q, setup=single_setup,
            prune=prune_std), **base, phases=False)
    add(Sim("impatient", S + "impatient_queue_sim", "ImpatientQueueSim", region_plain(), choose=Q, setup=single_setup,
            prune=prune_std), **base, phases=False)
    add(Sim("finite-source", S + "queue_finite_source_sim", "QueueingFiniteSourceSim", region_plain(), choose=Q,
            setup=fin_setup, prune=prune_std), **base, phases=False)
    fj = dict(family="fj", w_mode=None, population="sub_task_in_sys", shared_queue=False, phases=False)
    add(Sim("fork-join", S + "fj_sim", "ForkJoinSim", {"any": flags(is_SJ=False, is_Purge=False)}, choose=Q,
            setup=fj_setup), **fj, mode="FJ")
    add(Sim("fork-join-purge", S + "fj_sim", "ForkJoinSim", {"any": flags(is_SJ=False, is_Purge=True)}, choose=Q,
            setup=fj_setup), **fj, mode="FJ")
    add(Sim("split-join", S + "fj_sim", "ForkJoinSim", sj_regions(is_SJ=True), choose=Q, setup=fj_setup), **fj,
        mode="SJ")
    add(Sim("fork-join-delta", S + "fj_delta_sim", "ForkJoinSimDelta", {"any": flags(is_SJ=False, is_Purge=False)},
            choose=Q, setup=fj_setup), **fj, mode="FJD")
    add(Sim("split-join-delta", S + "fj_delta_sim", "ForkJoinSimDelta", sj_regions(is_SJ=True, is_Purge=False),
            choose=Q, setup=fj_setup), **fj, mode="SJD")
    return out
