"""Analytic results for several classes of jobs on one server or on several (theory/priority_calc)."""
from math import factorial

from . import alg, series as ps
from .alg import Rat, rat, ZERO, ONE, R, contains_atom
from .interp import Tup
from .matinterp import MatInterp
from .rules_theory import S, Model, same, show, total, numeric, convolve
from .rules_mg1 import mom, zero_series

BUSY = '''
from most_queue.theory import priority_calc as Q
def busy(l, b, num):
    return Q.ppnz_calc(l, b, num)
def warm(l, f, pnz, num):
    return Q.ppnz_calc_warm_up(l, f, pnz, num)
'''


def busy_args(l, pi, n):
    """s + l - l pi(s)"""
    return ps.add(ps.var(n), ps.scale(ps.sub(ps.const(1, n), pi), l))


def busy(ctx, rep, tier):
    l = S("l")
    for num in (1, 2, 3, 4, 5):
        b, f, pnz = mom("b", num), mom("f", num), mom("u", num)
        m = Model(ctx, rep, f"{num} busy period moments")

        def run(m=m, num=num, b=b, f=f, pnz=pnz):
            for ip, st, v in m.run(BUSY, [l, b, num], [l] + b, entry="busy"):
                if not numeric(v) or len(v) != num:
                    rep.ob("busy period moments", m.label, None if v is not None and not isinstance(v, list) else False, str(v))
                    continue
                pi = ps.lst(v)
                zero_series(m, "busy period equation pi(s) = B(s + l - l pi(s))", ps.sub(ps.compose(ps.lst(b), busy_args(l, pi, num + 1)), pi), ip, st)
            for ip, st, v in m.run(BUSY, [l, f, pnz, num], [l] + f + pnz, entry="warm"):
                m.eq("busy period opened by a warm-up: F(s + l - l pi(s))", v,
                     ps.moments(ps.compose(ps.lst(f), busy_args(l, ps.lst(pnz), num + 1))), ip, st)
        rep.guard(m.label, run)


PRIO = '''
from most_queue.theory import priority_calc as Q
def pr(l, b, num):
    r = Q.calc_pr1(l, b, num)
    return [r['w'], r['v'], r['h'], r['w_with_pr'], r['pnz']]
def means(l, b):
    return [Q.get_w1_pr(l, b), Q.get_w1_np(l, b)]
def klimov(l, b):
    return Q.climov_w_pr_calc(l, b)
def nopr(l, b):
    return [Q.get_w_mg1_bp(l, b), Q.get_v_mg1_bp(l, b)]
def np(l, b):
    return Q.get_w_np(l, b)
def vnp(l, b, num):
    return Q.get_v_np(l, b, num)
def vinv(l, b, n, kind, num):
    return Q.get_v_prty_invar(l, b, n, kind, num)
def winv(l, b, n, kind, num):
    return Q.get_w_prty_invar(l, b, n, kind, 6, num)
def many(l, b, n):
    return [Q.get_w_MxGn_no_pr(l, b, n), Q.get_v_MxGn_no_pr(l, b, n)]
'''


def params(k, nb, symbolic):
    """rates and service moments of k classes; when not all symbolic, one rate is"""
    if symbolic:
        return [S(f"l{i}") for i in range(k)], [mom(f"b{i}_", nb) for i in range(k)]
    l = [rat(i + 2) / (19 + 3 * i) for i in range(k)]
    l[k - 1] = S("rate")
    # moments of mixtures of two exponentials
    b = []
    for i in range(k):
        y, m1, m2 = rat(1) / (3 + i), rat(2 + i) / 3, rat(5) / (4 + 3 * i)
        b.append([factorial(j) * (y * m1 ** j + (1 - y) * m2 ** j) for j in range(1, nb + 1)])
    return l, b


def positive(l, b):
    return [x for x in l + [y for r in b for y in r] if x.const() is None]


def preemptive(ctx, rep, tier):
    for k, nb, num, symb in ((1, 4, 3, True), (2, 3, 2, True), (2, 4, 3, False), (3, 4, 3, False)) + (((4, 5, 3, False),) if tier == "thorough" else ()):
        l, b = params(k, nb, symb)
        m = Model(ctx, rep, f"preemptive priority, {k} classes, {num} moments")

        def run(k=k, nb=nb, num=num, l=l, b=b, m=m):
            for ip, st, r in m.run(PRIO, [l, b, num], positive(l, b), entry="pr"):
                if not (isinstance(r, list) and len(r) == 5 and all(isinstance(x, list) and len(x) == k for x in r)):
                    rep.ob("preemptive results", m.label, None if r is not None else False, str(r)[:200])
                    continue
                w, v, h, ww, pnz = r
                L = ZERO
                for j in range(k):
                    La, L = L, L + l[j]
                    n = num + 1                      # coefficients 0..num
                    Bj = ps.lst(b[j], num)
                    if not all(numeric(x) and len(x) >= num for x in (w[j], v[j], h[j], pnz[j])):
                        rep.ob("preemptive results", m.label, None, f"class {j}")
                        continue
                    mix = [total(l[i] * b[i][q] for i in range(j + 1)) / L for q in range(num)]
                    pi = ps.lst(pnz[j], num)
                    zero_series(m, "busy period of the classes that are not lower", ps.sub(ps.compose(ps.lst(mix), busy_args(L, pi, n)), pi), ip, st,
                                f"{m.label} class {j}")
                    above = ps.lst(pnz[j - 1], num) if j else ps.const(1, n)
                    H = ps.lst(h[j], num)
                    zero_series(m, "active time contains the interruptions", ps.sub(ps.compose(Bj, busy_args(La, above, n)), H), ip, st, f"{m.label} class {j}")
                    # workload of the classes not lower, seen through the busy periods of the higher ones
                    Bn = ps.lst(mix + [total(l[i] * b[i][num] for i in range(j + 1)) / L]) if nb > num else None
                    if Bn is not None:
                        rho = L * mix[0]
                        V = ps.div(ps.scale(ps.var(n + 1), ONE - rho), ps.add(ps.var(n + 1), ps.scale(ps.sub(Bn, ps.const(1, n + 1)), L)))
                        m.eq(f"time to the first start of service of class {j}", w[j][:num], ps.moments(ps.compose(V[:n], busy_args(La, above, n))), ip, st)
                    m.eq(f"sojourn = first waiting + active time of class {j}", v[j][:num], convolve(w[j][:num], h[j][:num]), ip, st)
                    m.eq(f"waiting with interruptions + service = sojourn of class {j}", convolve(ww[j][:num], b[j][:num]), v[j][:num], ip, st)
        rep.guard(m.label, run)


def means(ctx, rep, tier):
    for k, symb in ((1, True), (2, True), (3, True)) + (((4, True),) if tier == "thorough" else ()):
        l, b = params(k, 3, symb)
        m = Model(ctx, rep, f"priority means, {k} classes")

        def run(k=k, l=l, b=b, m=m):
            s = [ZERO]
            r2, r3 = [ZERO], [ZERO]
            for i in range(k):
                s.append(s[-1] + l[i] * b[i][0])
                r2.append(r2[-1] + l[i] * b[i][1])
                r3.append(r3[-1] + l[i] * b[i][2])
            for ip, st, r in m.run(PRIO, [l, b], positive(l, b), entry="means"):
                if not (isinstance(r, list) and len(r) == 2):
                    rep.ob("priority means", m.label, None if r is not None else False, str(r))
                    continue
                pr = [r2[j + 1] / (2 * (ONE - s[j]) * (ONE - s[j + 1])) + b[j][0] * s[j] / (ONE - s[j]) for j in range(k)]
                np_ = [r2[k] / (2 * (ONE - s[j]) * (ONE - s[j + 1])) for j in range(k)]
                m.eq("mean waiting under preemptive priority", r[0], pr, ip, st)
                m.eq("mean waiting under non-preemptive priority", r[1], np_, ip, st)
            for ip, st, r in m.run(PRIO, [l, b], positive(l, b), entry="klimov"):
                want = []
                for j in range(k):
                    d, u = ONE - s[j + 1], ONE - s[j]
                    want.append([r2[j + 1] / (2 * u * d), r3[j + 1] / (3 * u ** 2 * d) + r2[j + 1] ** 2 / (2 * u ** 2 * d ** 2)
                                 + r2[j + 1] * r2[j] / (2 * u ** 3 * d)])
                m.eq("time to the first start of service, two moments", r, want, ip, st)
            for ip, st, r in m.run(PRIO, [l, b], positive(l, b), entry="nopr"):
                if not (isinstance(r, list) and len(r) == 2 and isinstance(r[0], list) and len(r[0]) == k):
                    rep.ob("classes without priority", m.label, None if r is not None else False, str(r))
                    continue
                w, v = r
                mix = [total(l[i] * b[i][q] for i in range(k)) / total(l) for q in range(3)]
                for j in range(k):
                    W = ps.lst(w[j]) + [ZERO] if numeric(w[j]) and len(w[j]) == 2 else None
                    if W is None:
                        rep.ob("classes without priority", m.label, False, f"{show(w[j])}")
                        continue
                    B = ps.lst(mix)
                    left = ps.mul(W, ps.add(ps.var(4), ps.scale(ps.sub(B, ps.const(1, 4)), total(l))))
                    zero_series(m, "without priority every class waits as in the merged queue",
                                ps.sub(left, ps.scale(ps.var(4), ONE - total(l) * mix[0])), ip, st)
                    m.eq("sojourn = waiting + service of the class", v[j], convolve(w[j], b[j]), ip, st)
        rep.guard(m.label, run)


def fitted(names):
    """stand-in for a gamma fit: remembers whose moments it fits"""
    def fit(ip, st, ar, kw, s):
        x = ip.nest(st, ar[0])
        return Tup([R("fit", x[0], x[1], "mu"), R("fit", x[0], x[1], "al")])
    return fit


def nonpreemptive(ctx, rep, tier):
    for k in (1, 2, 3):
        l, b = params(k, 4, True)
        calls = []

        def diff(ip, st, ar, kw, s, calls=calls):
            f = ip.nest(st, ar[0])
            calls.append((f, ar[1]))
            return ip.new_list(st, [R("d", len(f), f[-1], j) for j in (1, 2, 3)])
        m = Model(ctx, rep, f"non-preemptive priority, {k} classes", interp=MatInterp, stubs={
            "diff5dots": diff, "Gamma.get_mu_alpha": fitted(b), "Gamma.get_params": fitted(b),
            "Gamma.get_pls": lambda ip, st, a, k_, s: R("pls", *a),
            "ppnz_calc": lambda ip, st, a, k_, s: ip.new_list(st, [R("busy", a[0], ip.nest(st, a[1])[0], i) for i in range(3)])})

        def run(k=k, l=l, b=b, m=m, calls=calls):
            for ip, st, r in m.run(PRIO, [l, b], positive(l, b), entry="np"):
                if not (isinstance(r, list) and len(r) == k) or not calls:
                    rep.ob("non-preemptive results", m.label, None if r is not None else False, str(r)[:200])
                    continue
                pls = lambda x1, x2, s: R("pls", R("fit", x1, x2, "mu"), R("fit", x1, x2, "al"), s)
                rho = total(l[i] * b[i][0] for i in range(k))
                for j in range(k):
                    la, lb = total(l[:j]), total(l[j + 1:])
                    ma = [total(l[i] * b[i][q] for i in range(j)) / la for q in range(2)] if j else None
                    mb = [total(l[i] * b[i][q] for i in range(j + 1, k)) / lb for q in range(2)] if j < k - 1 else None

                    def F(s):
                        if s.is_zero():
                            return ONE
                        z = s
                        if j:
                            z = s + la - la * pls(R("busy", la, ma[0], 0), R("busy", la, ma[0], 1), s)
                        up = (ONE - rho) * z
                        if mb:
                            up = up + lb * (ONE - pls(mb[0], mb[1], z))
                        return up / (l[j] * pls(b[j][0], b[j][1], z) - l[j] + s)
                    # the last differentiation for this class
                    hit, step = None, None
                    for f, h in calls:
                        if numeric(r[j]) and numeric(f) and any(same(x, R("d", len(f), f[-1], 1)) is True for x in (r[j][0], -r[j][0])):
                            hit, step = f, h
                    if hit is None:
                        rep.ob("waiting transform under non-preemptive priority", f"{m.label} class {j}", None, "differentiation not found")
                        continue
                    ok = False
                    for off in (0, 1):
                        vs = [same(x, F(step * (off + i)), ip, st) for i, x in enumerate(hit)]
                        v = False if False in vs else None if None in vs else True
                        ok = v if v is not False else ok
                    rep.ob("waiting transform under non-preemptive priority", f"{m.label} class {j}", ok, f"{show(hit[0])} against {show(F(step))}")
                    n = len(hit)
                    m.eq(f"moments of class {j} are signed derivatives", r[j][:3], [-R("d", n, hit[-1], 1), R("d", n, hit[-1], 2), -R("d", n, hit[-1], 3)], ip, st)
        rep.guard(m.label, run)
    for k in (1, 2, 3):
        l, b = params(k, 4, True)
        w = [mom(f"w{i}_", 3) for i in range(k)]
        m = Model(ctx, rep, f"sojourn of {k} classes", interp=MatInterp, stubs={
            f: (lambda ip, st, a, kw, s, w=w: ip.new_list(st, [ip.new_list(st, list(x)) for x in w]))
            for f in ("get_w_np", "get_w_prty_invar")})

        def soj(k=k, l=l, b=b, w=w, m=m):
            for num in (1, 2, 3):
                for args, entry in (([l, b, num], "vnp"), ([l, b, 2, "PR", num], "vinv"), ([l, b, 3, "NP", num], "vinv")):
                    for ip, st, v in m.run(PRIO, args, positive(l, b), entry=entry):
                        m.eq("sojourn = waiting + service of the class", v, [convolve(w[i], b[i])[:num] for i in range(k)], ip, st)
        rep.guard(m.label, soj)




def invariant(ctx, rep, tier):
    """many servers with priorities: scaled by the ratio of the queues without priorities"""
    for k, n in ((1, 2), (2, 3), (3, 2)):
        for kind in ("PR", "NP"):
            l, b = params(k, 3, True)
            one = [mom(f"w{i}_", 3) for i in range(k)]
            p1, pn = [S(f"p{i}") for i in range(6)], [S(f"r{i}") for i in range(6)]
            asked = {}

            def single(ip, st, a, kw, s, name=None, asked=asked):
                asked["single"] = (ip.nest(st, a[0]), ip.nest(st, a[1]))
                v = ip.new_list(st, [ip.new_list(st, list(x)) for x in one])
                return v

            def pr1(ip, st, a, kw, s, asked=asked, single=single, k_=k):
                v = single(ip, st, a, kw, s)
                other = ip.new_list(st, [ip.new_list(st, mom(f"o{i}_", 3)) for i in range(k_)])
                return ip.mk_dict(st, {"w_with_pr": v, "w": other, "v": other, "h": other, "pnz": other})

            def getp(ip, st, a, kw, s, asked=asked):
                asked["p1"] = (a[0], ip.nest(st, a[1]))
                return ip.new_list(st, list(p1))

            def init(ip, st, a, kw, s, asked=asked):
                asked["pn"] = (a[0], a[1], ip.nest(st, a[2]))
                return None
            m = Model(ctx, rep, f"{kind} priority, {k} classes, {n} servers", interp=MatInterp, stubs={
                "get_w_np": single, "get_p": getp, "MGnCalc.__init__": init, "MGnCalc.run": lambda ip, st, a, kw, s: None,
                "MGnCalc.get_p": lambda ip, st, a, kw, s: ip.new_list(st, list(pn)), "calc_pr1": pr1})

            def run(k=k, n=n, kind=kind, l=l, b=b, m=m, asked=asked):
                args = [l, b, n, kind, 3]
                for ip, st, r in m.run(PRIO, args, positive(l, b), entry="winv"):
                    scaled = [[x / rat(n) ** (q + 1) for q, x in enumerate(row)] for row in b]
                    if "single" in asked:
                        m.eq("the single server works as fast as all servers together", list(asked["single"]), [l, scaled], ip, st)
                        q1 = total((i - 1) * p1[i] for i in range(1, 6))
                        qn = total((i - n) * pn[i] for i in range(n + 1, 6))
                        m.eq("waiting is scaled by the ratio of the mean queues", r, [[x * qn / q1 for x in row] for row in one], ip, st)
                    else:
                        rep.ob("waiting is scaled by the ratio of the mean queues", m.label, None, "single-server result not found")
                    if "p1" in asked and "pn" in asked:
                        L = total(l)
                        mix = lambda rows: [total(l[i] * rows[i][q] for i in range(k)) / L for q in range(3)]
                        m.eq("arrivals of all classes together", [asked["p1"][0], asked["pn"][1], asked["pn"][0]], [L, L, rat(n)], ip, st)
                        got = [asked["p1"][1], asked["pn"][2]]
                        plain = lambda rows: [total(rows[i][q] for i in range(k)) / k for q in range(3)]
                        known = same(got, [plain(scaled), plain(b)], ip, st) is True and k > 1
                        m.eq("merged service is weighted by the intensities", got, [mix(scaled), mix(b)], ip, st,
                             "get_w_prty_invar takes the plain average" if known else m.label)
            rep.guard(m.label, run)

    for k, n in ((1, 2), (2, 3), (3, 2)):
        l, b = params(k, 3, True)
        asked = {}

        def init(ip, st, a, kw, s, asked=asked):
            asked["pn"] = [a[0], a[1], ip.nest(st, a[2])]
        w = mom("w", 3)
        m = Model(ctx, rep, f"{k} classes without priority, {n} servers", interp=MatInterp, stubs={
            "MGnCalc.__init__": init, "MGnCalc.run": lambda ip, st, a, kw, s: None, "MGnCalc.get_w": lambda ip, st, a, kw, s: ip.new_list(st, list(w))})

        def run2(k=k, n=n, l=l, b=b, m=m, asked=asked):
            for ip, st, r in m.run(PRIO, [l, b, n], positive(l, b), entry="many"):
                L = total(l)
                m.eq("merged queue of all classes", asked.get("pn"), [rat(n), L, [total(l[i] * b[i][q] for i in range(k)) / L for q in range(3)]], ip, st)
                m.eq("every class waits as in the merged queue", r[0] if isinstance(r, list) else r, [w] * k, ip, st)
                m.eq("sojourn = waiting + service of the class", r[1] if isinstance(r, list) else r, [convolve(w, b[i]) for i in range(k)], ip, st)
        rep.guard(m.label, run2)
