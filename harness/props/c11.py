from pytket.circuit import Bit

from harness import gens, sim
from harness.backend import ExactBackend, make_result
from harness.core import Registry, Violation
from qermit import CircuitShots, MitRes
from qermit.postselection import PostselectMgr, gen_postselect_mitres
from qermit.postselection.postselect_mitres import gen_postselect_task
from qermit.taskgraph import gen_compiled_MitRes
from qermit.taskgraph.mitres import gen_shot_split_MitRes

REG = Registry("C11", "A case builds random results (counts or shots, bits over several registers in any order) and random "
               "computation / selection bit lists, and compares every post-selected and merged count with a direct filter of "
               "the same shots; or runs a batch through a post-selecting result object on a recording backend. Distinct by "
               "(bits, lists, counts).")


def counts_of(res, bits):
    """Counts of a result; a result with nothing in it has no counts."""
    from pytket.backends.backend_exceptions import InvalidResultType

    try:
        return {tuple(int(x) for x in k): int(v) for k, v in res.get_counts(cbits=bits).items() if v}
    except InvalidResultType:
        return {}


def rand_counts(rng, n):
    k = rng.randint(1, min(2 ** n, 12))
    keys = set()
    while len(keys) < k:
        keys.add(tuple(rng.randint(0, 1) for _ in range(n)))
    return {x: rng.randint(1, 40) for x in sorted(keys)}


def split_bits(rng, bits):
    b = list(bits)
    rng.shuffle(b)
    k = rng.randint(0, len(b))
    comp, post = b[:k], b[k:]
    if rng.random() < 0.3:
        comp = comp[: rng.randint(0, len(comp))]
    if rng.random() < 0.3:
        post = post[: rng.randint(0, len(post))]
    if not comp:
        comp = [x for x in b if x not in post][:1]
        if not comp:
            comp, post = b[:1], b[1:]
    return comp, post


def reference(bits, counts, comp, post, select):
    out = {}
    ic, ip = [bits.index(b) for b in comp], [bits.index(b) for b in post]
    for k, v in counts.items():
        if not select or all(k[i] == 0 for i in ip):
            kk = tuple(k[i] for i in ic)
            out[kk] = out.get(kk, 0) + v
    return out


def judge(mon, rng, mgr, res, bits, counts, comp, post, what):
    for select, fn in ((True, mgr.postselect_result), (False, mgr.merge_result)):
        got = fn(res)
        want = reference(bits, counts, comp, post, select)
        mon.saw("accepted_shots" if select else "merged_shots", sum(want.values()))
        if select:
            mon.saw("discarded_shots", sum(counts.values()) - sum(want.values()))
        if not want:
            mon.saw("nothing_accepted")
        check_counts(mon, got, comp, want, what + (" post-selection" if select else " merge"),
                     dict(bits=bits, comp=comp, post=post, counts=counts))


def check_counts(mon, got, comp, want, what, w):
    g = counts_of(got, comp)
    mon.check(g == want, what + ": counts are not those of the accepted shots", got=g, want=want, **w)
    if want:
        mon.check(sorted(got.c_bits) == sorted(comp), what + ": result has other bits", got=str(list(got.c_bits)), **w)
        mon.check(list(got.c_bits) == list(comp), what + ": bits are in another order", got=str(list(got.c_bits)), **w)


@REG.facet(4000, 60000, needs={"accepted_shots": 5000, "discarded_shots": 5000, "nothing_accepted": 20})
def manager(rng, mon):
    n = rng.randint(1, 7)
    bits = gens.bits(rng, n)
    rng.shuffle(bits)
    counts = rand_counts(rng, n)
    comp, post = split_bits(rng, bits)
    mgr = PostselectMgr(compute_cbits=list(comp), postselect_cbits=list(post))
    res = make_result(counts, bits, shots=rng.random() < 0.4, order_seed=1)
    for _ in range(rng.choice([1, 2])):
        judge(mon, rng, mgr, res, bits, counts, comp, post, "manager")
        mon.check(counts_of(res, bits) == counts, "the raw result was changed")
    if comp and post:
        mon.rejects(Exception, lambda: PostselectMgr(compute_cbits=comp + [rng.choice(post)], postselect_cbits=post),
                    "a bit that is both a computation and a selection bit is accepted")
    mon.case((bits, comp, post, sorted(counts.items())), bool(post), (str(bits), str(comp), str(post), str(counts)))


@REG.facet(800, 8000, needs={"results": 800})
def own_selection_each(rng, mon):
    """The post-selection task applies each manager to its own result, in order."""
    items = []
    for _ in range(rng.randint(0, 5)):
        n = rng.randint(1, 5)
        bits = gens.bits(rng, n)
        rng.shuffle(bits)
        counts = rand_counts(rng, n)
        comp, post = split_bits(rng, bits)
        items.append((bits, counts, comp, post, make_result(counts, bits, shots=rng.random() < 0.5, order_seed=3)))
    mgrs = [PostselectMgr(list(c), list(p)) for _, _, c, p, _ in items]
    if items and rng.random() < 0.3:
        # one manager shared by several results
        items.append(items[0])
        mgrs.append(mgrs[0])
    task = gen_postselect_task()
    for _ in range(rng.choice([1, 2])):
        (out,) = task([[x[4] for x in items], list(mgrs)])
        mon.check(len(out) == len(items), "number of results")
        for got, (bits, counts, comp, post, _) in zip(out, items):
            mon.saw("results")
            check_counts(mon, got, comp, reference(bits, counts, comp, post, True), "task",
                         dict(bits=bits, comp=comp, post=post, counts=counts))
    mon.case([(x[0], x[2], x[3], sorted(x[1].items())) for x in items], bool(items))


@REG.facet(800, 8000, needs={"results": 800})
def through_backend(rng, mon):
    """Batches of circuits over the same bits through gen_postselect_mitres."""
    n = rng.randint(1, 4)
    nb = n
    bits = gens.bits(rng, nb)
    comp, post = split_bits(rng, bits)
    circs, shots = [], []
    for _ in range(rng.randint(0, 4)):
        qs = gens.new_qubits(rng, n)
        c = gens.blank(qs, bits)
        gens.add_gates(rng, c, qs, rng.randint(0, 8))
        bb = list(bits)
        rng.shuffle(bb)
        for q, b in zip(qs, bb):
            if rng.random() < 0.9:
                c.Measure(q, b)
        circs.append(c)
        shots.append(rng.randint(1, 300))
    be = ExactBackend(shots_limit=rng.choice([0, 1000]))
    mgr = PostselectMgr(list(comp), list(post))
    kind = rng.choice(["default", "compiled", "plain", "split"])
    kw = {}
    m = None
    if kind == "compiled":
        kw["mitres"] = gen_compiled_MitRes(be, 0)
    elif kind == "plain":
        kw["mitres"] = MitRes(be, _label="mine")
    elif kind == "split":
        be.shots_limit = 10 ** 6
        m = rng.randint(20, 200)
        kw["mitres"] = gen_shot_split_MitRes(be, m)
    before = len(kw["mitres"].tasks) if kw else None
    mr = gen_postselect_mitres(be, mgr, **kw)
    if kw:
        mon.check(len(kw["mitres"].tasks) == before, "the supplied object was changed")
    for r in range(rng.choice([1, 2])):
        be.jobs.clear()
        out = mr.run([CircuitShots(c, s) for c, s in zip(circs, shots)])
        mon.check(len(out) == len(circs), "number of results")
        if kind != "split":
            mon.check(len(be.jobs) == len(circs) and all(j[0] == c and j[1] == s for j, c, s in zip(be.jobs, circs, shots)),
                      "the backend was asked for other circuits or shots", jobs=str([j[1] for j in be.jobs]), shots=shots)
        for i, (got, c, s) in enumerate(zip(out, circs, shots)):
            mon.saw("results")
            if kind == "split":
                raw = {}
                for j in [j for j in be.jobs if j[0] == c and c not in circs[:i] + circs[i + 1:]]:
                    for k, v in sim.exact_counts(sim.simulate(c), j[1]).items():
                        raw[k] = raw.get(k, 0) + v
                if not raw:
                    continue
            else:
                raw = sim.exact_counts(sim.simulate(c), s)
            check_counts(mon, got, comp, reference(list(c.bits), raw, comp, post, True), "run through backend (%s)" % kind,
                         dict(circ=gens.describe(c), shots=s, comp=comp, post=post))
    mon.case((kind, bits, comp, post, shots, [gens.describe(c) for c in circs]), bool(circs))
