from pytket.circuit import Circuit, OpType
from pytket.passes import AutoRebase, CustomPass, DecomposeBoxes, FullPeepholeOptimise, RemoveRedundancies, SequencePass

from harness import gens, sim
from harness.backend import ExactBackend, make_result
from harness.core import Registry, SkipCase
from qermit import CircuitShots, MitRes
from qermit.taskgraph import gen_compiled_MitRes
from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes
from qermit.taskgraph.mitres import gen_shot_split_MitRes

REG = Registry("C05", "A case is a batch of random measured circuits (repeats, empty batch, odd registers) with random "
               "shots run through plain, compiled and shot-splitting result objects on a recording backend that returns "
               "either exact or job-tagged shots; jobs and results are compared with the request. Non-trivial: at least "
               "one circuit; distinct by (kind, maximum, shots, circuits).")

PASSES = [
    None,
    AutoRebase({OpType.CX, OpType.TK1}),
    SequencePass([AutoRebase({OpType.CX, OpType.Rz, OpType.H}), RemoveRedundancies()]),
    FullPeepholeOptimise(allow_swaps=False),
]


def batch(rng, max_n=5, kind="any"):
    n = rng.choice([0, 1, 1, 2, 3, max_n])
    cs = []
    for _ in range(n):
        if cs and rng.random() < 0.25:
            cs.append(rng.choice(cs))
        else:
            cs.append(gens.measured(rng, rng.randint(1, 3), rng.randint(1, 8), kind))
    return cs


def shots_for(rng, m=None):
    if m is None:
        return rng.choice([1, 2, 7, 10, 100, rng.randint(1, 1000)])
    return max(1, rng.choice([m, 2 * m, 3 * m, m - 1, m + 1, 2 * m - 1, 2 * m + 1, 1, rng.randint(1, 4 * m)]))


def tagged_backend(rng, scramble=True):
    """Each job returns its own random shots, with the bits of the result in any order."""
    import random

    be = ExactBackend()
    be.rows = []
    r = random.Random(rng.random())

    def process(circuits, n_shots=None, valid_check=True, **kw):
        from pytket.backends import ResultHandle

        hs = []
        for c, n in zip(circuits, n_shots):
            j = len(be.jobs)
            be.jobs.append((c.copy(), n, be.batches))
            order = list(c.bits)
            if scramble:
                r.shuffle(order)
            rows = [tuple(r.randint(0, 1) for _ in order) for _ in range(n)]
            from pytket.backends.backendresult import BackendResult
            from pytket.utils.outcomearray import OutcomeArray

            res = BackendResult(shots=OutcomeArray.from_readouts(rows), c_bits=order)
            be.rows.append([dict(zip(order, x)) for x in rows])
            h = ResultHandle("job%d-%f" % (j, r.random()))
            be._res[h] = res
            hs.append(h)
        be.batches += 1
        return hs

    be.process_circuits = process
    return be


def same_circuit(a, b):
    return a == b


@REG.facet(1200, 12000, needs={"results": 400})
def one_result_per_circuit(rng, mon):
    cs = [CircuitShots(c, shots_for(rng)) for c in batch(rng)]
    comp = rng.random() < 0.5
    p = rng.choice(PASSES[1:]) if comp else None
    be = ExactBackend(compile_pass=p, seed=rng.randint(0, 99))
    mr = gen_compiled_MitRes(be, rng.randint(0, 2)) if comp else MitRes(be)
    for r in range(rng.choice([1, 1, 2])):
        be.jobs.clear()
        res = mr.run(list(cs))
        mon.check(len(res) == len(cs), "number of results differs from number of circuits", want=len(cs), got=len(res))
        mon.check([j[1] for j in be.jobs] == [c.Shots for c in cs], "shots at the backend are not those requested",
                  got=[j[1] for j in be.jobs], want=[c.Shots for c in cs])
        for k, (c, x) in enumerate(zip(cs, res)):
            mon.saw("results")
            want = sim.exact_counts(sim.simulate(c.Circuit), c.Shots)
            got = {tuple(a): b for a, b in x.get_counts(c.Circuit.bits).items()}
            if not comp:
                mon.check(be.jobs[k][0] == c.Circuit, "another circuit reached the backend", index=k)
                mon.check(got == want, "result is not that of its circuit", index=k, got=got, want=want,
                          circ=gens.describe(c.Circuit))
            else:
                mon.check(sum(got.values()) == c.Shots, "shots of a compiled circuit", got=got)
                mon.check(sim.dist_close(sim.simulate(be.jobs[k][0]), sim.simulate(c.Circuit), 1e-6)
                          or set(be.jobs[k][0].bits) != set(c.Circuit.bits), "compiled circuit differs", index=k)
                # same rounding up to ties
                d = sim.simulate(c.Circuit)
                mon.check(all(abs(got.get(b, 0) - d.get(b, 0) * c.Shots) <= 1.01 for b in set(got) | set(d)),
                          "result of a compiled circuit is not that of the circuit", index=k, got=got,
                          circ=gens.describe(c.Circuit))
    mon.case((comp, [(gens.describe(c.Circuit), c.Shots) for c in cs]), bool(cs),
             [(gens.describe(c.Circuit), c.Shots) for c in cs])


@REG.facet(4000, 60000, needs={"jobs": 1500})
def shot_splitting(rng, mon):
    m = rng.choice([1, 2, 3, 5, 10, 16, rng.randint(1, 40)])
    cs = [CircuitShots(c, shots_for(rng, m)) for c in batch(rng, 6, "clifford")]
    be = tagged_backend(rng)
    comp = rng.random() < 0.3
    if comp:
        be.compile_pass = PASSES[1]
    lvl = rng.randint(0, 2)
    mr = gen_compiled_shot_split_MitRes(be, m, lvl) if comp else gen_shot_split_MitRes(be, m)
    for r in range(rng.choice([1, 1, 2])):
        be.jobs.clear()
        be.rows.clear()
        res = mr.run(list(cs))
        mon.check(len(res) == len(cs), "number of results differs from number of circuits", want=len(cs), got=len(res),
                  shots=[c.Shots for c in cs], max_shots=m)
        mon.saw("jobs", len(be.jobs))
        for j in be.jobs:
            mon.check(0 < j[1] <= m, "a job exceeds the maximum", got=j[1], max_shots=m)
        mon.check(sum(j[1] for j in be.jobs) == sum(c.Shots for c in cs), "jobs do not add up to the request",
                  jobs=[j[1] for j in be.jobs], want=[c.Shots for c in cs], max_shots=m)
        # which jobs belong to which circuit is recognised by the circuit they run; equal circuits are pooled
        lvl_of = (lambda c: be.get_compiled_circuit(c, optimisation_level=lvl)) if comp else (lambda c: c)
        groups = []
        for i, c in enumerate(cs):
            run_c = lvl_of(c.Circuit)
            for g in groups:
                if g[0] == run_c:
                    g[1].append(i)
                    break
            else:
                groups.append((run_c, [i], []))
        for k, j in enumerate(be.jobs):
            hit = [g for g in groups if g[0] == j[0]]
            mon.check(hit, "a job runs a circuit that was not requested", job=gens.describe(j[0]), comp=comp)
            hit[0][2].append(k)
        for run_c, idx, ks in groups:
            want_n = sum(cs[i].Shots for i in idx)
            mon.check(sum(be.jobs[k][1] for k in ks) == want_n, "jobs of a circuit do not add up to its shots",
                      got=[be.jobs[k][1] for k in ks], want=want_n, max_shots=m)
            bs = cs[idx[0]].Circuit.bits
            want = sorted(tuple(r_[b] for b in bs) for k in ks for r_ in be.rows[k])
            got = []
            for i in idx:
                sh = res[i].get_shots(bs)
                mon.check(len(sh) == cs[i].Shots, "result has another number of shots", index=i, got=len(sh),
                          want=cs[i].Shots, max_shots=m)
                got += [tuple(int(v) for v in x) for x in sh]
            mon.check(sorted(got) == want, "recombined result does not hold exactly the shots of its jobs", index=idx,
                      shots=want_n, max_shots=m, bits=[str(b) for b in bs])
    mon.case((m, comp, [c.Shots for c in cs], [len(c.Circuit.bits) for c in cs]), bool(cs),
             {"max": m, "shots": [c.Shots for c in cs]})


@REG.facet(600, 6000)
def split_exact(rng, mon):
    """Split and unsplit runs of deterministic circuits agree."""
    m = rng.randint(1, 30)
    cs = []
    for _ in range(rng.randint(1, 4)):
        qs = gens.new_qubits(rng, rng.randint(1, 4))
        c = gens.blank(qs)
        for q in qs:
            if rng.random() < 0.5:
                c.X(q)
        bs = gens.bits(rng, len(qs))
        for b in bs:
            c.add_bit(b)
        for q, b in zip(rng.sample(qs, len(qs)), bs):
            c.Measure(q, b)
        cs.append(CircuitShots(c, shots_for(rng, m)))
    be = ExactBackend(compile_pass=rng.choice(PASSES))
    mr = (gen_shot_split_MitRes(be, m) if rng.random() < 0.5 else gen_compiled_shot_split_MitRes(be, m, 1))
    res = mr.run(cs)
    mon.check(len(res) == len(cs), "number of results", got=len(res), want=len(cs))
    for c, x in zip(cs, res):
        got = {tuple(k): v for k, v in x.get_counts(c.Circuit.bits).items()}
        want = sim.exact_counts(sim.simulate(c.Circuit), c.Shots)
        mon.check(got == want, "split result of a deterministic circuit", got=got, want=want, shots=c.Shots, max_shots=m)
    mon.case((m, [c.Shots for c in cs], [gens.describe(c.Circuit) for c in cs]), True)
