from pytket.circuit import Circuit, OpType
from pytket.passes import AutoRebase

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.props.c11 import counts_of
from qermit import CircuitShots, MitRes
from qermit.frame_randomisation import FrameRandomisation, gen_Frame_Randomisation_MitRes
from qermit.frame_randomisation.frame_randomisation import frame_randomisation_circuits_task_gen
from qermit.taskgraph import gen_compiled_MitRes

REG = Registry("C13", "A case randomises random measured circuits (any gates, registers, idle bits) with "
               "each randomisation type and compares every instance's exact outcome distribution with the original's, or runs "
               "a batch end to end on an exact / job-tagged backend and compares collated counts with the sum of the instances "
               "seen by the backend. Distinct by circuits and samples.",
               assumptions=["circuits without any gate to randomise are refused by pytket and left out",
                            "tket itself aborts the process on some circuits; such cases are counted (native_aborts) and skipped",
                            "so are circuits for which tket's own frame randomisation raises 'Cycle has a larger frame than Circuit has qubits' (native_refusals)",
                            "measurements at the end of the circuit"])

TYPES = [FrameRandomisation.PauliFrameRandomisation, FrameRandomisation.UniversalFrameRandomisation]


def randomisable(c, fr):
    """pytket refuses circuits without any gate to put a frame around."""
    d = c.copy()
    if fr is TYPES[0]:
        AutoRebase({OpType.CX, OpType.Rz, OpType.H, OpType.S}).apply(d)
        return any(cmd.op.type in (OpType.CX, OpType.H, OpType.S) for cmd in d)
    AutoRebase({OpType.CX, OpType.Rz, OpType.H}).apply(d)
    return any(cmd.op.type in (OpType.CX, OpType.H, OpType.Rz) for cmd in d)


class native:
    """tket refuses some circuits from within its own frame randomisation."""

    def __init__(self, mon):
        self.mon = mon

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is RuntimeError and "Cycle has a larger frame" in str(e):
            self.mon.saw("native_refusals")
            raise SkipCase()


def circ(rng):
    c = gens.measured(rng, rng.randint(1, 4), rng.randint(0, 12), rng.choice(["any", "any", "clifford"]))
    return c


@REG.facet(700, 8000, needs={"instances": 1500}, isolate=True)
def instances_equivalent(rng, mon):
    c = circ(rng)
    want = sim.simulate(c)
    before = c.copy()
    fr = rng.choice(TYPES)
    if not randomisable(c, fr):
        raise SkipCase()
    samples = rng.randint(1, 6)
    shots = rng.randint(1, 500)
    with native(mon):
        (out,) = frame_randomisation_circuits_task_gen(samples, fr)([[CircuitShots(c.copy(), shots)]])
    mon.check(len(out) == samples, "other number of instances", got=len(out), want=samples)
    mon.check(sum(x.Shots for x in out) >= shots and all(x.Shots == -(-shots // samples) for x in out), "shots of instances are not shots / samples rounded up",
              got=[x.Shots for x in out], want=(shots, samples))
    distinct = []
    for x in out:
        mon.saw("instances")
        mon.check(set(x.Circuit.bits) == set(c.bits), "an instance has other bits", got=str(x.Circuit.bits), circ=gens.describe(before))
        got = sim.simulate(x.Circuit)
        idx = [list(x.Circuit.bits).index(b) for b in before.bits]
        mon.check(sim.dist_close(sim.marginal(got, idx), want, 1e-6), "an instance has another outcome distribution",
                  circ=gens.describe(before), instance=gens.describe(x.Circuit), got=str(got), want=str(want), type=str(fr))
        if not any(x.Circuit == d for d in distinct):
            distinct.append(x.Circuit)
    if len(distinct) > 1:
        mon.saw("really_random")
    mon.case((gens.describe(before), str(fr), samples), before.n_gates > 0, gens.describe(before))


@REG.facet(500, 5000, needs={"results": 500}, isolate=True)
def end_to_end(rng, mon):
    cs = [circ(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    fr = rng.choice(TYPES)
    cs = [c for c in cs if randomisable(c, fr)]
    befores = [c.copy() for c in cs]
    samples = rng.randint(1, 5)
    tagged = rng.random() < 0.5
    logged = []

    def results(c, n, idx):
        counts = {}
        for _ in range(n):
            k = tuple(rng.randint(0, 1) for _ in c.bits)
            counts[k] = counts.get(k, 0) + 1
        logged.append((list(c.bits), counts))
        return counts

    be = ExactBackend(results=results if tagged else None, shots_limit=rng.choice([0, 10 ** 6]) if tagged else 0)
    kw = {}
    if fr is TYPES[0] or rng.random() < 0.5:
        kw["frame_randomisation"] = fr
    if rng.random() < 0.5:
        kw["mitres"] = rng.choice([gen_compiled_MitRes(be, 0), MitRes(be, _label="mine")])
        labels = [kw["mitres"].label] + [t.label for t in kw["mitres"].tasks]
    mr = gen_Frame_Randomisation_MitRes(be, samples, **kw)
    if "mitres" in kw:
        mon.check(labels == [kw["mitres"].label] + [t.label for t in kw["mitres"].tasks], "the supplied object was changed")
    for r in range(rng.choice([1, 1, 2])):
        be.jobs.clear()
        logged.clear()
        shots = [rng.randint(1, 60) if tagged else 60000 * samples for _ in cs]
        with native(mon):
            out = mr.run([CircuitShots(c, s) for c, s in zip(cs, shots)])
        mon.check(len(out) == len(cs), "number of results differs")
        mon.check(len(be.jobs) == samples * len(cs), "other number of jobs", got=len(be.jobs), want=samples * len(cs))
        for i, (c, b, s, res) in enumerate(zip(cs, befores, shots, out)):
            mon.saw("results")
            w = dict(circ=gens.describe(b), samples=samples)
            got = counts_of(res, list(b.bits))
            jobs = be.jobs[i * samples:(i + 1) * samples]
            mon.check(sum(got.values()) == sum(j[1] for j in jobs), "collated shots are not those of the instances", got=str(got), **w)
            mon.check(all(j[1] == -(-s // samples) for j in jobs), "instances run with other shots", got=[j[1] for j in jobs], want=s, **w)
            if tagged:
                want = {}
                for bits, counts in logged[i * samples:(i + 1) * samples]:
                    idx = [bits.index(x) for x in b.bits]
                    for k, v in counts.items():
                        kk = tuple(k[j] for j in idx)
                        want[kk] = want.get(kk, 0) + v
                mon.check(got == want, "collated counts are not the sum of the instances' counts", got=str(got), want=str(want), **w)
            else:
                t = sum(got.values())
                mon.check(sim.dist_close({k: v / t for k, v in got.items()}, sim.simulate(b), 1e-3),
                          "collated distribution differs from the circuit's", got=str(got), want=str(sim.simulate(b)), **w)
            mon.check(c == b, "the user's circuit was changed", after=gens.describe(c), **w)
    mon.case(([gens.describe(c) for c in befores], samples, tagged), bool(cs))
