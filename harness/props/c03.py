"""C03: building and running mitigation never alters what the user passed in; runs are independent."""
import random

from pytket.circuit import Bit, OpType
from pytket.passes import AutoRebase, CustomPass, DecomposeBoxes, FlattenRegisters, SequencePass
from pytket.utils import QubitPauliOperator

from harness import gens, sim
from harness.backend import ExactBackend
from harness.core import Registry, SkipCase
from harness.exps import canon
from harness.props.c09 import Device
from harness.props.c21 import SimBackend
from qermit import (AnsatzCircuit, CircuitShots, MeasurementCircuit, MitEx, MitRes, ObservableExperiment, ObservableTracker, SymbolsDict)
from qermit.clifford_noise_characterisation import gen_CDR_MitEx, gen_DFSC_MitEx
from qermit.frame_randomisation import gen_Frame_Randomisation_MitRes
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.postselection import PostselectMgr, gen_postselect_mitres
from qermit.spam import gen_UnCorrelated_SPAM_MitRes
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx, gen_shot_split_MitRes
from qermit.taskgraph.mitex import gen_compiled_shot_split_MitRes
from qermit.zero_noise_extrapolation import Fit, gen_ZNE_MitEx

REG = Registry("C03", "A case is a history: mitigation objects are built from one another (shared blocks) and run on shared circuits, observables, trackers and "
               "symbol values. After every step deep snapshots of all user objects and blocks are compared, and every run is compared with a twin "
               "built afresh the same way and run once on fresh copies. Distinct by histories.",
               assumptions=["backends are deterministic; random choices inside frame randomisation are compared through exact distributions"])

SHOTS = 20000
PLAIN = ["mitres", "compiled", "split", "compiled_split"]


class InPlace:
    """Compilation on top of a placement; tket passes change the circuit they are given."""

    def __init__(self, rng):
        self.extra = rng.choice([None, AutoRebase({OpType.CX, OpType.TK1}), SequencePass([DecomposeBoxes(), AutoRebase({OpType.CX, OpType.Rz, OpType.H})])])


class Plain:
    """A backend without placement, whose outcome distributions are mixed with the uniform one."""

    def __init__(self, rng):
        f = rng.choice([1.0, 0.8])

        def noise(c, d):
            k = len(c.bits)
            out = {key: f * v for key, v in d.items()}
            for i in range(2 ** k):
                key = tuple((i >> j) & 1 for j in range(k))
                out[key] = out.get(key, 0) + (1 - f) / 2 ** k
            return out

        self.be = ExactBackend(noise=noise, compile_pass=rng.choice([None, AutoRebase({OpType.CX, OpType.TK1})]))


def device(seed, placed=True):
    rng = random.Random(seed)
    if not placed:
        return Plain(rng)
    dev = Device(rng, 6, rng.choice([0, 0.2]), kinds=("product",))
    extra = InPlace(rng).extra
    if extra is not None:
        dev.be.compile_pass = SequencePass([extra, dev.be.compile_pass])
    return dev


def build(spec, dev, bits):
    """An object from its recipe; blocks may be given as built objects."""
    kind, arg, inner = spec
    be = dev.be
    blk = None if inner is None else (inner if not isinstance(inner, tuple) else build(inner, dev, bits))
    if kind == "mitres":
        return MitRes(be)
    if kind == "compiled":
        return gen_compiled_MitRes(be, arg)
    if kind == "split":
        return gen_shot_split_MitRes(be, arg)
    if kind == "compiled_split":
        return gen_compiled_shot_split_MitRes(be, arg)
    if kind == "fr":
        return gen_Frame_Randomisation_MitRes(be, arg, **({} if blk is None else {"mitres": blk}))
    if kind == "spam":
        return gen_UnCorrelated_SPAM_MitRes(be, SHOTS, **({} if blk is None else {arg: blk}))
    if kind == "leak":
        return get_leakage_detection_mitres(be, **({} if blk is None else {"mitres": blk}))
    if kind == "post":
        return gen_postselect_mitres(be, PostselectMgr(list(bits[:2]), [bits[2]]), **({} if blk is None else {"mitres": blk}))
    if kind == "mitex":
        return MitEx(be, **({} if blk is None else {"mitres": blk}))
    if kind == "mr":
        return gen_MeasurementReduction_MitEx(be, **({} if blk is None else {"mitex": blk}))
    if kind == "zne":
        return gen_ZNE_MitEx(be, [1, 3], fit_type=Fit.linear, **({} if blk is None else {arg: blk}))
    if kind == "dfsc":
        return gen_DFSC_MitEx(be, **({} if blk is None else {arg: blk}))
    if kind == "cdr":
        return gen_CDR_MitEx(be, SimBackend(), 2, 1, 3, **({} if blk is None else {arg: blk}))
    raise KeyError(kind)


def simple(rng):
    k = rng.choice(PLAIN)
    return (k, {"mitres": None, "compiled": rng.choice([0, 1, 2])}.get(k, rng.choice([3000, 20000, 10 ** 6])), None)


WRAPS = {"fr": PLAIN + ["spam"], "spam": PLAIN, "leak": PLAIN, "post": PLAIN + ["spam", "leak"],
         "mitex": PLAIN + ["spam", "fr"], "mr": ["mitex"], "zne": ["mitex", "mr"], "dfsc": ["mitex"], "cdr": ["mitex"]}
ARGS = {"fr": lambda r: r.choice([1, 2]), "spam": lambda r: r.choice(["calibration_mitres", "correction_mitres"]),
        "zne": lambda r: "experiment_mitex", "dfsc": lambda r: r.choice(["experiment_mitex", "characterisation_mitex"]),
        "cdr": lambda r: r.choice(["experiment_mitex", "states_device_mitex"])}


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    return str(x)


def block_state(o):
    return (type(o).__name__, o.label, o.n_in_wires, o.n_out_wires, [t.label for t in o.tasks], freeze(o.get_characterisation()), freeze(o.get_cache()))


class Pool:
    def __init__(self, rng, seed, placed=True):
        self.rng, self.seed, self.placed = rng, seed, placed
        self.dev = device(seed, placed)
        self.bits = [Bit(i) for i in range(3)]
        self.objs = []  # (spec, object)

    def add(self, kinds):
        rng = self.rng
        kind = rng.choice(kinds)
        if kind in PLAIN:
            spec = simple(rng)
            self.objs.append((spec, build(spec, self.dev, self.bits)))
            return
        inner = [i for i, (s, _) in enumerate(self.objs) if s[0] in WRAPS[kind]]
        arg = ARGS.get(kind, lambda r: None)(rng)
        if inner and rng.random() < 0.85:
            i = rng.choice(inner)
            spec = (kind, arg, self.objs[i][0])
            obj = build((kind, arg, self.objs[i][1]), self.dev, self.bits)
        else:
            spec = (kind, arg, None)
            obj = build(spec, self.dev, self.bits)
        self.objs.append((spec, obj))

    def states(self):
        return [block_state(o) for _, o in self.objs]

    def twin(self, spec):
        dev = device(self.seed, self.placed)
        return dev, build(spec, dev, self.bits)


def depth(spec):
    return 0 if spec is None else 1 + depth(spec[2])


def kinds_in(spec):
    return [] if spec is None else [spec[0]] + kinds_in(spec[2])


def jobs_of(be, start=0):
    return [(sorted(map(str, c.get_commands())), s) for c, s, _ in be.jobs[start:]]


def after(mon, pool, states, obj, what, w):
    """No object but the one run may have changed; the one run may have gained characterisation and nothing else."""
    now = pool.states()
    for i, (a, b) in enumerate(zip(states, now)):
        mon.saw("snapshots")
        if pool.objs[i][1] is obj:
            a, b = a[:5], b[:5]
        mon.check(a == b, "a result or expectation object was changed by %s" % what, before=str(a), after=str(b), spec=str(pool.objs[i][0]), **w)


def result_dist(r, bits):
    bs = [b for b in bits if b in r.c_bits]
    if not r.c_bits:
        return None
    return bs, sim.counts_to_dist(r.get_counts(cbits=bs))


@REG.facet(300, 3500, needs={"runs": 600, "twins": 600, "snapshots": 2500, "nested": 110, "repeats": 110, "shared_blocks": 20})
def results(rng, mon):
    pool = Pool(rng, rng.getrandbits(30))
    circs = []
    for _ in range(rng.randint(2, 4)):
        # SPAM correction keeps only the measured bits, post selection wants them all
        qs = gens.new_qubits(rng, 3)
        c = gens.blank(qs, pool.bits)
        gens.add_gates(rng, c, qs, rng.randint(1, 6))
        c.CX(*qs[:2])
        if rng.random() < 0.2:
            c.add_barrier(qs)
        for q, b in zip(qs, rng.sample(pool.bits, 3)):
            c.Measure(q, b)
        circs.append(CircuitShots(c, rng.choice([SHOTS, SHOTS // 2])))
    keep = [(cs.Circuit.copy(), cs.Shots) for cs in circs]
    hist, ran, used = [], {}, {}
    for _ in range(2):
        pool.add(PLAIN + ["spam"])
    for step in range(rng.randint(3, 7)):
        states = pool.states()
        if rng.random() < 0.45:
            n = len(pool.objs)
            pool.add(["fr", "spam", "leak", "post"] + PLAIN[:2])
            hist.append("build " + str(pool.objs[-1][0]))
            w = dict(history=list(hist))
            after(mon, pool, states, None, "building on it", w)
            continue
        spec, obj = rng.choice(pool.objs)
        batch = [rng.randrange(len(circs)) for _ in range(rng.choice([1, 1, 2, 3]))]
        hist.append("run %s on %s" % (spec, batch))
        w = dict(history=list(hist), circs=[gens.describe(c) for c, _ in keep], seed=pool.seed)
        start = len(pool.dev.be.jobs)
        given = [circs[i] for i in batch]
        listed = list(given)
        out = obj.run(given)
        mon.saw("runs")
        if depth(spec) > 1:
            mon.saw("nested")
        if str(spec) in ran:
            mon.saw("repeats")
        ran[str(spec)] = 1
        mon.check(len(given) == len(listed) and all(a is b for a, b in zip(given, listed)), "the list of circuits was changed", **w)
        for cs, (c, s) in zip(circs, keep):
            mon.check(cs.Circuit == c and cs.Shots == s, "a user's circuit was changed", before=gens.describe(c), after=gens.describe(cs.Circuit), **w)
        after(mon, pool, states, obj, "running %s" % spec[0], w)
        dev, twin = pool.twin(spec)
        want = twin.run([CircuitShots(keep[i][0].copy(), keep[i][1]) for i in batch])
        mon.saw("twins")
        mon.check(len(out) == len(want) == len(batch), "number of results", got=len(out), **w)
        for i, a, b in zip(batch, out, want):
            bs = list(a.c_bits)
            mon.check(sorted(bs) == sorted(b.c_bits), "bits of a result differ from a fresh object's", got=str(bs), want=str(list(b.c_bits)), **w)
            if not bs:
                continue
            ca, cb = a.get_counts(cbits=sorted(bs)), b.get_counts(cbits=sorted(bs))
            mon.check(sum(ca.values()) == sum(cb.values()), "shots of a result differ from a fresh object's", got=sum(ca.values()), want=sum(cb.values()), **w)
            if sum(ca.values()):
                mon.check(sim.dist_close(sim.counts_to_dist(ca), sim.counts_to_dist(cb), 2e-3 if 'fr' in kinds_in(spec) else 1e-9), "a result differs from a fresh object's", spec=str(spec),
                          got=str(dict(ca)), want=str(dict(cb)), **w)
        if not {"spam", "fr"} & set(kinds_in(spec)):
            ja, jb = jobs_of(pool.dev.be, start), jobs_of(dev.be)
            mon.check(ja == jb, "other circuits are run than by a fresh object", got=str(ja)[:600], want=str(jb)[:600], **w)
        inner = str(spec[2])
        used[inner] = used.get(inner, 0) + 1
    if any(v > 1 for k, v in used.items() if k != "None"):
        mon.saw("shared_blocks")
    mon.case(hist, True, hist)


def snap_tracker(t):
    return (tuple((canon(s), str(v)) for s, v in t.qubit_pauli_operator._dict.items()), len(t.measurement_circuits),
            tuple(canon(s) for s in t.get_empty_strings()), tuple(str(m.get_parametric_circuit().get_commands()) for m in t.measurement_circuits))


def snap_symbols(d):
    return tuple((str(k), v) for k, v in d._symbolic_map.items())


@REG.facet(220, 2500, needs={"runs": 400, "twins": 300, "snapshots": 2000, "nested": 150, "repeats": 100, "shared_trackers": 60, "measured": 60})
def expectations(rng, mon):
    # placement is not tracked through the folding's own compilation
    placed = rng.random() < 0.4
    pool = Pool(rng, rng.getrandbits(30), placed)
    # shared user objects
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    syms = gens.symbols(rng, rng.choice([0, 1]))
    cs = []
    for _ in range(rng.randint(1, 3)):
        # depolarisation factors are learned from circuits which are Clifford but for symbols
        c = gens.circuit(rng, qs=qs, n_gates=rng.randint(2, 6), kind="any" if placed else "clifford", symbols=syms or None)
        for s in syms:
            c.Rz(s, rng.choice(qs))
            c.H(qs[0])
        cs.append(c)
    dicts = []
    for _ in range(2):
        d = SymbolsDict.symbols_from_dict({s: round(rng.uniform(0, 2), 3) for s in syms})
        dicts.append(d)
    ops = [gens.observable(rng, qs, rng.randint(1, 3)) for _ in range(2)]
    trackers = [ObservableTracker(o) for o in ops]
    exps = []
    for _ in range(rng.randint(2, 4)):
        exps.append(ObservableExperiment(AnsatzCircuit(rng.choice(cs), SHOTS, rng.choice(dicts)), rng.choice(trackers)))
    if len({id(e.ObservableTracker) for e in exps}) < len(exps):
        mon.saw("shared_trackers")
    special = None
    if rng.random() < 0.4:
        # a measurement circuit supplied by the user
        e = exps[0]
        t = ObservableTracker(ops[0])
        s = list(ops[0]._dict)[0]
        from qermit.taskgraph.mitex import get_basic_measurement_circuit

        full = e.AnsatzCircuit.Circuit.copy()
        m, info = get_basic_measurement_circuit(s)
        full.append(m)
        t.add_measurement_circuit(MeasurementCircuit(full, e.AnsatzCircuit.SymbolsDict), [info])
        exps[0] = ObservableExperiment(e.AnsatzCircuit, t)
        trackers.append(t)
        ops.append(ops[0])
        mon.saw("measured")

        def special():
            c2 = keep_c[cs.index(e.AnsatzCircuit.Circuit)].copy()
            c2.append(m)
            x = ObservableTracker(QubitPauliOperator(dict(ops[0]._dict)))
            x.add_measurement_circuit(MeasurementCircuit(c2, fresh_dict(e.AnsatzCircuit.SymbolsDict)), [info])
            return x
    keep_c = [c.copy() for c in cs]
    keep_d = [snap_symbols(d) for d in dicts]
    keep_t = [snap_tracker(t) for t in trackers]
    keep_o = [tuple((canon(s), str(v)) for s, v in o._dict.items()) for o in ops]

    def fresh_dict(d):
        return SymbolsDict.symbols_from_dict(dict(d._symbolic_map))

    def fresh(e):
        a = e.AnsatzCircuit
        i = [x is a.Circuit for x in cs].index(True)
        t = special() if special and e is exps[0] else ObservableTracker(QubitPauliOperator(dict(e.ObservableTracker.qubit_pauli_operator._dict)))
        return ObservableExperiment(AnsatzCircuit(keep_c[i].copy(), a.Shots, fresh_dict(a.SymbolsDict)), t)

    hist, ran = [], set()
    pool.add(PLAIN + (["spam"] if placed else []))
    pool.add(["mitex"])
    for step in range(rng.randint(3, 6)):
        states = pool.states()
        if rng.random() < 0.45:
            pool.add(["mitex", "mr", "fr"] + PLAIN[:1] + (["spam"] if placed else ["zne", "dfsc", "cdr", "zne", "dfsc"]))
            hist.append("build " + str(pool.objs[-1][0]))
            after(mon, pool, states, None, "building on it", dict(history=list(hist)))
            continue
        spec, obj = rng.choice([x for x in pool.objs if isinstance(x[1], MitEx)])
        if spec[0] in ("zne", "dfsc", "cdr") and special and rng.random() < 0.7:
            batch = [rng.randrange(1, len(exps)) for _ in range(rng.choice([1, 2]))]
        else:
            batch = [rng.randrange(len(exps)) for _ in range(rng.choice([1, 1, 2, 3]))]
        if spec[0] in ("zne", "dfsc", "cdr") and special and 0 in batch:
            continue  # these replace circuits: measurement circuits given are not theirs
        hist.append("run %s on %s" % (spec, batch))
        w = dict(history=list(hist), circs=[gens.describe(c) for c in keep_c], ops=str(keep_o), seed=pool.seed)
        start = len(pool.dev.be.jobs)
        given = [exps[i] for i in batch]
        listed = list(given)
        try:
            out = obj.run(given)
        except Exception as x:
            # fits of degenerate training data
            if spec[0] == "cdr" and type(x).__name__ == "LinAlgError":
                continue
            raise
        mon.saw("runs")
        if depth(spec) > 1:
            mon.saw("nested")
        if str(spec) in ran:
            mon.saw("repeats")
        ran.add(str(spec))
        mon.check(len(given) == len(listed) and all(a is b for a, b in zip(given, listed)), "the list of experiments was changed", **w)
        for c, k in zip(cs, keep_c):
            mon.check(c == k, "a user's circuit was changed", before=gens.describe(k), after=gens.describe(c), **w)
        for d, k in zip(dicts, keep_d):
            mon.check(snap_symbols(d) == k, "a user's symbol values were changed", before=str(k), after=str(snap_symbols(d)), **w)
        for t, k in zip(trackers, keep_t):
            mon.check(snap_tracker(t) == k, "a user's observable tracker was changed", before=str(k), after=str(snap_tracker(t)), **w)
        for o, k in zip(ops, keep_o):
            mon.check(tuple((canon(s), str(v)) for s, v in o._dict.items()) == k, "a user's observable was changed", before=str(k), after=str(o), **w)
        after(mon, pool, states, obj, "running %s" % spec[0], w)
        if spec[0] == "cdr":
            mon.check(len(out) == len(batch), "number of results", **w)
            continue
        dev, twin = pool.twin(spec)
        want = twin.run([fresh(exps[i]) for i in batch])
        mon.saw("twins")
        mon.check(len(out) == len(want) == len(batch), "number of results", got=len(out), **w)
        for a, b in zip(out, want):
            mon.check(list(map(canon, a._dict)) == list(map(canon, b._dict)) or {canon(s) for s in a._dict} == {canon(s) for s in b._dict},
                      "strings of a result differ from a fresh object's", got=str(a), want=str(b), **w)
            vb = {canon(s): complex(v) for s, v in b._dict.items()}
            for s, v in a._dict.items():
                if "fr" in kinds_in(spec) and spec[0] == "dfsc":
                    continue  # ratios of values known up to rounding
                tol = 1e-2 if "fr" in kinds_in(spec) else 1e-6
                mon.check(abs(complex(v) - vb[canon(s)]) <= tol * max(1, abs(vb[canon(s)])), "an expectation differs from a fresh object's", spec=str(spec),
                          string=str(s), got=str(v), want=str(vb[canon(s)]), **w)
        if not {"spam", "fr"} & set(kinds_in(spec)):
            ja, jb = jobs_of(pool.dev.be, start), jobs_of(dev.be)
            mon.check(len(ja) == len(jb) and sum(s for _, s in ja) == sum(s for _, s in jb), "other circuits are run than by a fresh object", got=str(ja)[:600],
                      want=str(jb)[:600], **w)
    mon.case(hist, True, hist)
