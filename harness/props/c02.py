import copy

from pytket import Bit, Circuit, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

from harness.backend import ExactBackend
from harness.core import Registry
from harness.props.c01 import list_task, plain_values
from harness.tgmodel import Gen, compare, compose, beside, identity, h, sut_run
from qermit import AnsatzCircuit, CircuitShots, MitEx, MitRes, MitTask, ObservableExperiment, ObservableTracker, SymbolsDict, TaskGraph
from qermit.postselection import PostselectMgr
from qermit.postselection.postselect_mitres import gen_postselect_mitres
from qermit.spam import gen_UnCorrelated_SPAM_MitRes
from qermit.taskgraph import gen_compiled_MitRes, gen_MeasurementReduction_MitEx
from qermit.taskgraph.mitres import backend_compile_circuit_shots_task_gen
from qermit.zero_noise_extrapolation import gen_ZNE_MitEx

REG = Registry("C02", "A case builds nested task graphs from shared blocks by a random history, flattens and/or copies "
               "and re-runs the whole and every block; results, invoked tasks, labels and arity are compared with the "
               "functional reference before and after. Non-trivial: at least one nested graph; distinct by history.")


def is_graph(t):
    return isinstance(t, TaskGraph)


def n_nested(tg):
    return sum(1 for t in tg.tasks if is_graph(t))


def snap(b):
    """Observable identity of a block."""
    if is_graph(b):
        return (b.label, b.n_in_wires, b.n_out_wires, sorted(t.label for t in b.tasks))
    return (b.label, b.n_in_wires, b.n_out_wires)


def check_blocks(mon, g, before, rng, what, hist):
    for (b, m), s in zip(g.blocks, before):
        mon.check(snap(b) == s, what + ": a building block changed", hist=hist, was=s, now=snap(b))
        if is_graph(b):
            mon.saw("blocks_rerun")
            compare(mon, b, m, [h("blk", k, rng.random()) for k in range(m.n_in)], what + ": block run alone", hist)


def build(rng, depth, pass_ok):
    g = Gen(rng, allow_pass_nested=pass_ok)
    tg, m, hist = TaskGraph(), identity(1), []
    for _ in range(rng.randint(2, 5)):
        m = g.step(tg, m, depth, hist)
    if rng.random() < 0.8:
        b, bm = g.block(m.n_out, None, depth, kind="graph")
        tg.append(b)
        m = compose(m, bm)
        hist.append(("append-graph", bm.n_in, bm.n_out))
    return g, tg, m, hist


def no_pass(rng, n_in, n_out, g, depth):
    """A nested graph without an input wired straight to an output."""
    sub, sm, hist = g.graph(depth=0, steps=rng.randint(0, 3))
    if rng.random() < 0.5:
        t, tm = g.task(n_in, sm.n_in)
        sub.prepend(t)
        sm = compose(tm, sm)
        t, tm = g.task(sm.n_out, n_out)
        sub.append(t)
        sm = compose(sm, tm)
    else:
        # unequal fan: several parallel first tasks
        sub, sm = TaskGraph("S" + g.label()), identity(1)
        t, tm = g.task(1, rng.randint(1, 2))
        sub.append(t)
        sm = compose(sm, tm)
        left = n_in - 1
        while left > 0:
            k = rng.randint(1, left)
            t, tm = g.task(k, rng.randint(1, 2))
            sub.parallel(t)
            sm = beside(sm, tm)
            left -= k
        # outputs: keep parallel when the count fits, else mix
        if sm.n_out != n_out:
            t, tm = g.task(sm.n_out, n_out)
            sub.append(t)
            sm = compose(sm, tm)
    if depth > 0 and rng.random() < 0.5:
        outer = TaskGraph("N" + g.label())
        om = identity(1)
        if n_in > 1:
            outer.add_n_wires(n_in - 1)
            om = beside(om, identity(n_in - 1))
        outer.append(sub)
        sub, sm = outer, compose(om, sm)
    g.blocks.append((sub, sm))
    return sub, sm


@REG.facet(2400, 40000, needs={"flattened": 200, "blocks_rerun": 300})
def flatten(rng, mon):
    g = Gen(rng, allow_nested=False)
    tg, m, hist = TaskGraph("outer"), identity(1), []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["append", "prepend", "parallel", "wire", "task"])
        if m.n_in > 7 or m.n_out > 7:
            k = rng.choice(["append", "prepend"])
        if k == "wire":
            tg.add_wire()
            m = beside(m, identity(1))
        elif k == "append":
            b, bm = no_pass(rng, m.n_out, rng.randint(1, 4), g, 2)
            tg.append(b)
            m = compose(m, bm)
        elif k == "prepend":
            b, bm = no_pass(rng, rng.randint(1, 4), m.n_in, g, 2)
            tg.prepend(b)
            m = compose(bm, m)
        elif k == "parallel":
            graphs = [x for x in g.blocks if is_graph(x[0])]
            b, bm = rng.choice(graphs) if graphs and rng.random() < 0.5 else no_pass(rng, rng.randint(1, 3), rng.randint(1, 3), g, 2)
            tg.parallel(b)
            m = beside(m, bm)
        else:
            t, tm = g.task(m.n_out, rng.randint(1, 4))
            tg.append(t)
            m = compose(m, tm)
        hist.append((k, m.n_in, m.n_out))
    before = [snap(b) for b, _ in g.blocks]
    ins = [h("in", k, rng.random()) for k in range(m.n_in)]
    nested = n_nested(tg)
    if rng.random() < 0.6:
        compare(mon, tg, m, ins, "before flattening", hist)
    copy_first = rng.random() < 0.3
    other = TaskGraph().from_TaskGraph(tg) if copy_first else None
    tg.decompose_TaskGraph_nodes()
    mon.saw("flattened", nested)
    mon.check(n_nested(tg) == 0, "a nested graph is left after flattening", hist=hist)
    mon.check(len(tg.tasks) == len(m.tasks), "flattening changed the number of tasks", hist=hist,
              got=len(tg.tasks), want=len(m.tasks))
    mon.check((tg.n_in_wires, tg.n_out_wires) == (m.n_in, m.n_out), "flattening changed the wires", hist=hist)
    compare(mon, tg, m, ins, "after flattening", hist)
    check_blocks(mon, g, before, rng, "after flattening", hist)
    if other is not None:
        mon.check(n_nested(other) == nested, "flattening reached a copy of the graph", hist=hist)
        compare(mon, other, m, ins, "copy after flattening the original", hist)
    if rng.random() < 0.4:
        tg.decompose_TaskGraph_nodes()
        compare(mon, tg, m, ins, "flattened twice", hist)
    if rng.random() < 0.5:
        t, tm = g.task(m.n_out, 2)
        tg.append(t)
        compare(mon, tg, compose(m, tm), ins, "extended after flattening", hist)
    mon.case(hist, nested > 0, hist)


@REG.facet(800, 12000)
def flatten_or_refuse(rng, mon):
    """Arbitrary nesting, pass-through wires included: refusal is documented, altered results are not."""
    g, tg, m, hist = build(rng, 2, True)
    before = [snap(b) for b, _ in g.blocks]
    ins = [h("in", k, rng.random()) for k in range(m.n_in)]
    try:
        tg.decompose_TaskGraph_nodes()
        mon.saw("flattened")
        mon.check(n_nested(tg) == 0, "a nested graph is left after flattening", hist=hist)
    except ValueError:
        mon.saw("refused")
    compare(mon, tg, m, ins, "after flattening or refusal", hist)
    check_blocks(mon, g, before, rng, "after flattening or refusal", hist)
    mon.case(hist, True, hist)


@REG.facet(1200, 16000, needs={"blocks_rerun": 200})
def blocks_survive_use(rng, mon):
    """Compose, run, extend the whole; blocks stay what they were, and changing a block later does not reach the whole."""
    g, tg, m, hist = build(rng, 2, True)
    before = [snap(b) for b, _ in g.blocks]
    ins = [h("in", k, rng.random()) for k in range(m.n_in)]
    compare(mon, tg, m, ins, "whole", hist)
    check_blocks(mon, g, before, rng, "after composing and running", hist)
    graphs = [(b, bm) for b, bm in g.blocks if is_graph(b)]
    if graphs:
        b, bm = rng.choice(graphs)
        t, tm = g.task(bm.n_out, rng.randint(1, 3))
        if rng.random() < 0.5:
            b.append(t)
        else:
            b.parallel(t)
        mon.saw("block_changed_later")
        compare(mon, tg, m, ins, "whole after a block was extended on its own", hist)
    mon.case(hist, bool(graphs), hist)


@REG.facet(1200, 16000)
def copies_independent(rng, mon):
    g, tg, m, hist = build(rng, 1, True)
    ins = [h("in", k, rng.random()) for k in range(m.n_in)]
    if rng.random() < 0.5:
        compare(mon, tg, m, ins, "original", hist)
    cp = TaskGraph().from_TaskGraph(tg)
    mon.check(cp.label == tg.label, "a copy has another label")
    compare(mon, cp, m, ins, "copy", hist)
    a, am, b, bm = (cp, m, tg, m) if rng.random() < 0.5 else (tg, m, cp, m)
    lab = b.label
    tl = sorted(t.label for t in b.tasks)
    for _ in range(rng.randint(1, 3)):
        am = g.step(a, am, 1, hist)
    mon.check(b.label == lab and sorted(t.label for t in b.tasks) == tl, "extending one changed the other", hist=hist)
    compare(mon, b, bm, ins, "untouched one of original/copy", hist)
    compare(mon, a, am, [h("x", k) for k in range(am.n_in)], "extended one of original/copy", hist)
    mon.case(hist, True, hist)


# ---- the library's own graphs as blocks and copies
def library_object(rng, be):
    k = rng.choice(["mitres", "compiled", "mitex", "mitex_around", "reduction", "zne", "spam", "leak"])
    if k == "mitres":
        return k, MitRes(be)
    if k == "compiled":
        return k, gen_compiled_MitRes(be, 0)
    if k == "mitex":
        return k, MitEx(be, mitres=MitRes(be))
    if k == "mitex_around":
        return k, MitEx(be, mitres=gen_compiled_MitRes(be, 0))
    if k == "reduction":
        return k, gen_MeasurementReduction_MitEx(be, mitex=MitEx(be, mitres=MitRes(be)))
    if k == "zne":
        return k, gen_ZNE_MitEx(be, [1, 3], experiment_mitres=MitRes(be))
    if k == "spam":
        m = gen_UnCorrelated_SPAM_MitRes(be, 400)
        m.prepend(backend_compile_circuit_shots_task_gen(be, 0))
        return k, m
    return k, gen_postselect_mitres(be, PostselectMgr([Bit(0)], []))


@REG.facet(250, 2500, needs={"objects": 400, "rerun": 300, "flattened": 60, "used_as_part": 40})
def own_graphs(rng, mon):
    """A pool of result and expectation objects, and graphs, made from one another by conversion, copying and use as
    parts; extending or flattening one of them leaves all the others what they were."""
    be = ExactBackend()
    kind, first = library_object(rng, be)
    pool, hist = [], [kind]

    def items(mitex):
        out = []
        for k in range(2):
            c = Circuit(2).Ry(0.1 + 0.2 * k, 0).CX(0, 1)
            out.append(ObservableExperiment(AnsatzCircuit(c, 1000 + k, SymbolsDict()), ObservableTracker(QubitPauliOperator(
                {QubitPauliString([Qubit(0)], [Pauli.Z]): 1.0 + k}))) if mitex else CircuitShots(c.measure_all(), 1000 + k))
        return out

    def value(o, s):
        w = items(s == "mitex")
        return plain_values(o.run(w) if isinstance(o, (MitRes, MitEx)) else o.run([w])[0])

    def shape(o):
        return (o.label, sorted(str(getattr(t, "_label", t)) for t in o._task_graph.nodes), o.n_in_wires, o.n_out_wires, o._task_graph.number_of_edges())

    def add(o, s, how):
        pool.append({"o": o, "side": s, "shape": shape(o), "value": value(o, s), "how": how})
        pool[-1]["shape"] = shape(o)
        mon.saw("objects")

    def check(e, what):
        mon.saw("rerun")
        mon.check(shape(e["o"]) == e["shape"], "a graph changed %s" % what, hist=hist, which=e["how"], got=shape(e["o"]), want=e["shape"])
        got = value(e["o"], e["side"])
        mon.check(got == e["value"], "results of a graph changed %s" % what, hist=hist, which=e["how"], got=got, want=e["value"])

    s0 = "mitex" if isinstance(first, MitEx) else "mitres"
    add(first, s0, kind)
    for step in range(rng.randint(2, 7)):
        e = rng.choice(pool)
        o, s = e["o"], e["side"]
        op = rng.choice(["graph", "typed", "copy", "extend", "extend", "flatten", "part"])
        if op == "typed" and isinstance(o, (MitEx, MitRes)) and rng.random() < 0.5:
            op = "graph"
        hist.append("%s of %d" % (op, pool.index(e)))
        if op == "graph":
            n = TaskGraph().from_TaskGraph(o)
            add(n, s, "graph from %d" % pool.index(e))
        elif op == "typed":
            n = (MitEx if s == "mitex" else MitRes)(be).from_TaskGraph(o)
            add(n, s, "object from %d" % pool.index(e))
        elif op == "copy":
            n = rng.choice([copy.copy, copy.deepcopy])(o)
            add(n, s, "copy of %d" % pool.index(e))
        elif op == "part":
            mon.saw("used_as_part")
            if s == "mitex":
                add(gen_MeasurementReduction_MitEx(be, mitex=o) if isinstance(o, MitEx) else MitEx(be).from_TaskGraph(o), s, "around %d" % pool.index(e))
            elif isinstance(o, MitRes):
                m = rng.choice([lambda: MitEx(be, mitres=o), lambda: gen_postselect_mitres(be, PostselectMgr([Bit(0)], []), mitres=o)])()
                add(m, "mitex" if isinstance(m, MitEx) else "mitres", "around %d" % pool.index(e))
            else:
                add(MitRes(be).from_TaskGraph(o), s, "object from %d" % pool.index(e))
        elif op == "extend":
            b, a = ("experiments", "operators") if s == "mitex" else ("circuits", "results")
            if rng.random() < 0.5:
                o.prepend(list_task("mine%d" % step, b, lambda l: list(reversed(l))))
            else:
                o.append(list_task("mine%d" % step, a, lambda l: list(reversed(l))))
            e["value"] = e["value"][::-1] if len(e["value"]) == 2 else value(o, s)
            e["shape"] = shape(o)
            check(e, "on its own (reversed outputs)")
        else:
            try:
                o.decompose_TaskGraph_nodes()
                mon.saw("flattened")
            except ValueError:
                mon.saw("refused")
            e["shape"] = shape(o)
            check(e, "when it was flattened")
        for other in pool:
            if rng.random() < 0.5:
                check(other, "when another was made or changed")
    for other in pool:
        check(other, "when others were made or changed")
    mon.case(hist, len(pool) > 1, hist)
