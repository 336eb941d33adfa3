import networkx as nx
import numpy as np
from pytket.circuit import CircBox, Circuit, OpType
from pytket.passes import DecomposeBoxes, FullPeepholeOptimise

from harness import gens, sim
from harness.core import Registry
from qermit import CircuitShots
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford
from qermit.coherent_pauli_checks.coherent_pauli_checks_mitres import gen_find_cliffords_task
from qermit.coherent_pauli_checks.monochromatic_convex_subdag import get_monochromatic_convex_subdag

REG = Registry("C14", "A case boxes a random circuit (mixed Clifford / non-Clifford gates on named registers, with or without "
               "measurements, resets, barriers, classical control and implicit swaps) and compares the exact unitary or outcome "
               "distribution, and inspects every box; or colours a random DAG and checks assignment and convexity by path search. "
               "Distinct by circuit / DAG.")

C1 = [OpType.H, OpType.S, OpType.Sdg, OpType.X, OpType.Y, OpType.Z, OpType.V, OpType.Vdg]
C2 = [OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.ZZMax, OpType.ECR]
ALWAYS = set(C1 + C2 + [OpType.SX, OpType.SXdg, OpType.ISWAPMax, OpType.BRIDGE])


GROUPED = 0.06


def grouped(rng, c, qs):
    """A gate with a name by which users find it again."""
    if len(qs) > 1 and rng.random() < 0.6:
        c.add_gate(rng.choice([OpType.CX, OpType.CX, OpType.CZ, OpType.CY]), [], rng.sample(qs, 2), opgroup="two")
    else:
        c.add_gate(rng.choice([OpType.H, OpType.S, OpType.V, OpType.T]), [], [rng.choice(qs)], opgroup="one")


def gate(rng, c, qs, p_cliff, cond=None):
    kw = {}
    if cond:
        kw = dict(condition_bits=cond[0], condition_value=cond[1])
    if not cond and rng.random() < GROUPED:
        grouped(rng, c, qs)
    elif rng.random() < 0.12:
        gens.zoo_gate(rng, c, qs, near=True, **kw)
    elif rng.random() < p_cliff:
        if len(qs) > 1 and rng.random() < 0.5:
            c.add_gate(rng.choice(C2), [], rng.sample(qs, 2), **kw)
        elif rng.random() < 0.2:
            t, p = rng.choice([(OpType.Rz, [0.5]), (OpType.PhasedX, [0.5, 0.5]), (OpType.Rz, [1.5]), (OpType.Rx, [0.5])])
            c.add_gate(t, p, [rng.choice(qs)], **kw)
        else:
            c.add_gate(rng.choice(C1), [], [rng.choice(qs)], **kw)
    else:
        x = rng.random()
        if x < 0.4:
            c.add_gate(OpType.T, [], [rng.choice(qs)], **kw)
        elif x < 0.6 and len(qs) > 1:
            c.add_gate(OpType.ZZPhase, [round(rng.uniform(0, 2), 3)], rng.sample(qs, 2), **kw)
        elif x < 0.7 and len(qs) > 2:
            c.add_gate(OpType.CCX, [], rng.sample(qs, 3), **kw)
        else:
            c.add_gate(rng.choice([OpType.Rx, OpType.Rz, OpType.Ry]), [round(rng.uniform(0.1, 2), 3)], [rng.choice(qs)], **kw)


def unitary_circuit(rng, n=None, depth=None):
    qs = gens.new_qubits(rng, n or rng.randint(1, 5))
    c = gens.blank(qs)
    p = rng.choice([0.3, 0.6, 0.8, 0.95, 1.0])
    for _ in range(depth if depth is not None else rng.randint(0, 25)):
        gate(rng, c, qs, p)
    if rng.random() < 0.3:
        c.add_phase(rng.uniform(0, 2))
    return c


def boxes(c):
    return [cmd for cmd in c.get_commands() if cmd.op.type == OpType.CircBox and cmd.op.get_circuit().name == "Clifford Subcircuit"]


QUARTER = [("Rz", 0.5), ("PhasedX", 0.5, 0.5)]


def quarter(cmd):
    return (cmd.op.type.name, *cmd.op.params) if cmd.op.type in (OpType.Rz, OpType.PhasedX) else None


def check_boxes(mon, before, after):
    bs = boxes(after)
    n_in = {}
    for b in bs:
        mon.saw("boxes")
        for cmd in b.op.get_circuit().get_commands():
            mon.saw("boxed_gates")
            mon.check(cmd.op.is_clifford() and cmd.op.type not in (OpType.Measure, OpType.Reset, OpType.Barrier),
                      "a box contains an operation which is not Clifford", op=str(cmd), circ=gens.describe(before))
            mon.saw("grouped", int(cmd.opgroup is not None))
            for t in (cmd.op.type, quarter(cmd)):
                n_in[t] = n_in.get(t, 0) + 1
        mon.check(b.op.get_circuit().n_gates > 0, "a box is empty", circ=gens.describe(before))
    for t in sorted(ALWAYS, key=str) + QUARTER:
        n = sum(1 for cmd in before.get_commands() if t in (cmd.op.type, quarter(cmd)))
        mon.check(n_in.get(t, 0) == n, "a Clifford gate is in no box, or in several", type=str(t), got=n_in.get(t, 0), want=n,
                  circ=gens.describe(before), after=gens.describe(after))
    d = after.copy()
    DecomposeBoxes().apply(d)
    key = lambda c: sorted((str(cmd.op), tuple(map(str, cmd.args))) for cmd in c.get_commands() if cmd.op.type != OpType.Barrier)
    mon.check(key(d) == key(before), "unboxing does not give back the gates of the circuit", got=key(d), want=key(before))
    mon.check(list(after.qubits) == list(before.qubits) and list(after.bits) == list(before.bits), "registers changed")


def box(rng, c):
    """Through the pass, or through the task used by coherent Pauli checks."""
    if rng.random() < 0.6:
        d = c.copy()
        BoxClifford().apply(d)
        return d
    (out,) = gen_find_cliffords_task()([[CircuitShots(c, 17)]])
    assert out[0].Shots == 17
    return out[0].Circuit


@REG.facet(900, 12000, needs={"boxes": 1500, "boxed_gates": 3000})
def unitary_equivalence(rng, mon):
    c = unitary_circuit(rng)
    if rng.random() < 0.15 and c.n_qubits > 1:
        FullPeepholeOptimise(allow_swaps=True).apply(c)
    before = c.copy()
    d = box(rng, c)
    mon.check(c == before, "the given circuit was changed")
    if any(k != v for k, v in before.implicit_qubit_permutation().items()):
        mon.saw("implicit_swaps")
    u, v = sim.unitary(before), sim.unitary(d)
    mon.check(u.shape == v.shape and np.allclose(u, v, atol=1e-7), "boxing changed the unitary", circ=gens.describe(before), after=gens.describe(d),
              perm=str(before.implicit_qubit_permutation()))
    if not any(k != v for k, v in before.implicit_qubit_permutation().items()):
        check_boxes(mon, before, d)
    mon.case(gens.describe(before), before.n_gates > 1, gens.describe(before))


def dynamic_circuit(rng):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    bs = gens.bits(rng, rng.randint(1, 3))
    c = gens.blank(qs, bs)
    p = rng.choice([0.5, 0.8, 0.95])
    for _ in range(rng.randint(2, 16)):
        x = rng.random()
        if x < 0.12:
            c.Measure(rng.choice(qs), rng.choice(bs))
        elif x < 0.24:
            k = rng.randint(1, len(bs))
            gate(rng, c, qs, p, (rng.sample(bs, k), rng.randint(0, 2 ** k - 1)))
        elif x < 0.3:
            c.add_gate(OpType.Reset, [], [rng.choice(qs)])
        elif x < 0.36:
            c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))) + (rng.sample(bs, 1) if rng.random() < 0.3 else []))
        else:
            gate(rng, c, qs, p)
    for q, b in zip(rng.sample(qs, min(len(qs), len(bs))), rng.sample(bs, len(bs))):
        if rng.random() < 0.6:
            c.Measure(q, b)
    return c


@REG.facet(900, 12000, needs={"boxes": 1000, "distributions": 800})
def dynamic_equivalence(rng, mon):
    c = dynamic_circuit(rng)
    before = c.copy()
    d = box(rng, c)
    mon.saw("distributions")
    u, v = sim.simulate(before), sim.simulate(d)
    mon.check(sim.dist_close(u, v), "boxing changed the outcome distribution", circ=gens.describe(before), after=gens.describe(d),
              got=str(v), want=str(u))
    check_boxes(mon, before, d)
    n = lambda x: sum(1 for cmd in x.get_commands() if cmd.op.type == OpType.Barrier)
    mon.check(n(before) == n(d), "barriers were lost")
    mon.case(gens.describe(before), True, gens.describe(before))


def same_order(a, b):
    """Whether the gates on each unit are the same, in the same order: then the two circuits are equal."""
    def per_unit(c):
        d = c.copy()
        DecomposeBoxes().apply(d)
        t = {}
        for cmd in d.get_commands():
            for u in cmd.args:
                t.setdefault(u, []).append((str(cmd.op), tuple(map(str, cmd.args))))
        return t
    return per_unit(a) == per_unit(b)


@REG.facet(500, 8000, needs={"boxes": 2000, "boxed_gates": 4000})
def large_circuits(rng, mon):
    """Wide circuits, in which regions meet in many ways: compared by the order of gates on each unit."""
    qs = gens.new_qubits(rng, rng.randint(5, 9))
    bs = gens.bits(rng, rng.randint(1, 3))
    c = gens.blank(qs, bs)
    p, p2 = rng.choice([0.5, 0.65, 0.8, 0.9]), rng.choice([0.3, 0.5])
    for _ in range(rng.randint(20, 70)):
        if rng.random() < p:
            if rng.random() < p2:
                c.add_gate(rng.choice(C2), [], rng.sample(qs, 2))
            else:
                c.add_gate(rng.choice(C1), [], [rng.choice(qs)])
        elif rng.random() < 0.3:
            c.add_gate(OpType.ZZPhase, [0.1], rng.sample(qs, 2))
        elif rng.random() < 0.1:
            c.Measure(rng.choice(qs), rng.choice(bs))
        else:
            c.add_gate(OpType.T, [], [rng.choice(qs)])
    before = c.copy()
    try:
        d = box(rng, c)
    except AssertionError:
        mon.check(False, "boxing fails: boxes each have to run before the other", circ=gens.describe(before))
        return
    mon.check(same_order(before, d), "boxing reordered gates which act on the same qubit or bit", circ=gens.describe(before))
    check_boxes(mon, before, d)
    mon.case(gens.describe(before), True, gens.describe(before)[:200])


@REG.facet(1500, 20000, needs={"subsets": 900})
def colouring(rng, mon):
    n = rng.choice([rng.randint(0, 9), rng.randint(8, 16)])
    dag = nx.DiGraph()
    names = list(range(n)) if rng.random() < 0.5 else ["n%d" % i for i in rng.sample(range(50), n)]
    dag.add_nodes_from(names if rng.random() < 0.5 else rng.sample(names, n))
    p = rng.choice([0.1, 0.25, 0.5]) if n < 10 else rng.choice([0.08, 0.15, 0.25])
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < p:
                dag.add_edge(names[i], names[j])
    col = [x for x in names if rng.random() < rng.choice([0.4, 0.7, 1.0])]
    rng.shuffle(col)
    edges = sorted(map(str, dag.edges))
    got = get_monochromatic_convex_subdag(dag, list(col))
    w = dict(edges=edges, coloured=col, got=str(got))
    mon.check(set(got) == set(col), "not exactly the coloured nodes are assigned", **w)
    mon.check(sorted(map(str, dag.edges)) == edges, "the graph was changed", **w)
    subsets = {}
    for x, s in got.items():
        subsets.setdefault(s, set()).add(x)
    for s, xs in subsets.items():
        mon.saw("subsets")
        desc = set().union(*[nx.descendants(dag, x) for x in xs])
        anc = set().union(*[nx.ancestors(dag, x) for x in xs])
        mon.check(not ((desc & anc) - xs), "a subset is not convex", subset=str(xs), **w)
    q = nx.DiGraph()
    rep = {x: ("s", got[x]) if x in got else ("n", x) for x in dag}
    q.add_nodes_from(rep.values())
    q.add_edges_from((rep[a], rep[b]) for a, b in dag.edges if rep[a] != rep[b])
    mon.check(nx.is_directed_acyclic_graph(q), "two subsets each have to run before the other", **w)
    # connected coloured chains with nothing in between end up together
    for a, b in dag.edges:
        if a in got and b in got and got[a] != got[b]:
            mon.saw("unmerged_neighbours")
    mon.case((edges, tuple(map(str, col))), len(col) > 1, str(edges))
