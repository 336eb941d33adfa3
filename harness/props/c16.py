import numpy as np
from pytket.circuit import Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor

from harness import gens, sim
from harness.core import Registry
from qermit.noise_model.qermit_pauli import QermitPauli

REG = Registry("C16", "A case drives one Pauli through a random history of Clifford gates, whole circuits and multiplications by Paulis, "
               "and after every step compares sign and string with dense matrix conjugation; then compares the circuits it gives, its "
               "dagger, reductions, measurability, equality and hash with dense matrices. Distinct by history.")

G1 = [OpType.H, OpType.S, OpType.Sdg, OpType.X, OpType.Y, OpType.Z, OpType.V, OpType.Vdg, OpType.SX, OpType.SXdg, OpType.noop]
G2 = [OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.ZZMax, OpType.ECR, OpType.ISWAPMax]
COEFF = [1, -1, 1j, -1j]


def clifford_angle(rng):
    k = rng.randint(-6, 10)
    x = k * 0.5
    y = rng.random()
    if y < 0.3:  # angles reached through floating point arithmetic
        a = round(rng.uniform(0, 3), 1)
        x = (x + a) - a
    elif y < 0.4:
        x = x + rng.choice([-1, 1]) * rng.choice([1e-15, 1e-14, 1e-13])
    return x


def add_clifford(rng, c, qs):
    x = rng.random()
    if len(qs) > 2 and x < 0.05:
        c.add_gate(OpType.BRIDGE, rng.sample(qs, 3))
    elif len(qs) > 1 and x < 0.45:
        if rng.random() < 0.25:
            c.add_gate(OpType.ZZPhase, [clifford_angle(rng)], rng.sample(qs, 2))
        else:
            c.add_gate(rng.choice(G2), rng.sample(qs, 2))
    elif x < 0.65:
        t = rng.choice([OpType.Rz, OpType.Rx, OpType.PhasedX])
        c.add_gate(t, [clifford_angle(rng) for _ in range(2 if t == OpType.PhasedX else 1)], [rng.choice(qs)])
    else:
        c.add_gate(rng.choice(G1), [rng.choice(qs)])


def supported(c):
    return all(cmd.op.type == OpType.Barrier or cmd.op.is_clifford() for cmd in c.get_commands())


def matrix(qp, qs):
    t = qp.qubit_pauli_tensor
    return complex(t.coeff) * sim.pauli_matrix(t.string, qs)


def explicit(rng, qs):
    return {q: rng.choice(gens.PAULIS) for q in qs}


@REG.facet(700, 9000, needs={"steps": 4000, "negative_signs": 300, "angles": 200})
def propagation(rng, mon):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    ext = explicit(rng, qs)
    coeff = rng.choice(COEFF)
    order = rng.sample(qs, len(qs))
    p = QermitPauli(QubitPauliTensor(string=QubitPauliString({q: ext[q] for q in order}), coeff=coeff))
    m = coeff * sim.pauli_matrix(QubitPauliString(ext), qs)
    hist = [(str(ext), coeff)]
    mon.check(np.allclose(matrix(p, qs), m), "a new Pauli is not the one given", hist=hist)
    for _ in range(rng.randint(1, 12)):
        x = rng.random()
        if x < 0.55:
            c = gens.blank(qs)
            add_clifford(rng, c, qs)
            if not supported(c):
                continue
            cmd = c.get_commands()[0] if c.n_gates else None
            if cmd is None:
                continue
            if cmd.op.params:
                mon.saw("angles")
            p.apply_gate(cmd.op, cmd.qubits)
            u = sim.unitary(c)
            m = u @ m @ u.conj().T
            hist.append(str(cmd))
        elif x < 0.75:
            c = gens.blank(qs)
            for _ in range(rng.randint(0, 5)):
                add_clifford(rng, c, qs)
                if rng.random() < 0.2:
                    c.add_barrier(rng.sample(qs, rng.randint(1, len(qs))))
            if not supported(c):
                continue
            before = c.copy()
            p.apply_circuit(c)
            mon.check(c == before, "the circuit was changed", hist=hist)
            u = sim.unitary(c)
            m = u @ m @ u.conj().T
            hist.append(gens.describe(c))
        else:
            q, a = rng.choice(qs), rng.choice(gens.PAULIS)
            pm = sim.pauli_matrix(QubitPauliString(q, a), qs)
            if rng.random() < 0.5:
                p.pre_apply_pauli(a, q)
                m = m @ pm
                hist.append("pre %s %s" % (a, q))
            else:
                p.post_apply_pauli(a, q)
                m = pm @ m
                hist.append("post %s %s" % (a, q))
        mon.saw("steps")
        got = matrix(p, qs)
        if complex(p.qubit_pauli_tensor.coeff) != 1:
            mon.saw("negative_signs")
        mon.check(np.allclose(got, m, atol=1e-8), "the propagated Pauli is wrong", hist=hist, got=str(p),
                  sign_only=bool(np.allclose(got, -m, atol=1e-8)))
        mon.check(set(p.qubit_pauli_tensor.string.map) == set(qs), "qubits of the Pauli changed", hist=hist)
    # views of the final Pauli
    t = p.qubit_pauli_tensor
    c = p.circuit
    full = gens.blank(qs)
    full.append(c)
    mon.check(np.allclose(sim.unitary(full), m, atol=1e-8), "the circuit of the Pauli does not implement it", hist=hist, circ=gens.describe(c))
    ctrl = Qubit("ctl", 0)
    cc = p.get_control_circuit(ctrl)
    full = gens.blank([ctrl] + list(qs))
    full.append(cc)
    n = 2 ** len(qs)
    allq = list(full.qubits)
    want = np.kron(np.diag([1, 0]), np.eye(n)) + np.kron(np.diag([0, 1]), m)
    # reorder so that ctrl comes first
    u = reorder(sim.unitary(full), allq, [ctrl] + list(qs))
    mon.check(np.allclose(u, want, atol=1e-8), "the controlled circuit does not implement the controlled Pauli", hist=hist,
              circ=gens.describe(cc))
    mon.check(np.allclose(matrix(p.dagger, qs), m.conj().T, atol=1e-8), "dagger", hist=hist)
    mon.check(np.allclose(matrix(p, qs), m, atol=1e-8), "reading the Pauli changed it", hist=hist)
    sub = rng.sample(qs, rng.randint(0, len(qs)))
    left = [q for q in qs if q not in sub]
    r = p.reduce_qubits(sub)
    d = r.qubit_pauli_tensor
    mon.check(set(d.string.map) == set(left) and all(d.string[q] == t.string[q] for q in left) and d.coeff == t.coeff,
              "reduced Pauli", hist=hist, got=str(r), removed=str(sub))
    mon.check(p.is_measureable(sub) == any(t.string[q] in (Pauli.X, Pauli.Y) for q in sub), "is_measureable", hist=hist, on=str(sub))
    mon.case(hist, len(hist) > 2, hist)


def reorder(u, have, want):
    n = len(have)
    perm = [have.index(q) for q in want]
    t = u.reshape((2,) * (2 * n)).transpose(perm + [n + i for i in perm])
    return t.reshape(2 ** n, 2 ** n)


@REG.facet(600, 8000, needs={"equal_pairs": 300, "unequal_pairs": 300})
def equality(rng, mon):
    """Equal exactly when the matrices are, whatever the history; equal Paulis share a hash."""
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    ps, ms = [], []
    for _ in range(4):
        ext = explicit(rng, qs)
        co = rng.choice(COEFF)
        p = QermitPauli(QubitPauliTensor(string=QubitPauliString({q: ext[q] for q in rng.sample(qs, len(qs))}), coeff=co))
        m = co * sim.pauli_matrix(QubitPauliString(ext), qs)
        for _ in range(rng.randint(0, 3)):
            c = gens.blank(qs)
            add_clifford(rng, c, qs)
            if supported(c):
                p.apply_circuit(c)
                m = sim.unitary(c) @ m @ sim.unitary(c).conj().T
        ps.append(p), ms.append(m)
    # rebuild the same operators directly, in another qubit order
    for p, m in list(zip(ps, ms)):
        t = p.qubit_pauli_tensor
        d = {q: t.string[q] for q in rng.sample(qs, len(qs))}
        ps.append(QermitPauli(QubitPauliTensor(string=QubitPauliString(d), coeff=t.coeff)))
        ms.append(m)
        if rng.random() < 0.5:
            ps.append(p.dagger.dagger), ms.append(m)
    for i in range(len(ps)):
        for j in range(i):
            same = bool(np.allclose(ms[i], ms[j], atol=1e-8))
            mon.saw("equal_pairs" if same else "unequal_pairs")
            mon.check((ps[i] == ps[j]) == same, "equality", a=str(ps[i]), b=str(ps[j]), same=same)
            if same:
                mon.check(hash(ps[i]) == hash(ps[j]), "equal Paulis have different hashes", a=str(ps[i]), b=str(ps[j]))
    mon.check(ps[0] != 3 and ps[0] != "X", "equal to something which is no Pauli")
    mon.case([str(p) for p in ps], True, [str(p) for p in ps])


@REG.facet(250, 2500, needs={"refused": 200})
def refusals(rng, mon):
    """Non-Clifford gates and circuits with bits are refused rather than propagated wrongly."""
    qs = gens.new_qubits(rng, rng.randint(1, 3))
    ext = explicit(rng, qs)
    c = gens.blank(qs)
    for _ in range(rng.randint(0, 2)):
        add_clifford(rng, c, qs)
    x = rng.random()
    bad = True
    if x < 0.3:
        c.add_gate(rng.choice([OpType.T, OpType.Tdg]), [rng.choice(qs)])
    elif x < 0.6:
        c.add_gate(rng.choice([OpType.Rz, OpType.Rx, OpType.Ry]), [rng.choice([0.25, 0.1, 0.5001, 1.3, 1e-6])], [rng.choice(qs)])
    elif x < 0.8:
        for b in gens.bits(rng, 1):
            c.add_bit(b)
        c.Measure(rng.choice(qs), c.bits[0])
    else:  # supported or refused, never wrong
        bad = False
        t = rng.choice([OpType.Ry, OpType.TK1, OpType.U1, OpType.U3, OpType.GPI, OpType.GPI2])
        k = {OpType.TK1: 3, OpType.U3: 3}.get(t, 1)
        c.add_gate(t, [rng.choice([0.5, 1, 1.5, 0.25]) for _ in range(k)], [rng.choice(qs)])
    p = QermitPauli(QubitPauliTensor(string=QubitPauliString(ext), coeff=1))
    try:
        p.apply_circuit(c)
    except Exception:
        mon.saw("refused")
    else:
        u = sim.unitary(c) if not bad else None
        mon.check(not bad, "an operation which is not Clifford was accepted", circ=gens.describe(c))
        m = u @ sim.pauli_matrix(QubitPauliString(ext), qs) @ u.conj().T
        mon.check(np.allclose(matrix(p, qs), m, atol=1e-8), "the propagated Pauli is wrong", circ=gens.describe(c), got=str(p))
    mon.check(True, "")
    mon.case(gens.describe(c), True, gens.describe(c))
