"""Seeded generators: unit names, circuits, Pauli strings, observables."""
from pytket.circuit import Bit, Circuit, OpType, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from sympy import Integer, Rational, Symbol

PAULIS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]
CLIFF1 = [OpType.H, OpType.S, OpType.Sdg, OpType.X, OpType.Y, OpType.Z, OpType.V, OpType.Vdg, OpType.SX, OpType.SXdg]
CLIFF2 = [OpType.CX, OpType.CZ, OpType.CY, OpType.SWAP, OpType.ZZMax]
ROT1 = [OpType.Rx, OpType.Ry, OpType.Rz]
MIX1 = CLIFF1 + [OpType.T, OpType.Tdg]


def qubits(rng, n, plain=None):
    mode = rng.choice(["plain", "plain", "named", "mixed", "sparse"]) if plain is None else ("plain" if plain else "mixed")
    if mode == "plain":
        return [Qubit(i) for i in range(n)]
    if mode == "named":
        reg = rng.choice(["a", "node", "zz", "anc_", "Q"])
        return [Qubit(reg, i) for i in range(n)]
    if mode == "sparse":
        ids = sorted(rng.sample(range(0, 3 * n + 5), n))
        reg = rng.choice(["node", "q", "q"])
        return [Qubit(reg, i) for i in ids]
    out, c = [], {}
    for _ in range(n):
        r = rng.choice(["a", "q", "zz"])
        c[r] = c.get(r, -1) + 1
        out.append(Qubit(r, c[r]))
    out.sort()
    return out


def uniq(qs):
    return len(set(qs)) == len(qs)


def new_qubits(rng, n, plain=None):
    while True:
        q = qubits(rng, n, plain)
        if uniq(q):
            q.sort()
            return q


def bits(rng, n, plain=None):
    if plain or (plain is None and rng.random() < 0.5):
        return [Bit(i) for i in range(n)]
    out, c = [], {}
    for _ in range(n):
        r = rng.choice(["c", "b", "m"])
        c[r] = c.get(r, -1) + 1
        out.append(Bit(r, c[r]))
    out.sort()
    return out


def blank(qs, bs=()):
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bs:
        c.add_bit(b)
    return c


def angle(rng, kind):
    if kind == "clifford":
        return rng.choice([0, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, -0.5, -1])
    if kind == "mixed" and rng.random() < 0.4:
        return rng.choice([0, 0.5, 1, 1.5])
    return round(rng.uniform(0, 4), 3)


# gates by number of qubits: (type, number of parameters)
ZOO = {
    1: [(OpType.U1, 1), (OpType.U2, 2), (OpType.U3, 3), (OpType.PhasedX, 2), (OpType.PhasedX, 2), (OpType.TK1, 3), (OpType.GPI, 1),
        (OpType.GPI2, 1), (OpType.noop, 0)],
    2: [(OpType.AAMS, 3), (OpType.TK2, 3), (OpType.CH, 0), (OpType.CV, 0), (OpType.CVdg, 0), (OpType.CSX, 0), (OpType.CSXdg, 0),
        (OpType.CS, 0), (OpType.CSdg, 0), (OpType.CRx, 1), (OpType.CRy, 1), (OpType.CU1, 1), (OpType.CU3, 3), (OpType.ISWAP, 1),
        (OpType.PhasedISWAP, 2), (OpType.XXPhase, 1), (OpType.YYPhase, 1), (OpType.ESWAP, 1), (OpType.FSim, 2), (OpType.Sycamore, 0),
        (OpType.ECR, 0), (OpType.ISWAPMax, 0)],
    3: [(OpType.CCX, 0), (OpType.CSWAP, 0), (OpType.XXPhase3, 1), (OpType.BRIDGE, 0)],
}


def zoo_gate(rng, c, qs, near=False, most=3, **kw):
    """Add any gate tket knows; near: parameters are often multiples of a quarter."""
    k = min(len(qs), rng.choice([1, 1, 1, 2, 2, 3]), most)
    t, n = rng.choice(ZOO[k])
    ps = [rng.choice([0, 0.5, 1, 1.5, 0.25, 2.5]) if near and rng.random() < 0.7 else round(rng.uniform(0, 2), 3) for _ in range(n)]
    c.add_gate(t, ps, rng.sample(qs, k), **kw)


def add_gates(rng, c, qs, n_gates, kind="any", symbols=None, two=None):
    """kind: clifford | any | rot ; appended in place."""
    for _ in range(n_gates):
        if kind == "any" and two is None and rng.random() < 0.1:
            zoo_gate(rng, c, qs)
        elif len(qs) > 1 and rng.random() < 0.4:
            a, b = rng.sample(qs, 2)
            ops = two or (CLIFF2 if kind == "clifford" else CLIFF2 + [OpType.ZZPhase, OpType.CRz, OpType.CX])
            o = rng.choice(ops)
            if o in (OpType.ZZPhase, OpType.CRz):
                c.add_gate(o, angle(rng, kind), [a, b])
            else:
                c.add_gate(o, [a, b])
        else:
            q = rng.choice(qs)
            if kind == "clifford":
                if rng.random() < 0.25:
                    c.add_gate(rng.choice(ROT1), angle(rng, "clifford"), [q])
                else:
                    c.add_gate(rng.choice(CLIFF1), [q])
            else:
                x = rng.random()
                if x < 0.5:
                    if symbols and rng.random() < 0.6:
                        s = rng.choice(symbols)
                        e = s if rng.random() < 0.7 else s * rng.choice([2, -1, 0.5]) + rng.choice([0, 0.25])
                        c.add_gate(rng.choice(ROT1), e, [q])
                    else:
                        c.add_gate(rng.choice(ROT1), angle(rng, kind), [q])
                elif x < 0.6:
                    c.add_gate(OpType.TK1, [angle(rng, kind) for _ in range(3)], [q])
                else:
                    c.add_gate(rng.choice(MIX1), [q])
    return c


def circuit(rng, n=None, n_gates=None, kind="any", plain=None, symbols=None, qs=None):
    n = n or rng.randint(1, 4)
    qs = qs or new_qubits(rng, n, plain)
    c = blank(qs)
    if rng.random() < 0.3:
        c.name = rng.choice(["ansatz", "circuit"])
    add_gates(rng, c, qs, n_gates if n_gates is not None else rng.randint(1, 12), kind, symbols)
    return c


def measured(rng, n=None, n_gates=None, kind="any", plain=None, all_qubits=None, bit_plain=None, extra_bits=True):
    """Circuit with terminal measurements of a random subset onto random bits."""
    c = circuit(rng, n, n_gates, kind, plain)
    qs = list(c.qubits)
    k = len(qs) if all_qubits or rng.random() < 0.6 else rng.randint(1, len(qs))
    nb = k + (rng.randint(0, 1) if extra_bits else 0)
    bs = bits(rng, nb, bit_plain)
    for b in bs:
        c.add_bit(b)
    mq = rng.sample(qs, k)
    mb = rng.sample(bs, k)
    for q, b in zip(mq, mb):
        c.Measure(q, b)
    return c


def pauli_string(rng, qs, allow_identity=False, dense=None):
    while True:
        d = {}
        for q in qs:
            p = rng.choice(PAULIS) if dense is None else rng.choice(PAULIS[1:] if rng.random() < dense else PAULIS[:1])
            if p != Pauli.I or rng.random() < 0.15:
                d[q] = p
        s = QubitPauliString(d)
        if allow_identity or any(p != Pauli.I for p in d.values()):
            return s


def observable(rng, qs, n=None, allow_identity=False, complex_ok=False):
    n = n or rng.randint(1, 6)
    d = {}
    for _ in range(n):
        s = pauli_string(rng, qs, allow_identity)
        key = s
        d[key] = rng.choice([1, -1, 0.5, 2, -3.25, 0.125, 0, 40, 1e-6, round(rng.uniform(-2, 2), 3)])
        if complex_ok and rng.random() < 0.15:
            d[key] = rng.choice([1j, complex(0.5, -2), complex(-1.5, 0), Integer(3), Rational(-1, 4)])
    # drop strings equal up to explicit identities
    seen, out = set(), {}
    for s, v in d.items():
        k = tuple(sorted((str(q), p.name) for q, p in s.map.items() if p != Pauli.I))
        if k in seen:
            continue
        seen.add(k)
        out[s] = v
    return QubitPauliOperator(out)


def symbols(rng, n):
    return [Symbol(x) for x in rng.sample(["a", "b", "x", "theta", "zeta", "p0", "p1"], n)]


def describe(c):
    return [str(cmd) for cmd in c.get_commands()]
