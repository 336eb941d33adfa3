"""C19: noise folding keeps the circuit's action and reaches the requested scaling."""
import math
from collections import Counter

import numpy as np
from pytket.circuit import Circuit, OpType
from pytket.passes import RemoveRedundancies
from pytket.pauli import Pauli
from sympy import Symbol

from harness import gens, sim
from harness.core import Registry, SkipCase
from harness.props.c17 import close, distribution, eigen, from_eigen, full
from qermit.noise_model import ErrorDistribution, NoiseModel
from qermit.zero_noise_extrapolation import Folding

REG = Registry("C19", "A case folds a random unitary circuit (many gate types, symbols, barriers, bits, implicit permutations, named qubits) with one "
               "method and factor and decides unitary, qubits, bits, barriers, gate counts and whether a later redundancy removal would undo the "
               "folding; or draws many noise-aware foldings and compares the Paulis found after each noisy gate with the power of the channel. "
               "Distinct by circuit, method and factor.",
               assumptions=["circuits are unitary and hold at least one foldable gate", "boxes are documented as unsupported"])

ONE = [OpType.H, OpType.S, OpType.Sdg, OpType.T, OpType.Tdg, OpType.X, OpType.Y, OpType.Z, OpType.V, OpType.Vdg, OpType.SX, OpType.SXdg]
TWO = [OpType.CX, OpType.CZ, OpType.CY, OpType.CH, OpType.SWAP, OpType.ZZMax, OpType.ECR, OpType.CV, OpType.CVdg, OpType.CSX, OpType.Sycamore,
       OpType.ISWAPMax]
PAR = [(OpType.Rx, 1, 1), (OpType.Ry, 1, 1), (OpType.Rz, 1, 1), (OpType.U1, 1, 1), (OpType.U2, 1, 2), (OpType.U3, 1, 3), (OpType.TK1, 1, 3),
       (OpType.PhasedX, 1, 2), (OpType.CRx, 2, 1), (OpType.CRy, 2, 1), (OpType.CRz, 2, 1), (OpType.CU1, 2, 1), (OpType.CU3, 2, 3),
       (OpType.ZZPhase, 2, 1), (OpType.XXPhase, 2, 1), (OpType.YYPhase, 2, 1), (OpType.ISWAP, 2, 1), (OpType.TK2, 2, 3), (OpType.ESWAP, 2, 1),
       (OpType.FSim, 2, 2), (OpType.PhasedISWAP, 2, 2)]
MULTI = [(OpType.CCX, 3), (OpType.CSWAP, 3), (OpType.BRIDGE, 3), (OpType.CnX, 3), (OpType.CnZ, 3)]


def rich_circuit(rng, syms=()):
    n = rng.randint(1, 4)
    qs = gens.new_qubits(rng, n)
    c = gens.blank(qs, gens.bits(rng, rng.choice([0, 0, 1, 3])))
    for _ in range(rng.randint(1, 9)):
        x = rng.random()
        if x < 0.3:
            c.add_gate(rng.choice(ONE), [rng.choice(qs)])
        elif x < 0.55 and n > 1:
            c.add_gate(rng.choice(TWO), rng.sample(qs, 2))
        elif x < 0.6 and n > 2:
            o, k = rng.choice(MULTI)
            c.add_gate(o, rng.sample(qs, k))
        elif x < 0.7:
            c.add_barrier(rng.sample(qs, rng.randint(1, n)) + (list(c.bits) if rng.random() < 0.4 else []))
        else:
            o, k, m = rng.choice([p for p in PAR if p[1] <= n])
            ps = [gens.angle(rng, "any") for _ in range(m)]
            if syms and rng.random() < 0.5:
                ps[rng.randrange(m)] = rng.choice(syms) * rng.choice([1, -1, 2]) + rng.choice([0, 0.25])
            c.add_gate(o, ps, rng.sample(qs, k))
    if rng.random() < 0.25:
        c.add_phase(gens.angle(rng, "any"))
    if rng.random() < 0.3:
        c.replace_SWAPs()
    return c


def gates(c):
    return [cmd for cmd in c.get_commands() if cmd.op.type != OpType.Barrier]


def reachable(n, ns):
    """Folds (each adding two gates) that come as close as possible to ns without going over."""
    return math.floor((ns - 1) * n / 2 + 1e-5)


@REG.facet(1600, 24000, needs={"circuit": 150, "gate": 150, "two_qubit_gate": 100, "odd_gate": 150, "implicit_permutations": 15, "symbolic": 100,
                               "exact": 200, "rounded": 100, "removal_resisted": 400})
def folding(rng, mon):
    syms = [Symbol(s) for s in rng.sample(["a", "b", "theta"], rng.choice([0, 0, 2]))]
    c = rich_circuit(rng, syms)
    if rng.random() < 0.5:
        while RemoveRedundancies().apply(c):
            pass
        inv = gens.blank(c.qubits, c.bits)
        for g in reversed(c.get_commands()):
            inv.add_barrier(g.args) if g.op.type == OpType.Barrier else inv.add_gate(g.op.dagger, g.args)
        m = inv.n_gates
        RemoveRedundancies().apply(inv)
        irreducible = inv.n_gates == m
    else:
        irreducible = False
    n = len(gates(c))
    two = [g for g in gates(c) if len(g.qubits) == 2]
    if n == 0:
        raise SkipCase
    kind = rng.choice(["circuit", "gate", "two_qubit_gate", "odd_gate"])
    if kind == "two_qubit_gate" and not two:
        kind = "gate"
    exact = False
    m = len(two) if kind == "two_qubit_gate" else n
    kw = {}
    if kind == "circuit":
        ns = rng.choice([1, 3, 3, 5, 7])
    elif kind == "odd_gate":
        ns = rng.choice([1, 2, 3, 4])
    else:
        i = rng.randint(0, 3 * m)
        exact = rng.random() < 0.6
        ns = (m + 2 * i) / m if exact else rng.choice([1, 1.1, 1.5, 2, 2.3, 2.9, 3, 3.5, 4, 5.0, 6.7, round(rng.uniform(1, 6), 4)])
        kw["_allow_approx_fold"] = not exact
    before = c.copy()
    got = getattr(Folding, kind)(c, ns, **kw)
    mon.saw(kind)
    w = dict(circ=gens.describe(before), perm=str(before.implicit_qubit_permutation()), kind=kind, factor=ns, kw=str(kw),
             got=gens.describe(got[0]) if len(got) == 1 else str(got))
    mon.check(len(got) == 1, "number of folded circuits", **w)
    f = got[0]
    mon.check(c == before, "the circuit given was changed", **w)
    mon.check(list(f.qubits) == list(c.qubits) and list(f.bits) == list(c.bits), "qubits or bits of the folded circuit", **w)
    mon.check(f.free_symbols() == c.free_symbols(), "symbols of the folded circuit", **w)
    a, b = c.copy(), f.copy()
    if c.free_symbols():
        mon.saw("symbolic")
        vals = {s: round(rng.uniform(0, 2), 3) for s in syms}
        a.symbol_substitution(vals)
        b.symbol_substitution(vals)
    if any(k != v for k, v in c.implicit_qubit_permutation().items()):
        mon.saw("implicit_permutations")
    mon.check(sim.same_up_to_phase(sim.unitary(a), sim.unitary(b)), "folding changed the action of the circuit", **w)
    k = len(gates(f))
    if kind == "circuit":
        mon.check(k == ns * n, "amount of gates after circuit folding", n=n, got_n=k, **w)
    elif kind == "odd_gate":
        odd = gates(c)[::2]
        mon.check(k == n + 2 * (ns - 1) * len(odd), "amount of gates after odd gate folding", n=n, got_n=k, **w)
    else:
        mon.saw("exact" if exact else "rounded")
        folds = i if exact else reachable(m, ns)
        mon.check(k == n + 2 * folds, "amount of gates is not the factor requested", n=n, m=m, folds=folds, got_n=k, **w)
    if kind == "two_qubit_gate":
        k2 = sum(len(g.qubits) == 2 for g in gates(f))
        mon.check(k2 == m + 2 * folds, "amount of two qubit gates is not the factor requested", m=m, got_n=k2, **w)
        per = Counter(tuple(g.qubits) for g in gates(f) if len(g.qubits) == 2)
        base = Counter(tuple(g.qubits) for g in two)
        lo = reachable(1, ns)
        mon.check(all((per[q] - base[q]) % 2 == 0 and base[q] * (1 + 2 * lo) <= per[q] <= base[q] * (3 + 2 * lo) for q in per)
                  and set(per) == set(base), "two qubit gates are not folded evenly", per=str(per), base=str(base), **w)
        mon.check(Counter(str(g) for g in gates(f) if len(g.qubits) != 2) == Counter(str(g) for g in gates(c) if len(g.qubits) != 2),
                  "gates other than two qubit ones were changed", **w)
    have = Counter(str(g) for g in gates(f))
    mon.check(all(have[g] >= v for g, v in Counter(str(g) for g in gates(c)).items()), "a gate of the original is missing", **w)
    if irreducible:
        g = f.copy()
        RemoveRedundancies().apply(g)
        mon.saw("removal_resisted")
        mon.check(len(gates(g)) >= k, "removing redundancies undoes the folding", left=len(gates(g)), k=k, **w)
    mon.case((w["circ"], kind, ns), k != n, {"circ": w["circ"], "kind": kind, "factor": ns})


@REG.facet(500, 5000, needs={"refused": 400})
def refusals(rng, mon):
    c = rich_circuit(rng)
    n = len(gates(c))
    if n == 0:
        raise SkipCase
    two = [g for g in gates(c) if len(g.qubits) == 2]
    which = rng.choice(["even", "fraction", "below", "inexact_gate", "inexact_two", "no_two"])
    exc = ValueError
    kw = {}
    if which == "even":
        f, ns = Folding.circuit, rng.choice([0, 2, 4, 6])
    elif which == "fraction":
        f, ns = Folding.circuit, rng.choice([1.5, 2.7, 3.3])
    elif which == "below":
        f, ns = Folding.two_qubit_gate, rng.choice([0, 0.5, 0.99, -1, -3])
    elif which == "no_two":
        c = gens.circuit(rng, 1, 4)
        f, ns, exc = Folding.two_qubit_gate, 3, RuntimeError
    else:
        m = n if which == "inexact_gate" else len(two)
        if m == 0:
            raise SkipCase
        f = Folding.gate if which == "inexact_gate" else Folding.two_qubit_gate
        kw["_allow_approx_fold"] = False
        ns = 1 + (2 * rng.randint(0, 2 * m) + rng.choice([0.3, 0.5, 1, 1.6])) / m
    mon.rejects(exc, lambda: f(c, ns, **kw), "an impossible factor is not refused", circ=gens.describe(c), which=which, factor=ns)
    mon.saw("refused")
    mon.case((gens.describe(c), which, ns), True, [which, ns])


@REG.facet(24, 240, needs={"errors_seen": 3000, "noise_aware": 20})
def noise_aware(rng, mon):
    """Errors after every noisy gate follow the channel to the power (factor - 1) (Hoeffding, 1e-12 per decision)."""
    d, n = distribution(rng, n=rng.choice([1, 2]), top=0.3, explicit=False)
    lam = eigen(d, n)
    ns = rng.choice([1, 2, 2, 3, 4, 1.5, 2.5])
    if min(lam.values()) < 1e-6:
        raise SkipCase
    target = from_eigen({s: v ** (ns - 1) for s, v in lam.items()}, n)
    if min(target.values()) < -1e-9:
        raise SkipCase
    ident = tuple([Pauli.I] * n)
    qs = gens.new_qubits(rng, 2)
    c = gens.blank(qs)
    noisy = OpType.ZZMax if n == 2 else OpType.H
    n_noisy = rng.randint(1, 4)
    for _ in range(n_noisy):
        if n == 2:
            c.add_gate(noisy, list(qs))
            c.add_gate(OpType.CX, list(qs))
        else:
            c.add_gate(noisy, [qs[0]])
            c.add_gate(OpType.CX, list(qs))
    N = 1500
    model = NoiseModel({noisy: ErrorDistribution(dict(d), rng=np.random.default_rng(rng.getrandbits(32))), OpType.CY: ErrorDistribution({ident: 0.1})}) \
        if n == 2 else NoiseModel({noisy: ErrorDistribution(dict(d), rng=np.random.default_rng(rng.getrandbits(32)))})
    before = c.copy()
    out = Folding.noise_aware(c, ns, noise_model=model, n_noisy_circuit_samples=N)
    w = dict(circ=gens.describe(before), dist=str(d), factor=ns)
    mon.check(len(out) == N, "number of noise aware samples", **w)
    mon.check(c == before, "the circuit given was changed", **w)
    mon.check(close(model.noise_model[noisy].distribution, d), "the noise model given was changed", **w)
    mon.saw("noise_aware")
    freq = Counter()
    skeleton = [str(g) for g in before.get_commands()]
    for o in out:
        cmds = o.get_commands()
        rest = [str(g) for g in cmds if g.op.type not in (OpType.X, OpType.Y, OpType.Z)]
        mon.check(rest == skeleton, "noise aware folding changed the circuit's own gates", got=[str(g) for g in cmds], **w)
        cur = None
        for g in cmds:
            if g.op.type == noisy:
                cur = {}
                arg = list(g.qubits)
            elif g.op.type in (OpType.X, OpType.Y, OpType.Z):
                mon.check(cur is not None and g.qubits[0] in arg and g.qubits[0] not in cur, "an error away from a noisy gate",
                          got=[str(x) for x in cmds], **w)
                cur[g.qubits[0]] = {"X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}[g.op.type.name]
            elif cur is not None:
                freq[tuple(cur.get(q, Pauli.I) for q in arg)] += 1
                cur = None
    tot = sum(freq.values())
    mon.check(tot == N * n_noisy, "noisy gates seen", **w)
    mon.saw("errors_seen", tot - freq[ident])
    eps = math.sqrt(math.log(2e12) / (2 * tot))
    for e, p in target.items():
        mon.check(abs(freq[e] / tot - p) <= eps + 1e-5, "errors do not follow the scaled channel", error=str(e), got=freq[e] / tot, want=p, **w)
    mon.case((w["circ"], w["dist"], ns), True, w)
