import numpy as np
from pytket.circuit import Bit, Circuit, Qubit
from pytket.pauli import QubitPauliString
from pytket.utils import QubitPauliOperator
from sympy import Symbol

from harness import gens, sim
from harness.backend import make_result
from harness.core import Registry
from qermit import MeasurementCircuit, ObservableTracker, SymbolsDict

REG = Registry("C08", "A case drives a family of observable trackers (fresh, default-constructed, from a shared operator, copies) "
               "through a random history of every public operation and compares all observers with a dictionary model after "
               "each step, for every tracker of the family; or drives a SymbolsDict likewise. Distinct by history.")


class M:
    """Reference bookkeeping."""

    def __init__(self, coeffs):
        self.co = dict(coeffs)
        self.reg = {}
        self.circs = []

    def copy(self):
        m = M(self.co)
        m.reg = {k: list(v) for k, v in self.reg.items()}
        m.circs = list(self.circs)
        return m


def rand_result(rng, bits):
    bits = list(bits)
    rng.shuffle(bits)
    n = rng.randint(1, 30)
    counts = {}
    for _ in range(n):
        k = tuple(rng.randint(0, 1) for _ in bits)
        counts[k] = counts.get(k, 0) + 1
    return make_result(counts, bits, shots=rng.random() < 0.5), bits, counts


def parity(bits, counts, used):
    idx = [bits.index(b) for b in used]
    t = sum(counts.values())
    return sum(c * (-1) ** sum(k[i] for i in idx) for k, c in counts.items()) / t


def observe(mon, rng, t, m, hist, what):
    w = dict(history=hist, tracker=what)
    mon.saw("observations")
    got = {s: complex(c) for s, c in t.qubit_pauli_operator._dict.items()}
    mon.check(set(got) == set(m.co), "operator holds the wrong strings", got=str(got), want=str(m.co), **w)
    mon.check(all(abs(got[s] - m.co[s]) < 1e-9 for s in got), "operator holds the wrong coefficients", got=str(got), want=str(m.co), **w)
    qs = {q for s in m.co for q in s.map}
    mon.check(set(t.qubit_pauli_operator.all_qubits) == qs, "operator reports the wrong qubits",
              got=str(t.qubit_pauli_operator.all_qubits), want=str(qs), **w)
    empty = t.get_empty_strings()
    mon.check(len(empty) == len(set(empty)) and set(empty) == {s for s in m.co if not m.reg.get(s)},
              "strings still needing measurement are wrong", got=str(empty), want=str([s for s in m.co if not m.reg.get(s)]), **w)
    for s in m.co:
        mon.check(t.check_string(s) == bool(m.reg.get(s)), "check_string is wrong", string=str(s), **w)
        got = t.get_measurement_circuits(s)
        want = [m.circs[i] for i, _, _ in m.reg.get(s, [])]
        mon.check(len(got) == len(want) and all(a.circuit == b.circuit for a, b in zip(got, want)),
                  "measurement circuits of a string are wrong", string=str(s), **w)
    mcs = t.measurement_circuits
    mon.check(len(mcs) == len(m.circs) and all(a.circuit == b.circuit for a, b in zip(mcs, m.circs)),
              "measurement circuits are wrong", got=len(mcs), want=len(m.circs), **w)
    # expectations from arbitrary results
    res, ref = [], []
    for i in range(len(m.circs)):
        r, b, c = rand_result(rng, m.circs[i].circuit.bits)
        res.append(r)
        ref.append((b, c))
    e = t.get_expectations(list(res))
    mon.check(set(e._dict) == set(m.co), "expectations are not for exactly the tracked strings",
              got=str(list(e._dict)), want=str(list(m.co)), **w)
    for s, regs in m.reg.items():
        if regs:
            want = m.co[s] * sum((-1) ** inv * parity(*ref[i], bits) for i, bits, inv in regs)
            mon.saw("expectations")
            mon.check(abs(complex(e._dict[s]) - want) < 1e-9, "expectation from registered bits is wrong",
                      string=str(s), got=str(e._dict[s]), want=want, **w)
    needed = max([i for r in m.reg.values() for i, _, _ in r], default=-1)
    if needed >= 0 and rng.random() < 0.2:
        mon.rejects(ValueError, lambda: t.get_expectations(res[:needed]), "too few results are accepted", **w)


def op_of(m):
    return QubitPauliOperator(dict(m))


@REG.facet(1500, 20000, needs={"observations": 3000, "expectations": 2000})
def tracker_histories(rng, mon):
    qs = gens.new_qubits(rng, rng.randint(1, 4))
    far = [Qubit("other", i) for i in range(2)]
    pool = []
    for _ in range(8):
        s = gens.pauli_string(rng, qs + (far if rng.random() < 0.3 else []))
        if s not in pool:
            pool.append(s)
    nc = [0]

    def coeff():
        return rng.choice([1, -1, 0.5, -2.25, 3, 0.125])

    def fresh_op():
        ss = rng.sample(pool, rng.randint(1, min(4, len(pool))))
        return {s: coeff() for s in ss}

    def new_circ():
        # identified by its unique angle
        nc[0] += 1
        bs = gens.bits(rng, rng.randint(1, 4))
        c = gens.blank(qs, bs)
        c.Rz(nc[0] * 0.001, qs[0])
        return c

    fam = []  # (tracker, model, name)
    hist = []
    user_ops = []

    def start():
        k = rng.random()
        if k < 0.2:
            fam.append((ObservableTracker(), M({}), "default%d" % len(fam)))
            hist.append("default-constructed")
            return
        if k < 0.4 and user_ops:
            op, co = rng.choice(user_ops)
        else:
            co = fresh_op()
            op = op_of(co)
            user_ops.append((op, co))
        fam.append((ObservableTracker(op), M(co), "from_operator%d" % len(fam)))
        hist.append("from operator %s" % {str(s): c for s, c in co.items()})

    start()
    for _ in range(rng.randint(1, 9)):
        k = rng.choice(["new", "copy", "measure", "measure", "measure", "extend", "extend", "coeff", "remove", "clear", "reject"])
        i = rng.randrange(len(fam))
        t, m, name = fam[i]
        hist.append("%s %s" % (k, name))
        if k == "new":
            start()
        elif k == "copy":
            fam.append((ObservableTracker.from_ObservableTracker(t), m.copy(), "copy%d_of_%s" % (len(fam), name)))
        elif k == "measure":
            free = [s for s in m.co if not m.reg.get(s)]
            ss = rng.sample(free, rng.randint(1, len(free))) if free else []
            c = new_circ()
            info = []
            for s in ss:
                bits = rng.sample(list(c.bits), rng.randint(1, len(c.bits)))
                info.append((s, bits, rng.random() < 0.5))
            mc = MeasurementCircuit(c)
            t.add_measurement_circuit(mc, [(s, list(b), v) for s, b, v in info])
            m.circs.append(mc)
            for s, b, v in info:
                m.reg.setdefault(s, []).append((len(m.circs) - 1, b, v))
        elif k == "extend":
            d = fresh_op()
            t.extend_operator(op_of(d))
            for s, c in d.items():
                m.co[s] = m.co.get(s, 0) + c
        elif k == "coeff":
            if m.co:
                ss = rng.sample(list(m.co), rng.randint(1, len(m.co)))
                new = [(s, coeff()) for s in ss]
                t.modify_coefficients(new)
                for s, c in new:
                    m.co[s] = c
        elif k == "remove":
            ss = rng.sample(pool, rng.randint(1, min(3, len(pool))))
            t.remove_strings(list(ss))
            for s in ss:
                m.co.pop(s, None)
                m.reg.pop(s, None)
        elif k == "clear":
            t.clear()
            m.reg, m.circs = {}, []
        elif k == "reject":
            out = [s for s in pool if s not in m.co]
            if out:
                s = rng.choice(out)
                tt = ObservableTracker.from_ObservableTracker(t)
                c = new_circ()
                mon.rejects(ValueError, lambda: tt.add_measurement_circuit(MeasurementCircuit(c), [(s, [c.bits[0]], False)]),
                            "a string that is not tracked is accepted for measurement", history=hist)
                mon.rejects(ValueError, lambda: tt.modify_coefficients([(s, 2.0)]),
                            "a string that is not tracked is given a coefficient", history=hist)
                mon.check(not tt.check_string(s), "an untracked string counts as measured", history=hist)
        for t2, m2, n2 in fam:
            observe(mon, rng, t2, m2, list(hist), n2)
        for op, co in user_ops:
            mon.check({s: complex(c) for s, c in op._dict.items()} == {s: complex(c) for s, c in co.items()},
                      "the operator a tracker was made from has changed", got=str(op), want=str(co), history=hist)
    if user_ops and rng.random() < 0.5:
        # changing the user's operator afterwards does not reach the trackers
        op, co = user_ops[0]
        op[rng.choice(list(co))] = 77.0
        for t2, m2, n2 in fam:
            observe(mon, rng, t2, m2, hist + ["user changes operator"], n2)
    mon.saw("trackers", len(fam))
    mon.case(hist, len(hist) > 2, hist)


@REG.facet(1500, 15000, needs={"substitutions": 500})
def symbol_dictionaries(rng, mon):
    names = rng.sample(["a", "b", "x", "theta", "zeta", "p0", "p1", "A"], rng.randint(1, 6))
    ref = {}
    hist = []
    k = rng.choice(["empty", "list", "dict", "circuit"])
    if k == "empty":
        sd = SymbolsDict()
    elif k == "list":
        sd = SymbolsDict.symbols_from_list([n if rng.random() < 0.5 else Symbol(n) for n in names])
        ref = {Symbol(n): None for n in names}
    elif k == "dict":
        d = {Symbol(n): rng.choice([None, 0.25, 1.5]) for n in names}
        sd = SymbolsDict.symbols_from_dict(dict(d))
        ref = dict(d)
    else:
        c = Circuit(1)
        for n in names:
            c.Rx(Symbol(n), 0)
        sd = SymbolsDict.symbols_from_circuit(c)
        got = list(sd.symbols_list)
        mon.check(set(got) == {Symbol(n) for n in names} and len(got) == len(names), "symbols of the circuit are wrong", got=str(got))
        ref = {s: None for s in got}
    hist.append((k, names))
    for _ in range(rng.randint(0, 8)):
        op = rng.choice(["add", "value", "set", "bad"])
        if op == "add":
            n = rng.choice(["new", "b", "theta", "q9"])
            sd.add_symbol(n if rng.random() < 0.5 else Symbol(n))
            ref[Symbol(n)] = None
            hist.append((op, n))
        elif op == "value" and ref:
            s, v = rng.choice(list(ref)), round(rng.uniform(0, 4), 3)
            sd.add_value(s, v)
            ref[s] = v
            hist.append((op, str(s), v))
        elif op == "set" and ref:
            vs = [round(rng.uniform(0, 4), 3) for _ in ref]
            sd.set_values(np.array(vs) if rng.random() < 0.5 else vs)
            ref = dict(zip(ref, vs))
            hist.append((op, vs))
        elif op == "bad":
            mon.rejects(ValueError, lambda: sd.add_value(Symbol("absent_symbol"), 1.0), "value for an unknown symbol accepted")
            mon.rejects(TypeError, lambda: sd.add_symbol(3), "a symbol of invalid type is accepted")
        got = list(sd.symbols_list)
        mon.check(got == list(ref), "symbols or their order are wrong", got=str(got), want=str(list(ref)), history=hist)
        vs = [round(rng.uniform(0, 4), 3) for _ in ref]
        mp = sd.get_symbolic_map(np.array(vs))
        mon.check(list(mp) == list(ref) and all(abs(mp[s] - v) < 1e-12 for s, v in zip(ref, vs)),
                  "values are matched to the wrong symbols", got=str(mp), history=hist)
        mon.check({s: v for s, v in sd._symbolic_map.items()} == ref, "values held are wrong", got=str(sd._symbolic_map), want=str(ref), history=hist)
    # substitution into a circuit
    syms = list(ref)
    if syms:
        vs = {s: round(rng.uniform(0, 4), 3) for s in syms}
        for s, v in vs.items():
            sd.add_value(s, v)
        c = gens.circuit(rng, rng.randint(1, 3), rng.randint(2, 8), symbols=syms)
        before = c.copy()
        mc = MeasurementCircuit(c, sd)
        mon.check(mc.symbols == tuple(syms), "measurement circuit reports other symbols")
        p = mc.get_parametric_circuit()
        want = before.copy()
        want.symbol_substitution(vs)
        mon.saw("substitutions")
        mon.check(not p.free_symbols(), "symbols are left in the substituted circuit")
        mon.check(np.allclose(sim.unitary(p), sim.unitary(want), atol=1e-8), "other values were substituted", circ=gens.describe(before),
                  vals=str(vs), got=gens.describe(p))
        mon.check(mc.circuit == before and c == before, "substituting changed the symbolic circuit")
    mon.case(hist, True, hist)
