"""Observable experiments and reference expectations."""
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator

from . import gens, sim
from qermit import AnsatzCircuit, ObservableExperiment, ObservableTracker, SymbolsDict

SHOTS = 400000


def canon(s):
    return tuple(sorted((q.reg_name, tuple(q.index), p.name) for q, p in s.map.items() if p != Pauli.I))


class Exp:
    """One experiment and what it must return."""

    def __init__(self, rng, n=None, n_gates=None, kind="any", n_sym=0, plain=None, n_strings=None, shots=None,
                 allow_identity=False, circ=None, qpo=None, rounded=True, complex_ok=False):
        self.syms = gens.symbols(rng, n_sym) if n_sym else []
        self.circ = circ if circ is not None else gens.circuit(rng, n, n_gates, kind, plain, self.syms or None)
        free = self.circ.free_symbols()
        self.vals = {s: round(rng.uniform(0, 2), 3) for s in self.syms}
        self.shots = shots or SHOTS
        self.qpo = qpo or gens.observable(rng, list(self.circ.qubits), n_strings, allow_identity, complex_ok)

    def symbols_dict(self):
        return SymbolsDict.symbols_from_dict(dict(self.vals))

    def experiment(self):
        return ObservableExperiment(
            AnsatzCircuit(self.circ.copy(), self.shots, self.symbols_dict()),
            ObservableTracker(QubitPauliOperator(dict(self.qpo._dict))))

    def concrete(self):
        c = self.circ.copy()
        if self.vals:
            c.symbol_substitution(self.vals)
        return c

    def expected(self):
        c = self.concrete()
        v = sim.statevector(c)
        out = {}
        for s, co in self.qpo._dict.items():
            e = (v.conj() @ (sim.pauli_matrix(s, c.qubits) @ v)).real
            out[s] = (complex(co), float(e))
        return out

    def describe(self):
        return {"circ": gens.describe(self.circ), "vals": {str(k): v for k, v in self.vals.items()},
                "obs": {str(k): str(v) for k, v in self.qpo._dict.items()}, "shots": self.shots}


def check_result(mon, exp, res, what, tol=1e-3, key=None, **w):
    want = exp.expected()
    mon.check(set(res._dict) == set(want), what + ": strings returned are not exactly those of the observable", key=key,
              got=[str(s) for s in res._dict], want=[str(s) for s in want], exp=exp.describe(), **w)
    for s, (co, e) in want.items():
        mon.saw("expectations")
        got = complex(res._dict[s])
        mon.check(abs(got - co * e) <= tol * abs(co) + 1e-9, what + ": expectation of a string is wrong", key=key,
                  string=str(s), got=got, want=co * e, exp=exp.describe(), **w)
