"""From cases of the specification to calls of the real code.

Only the public interface of horqrux is used: gate constructors, composites,
`apply_gates`, `run`, `sample`, `expectation` and the state helpers.
"""
from __future__ import annotations

import json
import math
import os
import random
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402

import horqrux  # noqa: E402
from horqrux.analog import HamiltonianEvolution  # noqa: E402
from horqrux.apply import apply_gates  # noqa: E402
from horqrux.circuit import QuantumCircuit  # noqa: E402
from horqrux.composite import Add, Observable, OpSequence, Scale  # noqa: E402
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType  # noqa: E402
from horqrux.primitives import parametric as _par  # noqa: E402
from horqrux.primitives import primitive as _prim  # noqa: E402
from horqrux.utils.operator_utils import DensityMatrix  # noqa: E402

assert os.path.realpath(horqrux.__file__).startswith(os.path.realpath(REPO) + "/"), horqrux.__file__

SQ2 = math.sqrt(2.0)
OMEGA = np.array([1.0, (1 + 1j) / SQ2, 1j, (-1 + 1j) / SQ2])
ATAN = math.atan2(3.0, 4.0)
ATOL = 1e-9

GATES = {k: getattr(_prim, k) for k in
         ("I", "X", "Y", "Z", "H", "S", "T", "SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP")}
ROT = {k: getattr(_par, k) for k in ("RX", "RY", "RZ", "PHASE")}
PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]]),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


# -- numbers ---------------------------------------------------------------------------------
def arr(a: dict) -> np.ndarray:
    """Array of the specification as complex numbers."""
    return (np.asarray(a["v"], dtype=float) @ OMEGA) / a["d"]


def real(r: list) -> float:
    d, p, q = r
    return (p + q * SQ2) / d


def theta(code: list) -> float:
    return 2.0 * (code[0] * math.pi / 4 + code[1] * ATAN)


def ratio(r: list) -> float:
    return r[0] / r[1]


# -- placement of the specification's wires in a register -----------------------------------
class Placement:
    """Wires 1..n of the specification at qubits `at` of a register of N qubits.

    The remaining (spectator) qubits are in fixed one-qubit states.
    """

    def __init__(self, n: int, N: int, at: tuple, spect: list[np.ndarray]) -> None:
        self.n, self.N, self.at, self.spect = n, N, tuple(at), spect
        self.rest = tuple(q for q in range(N) if q not in self.at)

    @staticmethod
    def make(n: int, rng: random.Random, extra: int = 2, huge: float = 0.0) -> "Placement":
        N = n + rng.randint(0, extra)
        if huge and rng.random() < huge:
            N = max(N, rng.randint(7, 12))
        at = tuple(rng.sample(range(N), n)) if rng.random() < 0.7 else tuple(range(n))
        spect = []
        plain = rng.random() < 0.25
        for _ in range(N - n):
            v = np.array([1.0, 0.0], dtype=complex)
            if plain:
                v = np.array([rng.gauss(0, 1), rng.gauss(0, 1)])
            elif rng.random() < 0.8:
                v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2)])
            spect.append(v / np.linalg.norm(v))
        return Placement(n, N, at, spect)

    @staticmethod
    def governed(n: int, extra: int, rng: random.Random) -> "Placement":
        """With spectators in state 1, the wires from n + 1 on: operations may be controlled by them."""
        N = n + extra
        return Placement(n, N, tuple(rng.sample(range(N), n)), [np.array([0.0, 1.0])] * extra)

    def qubit(self, w: int) -> int:
        return (self.at + self.rest)[w - 1]

    def qubits(self, ws: list) -> tuple:
        return tuple(self.qubit(w) for w in ws)

    def vec(self, a: np.ndarray) -> np.ndarray:
        t = a.reshape((2,) * self.n)
        for s in self.spect:
            t = np.tensordot(t, s, axes=0)
        return np.moveaxis(t, range(self.N), self.at + self.rest).copy()

    def dm(self, a: np.ndarray) -> np.ndarray:
        n, N = self.n, self.N
        t = a.reshape((2,) * (2 * n))
        for s in self.spect:
            t = np.tensordot(t, np.outer(s, s.conj()), axes=0)
        order = self.at + self.rest
        # axes: rows of the wires, columns of the wires, then row, column of each spectator
        rows = list(range(n)) + [2 * n + 2 * i for i in range(N - n)]
        cols = list(range(n, 2 * n)) + [2 * n + 2 * i + 1 for i in range(N - n)]
        dest = [0] * (2 * N)
        for k, q in enumerate(order):
            dest[rows[k]] = q
            dest[cols[k]] = N + q
        return np.moveaxis(t, range(2 * N), dest).copy()

    def operator(self, m: np.ndarray) -> np.ndarray:
        """Operator on the wires (ordered as 1..n) as operator on the full register."""
        n, N = self.n, self.N
        t = m.reshape((2,) * (2 * n))
        for _ in range(N - n):
            t = np.tensordot(t, np.eye(2), axes=0)
        rows = list(range(n)) + [2 * n + 2 * i for i in range(N - n)]
        cols = list(range(n, 2 * n)) + [2 * n + 2 * i + 1 for i in range(N - n)]
        dest = [0] * (2 * N)
        for k, q in enumerate(self.at + self.rest):
            dest[rows[k]] = q
            dest[cols[k]] = N + q
        return np.moveaxis(t, range(2 * N), dest).reshape(2**N, 2**N)


def identity_placement(n: int) -> Placement:
    return Placement(n, n, tuple(range(n)), [])


# -- operations ------------------------------------------------------------------------------
def noise_of(ns: list) -> tuple | None:
    if not ns:
        return None
    out = []
    for k in ns:
        ps = tuple(ratio(p) for p in k["pr"])
        single = k["ty"] not in ("PauliChannel", "GeneralizedAmplitudeDamping")
        out.append(DigitalNoiseInstance(DigitalNoiseType(k["ty"]), ps[0] if single else ps))
    return tuple(out)


def indices(qs: tuple, rng: random.Random | None):
    """A way of writing qubits: number, tuple, nested tuple, numpy integers, array or list."""
    c = 0.0 if rng is None else rng.random()
    if c < 0.75:
        return qs[0] if len(qs) == 1 and (rng is None or rng.random() < 0.6) else qs
    if c < 0.8:
        return (qs,)
    if c < 0.85:
        return tuple(np.int64(q) for q in qs)
    if c < 0.9:
        return np.array(qs)
    if c < 0.95:
        return list(qs)
    return np.int32(qs[0]) if len(qs) == 1 else (np.array(qs[0]).item(),) + qs[1:]


def target_form(qs: tuple, rng: random.Random | None):
    return indices(qs, rng)


def control_form(qs: tuple, rng: random.Random | None):
    if not qs:
        return (None,) if rng is None or rng.random() < 0.5 else None
    return indices(qs, rng)


def exact_mode(mode, rng: random.Random):
    """A differentiation mode: the enumeration's member, or its value as a string."""
    return str(mode.value) if rng.random() < 0.3 else mode


def gate(op: dict, pl: Placement, rng: random.Random | None = None, *, sparse: bool = False,
         noise=True, rename=lambda p: p):
    """The real gate for an operation of the specification; `noise` may be given ready-made."""
    nm = op["nm"]
    target = target_form(pl.qubits(op["t"]), rng)
    control = control_form(pl.qubits(op["c"]), rng)
    kw: dict = {}
    if noise and op["ns"]:
        kw["noise"] = noise_of(op["ns"]) if noise is True else noise
    if sparse:
        kw["sparse"] = True
    if not op["c"] and (rng is None or rng.random() < 0.5):
        args: tuple = (target,)
    else:
        args = (target, control)
    if nm == "HEVO":
        return HamiltonianEvolution(*args)
    if nm in ROT:
        par = rename(op["p"]) if op["p"] else theta(op["a"])
        if not op["p"] and rng is not None and rng.random() < 0.1:
            # angles are periodic, and may be whole numbers
            par = 0 if par == 0 else par + 4 * math.pi * rng.choice([1, -1, 3, -25])
        return ROT[nm](par, *args, **kw)
    return GATES[nm](*args, **kw)


def values_of(env: dict, senv: dict | None = None, rename=lambda p: p, wrap=float,
              turns: dict | None = None) -> dict:
    out = {rename(k): wrap(theta(v) + (turns or {}).get(k, 0.0)) for k, v in (env or {}).items()}
    out.update({rename(k): wrap(ratio(v)) for k, v in (senv or {}).items()})
    return out


def flat_ops(prog: list) -> list:
    return [t["o"] for t in prog if t["k"] == "op"]


def nested(prog: list, make, wrap=OpSequence, shared: dict | None = None) -> list:
    """Lists of real gates with nested sequences following the brackets.

    With `shared`, equal nested sequences are one object."""
    stack: list[list] = [[]]
    begin: list[int] = []
    for i, t in enumerate(prog):
        if t["k"] == "open":
            stack.append([])
            begin.append(i)
        elif t["k"] == "close":
            inner = stack.pop()
            key = json.dumps(["block", prog[begin.pop() : i]], sort_keys=True)
            if shared is None:
                stack[-1].append(wrap(inner))
            else:
                stack[-1].append(shared.setdefault(key, wrap(inner)))
        else:
            stack[-1].append(make(t["o"]))
    assert len(stack) == 1
    return stack[0]


def node(nd: dict, pl: Placement, rng: random.Random | None = None, *, sparse=False, rename=lambda p: p,
         shared: dict | None = None):
    """The real composite for a node of the specification.

    With `shared`, equal nodes are one object."""
    if shared is not None:
        key = json.dumps(nd, sort_keys=True)
        if key not in shared:
            shared[key] = _node(nd, pl, rng, sparse, rename, shared)
        return shared[key]
    return _node(nd, pl, rng, sparse, rename, shared)


def _node(nd, pl, rng, sparse, rename, shared):
    k = nd["k"]
    if k == "op":
        return gate(nd["o"], pl, rng, sparse=sparse, rename=rename)
    xs = [node(x, pl, rng, sparse=sparse, rename=rename, shared=shared) for x in nd["xs"]]
    pick = (lambda m: 0) if rng is None else rng.randrange
    if k == "seq":
        return OpSequence(xs)
    if k == "add":
        return Add(xs if pick(2) == 0 else OpSequence(xs))
    if k == "scale":
        par = rename(nd["p"]) if nd["p"] else ratio(nd["r"])
        c = pick(3)
        if len(xs) == 1 and c == 1:
            return Scale(xs[0], par)
        if c == 2:
            return Scale(OpSequence(xs), par)
        return Scale(xs, par)
    raise AssertionError(k)


def observable(nd: dict, pl: Placement, rng: random.Random | None = None, *, sparse=False,
               rename=lambda p: p):
    """The top node of an observable is a sum."""
    assert nd["k"] == "add"
    shared: dict | None = {} if rng is not None and rng.random() < 0.5 else None
    xs = [node(x, pl, rng, sparse=sparse, rename=rename, shared=shared) for x in nd["xs"]]
    c = 0 if rng is None else rng.randrange(3)
    if c == 1:
        return Observable(Add(xs))
    if c == 2 and len(xs) == 1:
        return Observable([xs[0]])
    return Observable(xs)


def dense(x):
    """Array of a result, dense, as numpy."""
    if isinstance(x, DensityMatrix):
        x = x.array
    if hasattr(x, "todense"):
        x = x.todense()
    return np.asarray(x)


def diff(a, b) -> float:
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    m = np.max(np.abs(a - b))
    return float(m) if np.isfinite(m) else float("inf")
