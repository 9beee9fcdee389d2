"""Replays: a case of the specification against the real code.

Every function takes (case, rng, problems); rng only chooses how the case is
presented to the code (placement in a larger register, form of the program,
spelling of arguments), never what the result must be.
"""
from __future__ import annotations

import json
import math
import random
from collections import Counter

import impl as im
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental.sparse import BCOO
from horqrux.api import expectation, run, sample
from horqrux.apply import apply_gates, apply_operator
from horqrux.circuit import QuantumCircuit, hea
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DensityMatrix, DiffMode, OperationType, density_mat

TOL = 1e-9
NAMES = ["theta", "phi", "alpha_1", "v_0", "x", "param", "zz", "A", "circuit", "\u03b8 1", "fm_x", "n", "0", "_p"]


# -- presenting a case -----------------------------------------------------------------------
class Setup:
    """Initial state of a case in a register, with the factor normalising it."""

    def __init__(self, case: dict, rng: random.Random, extra: int = 2, huge: float = 0.0, linear: bool = False,
                 governed: tuple = (0.0, 0)):
        n = case["n"]
        self.case, self.rng = case, rng
        a = im.arr(case["init"])
        self.pure = a.size == 2**n
        vector = self.pure and not has_noise(case)
        self.pl = im.Placement.make(n, rng, extra, huge if vector else 0.0)
        # operations with more controls, on qubits in state 1 (MCWires: Governed)
        self.more: list[int] = []
        self.governors: dict[str, list[int]] = {}
        if rng.random() < governed[0]:
            e = rng.randint(1, governed[1] if self.pure else 1)
            self.pl = im.Placement.governed(n, e, rng)
            self.more = list(range(n + 1, n + e + 1))
        # equal gates may be one object, or objects of their own
        self.shared: dict | None = {} if rng.random() < 0.4 else None
        self.tol = TOL
        if self.pure:
            self.scale = 1.0 / np.linalg.norm(a)
            if linear and vector and rng.random() < 0.25:
                # operations are linear: any multiple of a state
                f = rng.choice([1e-6, 1e-3, 0.3, 3.7, 250.0])
                self.scale *= f
                self.tol *= f
            self.rho_scale = self.scale**2
            self.init = self.pl.vec(a * self.scale)
        else:
            self.rho_scale = 1.0 / np.trace(a.reshape(2**n, 2**n)).real
            self.init = self.pl.dm(a * self.rho_scale)
        # real amplitudes may be given as real numbers
        self.real = not np.iscomplex(self.init).any() and rng.random() < 0.6
        self.rename = self.rename_obs = rename_map(case, rng)
        self.spelling = rng.randrange(10**6) if rng.random() < 0.6 else None
        # angles are periodic; so is the time of an evolution of the specification, which is not scaled
        names = [] if "t" in dict_(case.get("env")) else sorted(dict_(case.get("env")))
        self.turns = {q: 4 * math.pi * rng.choice([1, -1, 2, 25, -40]) for q in names if rng.random() < 0.1}

    def share_names(self):
        """With separated values, parameters of the observables may have the names of the circuit's."""
        env, senv = dict_(self.case.get("env")), sorted(dict_(self.case.get("senv")))
        if len(env) >= len(senv) and self.rng.random() < 0.6:
            names = [self.rename(q) for q in sorted(env)]
            self.rng.shuffle(names)
            table = dict(zip(senv, names))
            self.rename_obs = lambda q: table.get(q, q)

    def obs_values(self, wrap=float) -> dict:
        """Values for the observables alone."""
        return im.values_of(None, self.case.get("senv"), self.rename_obs, wrap)

    def state(self):
        s = jnp.asarray(self.init.real if self.real else self.init)
        return s if self.pure else DensityMatrix(s)

    def want(self, a: dict):
        """Expected array in the register, and whether it is a density matrix."""
        x = im.arr(a)
        if x.size == 2**self.case["n"]:
            return self.pl.vec(x * self.scale), False
        return self.pl.dm(x * self.rho_scale), True

    def direction(self) -> np.ndarray:
        """In which the initial state moves, see `sd`."""
        a = im.arr(self.case["dir"][0])
        if self.pure:
            return self.pl.vec(a * self.scale)
        return self.pl.dm(np.outer(a, a.conj()).ravel() * self.rho_scale)

    def number(self, r: list) -> float:
        return im.real(r) * self.rho_scale

    def values(self, wrap=float, senv: bool = True) -> dict:
        return im.values_of(self.case.get("env"), self.case.get("senv") if senv else None,
                            self.rename, wrap, self.turns)

    def angle(self, q: str) -> float:
        return im.theta(self.case["env"][q]) + self.turns.get(q, 0.0)

    def govern(self, op: dict) -> dict:
        if not self.more or op["ns"]:
            return op
        # alike for operations on the same wires, most of the time; a program built twice is the same program
        key = json.dumps(op, sort_keys=True)
        if key not in self.governors:
            alike = self.rng.random() < 0.8
            pick = random.Random(json.dumps([op["t"], op["c"], len(self.more)])) if alike else self.rng
            self.governors[key] = pick.sample(self.more, pick.randint(0, len(self.more)))
        return {**op, "c": op["c"] + self.governors[key]}

    def gate(self, op, **kw):
        op = self.govern(op)
        make = lambda: im.gate(op, self.pl, self.rng, rename=self.rename, **kw)  # noqa: E731
        if self.shared is None:
            return make()
        key = json.dumps([op, sorted(kw.items())], sort_keys=True)
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]

    def gates(self, **kw) -> list:
        return [self.gate(o, **kw) for o in im.flat_ops(self.case["prog"])]

    def circuit(self, form: int | None = None, **kw):
        """The program as a circuit, with its nested sequences."""
        form = self.rng.randrange(3) if form is None else form
        xs = im.nested(self.case["prog"], lambda o: self.gate(o, **kw), shared=None if kw else self.shared)
        if len(xs) == 1 and self.rng.random() < 0.5:
            xs = xs[0]  # a single operation needs no list
        if form == 0:
            return OpSequence(xs)
        if form == 1:
            return QuantumCircuit(self.pl.N, xs)
        return QuantumCircuit(self.pl.N, OpSequence(xs))

    def observable(self, nd, **kw):
        # all observables of a case may be spelled in the same way
        rng = self.rng if self.spelling is None else random.Random(self.spelling)
        return im.observable(nd, self.pl, rng, rename=self.rename_obs, **kw)


def rename_map(case: dict, rng: random.Random):
    names = sorted({**(case.get("env") or {}), **(case.get("senv") or {})})
    pool = rng.sample(NAMES, len(names)) if rng.random() < 0.7 else names
    table = dict(zip(names, pool))
    return lambda p: table.get(p, p)


def check_state(p, got, want, is_dm: bool, what: str, tol: float = TOL) -> bool:
    if not p.expect(isinstance(got, DensityMatrix) == is_dm,
                    f"{what}: {'density matrix' if is_dm else 'state vector'} expected, got {type(got).__name__}"):
        return False
    return p.close(im.dense(got), want, what, tol)


def wrap_float(rng):
    """Spelling of a parameter value; a whole number may be an integer."""
    return rng.choice([float, lambda x: jnp.asarray(x), lambda x: np.float64(x),
                       lambda x: int(x) if x == int(x) else float(x)])


# -- C01: a gate on a state vector -----------------------------------------------------------
def named(op: dict, rng, wrap=None):
    """The operation with its angle given through a named parameter half of the time."""
    if op["nm"] in im.ROT and rng.random() < 0.5:
        op = {**op, "p": "angle"}
        return op, {"angle": (wrap or wrap_float(rng))(im.theta(op["a"]))}
    return op, {}


def by_operator(op: dict, st, values: dict):
    """The same action by contracting the matrix of the gate without controls."""
    k = len(op["t"])
    bare = {**op, "c": [], "t": list(range(1, k + 1)), "ns": []}
    mat = im.gate(bare, im.Placement(k, k, tuple(range(k)), [])).tensor(values)
    target, control = tuple(st.pl.qubits(op["t"])), tuple(st.pl.qubits(op["c"]))
    return lambda s: apply_operator(s, mat, target, control or (None,) * k)


def gate_vec(case, rng, p):
    st = Setup(case, rng, huge=0.03, linear=True)
    op, values = named(case["op"], rng)
    want, is_dm = st.want(case["final"])
    what = f"{op['nm']} on {st.pl.qubits(op['t'])} controls {st.pl.qubits(op['c'])} of {st.pl.N}"
    ok, g = p.call(f"{what}: construction", im.gate, op, st.pl, rng)
    if not ok:
        return
    k = rng.randrange(3)
    forms = [("apply_gates", lambda s: apply_gates(s, g, values)),
             ("call", lambda s: g(s, values)),
             ("list", lambda s: apply_gates(s, [g], values))]
    forms = [forms[k], forms[(k + 1) % 3]]
    if op["nm"] != "HEVO" and not op["ns"] and rng.random() < 0.2:
        ok, fn = p.call(f"{what}: matrix", by_operator, op, st, values)
        forms += [("apply_operator", fn)] if ok else []
    for name, fn in forms:
        ok, got = p.call(f"{what} by {name}", fn, st.state())
        if ok:
            check_state(p, got, want, is_dm, f"{what} by {name}", st.tol)


def gate_default(case, rng, p):
    """Without a state, a gate on qubits 0..k-1 starts from their zero state."""
    op, values = named(case["op"], rng)
    wires = sorted(op["t"] + op["c"])
    n = case["n"]
    at = [None] * n
    rest = [w for w in range(1, n + 1) if w not in wires]
    for q, w in enumerate(rng.sample(wires, len(wires)) + rest):
        at[w - 1] = q
    pl = im.Placement(n, n, tuple(at), [])
    what = f"{op['nm']} on {pl.qubits(op['t'])} controls {pl.qubits(op['c'])} without a state"
    k = len(wires)
    want = pl.vec(columns(case["mat"], n)[:, 0]).reshape(2**k, -1)[:, 0].reshape((2,) * k)
    ok, g = p.call(f"{what}: construction", im.gate, op, pl, rng)
    if ok:
        ok, got = p.call(what, lambda: g(None, values) if rng.random() < 0.5 else g(values=values))
        if ok:
            check_state(p, got, want, False, what)


def gate_dm(case, rng, p):
    st = Setup(case, rng, extra=1)
    op, values = named(case["op"], rng)
    want, is_dm = st.want(case["final"])
    what = (f"{op['nm']}{op['ns'] or ''} on {st.pl.qubits(op['t'])} controls {st.pl.qubits(op['c'])} "
            f"of {st.pl.N}, density matrix")
    ok, g = p.call(f"{what}: construction", im.gate, op, st.pl, rng)
    if not ok:
        return
    fn = rng.choice([lambda s: apply_gates(s, g, values), lambda s: g(s, values),
                     lambda s: apply_gates(s, [g], values)])
    if op["nm"] != "HEVO" and not op["ns"] and not st.pure and rng.random() < 0.2:
        what += " by apply_operator"
        ok, fn = p.call(f"{what}: matrix", by_operator, op, st, values)
        if not ok:
            return
    ok, got = p.call(what, fn, st.state())
    if ok:
        check_state(p, got, want, is_dm, what)


# -- C17: dagger and jacobian ----------------------------------------------------------------
def gate_ops(case, rng, p):
    st = Setup(case, rng, extra=1)
    op, values = named(case["op"], rng)
    what = f"{op['nm']} on {st.pl.qubits(op['t'])} controls {st.pl.qubits(op['c'])} of {st.pl.N}"
    ok, g = p.call(f"{what}: construction", im.gate, op, st.pl, rng)
    if not ok:
        return
    sparse = st.pure and rng.random() < 0.08 and case["n"] <= 3
    if sparse:
        ok, g = p.call(f"sparse {what}", im.gate, op, st.pl, rng, sparse=True)
        if not ok:
            return
        what = f"sparse {what}"
        real = st.state()
        st.state = lambda: BCOO.fromdense(real, nse=real.size)
    gs = [g] if rng.random() < 0.5 else g
    for ty, field in ((OperationType.DAGGER, "dag"), (OperationType.JACOBIAN, "jac")):
        if not case[field]:
            continue
        want, is_dm = st.want(case[field][0])
        ok, got = p.call(f"{ty} of {what}", apply_gates, st.state(), gs, values, ty)
        if ok:
            check_state(p, got, want, is_dm, f"{ty} of {what}")
    ok, back = p.call(f"{what} then dagger",
                      lambda s: apply_gates(apply_gates(s, g, values), g, values, OperationType.DAGGER),
                      st.state())
    if ok:
        check_state(p, back, st.init, not st.pure, f"{what} then dagger")


def undo(case, rng, p):
    """The daggers of a program's gates in reverse order undo it."""
    st = Setup(case, rng, extra=1, huge=0.03, governed=(0.1, 2))
    values = st.values()
    gates = st.gates()
    want, is_dm = st.want(case["final"])
    kw = {"merge_ops": rng.random() < 0.5}
    ok, out = p.call("program", apply_gates, st.state(), gates, values)
    if not ok or not check_state(p, out, want, is_dm, "program"):
        return
    ok, back = p.call("daggers of a program in reverse",
                      lambda s: apply_gates(s, gates[::-1], values, OperationType.DAGGER, **kw), out)
    if ok:
        check_state(p, back, st.init, not st.pure, f"daggers of a program in reverse {kw}")


# -- C02: programs ---------------------------------------------------------------------------
def padded(gates: list, pl, rng) -> list:
    """With pairs of gates that undo each other (MCWires: SelfInverse) put in anywhere, many of them."""
    out = list(gates)
    for _ in range(rng.randint(15, 70)):
        two = pl.N > 1 and rng.random() < 0.2
        qs = rng.sample(range(pl.N), min(pl.N, rng.choice([1, 1, 2, 3]) + two))
        k = 2 if two else 1
        t = tuple(qs[:k]) if two else qs[0]
        args = (t, tuple(qs[k:])) if qs[k:] else (t,)
        if not two and rng.random() < 0.3:
            rot, a = rng.choice(list(im.ROT.values())), rng.uniform(-4.0, 4.0)
            pair = [rot(a, *args), rot(-a, *args)]
        else:
            make = im.GATES["SWAP" if two else rng.choice(["I", "X", "Y", "Z", "H"])]
            pair = [make(*args), make(*args)]
        i = rng.randint(0, len(out))
        out[i:i] = pair
    return out


def program(case, rng, p):
    st = Setup(case, rng, huge=0.03, linear=True, governed=(0.1, 2))
    wrap = wrap_float(rng)
    values = st.values(wrap)
    if rng.random() < 0.5:
        values = {**values, "unused": wrap(0.3)}
    want, is_dm = st.want(case["final"])
    if rng.random() < 0.5:
        forms = [("nested circuit", lambda s: st.circuit()(s, values)),
                 ("list", lambda s: apply_gates(s, rng.choice([list, tuple, iter])(st.gates()), values))]
    else:
        forms = [("run", lambda s: run(st.circuit(), s, values)),
                 ("flattened circuit", lambda s: apply_gates(s, iter(st.circuit()), values))]
    if rng.random() < 0.07 and st.pl.N <= (6 if st.pure else 4):
        xs = padded(st.gates(), st.pl, rng)
        kw = {"group_gates": rng.random() < 0.3, "merge_ops": rng.random() < 0.7}
        forms.append((f"list of {len(xs)} gates {kw}", rng.choice([
            lambda s: apply_gates(s, xs, values, **kw), lambda s: apply_gates(s, iter(xs), values),
            lambda s: run(QuantumCircuit(st.pl.N, xs), s, values)])))
    for name, fn in forms:
        ok, got = p.call(f"program as {name}", fn, st.state())
        if ok:
            check_state(p, got, want, is_dm, f"program of {len(im.flat_ops(case['prog']))} gates as {name}", st.tol)
    # one gate after the other
    if case["hist"] and rng.random() < 0.5:
        s = st.state()
        for i, (o, h) in enumerate(zip(im.flat_ops(case["prog"]), case["hist"])):
            ok, s = p.call(f"gate {i} {o['nm']}", apply_gates, s, st.gate(o), values)
            w, d = st.want(h)
            if not ok or not check_state(p, s, w, d, f"state after gate {i} {o['nm']}", st.tol):
                return


# -- C03: merging and grouping ---------------------------------------------------------------
def options(case, rng, p):
    st = Setup(case, rng, extra=1, huge=0.03, governed=(0.1, 2))
    values = st.values()
    want, is_dm = st.want(case["final"])
    gates = st.gates()
    for grp, mrg in ((True, True), (True, False), (False, True), (False, False)):
        if (grp, mrg) == (False, False) and rng.random() < 0.7:
            continue
        what = f"{len(gates)} gates, group_gates={grp} merge_ops={mrg}"
        xs = rng.choice([list, tuple, iter])(gates)
        ok, got = p.call(what, lambda s: apply_gates(s, xs, values, group_gates=grp, merge_ops=mrg),
                         st.state())
        if ok:
            check_state(p, got, want, is_dm, what)


# -- C07: matrices ---------------------------------------------------------------------------
def columns(cols: list, n: int) -> np.ndarray:
    return np.stack([im.arr(c) for c in cols], axis=1).reshape(2**n, 2**n)


def full_matrix(cols: list, pl: im.Placement) -> np.ndarray:
    return pl.operator(columns(cols, pl.n))


def restrict(M: np.ndarray, N: int, support: tuple) -> np.ndarray:
    """An operator of the register that acts on `support` only, as operator on it."""
    rest = [q for q in range(N) if q not in support]
    t = M.reshape((2,) * (2 * N))
    idx = [slice(None)] * (2 * N)
    for q in rest:
        idx[q] = 0
        idx[N + q] = 0
    d = 2 ** len(support)
    return t[tuple(idx)].reshape(d, d)


def check_tensor(p, obj, values, M, pl, rng, what):
    support = tuple(obj.qubit_support)
    p.expect(support == tuple(sorted(support)), f"{what}: support {support} not sorted")
    ok, t = p.call(f"{what}.tensor", obj.tensor, values)
    if ok:
        p.close(im.dense(t), restrict(M, pl.N, support), f"{what}.tensor")
    extra = [q for q in range(pl.N) if q not in support and rng.random() < 0.6]
    full = list(support) + extra
    rng.shuffle(full)
    ok, t = p.call(f"{what}.tensor full_support {full}", obj.tensor, values, tuple(full))
    if ok:
        p.close(im.dense(t), restrict(M, pl.N, tuple(sorted(full))), f"{what}.tensor full_support {full}")


def gate_mat(case, rng, p):
    n = case["n"]
    pl = im.Placement.make(n, rng, 1)
    op, values = named(case["op"], rng)
    what = f"{op['nm']} on {pl.qubits(op['t'])} controls {pl.qubits(op['c'])}"
    ok, g = p.call(f"{what}: construction", im.gate, op, pl, rng)
    if ok:
        check_tensor(p, g, values, full_matrix(case["mat"], pl), pl, rng, what)


def program_mat(case, rng, p):
    if not case["prog"] or not im.flat_ops(case["prog"]):
        return
    st = Setup(case, rng, extra=1)
    xs = im.nested(case["prog"], st.gate, shared=st.shared)
    xs = drop_empty(xs)
    obj = OpSequence(xs) if rng.random() < 0.6 else QuantumCircuit(st.pl.N, xs)
    check_tensor(p, obj, st.values(), full_matrix(case["mat"], st.pl), st.pl, rng,
                 f"program of {len(im.flat_ops(case['prog']))} gates")


def wide_mat(case, rng, p):
    """The matrices of a wide program and of its operations, by their action on the initial state."""
    st = Setup(case, rng, extra=0, governed=(1.0, 3))
    values = st.values()
    want, _ = st.want(case["final"])
    N = st.pl.N
    if not case["prog"]:
        return
    v = np.asarray(st.init).reshape((2,) * N)
    for i, o in enumerate(im.flat_ops(case["prog"])):
        g = st.gate(o)
        ok, t = p.call(f"gate {i} {o['nm']} with {len(o['c'])} controls: tensor", g.tensor, values)
        if not ok:
            return
        sup, k = tuple(g.qubit_support), len(g.qubit_support)
        t = im.dense(t).reshape((2,) * (2 * k))
        v = np.moveaxis(np.tensordot(t, v, (tuple(range(k, 2 * k)), sup)), tuple(range(k)), sup)
    p.close(v, want, f"product of the matrices of {len(im.flat_ops(case['prog']))} wide gates", st.tol)
    obj = OpSequence(st.gates())
    ok, t = p.call("wide program: tensor", obj.tensor, values, tuple(range(N)))
    if ok:
        p.close((im.dense(t).reshape(2**N, 2**N) @ np.asarray(st.init).ravel()).reshape((2,) * N), want,
                "matrix of a wide program", st.tol)


def drop_empty(xs: list) -> list:
    out = []
    for x in xs:
        if isinstance(x, OpSequence):
            ys = drop_empty(x.operations)
            if ys:
                out.append(OpSequence(ys))
        else:
            out.append(x)
    return out


def observable_mat(case, rng, p):
    st = Setup(case, rng, extra=1)
    values = st.values()
    for ob in case["obs"]:
        M = full_matrix(ob["m"], st.pl)
        ok, obj = p.call("observable: construction", st.observable, ob["o"])
        if not ok:
            continue
        kind = rng.randrange(3)
        if kind == 1:
            obj = Add(obj.operations)
        if kind == 2:
            obj = Scale(obj, 2.0)
            M = 2.0 * M
        check_tensor(p, obj, values, M, st.pl, rng, type(obj).__name__)
        # action on a state agrees with the matrix
        act = obj.forward if isinstance(obj, Observable) else obj
        v = st.init if st.pure else None
        if v is not None:
            ok, got = p.call(f"action of {type(obj).__name__}", act, jnp.asarray(v), values)
            if ok:
                p.close(im.dense(got).ravel(), M @ v.ravel(), f"action of {type(obj).__name__}")


# -- C08: expectation values -----------------------------------------------------------------
def split_values(case, st, rng, wrap=float):
    """Values in one dictionary, or separated for circuit and observables."""
    if rng.random() < 0.5:
        return st.values(wrap), False
    st.share_names()
    return {"circuit": im.values_of(case["env"], None, st.rename, wrap, st.turns),
            "observables": st.obs_values(wrap)}, True


def has_noise(case) -> bool:
    return any(o["ns"] for o in (im.flat_ops(case["prog"]) if "prog" in case else [case["op"]]))


def exact_modes(case, st) -> list:
    modes = [DiffMode.AD, DiffMode.GPSR]
    if st.pure and not has_noise(case):
        modes.append(DiffMode.ADJOINT)
    return modes


def exp_adjoint(case, rng, p):
    exp_values(case, rng, p, {DiffMode.ADJOINT})


def exp_gpsr(case, rng, p):
    exp_values(case, rng, p, {DiffMode.GPSR})


def exp_values(case, rng, p, only=frozenset(DiffMode)):
    st = Setup(case, rng, extra=1, huge=0.05, governed=(0.1, 2))
    modes = [m for m in exact_modes(case, st) if m in only]
    if not modes:
        return
    values, _ = split_values(case, st, rng)
    want = np.array([st.number(o["e"]) for o in case["obs"]])
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    for mode in modes:
        ok, got = p.call(f"expectation {mode}", expectation, st.state(), circ, obs, values, im.exact_mode(mode, rng))
        if ok:
            p.close(got, want, f"expectation {mode} of {len(obs)} observables", 1e-8)
    # order of the observables, directly on the final state
    if len(obs) > 1 and rng.random() < 0.5:
        perm = list(range(len(obs)))
        rng.shuffle(perm)
        mode = rng.choice(modes)
        ok, got = p.call(f"expectation {mode}", expectation, st.state(), circ, [obs[i] for i in perm],
                         values, mode)
        if ok:
            p.close(got, want[perm], f"expectation {mode} of permuted observables", 1e-8)
    final, is_dm = st.want(case["final"])
    s = DensityMatrix(jnp.asarray(final)) if is_dm else jnp.asarray(final)
    i = rng.randrange(len(obs))
    ok, got = p.call("observable called on a state", obs[i], s, st.obs_values())
    if ok:
        p.close(got, want[i], "observable called on a state", 1e-8)


# -- C09..C12: derivatives -------------------------------------------------------------------
def grad_want(case, st, name: str, i: int) -> float:
    ob = case["obs"][i]
    g, sg = dict_(ob["g"]), dict_(ob["sg"])
    return st.number(g[name] if name in g else sg[name])


def dict_(x):
    return x if isinstance(x, dict) else {}


def present_names(case) -> list:
    return sorted({**dict_(case["env"]), **dict_(case["senv"])})


def flat_values(case, st, wrap=jnp.asarray):
    return {n: wrap(st.angle(n) if n in dict_(case["env"]) else im.ratio(case["senv"][n]))
            for n in present_names(case)}


def build_values(case, st, vals: dict, separated: bool) -> dict:
    if not separated:
        return {st.rename(n): v for n, v in vals.items()}
    env = dict_(case["env"])
    return {"circuit": {st.rename(n): v for n, v in vals.items() if n in env},
            "observables": {st.rename_obs(n): v for n, v in vals.items() if n not in env}}


def first_derivatives(case, rng, p, mode, ways):
    st = Setup(case, rng, extra=1 if case["n"] < 3 else 0, huge=0.03, governed=(0.1, 1))
    separated = rng.random() < 0.4
    if separated:
        st.share_names()
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    names = present_names(case)
    vals = flat_values(case, st)
    want = np.array([[grad_want(case, st, n, i) for n in names] for i in range(len(obs))])
    value = np.array([st.number(o["e"]) for o in case["obs"]])

    spelled = im.exact_mode(mode, rng)
    toward = st.direction() if case["dir"] and rng.random() < 0.3 else None
    if toward is not None:
        # the state depends on a parameter as well
        st.real = False
        vals["~state"] = jnp.asarray(0.0)
        names = names + ["~state"]
        want = np.concatenate([want, [[st.number(o["sd"])] for o in case["obs"]]], axis=1)

    def f(v):
        s = st.state()
        v = dict(v)
        if toward is not None:
            e = v.pop("~state")
            s = jax.tree_util.tree_map(lambda a: a + e * toward, s)
        return expectation(s, circ, obs, build_values(case, st, v, separated), spelled)

    way = rng.choice(ways)
    what = f"{mode} {way} of {len(obs)} observables, {len(im.flat_ops(case['prog']))} gates"
    if toward is not None:
        what += ", and of the state"
    if rng.random() < 0.2:
        f = jax.jit(f)
        what += ", of a compiled function"
    if way == "grad":
        w = np.array([rng.choice([1.0, -0.5, 2.0]) for _ in obs])
        ok, got = p.call(what, jax.value_and_grad(lambda v: (f(v) * w).sum()), vals)
        if ok:
            p.close(got[0], (value * w).sum(), f"value under {what}", 1e-8)
            p.close(np.array([got[1][n] for n in names]), w @ want, what, 1e-7)
    elif way == "jacrev":
        ok, got = p.call(what, jax.jacrev(f), vals)
        if ok:
            p.close(np.stack([got[n] for n in names], -1), want, what, 1e-7)
    elif way == "jacfwd":
        ok, got = p.call(what, jax.jacfwd(f), vals)
        if ok:
            p.close(np.stack([got[n] for n in names], -1), want, what, 1e-7)
    elif way == "jvp":
        t = {n: jnp.asarray(rng.choice([1.0, -2.0, 0.5])) for n in names}
        ok, got = p.call(what, lambda v: jax.jvp(f, (v,), (t,)), vals)
        if ok:
            p.close(got[0], value, f"value under {what}", 1e-8)
            p.close(got[1], want @ np.array([float(t[n]) for n in names]), what, 1e-7)


def grad_ad(case, rng, p):
    first_derivatives(case, rng, p, DiffMode.AD, ["grad", "jacrev", "jacfwd", "jvp"])


def grad_adjoint(case, rng, p):
    first_derivatives(case, rng, p, DiffMode.ADJOINT, ["grad", "jacrev", "jacfwd"])


def grad_gpsr(case, rng, p):
    first_derivatives(case, rng, p, DiffMode.GPSR, ["grad", "grad", "jacfwd", "jvp"])


def grad_gpsr_bwd(case, rng, p):
    """The non-jax gradient function, which sums over the observables."""
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    st = Setup(case, rng, extra=0)
    gates = st.gates()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    names = present_names(case)
    vals = flat_values(case, st, float)
    rng.shuffle(names)
    values = {st.rename(n): vals[n] for n in names}
    want = np.array([[grad_want(case, st, n, i) for n in names] for i in range(len(obs))]).sum(axis=0)
    ok, got = p.call("backward GPSR gradient", analytical_gpsr_bwd, st.state(), gates, obs, values)
    if ok:
        p.close(got, want, f"backward GPSR gradient of {len(gates)} gates", 1e-7)


def hess(case, rng, p, mode):
    st = Setup(case, rng, extra=0, governed=(0.1, 1))
    circ = st.circuit()
    i = rng.randrange(len(case["obs"]))
    ob = case["obs"][i]
    obs = [st.observable(ob["o"])]
    names = sorted(dict_(case["env"]))
    svals = im.values_of(None, case["senv"], st.rename)
    vals = {n: jnp.asarray(st.angle(n)) for n in names}
    want = np.array([[st.number(ob["h"][a][b]) for b in names] for a in names])

    def f(v):
        return expectation(st.state(), circ, obs,
                           {**{st.rename(n): x for n, x in v.items()}, **svals}, mode)[0]

    if rng.random() < 0.15:
        f = jax.jit(f)
    ok, got = p.call(f"Hessian {mode}", jax.hessian(f) if mode != DiffMode.GPSR
                     else jax.jacfwd(jax.jacfwd(f)) if rng.random() < 0.5 else jax.jacrev(jax.jacfwd(f)),
                     vals)
    if ok:
        p.close(np.array([[got[a][b] for b in names] for a in names]), want, f"Hessian {mode}", 1e-6)


def hess_ad(case, rng, p):
    hess(case, rng, p, DiffMode.AD)


def hess_gpsr(case, rng, p):
    hess(case, rng, p, DiffMode.GPSR)


# -- parameters of both the circuit and the observables -----------------------------------------
class Shared:
    """A case whose scale parameter "s" is also a parameter of the circuit, or one of its own.

    The specification gives the observables and their derivatives for s = -1, 0 and 1, of which they are
    polynomials of degree two; hence they are known for every s, such as the angle of a parameter."""

    def __init__(self, case, rng):
        self.st = st = Setup(case, rng, extra=1 if case["n"] < 2 else 0)
        st.turns = {}
        self.case, self.env = case, sorted(case["env"])
        self.common = rng.choice(self.env) if rng.random() < 0.8 else None
        if self.common is not None:
            st.rename_obs = lambda q: st.rename(self.common)
        self.names = self.env + ([] if self.common else ["s"])
        self.s = im.theta(case["env"][self.common]) if self.common else rng.uniform(-2.0, 2.0)
        self.gates = st.gates()
        self.obs = [st.observable(o["o"]) for o in case["obs"]]

    def values(self, wrap=jnp.asarray) -> dict:
        return {n: wrap(self.s if n == "s" else im.theta(self.case["env"][n])) for n in self.names}

    def named(self, vals: dict) -> dict:
        return {self.st.rename(n): v for n, v in vals.items()}

    def poly(self, at: list, d: int) -> float:
        """The d-th derivative at s of the quadratic function with values `at` at -1, 0, 1."""
        lo, mid, hi = (self.st.number(x) for x in at)
        c = (mid, (hi - lo) / 2, (hi + lo) / 2 - mid)
        return (c[0] + c[1] * self.s + c[2] * self.s**2, c[1] + 2 * c[2] * self.s, 2 * c[2])[d]

    def value(self, ob) -> float:
        return self.poly([x["e"] for x in ob["at"]], 0)

    def first(self, ob, q) -> float:
        hit = q in (self.common, "s")
        return ((self.poly([x["g"][q] for x in ob["at"]], 0) if q != "s" else 0.0)
                + (self.poly([x["e"] for x in ob["at"]], 1) if hit else 0.0))

    def second(self, ob, q, r) -> float:
        total = self.poly([x["h"][q][r] for x in ob["at"]], 0) if "s" not in (q, r) else 0.0
        for a, b in ((q, r), (r, q)):
            if a in (self.common, "s") and b != "s":
                total += self.poly([x["g"][b] for x in ob["at"]], 1)
        if q in (self.common, "s") and r in (self.common, "s"):
            total += self.poly([x["e"] for x in ob["at"]], 2)
        return total


def share_first(case, rng, p, mode):
    if mode not in exact_modes(case, Setup(case, rng)):
        return
    sh = Shared(case, rng)
    circ = OpSequence(sh.gates) if rng.random() < 0.5 else QuantumCircuit(sh.st.pl.N, sh.gates)
    what = f"{mode} with a parameter {'of circuit and observables' if sh.common else 'of observables'}"
    want = np.array([[sh.first(ob, q) for q in sh.names] for ob in case["obs"]])
    value = np.array([sh.value(ob) for ob in case["obs"]])
    f = lambda v: expectation(sh.st.state(), circ, sh.obs, sh.named(v), mode)  # noqa: E731
    if rng.random() < 0.15:
        f = jax.jit(f)
    ok, got = p.call(f"{what}: value", f, sh.values(rng.choice([float, jnp.asarray])))
    if ok:
        p.close(got, value, f"{what}: value", 1e-8)
    if mode != DiffMode.ADJOINT and rng.random() < 0.5:
        ok, got = p.call(what, jax.jacfwd(f), sh.values())
        if ok:
            p.close(np.stack([got[q] for q in sh.names], -1), want, what, 1e-7)
    else:
        w = np.array([rng.choice([1.0, -0.5, 2.0]) for _ in sh.obs])
        ok, got = p.call(what, jax.grad(lambda v: (f(v) * w).sum()), sh.values())
        if ok:
            p.close(np.array([got[q] for q in sh.names]), w @ want, what, 1e-7)


def share_ad(case, rng, p):
    share_first(case, rng, p, DiffMode.AD)


def share_adjoint(case, rng, p):
    share_first(case, rng, p, DiffMode.ADJOINT)


def share_gpsr(case, rng, p):
    share_first(case, rng, p, DiffMode.GPSR)


def share_bwd(case, rng, p):
    from horqrux.differentiation.gpsr import analytical_gpsr_bwd

    sh = Shared(case, rng)
    rng.shuffle(sh.names)
    want = np.array([[sh.first(ob, q) for q in sh.names] for ob in case["obs"]]).sum(axis=0)
    what = f"backward GPSR gradient with a parameter of {'circuit and ' if sh.common else ''}observables"
    ok, got = p.call(what, analytical_gpsr_bwd, sh.st.state(), sh.gates, sh.obs, sh.named(sh.values(float)))
    if ok:
        p.close(got, want, what, 1e-7)


def share_second(case, rng, p, mode):
    sh = Shared(case, rng)
    circ = OpSequence(sh.gates)
    i = rng.randrange(len(sh.obs))
    ob = case["obs"][i]
    what = f"Hessian {mode} with a parameter of {'circuit and ' if sh.common else ''}observables"
    want = np.array([[sh.second(ob, q, r) for r in sh.names] for q in sh.names])
    f = lambda v: expectation(sh.st.state(), circ, [sh.obs[i]], sh.named(v), mode)[0]  # noqa: E731
    ok, got = p.call(what, jax.hessian(f) if mode != DiffMode.GPSR else jax.jacfwd(jax.jacfwd(f)), sh.values())
    if ok:
        p.close(np.array([[got[q][r] for r in sh.names] for q in sh.names]), want, what, 1e-6)


def share_hess_ad(case, rng, p):
    share_second(case, rng, p, DiffMode.AD)


def share_hess_gpsr(case, rng, p):
    share_second(case, rng, p, DiffMode.GPSR)


def norm_bound(nd, senv: dict, s: float) -> float:
    """A bound on the eigenvalues of an observable, whose operations are reflections."""
    if nd["k"] == "op":
        return 1.0
    parts = [norm_bound(x, senv, s) for x in nd["xs"]]
    if nd["k"] == "add":
        return sum(parts)
    return math.prod(parts) * (1.0 if nd["k"] == "seq" else s if nd["p"] == "s" else abs(
        im.ratio(senv[nd["p"]]) if nd["p"] else im.ratio(nd["r"])))


def share_shots(case, rng, p):
    """Gradients from shots, far from which the exact ones cannot be."""
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    sh = Shared(case, rng)
    n = 40000
    bounds = [norm_bound(ob["o"], case["senv"], abs(sh.s) + math.pi / 2) for ob in case["obs"]]
    want = np.array([[sh.first(ob, q) for q in sh.names] for ob in case["obs"]])
    ops = im.flat_ops(case["prog"])
    places = np.array([1 + sum(o["p"] == q for o in ops) for q in sh.names])
    key = jax.random.PRNGKey(rng.randrange(2**31))
    what = f"shot gradient with a parameter of {'circuit and ' if sh.common else ''}observables"
    if rng.random() < 0.5:
        f = lambda v: expectation(sh.st.state(), OpSequence(sh.gates), sh.obs, sh.named(v),  # noqa: E731
                                  DiffMode.GPSR, n, key).sum()
        ok, got = p.call(what, jax.grad(f), sh.values())
        got = [got[q] for q in sh.names] if ok else None
    else:
        what = f"backward {what}"
        ok, got = p.call(what, finite_shots_gpsr_backward, sh.st.state(), sh.gates, sh.obs,
                         sh.named(sh.values(float)), n, key)
    if ok:
        # the average of n independent values within the bounds, times coefficients below one, per evaluation
        tol = 8 * sum(bounds) * np.sqrt(2 * places / n)
        off = np.abs(np.array(got, dtype=float) - want.sum(axis=0)) / tol
        p.expect(bool((off <= 1).all()), f"{what}: {np.round(np.array(got, dtype=float), 3)} instead of "
                                         f"{np.round(want.sum(axis=0), 3)} +- {np.round(tol, 3)}")
