"""Replays for JAX transformations, histories of calls, bookkeeping, refusals and
the state helpers."""
from __future__ import annotations

import dataclasses
import json
import math
import os
import sys
import threading
from collections import Counter

import impl as im
import jax
import jax.numpy as jnp
import numpy as np
from horqrux.api import expectation, run, sample
from horqrux.apply import apply_gates
from horqrux.circuit import QuantumCircuit, hea
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.primitives.parametric import Parametric
from horqrux.primitives.primitive import Primitive
from horqrux.utils import operator_utils as ou
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DensityMatrix, DiffMode, OperationType, density_mat
from jax.experimental.sparse import BCOO
from replay import (NAMES, Setup, build_values, check_state, dict_, exact_modes, flat_values, full_matrix, grad_want,
                    has_noise, present_names, restrict, split_values)

NOT = im._prim.NOT
# where the code of the library lies, and how long a client waits for another one
LIBRARY = os.path.join(os.path.dirname(os.path.abspath(sys.modules["horqrux"].__file__)), "")
WAIT = 30


# -- C19: jit, vmap, pytrees -----------------------------------------------------------------
def through_pytree(p, obj, what: str):
    """Flatten and rebuild an object; None if that fails."""
    ok, new = p.call(f"{what}: pytree round trip", lambda: jax.tree_util.tree_unflatten(
        jax.tree_util.tree_structure(obj), jax.tree_util.tree_leaves(obj)))
    if not ok:
        return None
    p.expect(type(new) is type(obj), f"{what}: pytree round trip gives a {type(new).__name__}")
    if isinstance(obj, OpSequence):
        p.expect(names_of(new) == names_of(obj), f"{what}: parameters changed by a pytree round trip")
        for a in ("n_qubits", "fparams", "parameter"):
            if hasattr(obj, a):
                p.expect(getattr(new, a, None) == getattr(obj, a), f"{what}: {a} changed by a pytree round trip")
    if isinstance(obj, Primitive):
        for a in ("target", "control", "noise", "sparse", "generator_name", "param", "shift"):
            if hasattr(obj, a):
                p.expect(getattr(new, a, None) == getattr(obj, a), f"{what}: {a} changed by a pytree round trip")
    return new


def names_of(obj) -> set:
    return set(obj.param_names) if not isinstance(obj, Scale) else set()


def transform_program(case, rng, p):
    st = Setup(case, rng, extra=1)
    want, is_dm = st.want(case["final"])
    values = {k: jnp.asarray(v) for k, v in st.values().items()}
    circ = st.circuit()
    n = len(im.flat_ops(case["prog"]))
    way = rng.choice(["jit", "argument", "pytree", "gates", "vmap values", "vmap states", "vmap both", "map", "state", "scan",
                      "lax.map", "checkpoint", "nested vmap"])
    if has_noise(case) and rng.random() < 0.25:
        way = "noise"
    what = f"program of {n} gates, {way}"
    state = st.state()
    if way == "jit":
        ok, got = p.call(what, jax.jit(lambda s, v: run(circ, s, v)), state, values)
    elif way == "argument":
        f = jax.jit(lambda c, s, v: run(c, s, v))
        ok, got = p.call(what, f, circ, state, values)
        if ok and rng.random() < 0.5:  # an equal object compiles once and gives the same
            check_state(p, got, want, is_dm, what)
            ok, got = p.call(what + " (second call)", f, st.circuit(), state, values)
    elif way == "pytree":
        new = through_pytree(p, circ, what)
        if new is None:
            return
        ok, got = p.call(what, run, new, state, values)
    elif way == "gates":
        gates = [through_pytree(p, g, f"{what} {g.name}") for g in st.gates()]
        if any(g is None for g in gates):
            return
        if rng.random() < 0.5:
            ok, got = p.call(what, apply_gates, state, gates, values)
        else:
            ok, got = p.call(what + " as arguments", jax.jit(lambda g, s: apply_gates(s, g, values)), gates, state)
    elif way == "noise":
        # the noise of the gates goes through flattening or compiled code by itself
        noises = [im.noise_of(o["ns"]) for o in im.flat_ops(case["prog"])]

        def noisy(ns, s):
            return apply_gates(s, [im.gate(o, st.pl, rng, noise=m, rename=st.rename)
                                   for o, m in zip(im.flat_ops(case["prog"]), ns)], values)

        if rng.random() < 0.5:
            ok, new = p.call(what, lambda: jax.tree_util.tree_map(lambda x: x, noises))
            if not ok:
                return
            p.expect(repr(new) == repr(noises), f"{what}: {noises} became {new}")
            ok, got = p.call(what, noisy, new, state)
        else:
            ok, got = p.call(f"{what} as an argument", jax.jit(noisy), noises, state)
    elif way == "map":
        ok, new = p.call(what, jax.tree_util.tree_map, lambda x: x, circ)
        if not ok:
            return
        ok, got = p.call(what, run, new, jax.tree_util.tree_map(lambda x: x + 0, state), values)
    elif way == "scan":
        # the state is carried through a loop
        if isinstance(state, DensityMatrix) != is_dm:
            return
        state = jax.tree_util.tree_map(lambda x: x + 0j, state)
        ok, got = p.call(what, lambda s, v: jax.lax.scan(lambda c, x: (run(circ, c, x), None), s, v, length=1)[0],
                         state, {k: x[None] for k, x in values.items()})
    elif way == "lax.map":
        if not values:
            return
        ok, got = p.call(what, lambda v: jax.lax.map(lambda x: run(circ, state, x), v),
                         {k: jnp.stack([x + 0.3, x]) for k, x in values.items()})
        if ok:
            got = jax.tree_util.tree_map(lambda x: x[1], got)
    elif way == "checkpoint":
        ok, got = p.call(what, jax.checkpoint(lambda s, v: run(circ, s, v)), state, values)
    elif way == "nested vmap":
        if not values:
            return
        f = jax.vmap(jax.vmap(lambda s, v: run(circ, s, v), in_axes=(None, 0)), in_axes=(0, None))
        ok, got = p.call(what, f, jax.tree_util.tree_map(lambda x: jnp.stack([x, x]), state),
                         {k: jnp.stack([x - 0.4, x, x + 0.4]) for k, x in values.items()})
        if ok:
            got = jax.tree_util.tree_map(lambda x: x[1, 1], got)
    elif way == "state":
        # the state goes in and out of compiled code
        ok, s = p.call(what, jax.jit(lambda s: s), state)
        if not ok or not check_state(p, s, st.init, not st.pure, "state through jit"):
            return
        ok, got = p.call(what, run, circ, s, values)
    else:
        B = 3
        names = sorted(values)
        batch = {k: jnp.stack([values[k]] + [values[k] + rng.uniform(-1, 1) for _ in range(B - 1)]) for k in names}
        others = [state]
        for _ in range(B - 1):
            x = rng_state(st, rng)
            others.append(x)
        stacked = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *others)
        f = lambda s, v: run(circ, s, v)
        if way == "vmap values":
            if not names:
                return
            ok, out = p.call(what, jax.vmap(f, in_axes=(None, 0)), state, batch)
            direct = lambda i: f(state, {k: batch[k][i] for k in names})
        elif way == "vmap states":
            ok, out = p.call(what, jax.vmap(f, in_axes=(0, None)), stacked, values)
            direct = lambda i: f(others[i], values)
        else:
            if not names:
                return
            g = jax.vmap(f, in_axes=(0, 0))
            ok, out = p.call(what, jax.jit(g) if rng.random() < 0.5 else g, stacked, batch)
            direct = lambda i: f(others[i], {k: batch[k][i] for k in names})
        if not ok:
            return
        got = jax.tree_util.tree_map(lambda x: x[0], out)
        i = rng.randrange(1, B)
        ok2, d = p.call(what + " (direct)", direct, i)
        if ok2:
            check_state(p, jax.tree_util.tree_map(lambda x: x[i], out), im.dense(d), isinstance(d, DensityMatrix),
                        f"{what}, element {i}")
    if ok:
        check_state(p, got, want, is_dm, what)


def rng_state(st, rng):
    N = st.pl.N
    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2**N)])
    v = (v / np.linalg.norm(v)).reshape((2,) * N)
    return jnp.asarray(v) if st.pure else DensityMatrix(jnp.asarray(np.tensordot(v, v.conj(), axes=0)))


def transform_exp(case, rng, p):
    st = Setup(case, rng, extra=0)
    values, _ = split_values(case, st, rng, jnp.asarray)
    want = np.array([st.number(o["e"]) for o in case["obs"]])
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    mode = rng.choice(exact_modes(case, st))
    way = rng.choice(["jit", "arguments", "pytree", "vmap", "call", "states", "scan"])
    what = f"expectation {mode}, {way}"
    if way == "jit":
        ok, got = p.call(what, jax.jit(lambda s, v: expectation(s, circ, obs, v, mode)), st.state(), values)
    elif way == "arguments":
        ok, got = p.call(what, jax.jit(lambda c, o, s, v: expectation(s, c, o, v, mode)), circ, obs, st.state(), values)
    elif way == "pytree":
        c2 = through_pytree(p, circ, what)
        o2 = [through_pytree(p, o, what) for o in obs]
        if c2 is None or any(o is None for o in o2):
            return
        ok, got = p.call(what, expectation, st.state(), c2, o2, values, mode)
    elif way == "states":
        batch = jax.tree_util.tree_map(lambda *x: jnp.stack(x), rng_state(st, rng), st.state())
        ok, got = p.call(what, jax.vmap(lambda s: expectation(s, circ, obs, values, mode)), batch)
        if ok:
            got = got[1]
    elif way == "scan":
        # accumulated in a loop
        f = lambda c, x: (c + expectation(st.state(), circ, obs, x, mode), None)
        ok, got = p.call(what, lambda v: jax.lax.scan(f, jnp.zeros(len(obs)), v, length=2)[0] / 2,
                         jax.tree_util.tree_map(lambda x: jnp.stack([x, x]), values))
    elif way == "vmap":
        B = 3
        leaves, td = jax.tree_util.tree_flatten(values)
        shifts = [[0.0] + [rng.uniform(-1, 1) for _ in range(B - 1)] for _ in leaves]
        if not leaves:
            return
        batch = jax.tree_util.tree_unflatten(td, [x + jnp.asarray(d) for x, d in zip(leaves, shifts)])
        f = lambda v: expectation(st.state(), circ, obs, v, mode)
        ok, out = p.call(what, jax.vmap(f), batch)
        if not ok:
            return
        i = rng.randrange(1, B)
        ok, d = p.call(what + " (direct)", f, jax.tree_util.tree_map(lambda x: x[i], batch))
        if ok:
            p.close(out[i], d, f"{what}, element {i}", 1e-8)
        ok, got = True, out[0]
    else:
        final, is_dm = st.want(case["final"])
        s = DensityMatrix(jnp.asarray(final)) if is_dm else jnp.asarray(final)
        v = st.obs_values(jnp.asarray)
        ok, got = p.call(what, jax.jit(lambda s, v: jnp.stack([o(s, v) for o in obs])), s, v)
    if ok:
        p.close(got, want, what, 1e-8)


def transform_grad(case, rng, p):
    st = Setup(case, rng, extra=0)
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    names = present_names(case)
    vals = flat_values(case, st)
    mode = rng.choice(exact_modes(case, st))
    want = np.array([sum(grad_want(case, st, n, i) for i in range(len(obs))) for n in names])
    way = rng.choice(["jit", "jit arguments", "vmap", "checkpoint", "scan", "of jit", "jit of jit"])
    what = f"gradient {mode}, {way}"

    def f(v, c=circ, o=obs):
        return expectation(st.state(), c, o, build_values(case, st, v, False), mode).sum()

    if way == "jit":
        ok, got = p.call(what, jax.jit(jax.grad(f)), vals)
    elif way == "of jit":
        ok, got = p.call(what, jax.grad(jax.jit(f)), vals)
    elif way == "jit of jit":
        ok, got = p.call(what, jax.jit(jax.grad(jax.jit(f))), vals)
    elif way == "checkpoint":
        ok, got = p.call(what, jax.grad(jax.checkpoint(f)), vals)
    elif way == "scan":
        # steps of a descent of length zero
        ok, got = p.call(what, lambda v: jax.lax.scan(lambda c, _: (c, jax.grad(f)(c)), v, length=2)[1], vals)
        if ok:
            got = {n: got[n][1] for n in names}
    elif way == "jit arguments":
        ok, got = p.call(what, jax.jit(lambda v, c, o: jax.grad(lambda x: f(x, c, o))(v)), vals, circ, obs)
    else:
        batch = {n: jnp.stack([vals[n], vals[n] + rng.uniform(-1, 1)]) for n in names}
        ok, out = p.call(what, jax.vmap(jax.grad(f)), batch)
        if not ok:
            return
        ok, d = p.call(what + " (direct)", jax.grad(f), {n: batch[n][1] for n in names})
        if ok:
            p.close(np.array([out[n][1] for n in names]), np.array([d[n] for n in names]), f"{what}, element 1", 1e-7)
        ok, got = True, {n: out[n][0] for n in names}
    if ok:
        p.close(np.array([got[n] for n in names]), want, what, 1e-7)


# -- C20: histories of calls -----------------------------------------------------------------
def freeze(x):
    """Everything an object holds, for comparison."""
    if isinstance(x, (str, int, float, complex, bool, type(None))):
        return (type(x).__name__, x)
    if isinstance(x, BCOO):
        return ("BCOO", freeze(x.data), freeze(x.indices), x.shape)
    if isinstance(x, (jax.Array, np.ndarray, np.generic)):
        a = np.asarray(x)
        return ("array", str(a.dtype), a.shape, a.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (Primitive, OpSequence, DensityMatrix, DigitalNoiseInstance)):
        keep = {k: v for k, v in vars(x).items() if not callable(v) and not k.startswith("_")}
        # attributes computed on demand from the others may appear
        cached = {k for k in keep if isinstance(getattr(type(x), k, None), __import__("functools").cached_property)}
        return (type(x).__name__, tuple(sorted((k, freeze(v)) for k, v in keep.items() if k not in cached)))
    return ("other", repr(x))


class Store:
    """The objects of a session."""

    def __init__(self, case, rng):
        n = case["n"]
        self.case, self.n = case, n
        self.pl = im.Placement.make(n, rng, 0)
        shared: dict = {}

        def gate(o):
            k = json.dumps(o, sort_keys=True)
            if k not in shared:
                shared[k] = im.gate(o, self.pl, rng, rename=self.name)
            return shared[k]

        self.make_gate, self.rng = gate, rng
        # the names of the parameters a, b and s
        names = ("a", "b", "s")
        self.table = dict(zip(names, rng.sample(NAMES, 3) if rng.random() < 0.6 else names))
        self.angles = (self.table["a"], self.table["b"])
        self.progs = [list(ops) for ops in case["progs"]]
        self.gates = [[gate(o) for o in ops] for ops in self.progs]
        # a list of feature parameters shared by circuits
        self.features = [self.table["b"]] if rng.random() < 0.5 else []
        self.fparams: dict = {}
        self.circuits = [self.circuit(gs) for gs in self.gates]
        self.states, self.pure, self.f = [None] * 2, [None] * 2, [None] * 2
        for i, a in enumerate(case["inits"]):
            self.set_state(i, a)
        wrap = self.wrap = rng.choice([float, jnp.asarray])
        self.values = [im.values_of(e, case["senv"], self.name, wrap) for e in case["envs"]]
        self.obs = [im.observable(o, self.pl, rng, rename=self.name) for o in case["obs"]]
        # the same values, separated for circuit and observables
        self.separated = [{"circuit": im.values_of(e, None, self.name, wrap),
                           "observables": im.values_of(None, case["senv"], self.name, wrap)} for e in case["envs"]]
        self.empty: dict = {}
        # the exact results for the call of the present thread
        self.local = threading.local()

    def everything(self):
        return freeze([self.gates, self.circuits, [s for s in self.states], self.values, self.separated, self.obs, self.empty, self.features])

    def name(self, q: str) -> str:
        return self.table.get(q, q)

    def circuit(self, gs: list):
        xs = [OpSequence(gs[:1]), OpSequence(gs[1:])] if self.rng.random() < 0.5 and len(gs) > 1 else gs
        c = self.rng.randrange(4)
        if c == 0:
            circ, fps = QuantumCircuit(self.pl.N, xs, self.features), self.features
        elif c == 1:
            circ, fps = QuantumCircuit(self.pl.N, xs, fparams=[]), ()
        else:
            circ, fps = QuantumCircuit(self.pl.N, xs), ()
        self.fparams[id(circ)] = (circ, set(fps))
        return circ

    def set_state(self, i: int, a: dict) -> None:
        x = im.arr(a)
        self.pure[i] = x.size == 2**self.n
        self.f[i] = 1.0 / np.linalg.norm(x) if self.pure[i] else 1.0 / np.trace(x.reshape(2**self.n, 2**self.n)).real
        arr = jnp.asarray(self.pl.vec(x * self.f[i]) if self.pure[i] else self.pl.dm(x * self.f[i]))
        self.states[i] = arr if self.pure[i] else DensityMatrix(arr)

    @property
    def noisy(self) -> list:
        return [any(o["ns"] for o in ops) for ops in self.progs]

    def alter(self, a: dict) -> None:
        """What the client does to its own objects."""
        act = a["act"]
        if act == "value":
            self.values[a["e"] - 1][self.name(a["q"])] = self.wrap(im.theta(a["to"]))
            self.separated[a["e"] - 1]["circuit"][self.name(a["q"])] = self.wrap(im.theta(a["to"]))
        elif act == "scale":
            for e in range(len(self.values)):
                self.values[e][self.name("s")] = self.wrap(im.ratio(a["to"]))
                self.separated[e]["observables"][self.name("s")] = self.wrap(im.ratio(a["to"]))
        elif act == "extend":
            k = a["p"] - 1
            g = self.make_gate(a["op"])
            self.progs[k].append(a["op"])
            self.gates[k].append(g)
            self.circuits[k].operations.append(g if self.rng.random() < 0.5 else OpSequence([g]))
        elif act == "state":
            self.set_state(a["i"] - 1, a["to"])
        elif act == "rebuild":
            self.circuits[a["p"] - 1] = self.circuit(self.gates[a["p"] - 1])

    def entry(self, r) -> dict:
        return self.local.res[r["e"] - 1][0]

    def final(self, r):
        x = im.arr(self.entry(r)["final"])
        f = self.f[r["i"] - 1]
        if x.size == 2**self.n:
            return self.pl.vec(x * f), False
        return self.pl.dm(x * (f * f if self.pure[r["i"] - 1] else f)), True

    def num(self, r, x):
        f = self.f[r["i"] - 1]
        return im.real(x) * (f * f if self.pure[r["i"] - 1] else f)

    def exact(self, r):
        t = self.entry(r)
        return np.array([self.num(r, t["e"][o - 1]) for o in r["o"]])

    def grads(self, r):
        t = self.entry(r)
        return np.array([[self.num(r, t["g"][o - 1][q]) for q in ("a", "b")] for o in r["o"]])


class Client:
    """A client making a call in its own thread, stopped at chosen points within the library."""

    def __init__(self, work, stops):
        self.work, self.stops = work, stops
        self.go, self.here = threading.Semaphore(0), threading.Semaphore(0)
        self.lines, self.free, self.done = 0, False, False
        self.result = self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()
        self.here.acquire(timeout=WAIT)

    def main(self):
        sys.settrace(self.trace)
        try:
            self.result = self.work()
        except Exception as e:  # noqa: BLE001
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.here.release()

    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(LIBRARY) else None

    def line(self, frame, event, arg):
        self.lines += 1
        if self.lines in self.stops and not self.free:
            self.here.release()
            self.go.acquire(timeout=WAIT)
        return self.line

    def step(self):
        """On to the next stop, or to the end."""
        if not self.done:
            self.go.release()
            self.here.acquire(timeout=WAIT)

    def end(self, others):
        self.free = True
        self.go.release()
        self.thread.join(timeout=WAIT)
        if self.thread.is_alive():
            # waits for something another client holds
            for c in others:
                c.free = True
                c.go.release()
            self.thread.join()


def session(case, rng, p):
    st = Store(case, rng)
    before = st.everything()
    memo: dict = {}
    trail = []
    clients: dict = {}
    threads = len({c["by"] for c in case["log"] if "by" in c}) > 1
    for at, c in enumerate(case["log"]):
        if c["what"] == "alter":
            st.alter(c["alter"])
            trail.append(f"client: {c['alter']['act']}")
            before = st.everything()
            memo = {}
            continue
        if c["what"] == "begin":
            if threads:
                r = c["req"]
                res = next(d["res"] for d in case["log"][at:] if d["what"] == "call" and d["by"] == c["by"])
                trail.append(f"{r['kind']}@{c['by']}")

                def work(r=r, res=res, what=f"call {len(trail)} ({r['kind']}) interleaved in {trail[-6:]}"):
                    st.local.res = res
                    return answer(st, r, p, what)

                scale = rng.choice([10, 60, 300, 1500])
                stops = {rng.randint(1, scale) for _ in range(4)}
                clients[c["by"]] = Client(work, stops)
            continue
        if c["what"] == "step":
            clients[c["by"]].step()
            continue
        r = c["req"]
        error = got = None
        if threads:
            trail.append(f"end@{c['by']}")
            client = clients.pop(c["by"])
            client.end(clients.values())
            got, error = client.result, client.error
        else:
            trail.append(r["kind"])
        what = f"call {len(trail)} ({r['kind']}) after {trail[:-1]}"
        if not threads:
            st.local.res = c["res"]
            try:
                got = answer(st, r, p, what)
            except Exception as e:  # noqa: BLE001
                error = e
        kind = "granted" if error is None else "refused"
        if error is not None:
            if c["answer"] == "granted":
                p.append({"what": f"{what}: raised {type(error).__name__}: {str(error)[:150]}"})
                break
            got = type(error).__name__
        p.expect(kind == c["answer"], f"{what}: {kind}, expected {c['answer']}")
        key = json.dumps({k: r[k] for k in ("kind", "p", "i", "e", "o", "k")})
        if key in memo:
            a, b = memo[key], got
            same = a == b if isinstance(a, (str, tuple, Counter)) else im.diff(a, b) < 1e-12
            p.expect(same, f"{what}: differs from the same call before")
        memo[key] = got
        if not clients and not p.expect(st.everything() == before, f"{what}: changed its arguments"):
            break
        if p:
            break
    for client in clients.values():
        client.end(clients.values())


def answer(st: Store, r: dict, p, what: str):
    """Make the call, compare with the table; the answer in comparable form."""
    i, e, k = r["i"] - 1, r["e"] - 1, r["k"]
    circ, gates, state, values = st.circuits[r["p"] - 1], st.gates[r["p"] - 1], st.states[i], st.values[e]
    obs = [st.obs[o - 1] for o in r["o"]]
    kind = r["kind"]
    noisy = st.noisy[r["p"] - 1]
    A, B = st.angles
    S = st.name("s")
    if kind == "near":
        step = 1e-6
        got = np.asarray(expectation(state, circ, obs, {**values, A: values[A] + step, B: values[B] + step},
                                     [DiffMode.AD, DiffMode.GPSR, DiffMode.AD][k - 1]))
        p.close(got, st.exact(r) + step * st.grads(r).sum(axis=1), what, 1e-8)
        return got
    if kind == "jit":
        v = {q: jnp.asarray(x) for q, x in values.items()}
        if k == 1:
            got = jax.jit(lambda s: run(circ, s, values))(state)
            want, dm = st.final(r)
            check_state(p, got, want, dm, what)
            return im.dense(got)
        got = np.asarray(jax.jit(lambda s, v: expectation(s, circ, obs, v, DiffMode.AD))(state, v))
        p.close(got, st.exact(r), what, 1e-8)
        return got
    if kind == "traced":
        v = {q: jnp.asarray(values[q], dtype=float) for q in (A, B)}
        f = lambda x: jnp.stack([o(run(circ, state, {**values, **x}), values) for o in obs])
        g = (jax.jacfwd(f) if k == 1 else jax.jacrev(f) if k == 2 else jax.jit(jax.jacfwd(f)))(v)
        got = np.stack([np.asarray(g[q]) for q in (A, B)], -1)
        p.close(got, st.grads(r), what, 1e-7)
        return got
    if kind == "vmap":
        batch = {q: jnp.stack([jnp.asarray(u[q], dtype=float) for u in st.values]) for q in values}
        got = np.asarray(jax.vmap(lambda v: expectation(state, circ, obs, v, DiffMode.AD))(batch))
        p.close(got, np.stack([st.exact({**r, "e": j + 1}) for j in range(len(st.values))]), what, 1e-8)
        return got
    if kind == "sparse":
        if noisy or not st.pure[i]:
            return ()
        ss, sc = to_sparse(state), to_sparse(circ)
        got = run(sc, ss, values)
        p.close(im.dense(got), st.final(r)[0], what)
        return im.dense(got)
    if kind == "undo":
        if noisy:
            return ()
        there = apply_gates(state, gates, values, OperationType.UNITARY)
        check_state(p, there, *st.final(r), what)
        back = apply_gates(there, gates[::-1], values, OperationType.DAGGER, merge_ops=k == 1)
        check_state(p, back, im.dense(state), not st.pure[i], what)
        jac = apply_gates(state, gates[:1], values, OperationType.JACOBIAN) if k == 2 and st.progs[r["p"] - 1][0]["nm"] in im.ROT else back
        return np.concatenate([im.dense(back).ravel(), im.dense(jac).ravel()])
    if kind == "shotgrad":
        v = {q: jnp.asarray(values[q], dtype=float) for q in (A, B)}
        g = jax.jacfwd(lambda x: expectation(state, circ, obs, {**values, **x}, DiffMode.GPSR, n_shots=20 * k,
                                             key=jax.random.PRNGKey(k)))(v)
        got = np.stack([np.asarray(g[q]) for q in (A, B)], -1)
        p.expect(bool(np.isfinite(got).all()), f"{what}: {got}")
        return got
    if kind == "bookkeeping":
        names = {st.name(o["p"]) for o in st.progs[r["p"] - 1] if o["p"]}
        sup = {st.pl.qubit(w) for o in st.progs[r["p"] - 1] for w in o["t"] + o["c"]}
        p.expect(set(circ.param_names) == names, f"{what}: parameter names {circ.param_names}")
        free = names - st.fparams[id(circ)][1]
        p.expect(set(circ.vparams) == free and circ.n_vparams == len(free),
                 f"{what}: variational parameters {sorted(circ.vparams)}, expected {sorted(free)}")
        p.expect(tuple(circ.qubit_support) == tuple(sorted(sup)), f"{what}: support {circ.qubit_support}")
        p.expect(len(list(iter(circ))) == len(gates), f"{what}: iteration")
        return tuple(sorted(circ.param_names))
    if kind in ("tensor", "convert") and noisy:
        k = 3
    if kind in ("run", "apply", "merge"):
        if kind == "run":
            got = run(circ, state, values)
        elif kind == "apply":
            got = apply_gates(state, gates, values)
        else:
            got = apply_gates(state, gates, values, OperationType.UNITARY, bool(k & 1), bool(k & 2))
        want, dm = st.final(r)
        check_state(p, got, want, dm, what)
        return im.dense(got)
    if kind.startswith("exp_") or kind.startswith("grad_"):
        mode = DiffMode(kind.split("_")[1])
        if mode == DiffMode.ADJOINT and (noisy or not st.pure[i]):
            mode = DiffMode.AD
        if kind.startswith("exp_"):
            got = np.asarray(expectation(state, circ, obs, st.separated[e] if k != 2 else values, mode))
            p.close(got, st.exact(r), what, 1e-8)
            return got
        v = {q: jnp.asarray(values[q], dtype=float) for q in (A, B)}
        if k == 1:
            sep = st.separated[e]
            g = jax.grad(lambda x: expectation(state, circ, obs, {**sep, "circuit": x}, mode).sum())(v)
        else:
            g = jax.grad(lambda x: expectation(state, circ, obs, {**values, **x}, mode).sum())(v)
        got = np.array([g[A], g[B]])
        p.close(got, st.grads(r).sum(axis=0), what, 1e-7)
        return got
    if kind == "sample":
        return sample(state, circ, values, 20 * k)
    if kind == "shots":
        return np.asarray(expectation(state, circ, obs, st.separated[e] if k == 3 else values,
                                      [DiffMode.AD, DiffMode.GPSR][k % 2], n_shots=30,
                                      key=jax.random.PRNGKey(k)))
    if kind == "tensor":
        obj = [circ, gates[0], obs[0]][k - 1]
        return im.dense(obj.tensor(values, tuple(range(st.pl.N))))
    if kind == "convert":
        obj = [circ, gates[0], obs[0]][k - 1]
        back = to_dense(to_sparse(obj))
        p.expect(type(back) is type(obj), f"{what}: type changed to {type(back).__name__}")
        return im.dense(back.tensor(values, tuple(range(st.pl.N))))
    if kind == "observe":
        got = np.asarray(obs[0](run(circ, state, values), values))
        p.close(got, st.exact(r)[0], what, 1e-8)
        return got
    if kind == "density":
        d = density_mat(state)
        got = run(circ, d, values)
        x, dm = st.final(r)
        if not dm:
            x = np.tensordot(x, x.conj(), axes=0)
        check_state(p, got, x, True, what)
        return im.dense(got)
    # requests to refuse
    mode = [DiffMode.AD, DiffMode.GPSR, DiffMode.AD][k - 1]
    used = sorted({st.name(o["p"]) for o in st.progs[r["p"] - 1] if o["p"]})
    if kind == "bad_forgotten" and used:
        less = {q: x for q, x in values.items() if q != used[k % len(used)]}
        if k == 1:
            return run(circ, state, less)
        if k == 2:
            return sample(state, circ, less, 10)
        return expectation(state, circ, obs, {"circuit": {q: x for q, x in less.items() if q != S},
                                              "observables": {S: values[S]}}, mode)
    if kind in ("bad_missing", "bad_forgotten"):
        g = im.ROT[["RX", "RY", "PHASE"][k - 1]]("nowhere", 0)
        bad = QuantumCircuit(st.pl.N, [*gates, g])
        if k == 1:
            return run(bad, state, values)
        if k == 2:
            return apply_gates(state, [*gates, g], values)
        return expectation(state, bad, obs, values)
    if kind == "bad_shots":
        return expectation(state, circ, obs, values, mode, n_shots=-k)
    if kind == "bad_mode":
        return expectation(state, circ, obs, values, ["nothing", "AD ", "backprop"][k - 1])
    if kind == "bad_sample":
        return sample(state, circ, values, 1 - k)
    if kind == "bad_support":
        return OpSequence([*gates, im.GATES["H"](st.pl.N + 1)]).tensor(values, tuple(range(st.pl.N)))
    if kind == "bad_adjoint":
        return expectation(density_mat(state), circ, obs, values, DiffMode.ADJOINT)
    raise AssertionError(kind)


# -- C21: bookkeeping ------------------------------------------------------------------------
def book(case, rng, p):
    st = Setup(case, rng, extra=2, huge=0.15)
    b = case["book"][0]
    xs = im.nested(case["prog"], st.gate, shared=st.shared)
    fps = ["not a parameter" if x == "zz" else st.rename(x) for x in b["fps"]]
    rng.shuffle(fps)
    given = list(fps)
    names = {st.rename(x) for x in b["names"]}
    support = tuple(sorted(st.pl.qubit(w) for w in b["sup"]))
    if xs and rng.random() < 0.3:
        # the last operation is added to the circuit in place
        circ = QuantumCircuit(st.pl.N, xs[:-1], fps)
        p.call("bookkeeping of a part", lambda: (circ.param_names, circ.vparams, circ.n_vparams, circ.qubit_support))
        circ.operations.append(xs[-1])
    elif rng.random() < 0.7:
        circ = QuantumCircuit(st.pl.N, xs, fps)
    else:
        circ = QuantumCircuit(st.pl.N, OpSequence(xs), fparams=fps)
    seq = OpSequence(xs)
    vps = {st.rename(x) for x in b["vps"]}
    for obj, what in ((seq, "sequence"), (circ, "circuit")):
        ok, got = p.call(f"{what}.param_names", lambda: obj.param_names)
        if ok:
            p.expect(isinstance(got, (set, frozenset)) and got == names,
                     f"{what}.param_names: {sorted(map(str, got))}, expected {sorted(names)}")
        if what == "sequence":
            ok, got = p.call("sequence.n_vparams", lambda: obj.n_vparams)
            if ok:
                p.expect(got == len(names), f"sequence.n_vparams: {got}, expected {len(names)}")
        ok, got = p.call(f"{what}.qubit_support", lambda: obj.qubit_support)
        if ok:
            p.expect(tuple(got) == support, f"{what}.qubit_support: {got}, expected {support}")
        ok, got = p.call(f"{what}: iteration", lambda: list(iter(obj)))
        if ok:
            flat = [st.gate(o) for o in im.flat_ops(case["prog"])]
            p.expect([freeze_gate(g) for g in got] == [freeze_gate(g) for g in flat],
                     f"{what}: iteration does not give its gates in order")
    ok, got = p.call("circuit.vparams", lambda: circ.vparams)
    if ok:
        p.expect(set(got) == vps, f"vparams: {sorted(got)}, expected {sorted(vps)}")
        ok, n = p.call("circuit.n_vparams", lambda: circ.n_vparams)
        if ok:
            p.expect(n == len(vps), f"n_vparams: {n}, expected {len(vps)}")
    p.expect(circ.n_qubits == st.pl.N, f"n_qubits: {circ.n_qubits}, expected {st.pl.N}")
    p.expect(list(circ.fparams) == fps, f"fparams: {circ.fparams}, expected {fps}")
    p.expect(fps == given, f"the caller's list of feature parameters became {fps}, it was {given}")
    # without feature parameters every parameter is variational, whatever was built before
    for k in range(2):
        bare = QuantumCircuit(st.pl.N, xs)
        p.expect(not list(bare.fparams), f"fparams of a circuit without any: {bare.fparams}")
        p.expect(set(bare.vparams) == names and bare.n_vparams == len(names),
                 f"vparams without feature parameters: {sorted(bare.vparams)}, expected {sorted(names)}")
    for o in im.flat_ops(case["prog"]):
        g = st.gate(o)
        qs = tuple(sorted(st.pl.qubits(o["t"]) + st.pl.qubits(o["c"])))
        p.expect(tuple(g.qubit_support) == qs, f"{o['nm']}.qubit_support: {g.qubit_support}, expected {qs}")
        p.expect(g.n_qubits == len(qs), f"{o['nm']}.n_qubits: {g.n_qubits}, expected {len(qs)}")
        p.expect(bool(g.is_parametric) == bool(o["p"]), f"{o['nm']}.is_parametric: {g.is_parametric}")
        if o["c"] and rng.random() < 0.3:
            p.expect(g.name == "C" + im.gate({**o, "c": []}, st.pl).name, f"name of {o['nm']} with {len(o['c'])} controls: {g.name}")
        if isinstance(g, Parametric) and not o["c"] and not g.sparse:
            # every rotation has two eigenvalues of its generator, 2 apart
            ok, gap = p.call("spectral_gap", lambda: np.asarray(g.spectral_gap).ravel())
            if ok:
                p.close(gap, np.array([2.0]), f"{o['nm']}.spectral_gap")
    for o, sup in zip(case["obs"], b["osup"]):
        ok, got = p.call("observable.qubit_support", lambda: st.observable(o["o"]).qubit_support)
        want = tuple(sorted(st.pl.qubit(w) for w in sup))
        if ok:
            p.expect(tuple(got) == want, f"observable.qubit_support: {got}, expected {want}")


def freeze_gate(g):
    x = (type(g).__name__, g.generator_name, g.target, g.noise)
    ctl = tuple(c for c in g.control[0] if c is not None) if isinstance(g.control[0], tuple) else tuple(
        c for c in g.control if c is not None)
    param = getattr(g, "param", None)
    if isinstance(param, (int, float)):  # up to its period
        param = tuple(round(t(param / 2), 6) + 0.0 for t in (math.cos, math.sin))
    return x + (ctl, param)


def ansatz(case, rng, p):
    n, L = case["n"], case["layers"]
    rots = [im.ROT[x] for x in case["rots"]]
    prefix = rng.choice(["v_", "theta", "x_"])
    default = case["rots"] == ["RX", "RY", "RX"]
    what = f"hea({n}, {L}, {case['rots']})"
    if default and rng.random() < 0.7:
        ok, gates = p.call(what, hea, n, L)
        prefix = "v_"
    else:
        ok, gates = p.call(what, hea, n, L, rots, prefix)
    if not ok or not p.expect(len(gates) == len(case["gates"]), f"{what}: {len(gates)} gates, expected {len(case['gates'])}"):
        return
    names = []
    for i, (g, w) in enumerate(zip(gates, case["gates"])):
        ctl = tuple(c for c in np.ravel(np.array(g.control, dtype=object)) if c is not None)
        want = ("X", (w["t"] - 1,), (w["c"] - 1,)) if w["nm"] == "NOT" else (w["nm"][1], (w["t"] - 1,), ())
        p.expect((g.generator_name, tuple(np.ravel(g.target)), ctl) == want,
                 f"{what}: gate {i} is {g}, expected {want}")
        if w["nm"] != "NOT":
            names.append(g.param)
    p.expect(len(set(names)) == len(names), f"{what}: parameter names are not distinct")
    p.expect(all(isinstance(x, str) and x.startswith(prefix) for x in names), f"{what}: names without the prefix {prefix}")
    circ = QuantumCircuit(n, gates)
    p.expect(set(circ.param_names) == set(names) and circ.n_vparams == len(names), f"{what}: parameter bookkeeping")
    if names and rng.random() < 0.5:
        fps = rng.sample(names, rng.randint(0, len(names)))
        c2 = QuantumCircuit(n, gates, fps)
        p.expect(c2.vparams == set(names) - set(fps), f"{what}: variational parameters with {len(fps)} feature parameters")
        p.expect(c2.n_vparams == len(names) - len(fps), f"{what}: n_vparams with {len(fps)} feature parameters")
    ok, again = p.call(what, hea, n, L, rots, prefix)
    if ok and names:
        p.expect(not ({g.param for g in again if isinstance(g, Parametric)} & set(names)),
                 f"{what}: a second ansatz reuses parameter names")


# -- C22: refusals ---------------------------------------------------------------------------
def demand(case, rng, p):
    r, refuse = case["req"], set(case["refuse"])
    what = json.dumps(r, sort_keys=True)
    try:
        fn, verify = request(r, rng)
    except Exception as e:  # noqa: BLE001
        p.expect(False, f"{what}: preparing the request raised {type(e).__name__}: {e}")
        return
    try:
        got = fn()
    except Exception as e:  # noqa: BLE001
        kinds = {c.__name__ for c in type(e).__mro__}
        if not refuse:
            p.expect(False, f"{what}: refused with {type(e).__name__}: {str(e)[:150]}")
        else:
            p.expect("any" in refuse or bool(kinds & refuse),
                     f"{what}: refused with {type(e).__name__}, expected {sorted(refuse)}")
        return
    if p.expect(not refuse, f"{what}: answered with {str(got)[:80]}, expected {sorted(refuse)}") and verify:
        msg = verify(got)
        p.expect(not msg, f"{what}: {msg}")


def request(r: dict, rng):
    """The call to make, and a test of its answer."""
    noise = (DigitalNoiseInstance(DigitalNoiseType.BITFLIP, 0.1),) if r.get("noise") else None
    N = 2
    c = r["call"]
    if c in ("expectation", "sample", "run"):
        gates = [im.ROT["RX"]("a", 0), im.GATES["H"](1, noise=noise), NOT(1, 0), im.ROT["RZ"]("b", 1, 0),
                 im.ROT["PHASE"]("b", 0)]
        rng.shuffle(gates)
        circ = QuantumCircuit(N, gates) if rng.random() < 0.5 else OpSequence([gates[0], OpSequence(gates[1:])])
        state = ou.product_state(rng.choice(["00", "01", "11"]))
        if r["dm"]:
            state = density_mat(state)
        values = {"a": 0.3, "b": 1.1}
        if r["missing"] == "circuit":
            del values[rng.choice(["a", "b"])]
        dm_out = r["dm"] or r["noise"]
    if c == "expectation":
        obs = [Observable([Scale(im.GATES["Z"](0), "s"), im.GATES["X"](1)]), Observable([im.GATES["Z"](1)])]
        obs = [Observable([Scale(OpSequence([im.GATES["Z"](0)]), "s")])] if r["nobs"] == 1 else obs
        ovalues = {} if r["missing"] == "observable" else {"s": 2.0}
        if r["missing"] == "strayed circuit" and r["split"]:
            q = rng.choice(["a", "b"])
            ovalues[q] = values.pop(q)
        if r["missing"] == "strayed observable" and r["split"]:
            values["s"] = ovalues.pop("s")
            if rng.random() < 0.5:
                ovalues["u"] = 1.0
        vals = {"circuit": values, "observables": ovalues} if r["split"] else {**values, **ovalues}
        mode = {"ad": DiffMode.AD, "adjoint": DiffMode.ADJOINT, "gpsr": DiffMode.GPSR,
                "bogus": rng.choice(["bogus", "AD", "parameter_shift"])}[r["mode"]]
        n = len(obs)
        return (lambda: expectation(state, circ, obs, vals, mode, n_shots=r["shots"]),
                lambda x: None if np.asarray(x).shape == (n,) and np.isfinite(np.asarray(x)).all()
                else f"answered {x}")
    if c == "sample":
        return (lambda: sample(state, circ, values, r["shots"]),
                lambda x: None if isinstance(x, Counter) and sum(x.values()) == r["shots"] else f"answered {x}")
    if c == "run":
        fn = {"gate": lambda: apply_gates(apply_gates(apply_gates(state, gates[0], values), gates[1:3], values),
                                          gates[3:], values),
              "list": lambda: apply_gates(state, gates, values),
              "circuit": lambda: run(circ, state, values),
              "call": lambda: circ(state, values)}[r["form"]]
        return fn, lambda x: None if isinstance(x, DensityMatrix) == dm_out else f"answered a {type(x).__name__}"
    if c == "tensor":
        kw = {"sparse": r["sparse"]}
        a, b = rng.choice([(1, 3), (3, 1)])
        g, h = im.GATES["H"](a, **kw), im.ROT["RY"]("a", b, **kw)
        z = im.GATES["Z"](b, **kw)
        obj = {"gate": im.GATES["SWAP"]((3, 1), **kw), "controlled": NOT(3, 1, **kw), "rotation": im.ROT["RX"]("a", 1, 3, **kw),
               "seq": OpSequence([g, h]), "circuit": QuantumCircuit(4, [g, OpSequence([h])]),
               "add": Add([g, z]), "scale": Scale([g, z], 0.5), "observable": Observable([g, Scale(z, 2.0)])}[r["object"]]
        support = {"none": None, "equal": (1, 3), "larger": rng.choice([(1, 2, 3), (3, 0, 1), (0, 1, 2, 3)]),
                   "smaller": rng.choice([(1,), (3,)]),
                   # around, next to or beyond the qubits of the object, without one or both of them
                   "disjoint": rng.choice([(0, 2), (0, 1), (2, 3), (4, 5), (0, 4), (0, 2, 4), (0, 1, 4), (3, 0, 5),
                                           (5, 2, 0, 3)])}[r["support"]]
        values = {} if r["missing"] == "circuit" else {"a": 0.4}
        d = 4 if support is None else 2 ** len(support)

        def ok(x):
            if tuple(x.shape) != (d, d):
                return f"shape {x.shape}"
            return None if isinstance(x, BCOO) == r["sparse"] else f"a {type(x).__name__}"
        return (lambda: obj.tensor(values) if support is None else obj.tensor(values, support)), ok
    if c == "sparse":
        gates = [im.GATES["H"](0, sparse=True), im.ROT["RX"](0.3, 1, 0 if r["controlled"] else None, noise=noise, sparse=True)]
        state = ou.zero_state(2, sparse=True)
        fn = {"gate": lambda: apply_gates(state, gates[1]), "list": lambda: apply_gates(state, gates),
              "circuit": lambda: run(QuantumCircuit(2, gates), state)}[r["form"]]
        return fn, lambda x: None if isinstance(x, BCOO) else f"a {type(x).__name__}"
    if c == "convert":
        g, h = im.GATES["H"](1), im.ROT["RY"]("a", 0)
        obj = {"array": jnp.ones((2, 2)), "bcoo": BCOO.fromdense(jnp.ones((2, 2))), "gate": g, "rotation": h,
               "seq": OpSequence([g, h]), "circuit": QuantumCircuit(2, [g, h]), "add": Add([g, h]),
               "scale": Scale([g, h], "s"), "observable": Observable([g, h]), "str": "circuit", "dict": {"a": 1},
               "none": None, "number": 3.0}[r["object"]]
        fn = to_sparse if r["to"] == "sparse" else to_dense
        if r["object"] in ("array", "bcoo"):
            return lambda: fn(obj), lambda x: None if isinstance(x, BCOO) == (r["to"] == "sparse") else f"a {type(x).__name__}"

        def ok(x):
            if type(x) is not type(obj):
                return f"a {type(x).__name__}"
            gs = [x] if isinstance(x, Primitive) else x.operations
            return None if all(q.sparse == (r["to"] == "sparse") for q in gs) else "wrong representation"
        return lambda: fn(obj), ok
    raise AssertionError(c)


# -- C23: state helpers ----------------------------------------------------------------------
def states(case, rng, p):
    kind = case["what"]
    if kind == "product":
        bits = "".join(map(str, case["bits"]))
        n = len(bits)
        want = im.arr(case["array"]).reshape((2,) * n)
        for sparse in (False, True):
            ok, got = p.call(f"product_state({bits}, {sparse})", ou.product_state, bits, sparse)
            if ok:
                p.expect(isinstance(got, BCOO) == sparse, f"product_state({bits}, {sparse}) is a {type(got).__name__}")
                p.close(im.dense(got), want, f"product_state({bits}, {sparse})", 0.0)
        if set(bits) == {"0"}:
            for sparse in (False, True):
                ok, got = p.call(f"zero_state({n}, {sparse})", ou.zero_state, n, sparse)
                if ok:
                    p.expect(isinstance(got, BCOO) == sparse, f"zero_state({n}, {sparse}) is a {type(got).__name__}")
                    p.close(im.dense(got), want, f"zero_state({n}, {sparse})", 0.0)
        ok, pr = p.call("probabilities", lambda: ou.probabilities(ou.product_state(bits)))
        if ok:
            p.close(pr, np.abs(want.ravel()) ** 2, f"probabilities of {bits}")
        ok, c = p.call("sample of a product state", lambda: sample(ou.product_state(bits), OpSequence([im.GATES["I"](0)]), {}, 5))
        if ok:
            p.expect(c == Counter({bits: 5}), f"5 samples of {bits}: {c}")
        return
    if kind == "uniform":
        n = case["n"]
        amp = im.arr(case["amp"])[0]
        for sparse in (False, True):
            ok, got = p.call(f"uniform_state({n}, {sparse})", ou.uniform_state, n, sparse)
            if ok:
                p.expect(isinstance(got, BCOO) == sparse, f"uniform_state({n}, {sparse}) is a {type(got).__name__}")
                p.close(im.dense(got), np.full((2,) * n, amp), f"uniform_state({n}, {sparse})", 1e-12)
            ok, a = p.call(f"random_state({n}, {sparse})", ou.random_state, n, sparse)
            if ok:
                p.expect(isinstance(a, BCOO) == sparse, f"random_state({n}, {sparse}) is a {type(a).__name__}")
                d = im.dense(a)
                p.expect(d.shape == (2,) * n, f"random_state({n}): shape {d.shape}")
                p.expect(abs((np.abs(d) ** 2).sum() - 1) < 1e-9, f"random_state({n}) is not normalised")
                p.expect(np.abs(d).min() > 0 and np.unique(np.abs(d)).size == d.size, f"random_state({n}) is degenerate")
                p.close(im.dense(ou.random_state(n, sparse)), d, f"random_state({n}) again", 0.0)
                p.close(im.dense(ou.random_state(n, not sparse)), d, f"random_state({n}) in the other form", 1e-12)
        return
    n = case["n"]
    a, b = im.arr(case["a"]).reshape((2,) * n), im.arr(case["b"]).reshape((2,) * n)
    na, nb = math.sqrt(im.real(case["na"])), math.sqrt(im.real(case["nb"]))
    A, B = jnp.asarray(a / na), jnp.asarray(b / nb)
    # amplitudes that happen to be real may be real numbers
    if not np.any(a.imag) and rng.random() < 0.5:
        A = A.real
    if not np.any(b.imag) and rng.random() < 0.5:
        B = B.real
    sp = rng.random() < 0.05
    if sp:
        A, B = BCOO.fromdense(A), BCOO.fromdense(B)
    what = "sparse states" if sp else "states"
    what += f" {np.round(a.ravel() / na, 3)} and {np.round(b.ravel() / nb, 3)}"
    ok, got = p.call(f"inner of {what}", ou.inner, A, B)
    if ok:
        p.close(im.dense(got).reshape(()), im.arr(case["inner"])[0] / na / nb, f"inner of {what}")
    want = im.real(case["overlap"]) / (na * nb) ** 2
    ok, got = p.call(f"overlap of {what}", ou.overlap, A, B)
    if ok:
        p.close(im.dense(got).reshape(()), want, f"overlap of {what}")
    ok, got = p.call(f"equivalent_state of {what}", ou.equivalent_state, A, B)
    if ok:
        p.expect(bool(got) == case["same"], f"equivalent_state of {what}: {got}, expected {case['same']}")
    if sp:
        ok, got = p.call(f"is_normalized of {what}", ou.is_normalized, A)
        if ok:
            p.expect(bool(got), f"is_normalized of a normalised state {what}")
        return
    ok, got = p.call(f"is_normalized of {what}", ou.is_normalized, A)
    if ok:
        p.expect(bool(got), f"is_normalized of a normalised state {what}")
    f = rng.choice([0.5, 0.9, 1.1, 2.0])
    ok, got = p.call(f"is_normalized of {what}", ou.is_normalized, f * A)
    if ok:
        p.expect(not bool(got), f"is_normalized accepts norm {f}")
    rho = im.arr(case["rho"]).reshape((2,) * (2 * n)) / na**2
    ok, got = p.call(f"density_mat of {what}", ou.density_mat, A)
    if ok and p.expect(isinstance(got, DensityMatrix), "density_mat gives no DensityMatrix"):
        p.close(im.dense(got), rho, f"density_mat of {what}")
        ok, again = p.call("density_mat of a density matrix", ou.density_mat, got)
        if ok and p.expect(isinstance(again, DensityMatrix), "density_mat of a DensityMatrix"):
            p.close(im.dense(again), im.dense(got), "density_mat of a density matrix", 0.0)
    ok, got = p.call("hilbert_reshape", ou.hilbert_reshape, jnp.asarray(rho.reshape(2**n, 2**n)))
    if ok:
        p.close(got, rho, f"hilbert_reshape of the density matrix of {what}", 0.0)
    ok, got = p.call("hilbert_reshape", ou.hilbert_reshape, jnp.asarray(A).ravel())
    if ok:
        p.close(got, a / na, f"hilbert_reshape of {what}")
    probs = np.array([im.real(x) for x in case["probs"]]) / na**2
    ok, got = p.call(f"probabilities of {what}", ou.probabilities, A)
    if ok:
        p.close(got, probs, f"probabilities of {what}")
    ok, got = p.call(f"probabilities of the density matrix of {what}", ou.probabilities,
                     DensityMatrix(jnp.asarray(rho.reshape(2**n, 2**n))))
    if ok:
        p.close(got, probs, f"probabilities of the density matrix of {what}")
    ok, got = p.call(f"probabilities of density_mat of {what}", lambda: ou.probabilities(ou.density_mat(A)))
    if ok:
        p.close(got, probs, f"probabilities of density_mat of {what}")
    for s, m in ((A, n), (DensityMatrix(jnp.asarray(rho)), n)):
        ok, got = p.call("num_qubits", ou.num_qubits, s)
        if ok:
            p.expect(got == m, f"num_qubits of a {type(s).__name__} of {m} qubits: {got}")
