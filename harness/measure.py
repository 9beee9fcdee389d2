"""Replays for noise channels, measurements with shots, sampling, sparse arrays and
Hamiltonian evolution."""
from __future__ import annotations

import itertools
import math
from collections import Counter

import impl as im
import jax
import jax.numpy as jnp
import numpy as np
from horqrux.analog import HamiltonianEvolution
from horqrux.api import expectation, run, sample
from horqrux.apply import apply_gates
from horqrux.circuit import QuantumCircuit
from horqrux.composite import Add, Observable, OpSequence, Scale
from horqrux.noise import DigitalNoiseInstance, DigitalNoiseType
from horqrux.utils.conversion import to_dense, to_sparse
from horqrux.utils.operator_utils import DensityMatrix, DiffMode, OperationType
from jax.experimental.sparse import BCOO
from replay import (Setup, build_values, check_state, dict_, exact_modes, flat_values, full_matrix,
                    grad_want, named, present_names, restrict, split_values)


# -- C06: noise channels ---------------------------------------------------------------------
def channel(case, rng, p):
    spell = rng.choice([float, np.float64, lambda x: int(x) if x == int(x) else x])
    ps = tuple(spell(im.ratio(x)) for x in case["pr"])
    single = case["ty"] not in ("PauliChannel", "GeneralizedAmplitudeDamping")
    prob = ps[0] if single else ps
    what = f"{case['ty']} with {prob}"

    def make():
        return DigitalNoiseInstance(DigitalNoiseType(case["ty"]), prob)

    N = rng.choice([1, 1, 2])
    q = rng.randrange(N)
    nm = rng.choice(["I", "X", "H", "S", "RX"])
    v = np.array([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(2**N)])
    v = (v / np.linalg.norm(v)).reshape((2,) * N)
    form = rng.randrange(3)
    op = {"nm": nm, "t": [1], "c": [], "p": "", "a": [1, 0], "ps": [], "ns": []}
    pl = im.Placement(1, N, (q,), [np.array([1.0, 0.0])] * (N - 1))

    def applied():
        args = (0.7, q) if nm == "RX" else (q,)
        g = (im.ROT if nm == "RX" else im.GATES)[nm](*args, noise=(make(),))
        s = jnp.asarray(v)
        if form == 1:
            s = DensityMatrix(jnp.asarray(np.tensordot(v, v.conj(), axes=0)))
        if form == 2:
            return run(QuantumCircuit(N, [g]), s)
        return apply_gates(s, g)

    if not case["ok"]:
        for name, fn in (("Kraus operators", lambda: make().kraus), ("noisy gate", applied)):
            try:
                r = fn()
                p.expect(False, f"{what}: {name} given although the probabilities are not: {str(r)[:120]}")
            except ValueError:
                pass
            except Exception as e:  # noqa: BLE001
                p.expect(False, f"{what}: {name} refused with {type(e).__name__}, not ValueError")
        return
    if case["brink"]:
        try:
            make().kraus
        except ValueError:
            return
    ok, ks = p.call(f"{what}: Kraus operators", lambda: [np.asarray(k) for k in make().kraus])
    if not ok:
        return
    p.close(sum(k.conj().T @ k for k in ks), np.eye(2), f"{what}: completeness of the Kraus operators")
    if not case["ch"]:
        sup = sum(np.kron(k, k.conj()) for k in ks)
    else:
        sup = im.arr(case["ch"][0]).reshape(4, 4)
        p.close(sum(np.kron(k, k.conj()) for k in ks), sup, f"{what}: map of the Kraus operators")
    ok, got = p.call(f"{what} on {nm}", applied)
    if not ok or not p.expect(isinstance(got, DensityMatrix), f"{what}: noise gives {type(got).__name__}"):
        return
    U = {"I": np.eye(2), "X": im.PAULI["X"], "H": np.array([[1, 1], [1, -1]]) / im.SQ2, "S": np.diag([1, 1j]),
         "RX": np.cos(0.35) * np.eye(2) - 1j * np.sin(0.35) * im.PAULI["X"]}[nm]
    w = np.moveaxis(np.tensordot(U, v, axes=(1, q)), 0, q)
    rho = np.tensordot(w, w.conj(), axes=0)
    t = np.moveaxis(rho, (q, N + q), (0, 1)).reshape(4, -1)
    t = np.moveaxis((sup @ t).reshape((2, 2) + (2,) * (2 * N - 2)), (0, 1), (q, N + q))
    p.close(im.dense(got), t, f"{what} after {nm} on qubit {q} of {N}")


# -- C13: expectation values with shots ------------------------------------------------------
def spectrum(M: np.ndarray, final: np.ndarray, is_dm: bool):
    """Distinct eigenvalues with their Born probabilities."""
    w, V = np.linalg.eigh(M)
    d = M.shape[0]
    if is_dm:
        pr = np.einsum("ij,jk,ki->i", V.conj().T, final.reshape(d, d), V).real
    else:
        pr = np.abs(V.conj().T @ final.ravel()) ** 2
    out: list = []
    for x, y in zip(w, pr):
        if out and abs(out[-1][0] - x) < 1e-7:
            out[-1][1] += y
        else:
            out.append([x, y])
    return np.array(out)


def slack(sd: float, width: float, n: int) -> float:
    """Deviation of a mean of n draws that practically never occurs (Bernstein)."""
    L = 25.0  # exp(-25)
    return math.sqrt(2 * L * sd**2 / n) + 2 * L * width / (3 * n) + 1e-9


def spread_check(p, draws: np.ndarray, mean: float, var: float, width: float, kurt: float, what: str):
    """Repetitions with different keys scatter with variance `var` around `mean`."""
    K = len(draws)
    p.expect(abs(draws.mean() - mean) <= slack(math.sqrt(var), width, K),
             f"{what}: mean {draws.mean():.5f} of {K} repetitions, expected {mean:.5f}")
    if var < 1e-12:
        p.expect(float(np.abs(draws - mean).max()) < 1e-8, f"{what}: scatters on an eigenstate")
        return
    rel = math.sqrt((2 + kurt) / K)
    got = ((draws - mean) ** 2).mean() / var
    if kurt == 0.0:  # many draws each: practically normal
        p.expect(got <= 1 + 12 * rel, f"{what}: variance is {got:.3f} of the one of independent draws")
    if 7 * rel < 0.8:
        p.expect(1 - 7 * rel <= got <= 1 + 12 * rel,
                 f"{what}: variance is {got:.3f} of the one of independent draws")


def shots(case, rng, p):
    st = Setup(case, rng, extra=1)
    values, _ = split_values(case, st, rng)
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    order = list(range(len(obs)))
    rng.shuffle(order)
    mode = im.exact_mode(rng.choice([DiffMode.AD, DiffMode.GPSR]), rng)
    key = jax.random.PRNGKey(rng.randrange(1000))
    final, is_dm = st.want(case["final"])
    exact = [st.number(o["e"]) for o in case["obs"]]
    var = [max(0.0, st.number(o["e2"][0]) - e * e) for o, e in zip(case["obs"], exact)]
    specs = [spectrum(full_matrix(o["m"], st.pl), final, is_dm) for o in case["obs"]]
    for sp, e, v in zip(specs, exact, var):  # the two ways of computing the statistics agree
        assert abs((sp[:, 0] * sp[:, 1]).sum() - e) < 1e-7
    for n in (1, rng.choice([4000, 60000, 400000, 2**18, 2**16, 10**6, 100_003])):
        what = f"{n} shots, {mode}, {len(obs)} observables"
        fn = lambda k: expectation(st.state(), circ, [obs[i] for i in order], values, mode, n_shots=n, key=k)
        ok, got = p.call(what, fn, key)
        if not ok:
            return
        got = np.asarray(got)
        if not p.expect(got.shape == (len(obs),), f"{what}: shape {got.shape}"):
            return
        p.expect(not np.iscomplexobj(got) or np.abs(got.imag).max() == 0, f"{what}: complex values")
        for g, i in zip(got.real, order):
            sp = specs[i]
            lo, hi = sp[0, 0], sp[-1, 0]
            p.expect(lo - 1e-8 <= g <= hi + 1e-8, f"{what}: {g} outside the spectrum [{lo}, {hi}]")
            p.expect(abs(g - exact[i]) <= slack(math.sqrt(var[i]), hi - lo, n),
                     f"{what}: {g:.5f}, expected {exact[i]:.5f} with deviation {math.sqrt(var[i] / n):.5f}")
            if n == 1:
                hit = [y for x, y in sp if abs(x - g) < 1e-6]
                p.expect(bool(hit) and hit[0] > 1e-12, f"{what}: {g} is no possible outcome of {sp.tolist()}")
        if n > 1 and rng.random() < 0.5:
            ok, again = p.call(what, fn, key)
            if ok:
                p.close(again, got, f"{what}: repetition with the same key", 0.0)
    # many short measurements scatter like independent draws, also those of different observables
    n, K = 4, 500
    order = order + [rng.choice(order)]
    keys = jax.random.split(jax.random.PRNGKey(rng.randrange(1000)), K)
    f = jax.vmap(lambda k: expectation(st.state(), circ, [obs[i] for i in order], values, mode, n_shots=n, key=k))
    ok, got = p.call(f"{K} times {n} shots", f, keys)
    if not ok:
        return
    kappa = []  # fourth cumulants of the means
    for j, i in enumerate(order):
        sp = specs[i]
        kurt = 0.0
        if var[i] > 1e-12:
            kurt = (((sp[:, 0] - exact[i]) ** 4 * sp[:, 1]).sum() / var[i] ** 2 - 3) / n
        kappa.append(kurt * (var[i] / n) ** 2)
        spread_check(p, np.asarray(got)[:, j].real, exact[i], var[i] / n, sp[-1, 0] - sp[0, 0], max(0.0, kurt),
                     f"{K} times {n} shots")
    if rng.random() < 0.2:
        # and so do long ones
        n_long, k_long = 400000, 40
        g = lambda k: expectation(st.state(), circ, obs, values, mode, n_shots=n_long, key=k)  # noqa: E731
        ok, long = p.call(f"{k_long} times {n_long} shots", lambda: jax.lax.map(g, keys[:k_long]))
        if ok:
            for i, sp in enumerate(specs):
                spread_check(p, np.asarray(long)[:, i].real, exact[i], var[i] / n_long, sp[-1, 0] - sp[0, 0], 0.0,
                             f"{k_long} times {n_long} shots")
    sign = np.array([rng.choice([-1.0, 1.0]) for _ in order])
    if sum(var[i] > 1e-12 for i in order) > 1:
        total = sum(var[i] for i in order) / n
        spread_check(p, np.asarray(got).real @ sign, float(sign @ np.array([exact[i] for i in order])), total,
                     sum(specs[i][-1, 0] - specs[i][0, 0] for i in order), max(0.0, sum(kappa) / total**2),
                     f"{K} times {n} shots, combination of {len(order)} observables")


# -- C14: parameter-shift gradients with shots -----------------------------------------------
def shot_grad(case, rng, p):
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    st = Setup(case, rng, extra=0)
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    names = present_names(case)
    vals = flat_values(case, st)
    n = rng.choice([2000, 5000])
    key = jax.random.PRNGKey(rng.randrange(1000))
    ops = im.flat_ops(case["prog"])
    uses = {q: [o for o in ops if o["p"] == q] for q in names}
    width = []
    for o in case["obs"]:
        w = np.linalg.eigvalsh(full_matrix(o["m"], st.pl))
        width.append(w[-1] - w[0])
    env = dict_(case["env"])
    cnames = [q for q in names if q in env]
    want = np.array([[grad_want(case, st, q, i) for q in cnames] for i in range(len(obs))])

    def tolerance(i, q):  # an unused parameter counts as one occurrence
        # every occurrence: coefficients with squares at most 1/4 in total, each on a
        # difference of two means of draws from an interval of length `width`
        sd = math.sqrt(max(1, len(uses[q])) * 0.25 * 2 * width[i] ** 2 / 4)
        return slack(sd, width[i], n)

    tol = np.array([[tolerance(i, q) for q in cnames] for i in range(len(obs))])
    svals = im.values_of(None, case["senv"], st.rename)

    def f(v, k, m):
        return expectation(st.state(), circ, obs, {**{st.rename(q): x for q, x in v.items()}, **svals},
                           spelled, n_shots=m, key=k)

    spelled = im.exact_mode(DiffMode.GPSR, rng)
    cvals = {q: vals[q] for q in cnames}
    way = rng.choice(["jacfwd", "grad", "bwd"])
    what = f"shot gradient {way} with {n} shots, {len(ops)} gates"
    h = lambda v: f(v, key, n)  # noqa: E731
    if way != "bwd" and rng.random() < 0.25:
        h = jax.jit(h)
        what += ", of a compiled function"
    if way == "bwd":
        ok, got = p.call(what, lambda: np.asarray(finite_shots_gpsr_backward(
            st.state(), list(iter(circ)), obs,
            {**{st.rename(q): float(x) for q, x in cvals.items()}, **svals}, n, key)))
        if ok:
            got = got[: len(cnames)]
            bad = np.abs(got - want.sum(axis=0)) > tol.sum(axis=0)
            p.expect(not bad.any(), f"{what}: {got} expected {want.sum(axis=0)} within {tol.sum(axis=0)}")
    elif way == "jacfwd":
        ok, got = p.call(what, jax.jacfwd(h), cvals)
        if ok:
            got = np.stack([np.asarray(got[q]) for q in cnames], -1)
            bad = np.abs(got - want) > tol
            p.expect(not bad.any(), f"{what}: {got} expected {want} within {tol}")
    else:
        ok, got = p.call(what, jax.grad(lambda v: h(v).sum()), cvals)
        if ok:
            got = np.array([float(got[q]) for q in cnames])
            bad = np.abs(got - want.sum(axis=0)) > tol.sum(axis=0)
            p.expect(not bad.any(), f"{what}: {got} expected {want.sum(axis=0)} within {tol.sum(axis=0)}")
            ok, again = p.call(what, jax.grad(lambda v: h(v).sum()), cvals)
            if ok:
                p.close(np.array([float(again[q]) for q in cnames]), got, f"{what}: repetition with the same key", 0.0)
    shot_grad_spread(case, rng, p, st, circ, obs, cnames, cvals, svals, want, width, f)


def shot_grad_spread(case, rng, p, st, circ, obs, cnames, cvals, svals, want, width, f):
    """Every evaluation of the parameter-shift rule is independent of the others: a combination of
    derivatives scatters with the sum of the variances."""
    from horqrux.differentiation.gpsr import finite_shots_gpsr_backward

    places = [[dict(x, i=i) for x in o["sh"]] for i, o in enumerate(case["obs"])]
    # the rule of controlled rotations is left open: only parameters without them
    plain = [q for q in cnames if {x["q"] for x in places[0] if x["ctl"]}.isdisjoint([q])
             and any(x["q"] == q for x in places[0])]
    if not plain:
        return
    m, K = 4, 400
    keys = jax.random.split(jax.random.PRNGKey(rng.randrange(1000)), K)
    sign = {q: rng.choice([-1.0, 1.0]) for q in plain}
    for way in ("jacfwd", "bwd"):
        seen = set(range(len(obs))) if way == "bwd" or rng.random() < 0.5 else {rng.randrange(len(obs))}
        if way == "bwd":
            g = lambda k: finite_shots_gpsr_backward(  # noqa: E731
                st.state(), list(iter(circ)), obs, {**{st.rename(q): float(x) for q, x in cvals.items()}, **svals},
                m, k)
            fn = lambda k: sum(sign[q] * g(k)[cnames.index(q)] for q in plain)  # noqa: E731
        else:
            def fn(k):
                jac = jax.jacfwd(lambda v: f({**cvals, **v}, k, m))({q: cvals[q] for q in plain})
                return sum(sign[q] * jac[q][i] for q in plain for i in seen)
        ok, got = p.call(f"repeated shot gradients by {way}", jax.vmap(fn), keys)
        if not ok:
            return
        mean = sum(sign[q] * want[i][cnames.index(q)] for q in plain for i in seen)
        var = kurt = 0.0
        for i in seen:
            for x in places[i]:
                if x["q"] in plain:
                    for e, e2 in (x["up"], x["down"]):
                        v = max(0.0, st.number(e2) - st.number(e) ** 2) / 4
                        var += v
                        kurt += width[i] ** 2 / 4 * v / m  # of draws from an interval: at most w^2 v
        kurt = kurt / var**2 if var > 1e-12 else 0.0
        wide = sum(width[i] for i in seen for x in places[i] if x["q"] in plain)
        spread_check(p, np.asarray(got), mean, var / m, wide, kurt,
                     f"{K} gradients by {way} with {m} shots, {len(places[0])} occurrences")


# -- C15: sampling ---------------------------------------------------------------------------
def samples(case, rng, p):
    st = Setup(case, rng, extra=1, huge=0.06, governed=(0.1, 2))
    final, is_dm = st.want(case["final"])
    N = st.pl.N
    d = 2**N
    probs = final.reshape(d, d).diagonal().real if is_dm else np.abs(final.ravel()) ** 2
    # the probabilities of the specification, on its own wires
    n = case["n"]
    own = np.array([im.real(r) for r in case["probs"]]) * st.rho_scale
    grid = probs.reshape((2,) * N)
    marg = np.moveaxis(grid, st.pl.at, range(n)).reshape(2**n, -1).sum(axis=1)
    assert np.abs(marg - own).max() < 1e-9
    circ = st.circuit()
    values = st.values()
    many = [3000, 30000] + ([2**17, 400_000, 10**6 + 1] if N <= 6 else [])
    for shots_ in (rng.choice([1, 2, 3]), rng.choice(many)):
        what = f"{shots_} samples of {len(im.flat_ops(case['prog']))} gates on {N} qubits"
        kw = {} if rng.random() < 0.5 or shots_ != 1000 else {}
        ok, got = p.call(what, lambda: sample(st.state(), circ, values, shots_, **kw))
        if not ok or not p.expect(isinstance(got, Counter), f"{what}: {type(got).__name__} returned"):
            return
        p.expect(sum(got.values()) == shots_, f"{what}: {sum(got.values())} counts")
        for k, c in got.items():
            if not p.expect(isinstance(k, str) and len(k) == N and set(k) <= {"0", "1"}, f"{what}: outcome {k!r}"):
                return
            p.expect(isinstance(c, (int, np.integer)) and c > 0, f"{what}: count {c!r}")
            p.expect(probs[int(k, 2)] > 1e-12, f"{what}: impossible outcome {k} observed {c} times")
        for x in range(d):
            c = got.get(format(x, f"0{N}b"), 0)
            pr = probs[x]
            dev = abs(c / shots_ - pr)
            p.expect(dev <= slack(math.sqrt(max(0.0, pr * (1 - pr))), 1.0, shots_),
                     f"{what}: {format(x, f'0{N}b')} observed {c} times, probability {pr:.5f}")


# -- C16: sparse arrays ----------------------------------------------------------------------
def gate_sparse(case, rng, p):
    """A sparse gate on a sparse state."""
    st = Setup(case, rng, extra=0, linear=True)
    op, values = named(case["op"], rng)
    want, _ = st.want(case["final"])
    what = f"sparse {op['nm']} on {st.pl.qubits(op['t'])} controls {st.pl.qubits(op['c'])} of {st.pl.N}"
    if rng.random() < 0.5:
        ok, g = p.call(f"{what}: construction", im.gate, op, st.pl, rng, sparse=True)
    else:
        ok, g = p.call(f"{what}: construction", lambda: to_sparse(im.gate(op, st.pl, rng)))
    if not ok:
        return
    s = BCOO.fromdense(jnp.asarray(st.init), nse=2**st.pl.N)
    ok, got = p.call(what, (lambda: apply_gates(s, g, values)) if rng.random() < 0.5 else (lambda: g(s, values)))
    if ok and p.expect(isinstance(got, BCOO), f"{what}: not sparse"):
        p.close(im.dense(got), want, what, st.tol)
    ok, back = p.call(f"{what}: to_dense", to_dense, g)
    if ok:
        ok, got = p.call(f"{what} there and back", apply_gates, st.state(), back, values)
        if ok:
            check_state(p, got, want, False, f"{what} there and back", st.tol)
    ok, t = p.call(f"{what}: tensor", g.tensor, values)
    ok2, td = p.call(f"{what}: tensor", im.gate(op, st.pl, rng).tensor, values)
    if ok and ok2:
        p.expect(isinstance(t, BCOO), f"{what}: tensor not sparse")
        p.close(im.dense(t), im.dense(td), f"{what}: tensor against the dense one")


def sparse(case, rng, p):
    st = Setup(case, rng, extra=rng.choice([0, 0, 1]), governed=(0.1, 1))
    if not st.pure:
        return
    values = st.values()
    want, _ = st.want(case["final"])
    state = jnp.asarray(st.init)
    ok, sp = p.call("to_sparse of a state", to_sparse, state)
    if not ok or not p.expect(isinstance(sp, BCOO), "to_sparse of a state gives no BCOO"):
        return
    p.close(im.dense(to_dense(sp)), st.init, "state there and back", 0.0)
    circ = st.circuit()
    how = rng.randrange(3)
    if how == 0:
        ok, scirc = p.call("to_sparse of a circuit", to_sparse, circ)
        what = "converted circuit"
    elif how == 1:
        ok, scirc = p.call("circuit of sparse gates", lambda: st.circuit(sparse=True))
        what = "circuit of sparse gates"
    else:
        ok, scirc = p.call("to_sparse of gates", lambda: OpSequence([to_sparse(g) for g in st.gates()]))
        what = "sequence of converted gates"
    if not ok:
        return
    form = rng.choice(["called", "run", "by apply_gates"])
    for name, fn in (("called", lambda: scirc(sp, values)), ("run", lambda: run(scirc, sp, values)),
                     ("by apply_gates", lambda: apply_gates(sp, list(iter(scirc)), values))):
        if name != form:
            continue
        ok, got = p.call(f"{what} {name}", fn)
        if ok:
            if p.expect(isinstance(got, BCOO) or not im.flat_ops(case["prog"]), f"{what} {name}: not sparse"):
                p.close(im.dense(got), want, f"{what} {name}")
    ok, back = p.call("to_dense of a circuit", to_dense, scirc)
    if ok:
        p.expect(type(back) is type(scirc), f"to_dense changed {type(scirc).__name__} to {type(back).__name__}")
        p.expect(getattr(back, "n_qubits", None) == getattr(scirc, "n_qubits", None), "n_qubits lost")
        p.expect(set(back.param_names) == set(circ.param_names), "parameter names lost")
        ok, got = p.call("circuit there and back", lambda: back(state, values))
        if ok:
            check_state(p, got, want, False, "circuit there and back")
    # matrices
    if im.flat_ops(case["prog"]) and all_full(case["prog"]):
        support = tuple(range(st.pl.N)) if rng.random() < 0.5 else None
        ok, t = p.call("tensor of sparse circuit", scirc.tensor, values, support)
        ok2, td = p.call("tensor of dense circuit", circ.tensor, values, support)
        if ok and ok2:
            p.expect(isinstance(t, BCOO), "tensor of a sparse circuit is not sparse")
            p.close(im.dense(t), im.dense(td), "tensor of a sparse circuit against the dense one")
    # observables
    exact = np.array([st.number(o["e"]) for o in case["obs"]])
    how = rng.randrange(2)
    obs = [st.observable(o["o"], sparse=True) if how else None for o in case["obs"]]
    if not how:
        ok, obs = p.call("to_sparse of observables", lambda: [to_sparse(st.observable(o["o"])) for o in case["obs"]])
        if not ok:
            return
        for o in obs:
            p.expect(isinstance(o, Observable), f"to_sparse of an observable gives {type(o).__name__}")
    for mode in rng.sample([DiffMode.AD, DiffMode.ADJOINT], 1):
        ok, got = p.call(f"sparse expectation {mode}", expectation, sp, scirc, obs, values, mode)
        if ok:
            p.close(im.dense(got).reshape(-1), exact, f"sparse expectation {mode}", 1e-8)
    # the dense circuit on a dense state with sparse observables converted back
    ok, dobs = p.call("to_dense of observables", lambda: [to_dense(o) for o in obs])
    if ok:
        ok, got = p.call("expectation with observables there and back", expectation, state, back, dobs, values)
        if ok:
            p.close(got, exact, "expectation with observables there and back", 1e-8)


def conversions(case, rng, p):
    """A program converted to sparse gates and back does the same, noise included."""
    st = Setup(case, rng, extra=rng.choice([0, 1]))
    values = st.values()
    how = rng.randrange(4)
    if how == 0:
        ok, back = p.call("circuit there and back", lambda: to_dense(to_sparse(st.circuit())))
    elif how == 1:
        ok, back = p.call("sequence there and back", lambda: to_dense(to_sparse(OpSequence(st.gates()))))
    elif how == 2:
        ok, back = p.call("gates there and back", lambda: OpSequence([to_dense(to_sparse(g)) for g in st.gates()]))
    else:
        ok, back = p.call("sparse gates made dense", lambda: to_dense(OpSequence(st.gates(sparse=True))))
    if not ok:
        return
    ok, got = p.call("program there and back", lambda: back(st.state(), values))
    if ok and im.flat_ops(case["prog"]):
        check_state(p, got, *st.want(case["final"]), "program there and back")


def all_full(prog) -> bool:
    """No nested sequence is empty."""
    for a, b in zip(prog, prog[1:]):
        if a["k"] == "open" and b["k"] == "close":
            return False
    # brackets around brackets only
    stack = [0]
    for t in prog:
        if t["k"] == "open":
            stack.append(0)
        elif t["k"] == "close":
            if stack.pop() == 0:
                return False
            stack[-1] += 1
        else:
            stack[-1] += 1
    return True


# -- C18: Hamiltonian evolution --------------------------------------------------------------
def hamiltonian(groups, k: int) -> np.ndarray:
    H = np.zeros((2**k, 2**k), dtype=complex)
    for g in groups:
        for t in g:
            m = np.eye(1)
            for s in t["ps"]:
                m = np.kron(m, im.PAULI[s])
            H += t["w"][0] / t["w"][1] * m
    return H


# jax.scipy.linalg.expm is accurate to 2e-8 only for matrices of norms 5.4 to 10.7
EVO_TOL = 3e-7


def spelled(H: np.ndarray, rng):
    """A Hamiltonian, as an array of JAX or numpy; a real one may be of real numbers."""
    if not np.iscomplex(H).any() and rng.random() < 0.6:
        H = H.real.copy()
        if rng.random() < 0.3 and (H == np.round(H)).all():
            H = H.astype(int)
    return H if rng.random() < 0.3 else jnp.asarray(H)


def evolution(case, rng, p):
    st = Setup(case, rng, extra=1)
    wrap = rng.choice([float, lambda x: jnp.asarray(x)])
    # exp(-i t H) depends on the product of time and Hamiltonian only
    f = rng.choice([1.0, 1.0, -1.0, 2.0, 0.5, 0.3, 3.0, 0.01, 25.0, 1e-5, 4e4])
    state = st.state()
    before, is_dm = st.want(case["init"])
    for i, (op, h) in enumerate(zip(im.flat_ops(case["prog"]), case["hist"])):
        want, is_dm = st.want(h)
        g = st.gate(op)
        what = f"operation {i} {op['nm']} on {st.pl.qubits(op['t'])} controls {st.pl.qubits(op['c'])} of {st.pl.N}"
        values = dict(st.values())
        if op["nm"] == "HEVO":
            H = hamiltonian(op["ps"], len(op["t"])) / f
            # every Hamiltonian of the specification has whole eigenvalues: the time is periodic
            turn = 2 * math.pi * rng.choice([1, -2, 5, 40, 120, -300]) if rng.random() < 0.15 else 0.0
            t = (im.theta(op["a"]) / 2 + turn) * f
            values.update(hamiltonian=spelled(H, rng), time_evolution=wrap(t))
        form = rng.randrange(3)
        fn = [lambda s: apply_gates(s, g, values), lambda s: g(s, values),
              lambda s: run(QuantumCircuit(st.pl.N, [g]), s, values)][form]
        prev = state
        ok, state = p.call(what, fn, state)
        if not ok or not check_state(p, state, want, is_dm, what, EVO_TOL):
            return
        if op["nm"] != "HEVO":
            before = want
            continue
        # evolving in two steps
        if rng.random() < 0.5:
            t1 = rng.uniform(-2, 2) * f
            ok, two = p.call(f"{what} in two steps", lambda s: apply_gates(
                apply_gates(s, g, {**values, "time_evolution": wrap(t1)}), g,
                {**values, "time_evolution": wrap(t - t1)}), prev)
            if ok:
                check_state(p, two, want, is_dm, f"{what} in two steps", EVO_TOL)
        # and back
        if rng.random() < 0.5:
            ok, b = p.call(f"{what} back", lambda s: apply_gates(s, g, values, OperationType.DAGGER), state)
            if ok:
                check_state(p, b, before, is_dm, f"{what} back", EVO_TOL)
        # its matrix: for every column
        if rng.random() < 0.5:
            w, V = np.linalg.eigh(H)
            U = V @ np.diag(np.exp(-1j * t * w)) @ V.conj().T
            k = len(op["t"])
            at = list(op["t"]) + list(op["c"])
            full = np.eye(2 ** len(at), dtype=complex).reshape((2**k, 2 ** len(op["c"])) * 2)
            full[:, -1, :, -1] = U
            full = full.reshape(2 ** len(at), -1)
            # order the wires of the operation increasingly
            perm = sorted(range(len(at)), key=lambda j: st.pl.qubit(at[j]))
            L = len(at)
            full = full.reshape((2,) * (2 * L)).transpose(perm + [L + x for x in perm]).reshape(2**L, 2**L)
            ok, m = p.call(f"{what}: tensor", g.tensor, values)
            if ok:
                p.close(im.dense(m), full, f"{what}: tensor", EVO_TOL)
        before = want
    # the whole program at once, when a single Hamiltonian occurs
    evo = [o for o in im.flat_ops(case["prog"]) if o["nm"] == "HEVO"]
    if len(evo) == 1:
        values = dict(st.values())
        values.update(hamiltonian=spelled(hamiltonian(evo[0]["ps"], len(evo[0]["t"])) / f, rng),
                      time_evolution=wrap(im.theta(evo[0]["a"]) / 2 * f))
        want, is_dm = st.want(case["final"])
        ok, got = p.call("program with one evolution", lambda: apply_gates(
            st.state(), st.gates(), values, merge_ops=rng.random() < 0.5))
        if ok:
            check_state(p, got, want, is_dm, "program with one evolution", EVO_TOL)


def evolution_grad(case, rng, p):
    """Programs whose evolutions share a Hamiltonian and a time: states, expectation values, derivatives
    with respect to the time and the other parameters, under jit and vmap."""
    evo = [o for o in im.flat_ops(case["prog"]) if o["nm"] == "HEVO"]
    if not evo:
        return
    st = Setup(case, rng, extra=1 if case["n"] < 3 else 0)
    st.rename = st.rename_obs = lambda q: "time_evolution" if q == "t" else q
    f = rng.choice([1.0, -1.0, 2.0, 0.3, 3.0])
    H = jnp.asarray(hamiltonian(evo[0]["ps"], len(evo[0]["t"])) / f)
    turn = 2 * math.pi * rng.choice([1, -2, 5, 120]) if rng.random() < 0.1 else 0.0
    t = jnp.asarray((im.theta(case["env"]["t"]) / 2 + turn) * f)
    x0 = {"time_evolution": t, "a": jnp.asarray(im.theta(case["env"]["a"]))}
    chain = {"time_evolution": 2.0 / f, "a": 1.0}  # of the specification's angle
    circ = st.circuit()
    obs = [st.observable(o["o"]) for o in case["obs"]]
    names = ["time_evolution", "a"]
    sp = {"time_evolution": "t", "a": "a"}
    number = lambda r: st.number(r)  # noqa: E731
    value = np.array([number(o["e"]) for o in case["obs"]])
    want = np.array([[number(o["g"][sp[q]]) * chain[q] for q in names] for o in case["obs"]])
    final, is_dm = st.want(case["final"])
    what = f"program with {len(evo)} evolutions of {len(im.flat_ops(case['prog']))} gates"
    go = lambda x: run(circ, st.state(), {**x, "hamiltonian": H})  # noqa: E731
    ok, got = p.call(what, jax.jit(go) if rng.random() < 0.3 else go, x0)
    if not ok or not check_state(p, got, final, is_dm, what, EVO_TOL):
        return
    mode = im.exact_mode(rng.choice(exact_modes(case, st)), rng)
    ok, got = p.call(f"{what}: expectation {mode}", expectation, st.state(), circ, obs, {**x0, "hamiltonian": H}, mode)
    if ok:
        p.close(got, value, f"{what}: expectation {mode}", 1e-6)
    mode = im.exact_mode(rng.choice([m for m in exact_modes(case, st) if m != DiffMode.GPSR]), rng)
    sep = rng.random() < 0.5

    def fn(x):
        v = {**x, "hamiltonian": H}
        return expectation(st.state(), circ, obs, {"circuit": v, "observables": {}} if sep else v, mode)

    way = rng.choice(["jacrev", "jacfwd", "jit", "vmap"])
    what = f"{what}: {mode} {way}"
    if case["obs"][0]["h"] and rng.random() < 0.7:
        want2 = np.array([[[number(o["h"][sp[q]][sp[r]]) * chain[q] * chain[r] for r in names] for q in names]
                          for o in case["obs"]])
        ok, got = p.call(f"{what}: Hessian", jax.jacfwd(jax.jacrev(fn)) if rng.random() < 0.5 else
                         jax.jacfwd(jax.jacfwd(fn)), x0)
        if ok:
            got = np.stack([np.stack([got[q][r] for r in names], -1) for q in names], 1)
            p.close(got, want2, f"{what}: Hessian", 1e-5)
        return
    if way == "vmap":
        batch = {q: jnp.stack([x0[q], x0[q] + 0.7]) for q in names}
        ok, got = p.call(what, jax.vmap(jax.jacrev(fn)), batch)
        got = {q: got[q][0] for q in names} if ok else None
    else:
        jac = {"jacrev": jax.jacrev(fn), "jacfwd": jax.jacfwd(fn), "jit": jax.jit(jax.jacrev(fn))}[way]
        ok, got = p.call(what, jac, x0)
    if ok:
        p.close(np.stack([got[q] for q in names], -1), want, what, 3e-6)
