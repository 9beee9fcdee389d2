From c69a4e51b32387cf3004682d01e541afb36cdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 01/29] fix: overlap returns the squared modulus of the inner
 product

---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..f77e974 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -449,7 +449,8 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    inner_prod = inner(state, projection)
+    return jnp.square(inner_prod.real) + jnp.square(inner_prod.imag)
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 02cd33f10b463b030dd0257863acf11c74c9d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 02/29] fix: jacobian of a rotation is the derivative of its
 unitary

---
 horqrux/utils/operator_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index f77e974..c1d3b61 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,10 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (
+            jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype)
+            + 1j * jnp.cos(theta / 2) * generator
+        )
     )
 
 
@@ -181,9 +183,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From 52bd3c3beeea33ac5f4c53ae55a04e07814c30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 03/29] fix: Primitive.n_qubits counts the target and control
 qubits

---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..b4bf3fd 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -132,10 +132,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From ed6d7c8a8e2a19432306d88e5ee7ebeeb083f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 04/29] fix: register the SQSWAP, ISWAP and ISQSWAP matrices

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From 63f7c44e8cbba41c034db72ac6905bf8f56dccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 05/29] fix: group_by_index keeps the order around multi-target
 gates

---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..ee2083e 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # multi-target gates do not commute with gates on any of their targets
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From 314663d0ac4a9a080271c6f53d377b085c898c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 06/29] fix: OpSequence.tensor multiplies operations in order
 of application

---
 horqrux/composite/sequence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..bdbf409 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,10 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # the first operation acts first, hence is the rightmost factor
+        return reduce(
+            lambda acc, x: x @ acc, map(lambda x: x.tensor(values, full_support), self.operations)
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From 7b6456f63853860531fe0f5441668722c63a1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 07/29] fix: OpSequence.qubit_support is sorted as tensor
 representations are

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index bdbf409..5a2d97e 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -26,7 +26,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From ff961c415112872158258828c7b12165be8e139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 08/29] fix: apply_gates accepts an empty sequence of gates

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index ee2083e..b5eb24c 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -375,8 +375,8 @@ def prepare_sequence_reduce(
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], tuple())
+        control = reduce(add, [g.control for g in gate], tuple())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From 3680009001e10bfd0a75adf7a9da5c004f6a22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 09/29] fix: sampling does not reshape the caller's density
 matrix

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..0819a5b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -180,5 +180,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
-- 
2.43.0


From 878ef533bc2d65d49c89155b0032bdb79cf763cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 10/29] fix: QuantumCircuit survives a pytree round trip

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 3caca63c05b5192e47cb4febdce93429ebe47c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 11/29] fix: the array of a DensityMatrix is a pytree leaf

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index c1d3b61..a5e8298 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From da8c79cb9b728d5d82ab6fc1fde7c596ce7c41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 12/29] fix: sparse conversion of Scale keeps all scaled
 operations

---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From 6497bd2dddb0ed5dd10133ffdb2f6bed46a0b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 13/29] fix: sparse conversion of QuantumCircuit keeps fparams

---
 horqrux/utils/conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..6f49e62 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,13 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_sparse(op) for op in operations.operations], operations.fparams
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_dense(op) for op in operations.operations], operations.fparams
+    )
-- 
2.43.0


From 596e5864065e853f04329dfa962c1774a7b30509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 14/29] fix: Scale, Add and Observable keep the structure of
 composite operands

---
 horqrux/composite/compose.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..b35790d 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -14,6 +14,13 @@ from horqrux.utils.operator_utils import State
 from .sequence import OpSequence
 
 
+def _operands(operations: Primitive | OpSequence | list) -> list:
+    """List the operands, without flattening the composite operations among them."""
+    if isinstance(operations, OpSequence) and not isinstance(operations, Scale):
+        return list(operations.operations)
+    return list(operations)  # type:ignore[arg-type]
+
+
 @register_pytree_node_class
 class Scale(OpSequence):
     """
@@ -27,7 +34,9 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        # a sum is scaled as a whole
+        is_sum = isinstance(operations, Add)
+        super().__init__([Add(operations)] if is_sum else _operands(operations))
         self.parameter: str | float = parameter_name
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
@@ -74,7 +83,7 @@ class Add(OpSequence):
     """
 
     def __init__(self, operations: Primitive | OpSequence | list) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        super().__init__(_operands(operations))
 
     def tree_flatten(self) -> tuple:
         children = (self.operations,)
@@ -126,7 +135,7 @@ class Observable(Add):
     """
 
     def __init__(self, operations: Primitive | OpSequence | list) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        super().__init__(_operands(operations))
 
     def forward(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return super().__call__(state, values)
-- 
2.43.0


From b2ffda2c1e66aacc60c5e549602c50d6ebe9f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 15/29] fix: qubit indices given as numpy integers, arrays or
 nested tuples are recognised

---
 horqrux/primitives/primitive.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index b4bf3fd..9e1ddbb 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -39,12 +39,15 @@ class Primitive:
     def parse_idx(
         idx: tuple,
     ) -> tuple:
-        if isinstance(idx, (int, np.int64)):
-            return ((idx,),)
+        if isinstance(idx, (int, np.integer)):
+            return ((int(idx),),)
         elif isinstance(idx, tuple):
-            return (idx,)
+            # nested form, e.g. ((0, 1), )
+            if len(idx) == 1 and isinstance(idx[0], tuple):
+                idx = idx[0]
+            return (tuple(int(q) if isinstance(q, np.integer) else q for q in idx),)
         else:
-            return (idx.astype(int),)
+            return (tuple(int(q) for q in np.ravel(idx)),)
 
     def __post_init__(self) -> None:
         self.target = Primitive.parse_idx(self.target)
-- 
2.43.0


From 720e4092ac64a1f535795395e7c46b1d18368d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 16/29] fix: tensor of a gate on unsorted targets follows the
 sorted qubit support

---
 horqrux/primitives/primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 9e1ddbb..fc3217c 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -122,6 +124,11 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        target = self.target[0]
+        if target != tuple(sorted(target)):
+            # representations follow the sorted qubit support
+            shape = base_unitary.shape
+            base_unitary = permute_basis(hilbert_reshape(base_unitary), target, True).reshape(shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From 0ac17c09000840351c656e6169cba4f87384fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 17/29] fix: jacobian of a controlled gate vanishes where the
 controls are off

---
 horqrux/apply.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index b5eb24c..9110f2a 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -21,6 +21,7 @@ from horqrux.utils.operator_utils import (
     density_mat,
     expand_operator,
     is_controlled,
+    none_like,
     num_qubits,
     permute_basis,
 )
@@ -343,6 +344,20 @@ def apply_gates(
     raise NotImplementedError("apply_gate is not implemented")
 
 
+def _operation(
+    gate: Primitive, values: dict[str, float], op_type: OperationType
+) -> tuple[Array, tuple, tuple]:
+    """Operator of type `op_type` of a gate, with the targets and controls to apply it to."""
+    operator = getattr(gate, op_type)(values)
+    if op_type == OperationType.JACOBIAN and is_controlled(gate.control):
+        # the derivative vanishes where the controls are not active
+        n_control = len(gate.control[0])
+        operator = _controlled(operator, n_control) - _controlled(0.0 * operator, n_control)
+        target = (gate.control[0] + gate.target[0],)
+        return operator, target, none_like(target)
+    return operator, gate.target, gate.control
+
+
 def prepare_sequence_reduce(
     gate: Union[Primitive, Iterable[Primitive]],
     values: dict[str, float] = dict(),
@@ -368,15 +383,16 @@ def prepare_sequence_reduce(
     operator: tuple[Array, ...]
     noise = list()
     if isinstance(gate, Primitive):
-        operator_fn = getattr(gate, op_type)
-        operator, target, control = (operator_fn(values),), gate.target, gate.control
+        op, target, control = _operation(gate, values, op_type)
+        operator = (op,)
         noise += [gate.noise]
     else:
         if group_gates:
             gate = group_by_index(gate)
-        operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate], tuple())
-        control = reduce(add, [g.control for g in gate], tuple())
+        operations = [_operation(g, values, op_type) for g in gate]
+        operator = tuple(op for op, _, _ in operations)
+        target = reduce(add, [t for _, t, _ in operations], tuple())
+        control = reduce(add, [c for _, _, c in operations], tuple())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From e1a1b722792e085016864a698daea956eaad81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 18/29] fix: PHASE gates are pytrees and keep their type under
 parameter shifts

---
 horqrux/differentiation/gpsr/gpsr_utils.py | 4 ++--
 horqrux/primitives/parametric.py           | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..5c36f9e 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..de2a4d9 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
@@ -213,6 +214,12 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @cached_property
+    def eigenvals_generator(self) -> Array:
+        # PHASE is, up to a global phase when not controlled, the rotation with
+        # the projector on state 1 scaled by -2 as generator
+        return jnp.array([-2.0, 0.0])
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From e62091822d2e2d52d2b061fac18dfa17168063a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 19/29] fix: GPSR counts the gates of each parameter and uses
 all their spectral gaps

---
 horqrux/differentiation/gpsr/analytical.py | 151 ++++++------------
 horqrux/differentiation/gpsr/gpsr_utils.py | 131 +++++++++++-----
 horqrux/differentiation/gpsr/shots.py      | 170 +++++++--------------
 horqrux/primitives/parametric.py           |  14 ++
 4 files changed, 210 insertions(+), 256 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..cb66a67 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -12,15 +12,15 @@ from horqrux.composite import Observable
 from horqrux.differentiation.ad import _ad_expectation_single_observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
-    create_renamed_operators,
-    extract_gate_names,
-    initialize_gpsr_ingredients,
+    contract_tangents,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
+    prepare_shifts,
+    shift_rule,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def analytical_expectation(
@@ -41,12 +41,13 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
             lambda observable: _ad_expectation_single_observable(
-                apply_gates(state, gates, values),
+                apply_gates(state, gates, values_circuit),
                 observable,
-                values,
+                values_observables,
             ),
             observables,
         )
@@ -81,53 +82,39 @@ def analytical_gpsr_bwd(
     Returns:
         Array: Gradients via the GPSR algorithm.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    gates = list(iter(gates))
+    param_to_gates_indices = prepare_param_gates_seq(tuple(values.keys()), gates)
+
+    def difference(gates_up: list, values_up: dict, gates_down: list, values_down: dict) -> Array:
+        f_up = jitted_analytical_exp(state, gates_up, observables, values_up)
+        f_down = jitted_analytical_exp(state, gates_down, observables, values_down)
+        return f_up - f_down
 
     def jvp_component(param_name: str) -> Array:
-        up_val = values.copy()
-        up_val[param_name] = up_val[param_name] + shift
-        f_up = jitted_analytical_exp(state, gates, observables, up_val)
-        down_val = values.copy()
-        down_val[param_name] = down_val[param_name] - shift
-        f_down = jitted_analytical_exp(state, gates, observables, down_val)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
+        shift_gates = param_to_gates_indices[param_name]
+        if len(shift_gates) > 1:
+            return sum(
+                coeff
+                * difference(
+                    alter_gate_sequence(gates, ind, shift),
+                    values,
+                    alter_gate_sequence(gates, ind, -shift),
+                    values,
+                )
+                for ind in shift_gates
+                for shift, coeff in shift_rule(gates[ind])  # type: ignore[arg-type]
+            )
+        gate = gates[shift_gates[0]] if shift_gates else None
+        val = values[param_name]
+        return sum(
+            coeff
+            * difference(
+                gates, {**values, param_name: val + shift}, gates, {**values, param_name: val - shift}
+            )
+            for shift, coeff in shift_rule(gate)  # type: ignore[arg-type]
         )
-        return grad
-
-    jvp_caller = jvp_component
-    if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-
-                    def shift_jvp(ind: int) -> Array:
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)
-                        f_up = jitted_analytical_exp(state, gates_up, observables, values)
-                        gates_down = alter_gate_sequence(gates, ind, -shift)
-                        f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
 
-                jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
-
-    jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
-    return jvp
+    return jnp.stack([jvp_component(param) for param in values]).sum(axis=-1)
 
 
 @partial(jax.custom_jvp, nondiff_argnums=(0, 1, 2))
@@ -184,65 +171,19 @@ def analytical_gpsr_jvp(
     tangent_dict = tangents[0]
     fwd = analytical_gpsr_fwd(state, gates, observable, values)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
-    values_map = None
-
-    if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-
-    values_array = stack_sp(list(values.values()))
-    if values_array.shape[-1] == 1:
-        values_array = values_array.squeeze(-1)
-    vals_to_dict = values.keys()
-
-    def values_to_dict(x: Array) -> dict[str, Array]:
-        return dict(zip(vals_to_dict, x))
-
-    def jvp_caller(carry_grad: Array, pytree_ind_param: dict[str, Array]) -> tuple[Array, Array]:
-        shift_vector = pytree_ind_param["shift"]
-        spectral_gap = pytree_ind_param["spectral_gap"]
-        up_val = values_to_dict(values_array + shift_vector)
+    gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
+        gates, values
+    )
+
+    def jvp_caller(carry_grad: Array, evaluation: dict[str, Array]) -> tuple[Array, Array]:
+        up_val = to_values(values_array + evaluation["shift"])
         f_up = analytical_gpsr_fwd(state, gates, observable, up_val)
-        down_val = values_to_dict(values_array - shift_vector)
+        down_val = to_values(values_array - evaluation["shift"])
         f_down = analytical_gpsr_fwd(state, gates, observable, down_val)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        grad = evaluation["coefficient"] * (f_up - f_down)
         return carry_grad + grad, grad
 
-    spectral_gap_array = stack_sp(list(spectral_gap.values()))
-    tangent_array = stack_sp(list(tangent_dict.values())).reshape((-1, 1))
-    pytree_scan = {
-        "shift": shift * jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
-        "spectral_gap": spectral_gap_array,
-    }
-
+    pytree_scan = {"shift": shifts, "coefficient": coefficients}
     _, grads = jax.lax.scan(jvp_caller, jnp.zeros(fwd.shape), pytree_scan)
-    if values_map:
-        # need to remap to original parameter names
-        grad_dict = dict(zip(values.keys(), grads))
-        grads_legit_dict: dict = {name: list() for name in legit_val_keys}
-        for temp_name in grad_dict.keys():
-            grads_legit_dict[values_map[temp_name]].append(grad_dict[temp_name])
-        grads = tuple(stack_sp(grads_legit_dict[name]).sum(axis=0) for name in legit_val_keys)
-    jvp = (stack_sp(grads) * tangent_array).sum(axis=0)
+    jvp = contract_tangents(grads, evaluations, values, tangent_dict)
     return fwd, jvp.reshape(fwd.shape)
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 5c36f9e..3ac1598 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -1,14 +1,15 @@
 from __future__ import annotations
 
-from functools import partial
-from operator import is_not
-from typing import Any, Iterable
+from typing import Any, Callable, Iterable, Union
 from uuid import uuid4
 
 import jax.numpy as jnp
+import numpy as np
 from jax import Array
 
 from horqrux.primitives import Parametric, Primitive
+from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def to_shift(gate: Parametric, shift_value: float) -> Any:
@@ -62,58 +63,118 @@ def alter_gate_sequence(gates: Iterable[Any], ind_alter: int, shift_val: float)
     return gates_seq
 
 
-def initialize_gpsr_ingredients(
-    values: dict[str, float]
-) -> tuple[tuple[str, ...], dict[str, float], Array]:
-    """Initialize the parameter names, spectral_gap, and shift value for GPSR.
+def shift_rule(gate: Parametric | None = None) -> tuple[tuple[float, float], ...]:
+    """Shifts and coefficients of the parameter-shift rule of a gate, such that
+        df/dx = sum_k coefficient_k * (f(x + shift_k) - f(x - shift_k)).
 
     Args:
-        values (dict[str, float]): Parameter values.
+        gate (Parametric | None, optional): The gate parametrized by x. When None, x
+            only enters linearly, as the parameters scaling observables.
 
     Returns:
-        tuple[tuple[str, ...], dict[str, float], Array]: parameter names, spectral_gap, and shift value.
+        tuple[tuple[float, float], ...]: Pairs of shift and coefficient.
     """
-    val_keys = tuple(values.keys())
-    spectral_gap = dict.fromkeys(val_keys, 2.0)
-    shift = jnp.pi / 2
-    return val_keys, spectral_gap, shift
+    if gate is None:
+        return ((np.pi / 2, 1.0 / np.pi),)
+    gaps = np.array(gate.spectral_gaps)
+    shifts = np.pi / 2 * (2 * np.arange(len(gaps)) + 1)
+    coefficients = np.linalg.solve(4.0 * np.sin(np.outer(gaps, shifts) / 2.0), gaps)
+    return tuple(zip(shifts.tolist(), coefficients.tolist()))
 
 
-def extract_gate_names(gates: Iterable[Primitive]) -> list:
-    """Extract gate names when a gate is parametric.
+def prepare_shifts(
+    gates: Union[Primitive, Iterable[Primitive]],
+    values: dict,
+) -> tuple[list[Primitive], Array, Callable, list[list[int]], Array, Array]:
+    """Prepare the evaluations at shifted parameters needed for GPSR.
 
     Args:
-        gates (Iterable[Primitive]): List of gates.
+        gates (Union[Primitive, Iterable[Primitive]]): Sequence of gates.
+        values (dict): Parameter values, possibly separated for circuit and observables.
 
     Returns:
-        list: list of names.
+        tuple: Gates where a parameter occurs once, the array of values of
+            their parameters, a function getting values from such an array,
+            the indices of evaluations of each parameter in `values`,
+            and the shifts and coefficients of evaluations.
     """
-    gate_names = list(
-        map(
-            lambda g: g.param if hasattr(g, "param") and isinstance(g.param, str) else None,
-            gates,
-        )
+    gates = list(iter(gates))
+    values_circuit, values_observables = _values_processing(values)
+    separated = values_circuit is not values_observables
+    occurrences = prepare_param_gates_seq(tuple(values_circuit.keys()), gates)
+    if any(len(inds) > 1 for inds in occurrences.values()):
+        # use temporary gates and values for repeated parameters
+        gates = create_renamed_operators(gates, occurrences.keys())  # type: ignore[assignment]
+    names: list[str] = []
+    params: list = []
+    evaluations: list[list[int]] = []
+    shifts: list[tuple[int, float]] = []
+    coefficients: list[float] = []
+
+    def add_parameter(value: Any, entries: list[tuple[str, Parametric | None]]) -> None:
+        evaluations.append([])
+        for name, gate in entries:
+            for shift, coefficient in shift_rule(gate):
+                evaluations[-1].append(len(shifts))
+                shifts.append((len(names), shift))
+                coefficients.append(coefficient)
+            names.append(name)
+            params.append(value)
+
+    for name, inds in occurrences.items():
+        entries = [(gates[i].param, gates[i]) for i in inds]  # type: ignore[attr-defined]
+        add_parameter(values_circuit[name], entries or [(name, None)])  # type: ignore[arg-type]
+    n_circuit = len(names)
+    if separated:
+        for name, value in values_observables.items():
+            add_parameter(value, [(name, None)])
+
+    values_array = stack_sp(params).reshape(-1)
+    shift_array = np.zeros((len(shifts), len(names)))
+    for row, (ind, shift) in enumerate(shifts):
+        shift_array[row, ind] = shift
+
+    def to_values(x: Array) -> dict:
+        if not separated:
+            return dict(zip(names, x))
+        return {
+            "circuit": dict(zip(names[:n_circuit], x[:n_circuit])),
+            "observables": dict(zip(names[n_circuit:], x[n_circuit:])),
+        }
+
+    return (
+        gates,
+        values_array,
+        to_values,
+        evaluations,
+        jnp.array(shift_array, dtype=values_array.dtype),
+        jnp.array(coefficients, dtype=values_array.dtype),
     )
-    gate_names = list(filter(partial(is_not, None), gate_names))
-    return gate_names
 
 
-def spectral_gap_from_gates(
-    param_to_gates_indices: dict[str, tuple], param_names: Iterable[str]
-) -> dict[str, Array]:
-    """Extract spectral gap from each gate.
-
-    Only works when a parameter name is used by only one gate.
+def contract_tangents(
+    grads: Array, evaluations: list[list[int]], values: dict, tangents: dict
+) -> Array:
+    """Sum the contributions of evaluations at shifted parameters over the tangents.
 
     Args:
-        param_to_gates_indices (dict[str, tuple]): dictionary mapping
-            parameter name to indices of gates.
-        param_names (Iterable[str]): Name of parameters.
+        grads (Array): Contribution of each evaluation.
+        evaluations (list[list[int]]): The indices of evaluations of each parameter.
+        values (dict): Parameter values, possibly separated for circuit and observables.
+        tangents (dict): Tangents, organised as values.
 
     Returns:
-        dict[str, Array]: Parameter names mapped with the spectral gap.
+        Array: Jacobian-vector product.
     """
-    return {param: param_to_gates_indices[param][0].spectral_gap for param in param_names}
+    values_circuit, values_observables = _values_processing(values)
+    if values_circuit is values_observables:
+        tangent_list = [tangents[name] for name in values_circuit]
+    else:
+        tangent_list = [tangents["circuit"][name] for name in values_circuit]
+        tangent_list += [tangents["observables"][name] for name in values_observables]
+    tangent_array = stack_sp(tangent_list).reshape((-1, 1))
+    param_grads = stack_sp([grads[jnp.array(inds)].sum(axis=0) for inds in evaluations])
+    return (param_grads * tangent_array).sum(axis=0)
 
 
 def new_named_parametric(gate: Primitive) -> Parametric:
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..c5f8ac6 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -10,16 +10,14 @@ from jax import Array, random
 from horqrux.composite import Observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
-    create_renamed_operators,
-    extract_gate_names,
-    initialize_gpsr_ingredients,
+    contract_tangents,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
+    prepare_shifts,
+    shift_rule,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
 from horqrux.utils.operator_utils import State
-from horqrux.utils.sparse_utils import stack_sp
 
 jitted_finite_shots = jax.jit(finite_shots, static_argnums=(4,))
 
@@ -51,63 +49,49 @@ def finite_shots_gpsr_backward(
     Returns:
         Array: Gradients.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    gates = list(iter(gates))
+    param_to_gates_indices = prepare_param_gates_seq(tuple(values.keys()), gates)
 
-    def jvp_component(param_name: str, key: Array) -> Array:
+    def difference(
+        gates_up: list, values_up: dict, gates_down: list, values_down: dict, key: Array
+    ) -> Array:
         up_key, down_key = random.split(key)
-        up_val = values.copy()
-        up_val[param_name] = up_val[param_name] + shift
-        f_up = jitted_finite_shots(state, gates, observables, up_val, n_shots, up_key)
-        down_val = values.copy()
-        down_val[param_name] = down_val[param_name] - shift
-        f_down = jitted_finite_shots(state, gates, observables, down_val, n_shots, down_key)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
+        f_up = jitted_finite_shots(state, gates_up, observables, values_up, n_shots, up_key)
+        f_down = jitted_finite_shots(state, gates_down, observables, values_down, n_shots, down_key)
+        return f_up - f_down
+
+    def jvp_component(param_name: str, key: Array) -> Array:
+        shift_gates = param_to_gates_indices[param_name]
+        if len(shift_gates) > 1:
+            terms = [(ind, *rule) for ind in shift_gates for rule in shift_rule(gates[ind])]  # type: ignore[arg-type]
+            return sum(
+                coeff
+                * difference(
+                    alter_gate_sequence(gates, ind, shift),
+                    values,
+                    alter_gate_sequence(gates, ind, -shift),
+                    values,
+                    shift_key,
+                )
+                for (ind, shift, coeff), shift_key in zip(terms, random.split(key, len(terms)))
+            )
+        rules = shift_rule(gates[shift_gates[0]] if shift_gates else None)  # type: ignore[arg-type]
+        shift_keys = random.split(key, len(rules)) if len(rules) > 1 else [key]
+        val = values[param_name]
+        return sum(
+            coeff
+            * difference(
+                gates,
+                {**values, param_name: val + shift},
+                gates,
+                {**values, param_name: val - shift},
+                shift_key,
+            )
+            for (shift, coeff), shift_key in zip(rules, shift_keys)
         )
-        return grad
 
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
-    jvp_caller = jvp_component
-    if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-                    shift_keys = random.split(key, len(shift_gates))
-
-                    def shift_jvp(ind: int, key: Array) -> Array:
-                        up_key, down_key = random.split(key)
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
-                        f_up = jitted_finite_shots(
-                            state, gates_up, observables, values, n_shots, up_key
-                        )
-                        gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
-                        f_down = jitted_finite_shots(
-                            state, gates_down, observables, values, n_shots, down_key
-                        )
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(
-                        shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
-                    )
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
-
-            jvp_caller = jvp_component_repeated_param
-    jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
-    return jvp
+    return jnp.stack([jvp_component(param, key) for param, key in params_with_keys]).sum(axis=-1)
 
 
 @partial(jax.custom_jvp, nondiff_argnums=(0, 1, 2, 4, 5))
@@ -172,70 +156,24 @@ def finite_shots_jvp(
     tangent_dict = tangents[0]
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
-    values_map = None
-
-    if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-
-    values_array = stack_sp(list(values.values()))
-    if values_array.shape[-1] == 1:
-        values_array = values_array.squeeze(-1)
-    vals_to_dict = values.keys()
-
-    def values_to_dict(x: Array) -> dict[str, Array]:
-        return dict(zip(vals_to_dict, x))
-
-    def jvp_caller(carry_grad: Array, pytree_ind_param: dict[str, Array]) -> Array:
-        key = pytree_ind_param["key"]
-        up_key, down_key = random.split(key)
-        shift_vector = pytree_ind_param["shift"]
-        spectral_gap = pytree_ind_param["spectral_gap"]
-        up_val = values_to_dict(values_array + shift_vector)
+    gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
+        gates, values
+    )
+
+    def jvp_caller(carry_grad: Array, evaluation: dict[str, Array]) -> tuple[Array, Array]:
+        up_key, down_key = random.split(evaluation["key"])
+        up_val = to_values(values_array + evaluation["shift"])
         f_up = finite_shots_fwd(state, gates, observable, up_val, n_shots, up_key)
-        down_val = values_to_dict(values_array - shift_vector)
+        down_val = to_values(values_array - evaluation["shift"])
         f_down = finite_shots_fwd(state, gates, observable, down_val, n_shots, down_key)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        grad = evaluation["coefficient"] * (f_up - f_down)
         return carry_grad + grad, grad
 
-    spectral_gap_array = stack_sp(list(spectral_gap.values()))
-    tangent_array = stack_sp(list(tangent_dict.values())).reshape((-1, 1))
-    keys = random.split(key, len(vals_to_dict))
     pytree_scan = {
-        "shift": shift * jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
-        "spectral_gap": spectral_gap_array,
-        "key": keys,
+        "shift": shifts,
+        "coefficient": coefficients,
+        "key": random.split(key, len(coefficients)),
     }
-
     _, grads = jax.lax.scan(jvp_caller, jnp.zeros(fwd.shape), pytree_scan)
-    if values_map:
-        # need to remap to original parameter names
-        grad_dict = dict(zip(values.keys(), grads))
-        grads_legit_dict: dict = {name: list() for name in legit_val_keys}
-        for temp_name in grad_dict.keys():
-            grads_legit_dict[values_map[temp_name]].append(grad_dict[temp_name])
-        grads = tuple(stack_sp(grads_legit_dict[name]).sum(axis=0) for name in legit_val_keys)
-    jvp = (stack_sp(grads) * tangent_array).sum(axis=0)
+    jvp = contract_tangents(grads, evaluations, values, tangent_dict)
     return fwd, jvp.reshape(fwd.shape)
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index de2a4d9..221f0b0 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -130,6 +130,16 @@ class Parametric(Primitive):
         spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
         return spectral_gap[nonzero_jit(spectral_gap, size=1)]
 
+    @property
+    def spectral_gaps(self) -> tuple[float, ...]:
+        """All the distinct positive differences between the eigenvalues of the generator.
+
+        Returns:
+            tuple[float, ...]: Spectral gaps.
+        """
+        # a generator of eigenvalues -1 and 1, together with 0 when controlled
+        return (1.0, 2.0) if is_controlled(self.control) else (2.0,)
+
     @property
     def is_parametric(self) -> bool:
         return isinstance(self.param, str)
@@ -220,6 +230,10 @@ class _PHASE(Parametric):
         # the projector on state 1 scaled by -2 as generator
         return jnp.array([-2.0, 0.0])
 
+    @property
+    def spectral_gaps(self) -> tuple[float, ...]:
+        return (2.0,)
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From 800fb602bec6532f6097bcd60c2396b26ba9c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 20/29] fix: finite shots measure each observable in its own
 eigenbasis

---
 horqrux/shots.py | 65 ++++++++----------------------------------------
 1 file changed, 10 insertions(+), 55 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 0819a5b..b19a50b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -6,12 +6,12 @@ from typing import Any, Iterable, Union
 import jax
 import jax.numpy as jnp
 from jax import Array
-from jax.experimental import checkify
 
 from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -98,60 +98,14 @@ def eigen_sample(
         )
     )
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
-    eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
-    probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    keys = jax.random.split(key, len(observables)) if len(observables) > 1 else [key]
 
+    # observables need not share an eigenbasis, hence each one is measured in its own
+    def sample_mean(eigvals: Array, eigvecs: Array, key: Any) -> Array:
+        probs = eigen_probabilities(state, eigvecs)
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean()
 
-@jax.vmap
-def validate_permutation_matrix(P: Array) -> Array:
-    rows = P.sum(axis=0)
-    columns = P.sum(axis=1)
-    ones = jnp.ones(P.shape[0], dtype=rows.dtype)
-    return ((ones == rows) & (ones == columns)).min()
-
-
-def checkify_valid_permutation(P: Array) -> None:
-    checkify.check(
-        jnp.all(validate_permutation_matrix(P)),
-        "Did not calculate valid permutation matrix",
-    )
-
-
-def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array]:
-    """
-    Given a list of eigenvalue eigenvector matrix tuples in the form of
-    [(eigenvalue, eigenvector)...], this function aligns all the eigenvector
-    matrices so that they are identical, and also rearranges the corresponding
-    eigenvalues.
-
-    This is primarily used as a utility function to help sample multiple
-    correlated observables when using finite shots.
-    """
-    eigenvector = eigenvectors[0]
-
-    P = jax.vmap(lambda mat: permutation_matrix(mat, eigenvector))(eigenvectors)
-    checkify.checkify(checkify_valid_permutation)(P)
-    aligned_eigenvalues = jax.vmap(jnp.dot)(eigenvalues, P).T
-    return eigenvector, aligned_eigenvalues
-
-
-def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
-    """Obtain the permutation matrix for aligning eigenvectors.
-
-    Given two permuted eigenvector matrices, A and B, we wish to find a permutation
-    matrix P such that A P = B. This function calculates such a permutation
-    matrix and uses it to align each eigenvector matrix to the first eigenvector
-    matrix of eigs.
-
-    Args:
-        mat (Array): Matrix A.
-        eigenvector_matrix (Array): Eigenvector matrix B.
-
-    Returns:
-        Array: Permutation matrix P.
-    """
-    return (jnp.linalg.inv(mat) @ eigenvector_matrix).real > 0.5
+    return jnp.stack(list(map(sample_mean, eigs.eigenvalues, eigs.eigenvectors, keys)))
 
 
 def finite_shots(
@@ -176,9 +130,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From 28af7aa94a08ddccaa2f399eb06dba387a59c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 21/29] fix: adjoint mode accepts separated circuit and
 observable values

---
 horqrux/differentiation/adjoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..d70e79f 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,6 +8,7 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
@@ -17,8 +18,9 @@ def ad_expectation(
     Run 'state' through a sequence of 'gates' given parameters 'values'
     and compute the expectation given an observable.
     """
-    out_state = apply_gates(state, list(iter(circuit)), values, OperationType.UNITARY)  # type: ignore[type-var]
-    projected_state = observable.forward(out_state, values)
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
     return real_sp(inner(out_state, projected_state))
 
 
-- 
2.43.0


From 5e38b02bed09aa3374b4be411872f861192a69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 22/29] fix: controlled operators can be built under jit

---
 horqrux/utils/operator_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index a5e8298..778c6e1 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -268,14 +268,13 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
-            [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
-        )
+    # indices are static, hence numpy arrays, so that operators can be built under jit
+    control_mask = sum(
+        1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0


From 7a5ba81f603d93ab2c1766762fba4f4f67598175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 23/29] fix: overlap of sparse states

---
 horqrux/utils/operator_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 778c6e1..40a4eef 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -450,6 +450,8 @@ def inner(state: Array, projection: Array) -> Array:
 
 def overlap(state: Array, projection: Array) -> Array:
     inner_prod = inner(state, projection)
+    if isinstance(inner_prod, BCOO):
+        inner_prod = inner_prod.todense()
     return jnp.square(inner_prod.real) + jnp.square(inner_prod.imag)
 
 
-- 
2.43.0


From d2fa35f11869983d5a91e5fd09f17084bc88cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 24/29] fix: noise of gates given as an iterator

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 9110f2a..1577e8c 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -387,8 +387,8 @@ def prepare_sequence_reduce(
         operator = (op,)
         noise += [gate.noise]
     else:
-        if group_gates:
-            gate = group_by_index(gate)
+        # gates are iterated over several times
+        gate = group_by_index(gate) if group_gates else list(gate)
         operations = [_operation(g, values, op_type) for g in gate]
         operator = tuple(op for op, _, _ in operations)
         target = reduce(add, [t for _, t, _ in operations], tuple())
-- 
2.43.0


From 1d20fa46741e8cc01b47ef8d5d8f769480685417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 25/29] fix: angles given as numbers are not parameters of a
 circuit

---
 horqrux/composite/sequence.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 5a2d97e..9c0385f 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -81,7 +81,14 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        # angles given as numbers are not parameters
+        return set(
+            [
+                str(op.param)
+                for op in list(iter(self))  # type: ignore[type-var]
+                if isinstance(op, Parametric) and op.is_parametric
+            ]
+        )
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 5dc782b514666c7e1902f11e25d3e96f28bd7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 26/29] fix: parameter-shift mode accepts traced states and
 keys, and differentiates the state

---
 horqrux/differentiation/gpsr/analytical.py | 35 ++++++++++++++--------
 horqrux/differentiation/gpsr/gpsr_utils.py | 28 +++++++++++++++++
 horqrux/differentiation/gpsr/shots.py      | 28 +++++++++--------
 3 files changed, 66 insertions(+), 25 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index cb66a67..18c10fc 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -13,6 +13,8 @@ from horqrux.differentiation.ad import _ad_expectation_single_observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     contract_tangents,
+    instantiate_tangents,
+    is_zero_tangent,
     prepare_param_gates_seq,
     prepare_shifts,
     shift_rule,
@@ -117,7 +119,7 @@ def analytical_gpsr_bwd(
     return jnp.stack([jvp_component(param) for param in values]).sum(axis=-1)
 
 
-@partial(jax.custom_jvp, nondiff_argnums=(0, 1, 2))
+@partial(jax.custom_jvp, nondiff_argnums=(1, 2))
 def analytical_gpsr_fwd(
     state: State,
     gates: Union[Primitive, Iterable[Primitive]],
@@ -145,31 +147,38 @@ def analytical_gpsr_fwd(
     return analytical_expectation(state, gates, observables, values)
 
 
-@analytical_gpsr_fwd.defjvp
+@partial(analytical_gpsr_fwd.defjvp, symbolic_zeros=True)
 def analytical_gpsr_jvp(
-    state: Array,
     gates: Union[Primitive, Iterable[Primitive]],
     observable: list[Observable],
-    primals: tuple[dict[str, float]],
-    tangents: tuple[dict[str, float]],
+    primals: tuple[State, dict[str, Array]],
+    tangents: tuple[State, dict[str, Array]],
 ) -> Array:
     """Jvp version for `analytical_gpsr_fwd`.
 
+    The parameters are differentiated with GPSR, the state with automatic differentiation.
+
     Args:
-        state (Array): Input state or density matrix.
         gates (Union[Primitive, Iterable[Primitive]]): sequence of gates.
         observable (list[Observable]): List of observables.
-        primals (tuple[dict[str, Array]]): Values we are differentiating over.
-            Jax-specific syntax argument.
-        tangents (tuple[dict[str, Array]]): Bases for differentiation.
+        primals (tuple[State, dict[str, Array]]): Input state or density matrix, and
+            values we are differentiating over. Jax-specific syntax argument.
+        tangents (tuple[State, dict[str, Array]]): Bases for differentiation.
             Jax-specific syntax argument.
 
     Returns:
         tuple[Array, Array]: Forward eveluation and gradient
     """
-    values = primals[0]
-    tangent_dict = tangents[0]
+    state, values = primals
+    tangent_state, tangent_dict = instantiate_tangents(tangents)
     fwd = analytical_gpsr_fwd(state, gates, observable, values)
+    jvp = jnp.zeros(fwd.shape)
+    if not is_zero_tangent(tangents[0]):
+        _, jvp = jax.jvp(
+            lambda s: analytical_expectation(s, gates, observable, values),
+            (state,),
+            (tangent_state,),
+        )
 
     gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
         gates, values
@@ -185,5 +194,5 @@ def analytical_gpsr_jvp(
 
     pytree_scan = {"shift": shifts, "coefficient": coefficients}
     _, grads = jax.lax.scan(jvp_caller, jnp.zeros(fwd.shape), pytree_scan)
-    jvp = contract_tangents(grads, evaluations, values, tangent_dict)
-    return fwd, jvp.reshape(fwd.shape)
+    param_jvp = contract_tangents(grads, evaluations, values, tangent_dict)
+    return fwd, jvp + param_jvp.reshape(fwd.shape)
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 3ac1598..cf9d1ed 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -3,9 +3,11 @@ from __future__ import annotations
 from typing import Any, Callable, Iterable, Union
 from uuid import uuid4
 
+import jax
 import jax.numpy as jnp
 import numpy as np
 from jax import Array
+from jax.custom_derivatives import SymbolicZero
 
 from horqrux.primitives import Parametric, Primitive
 from horqrux.utils.sparse_utils import stack_sp
@@ -152,6 +154,32 @@ def prepare_shifts(
     )
 
 
+def is_zero_tangent(tangent: Any) -> bool:
+    """Check if a (tree of) tangent is known to vanish.
+
+    Args:
+        tangent (Any): Tangents, possibly symbolic zeros.
+
+    Returns:
+        bool: True if all are symbolic zeros.
+    """
+    return all(isinstance(t, SymbolicZero) for t in jax.tree_util.tree_leaves(tangent))
+
+
+def instantiate_tangents(tangents: Any) -> Any:
+    """Replace symbolic zeros by arrays.
+
+    Args:
+        tangents (Any): Tangents, possibly symbolic zeros.
+
+    Returns:
+        Any: The same tree of arrays.
+    """
+    return jax.tree_util.tree_map(
+        lambda t: np.zeros(t.shape, t.dtype) if isinstance(t, SymbolicZero) else t, tangents
+    )
+
+
 def contract_tangents(
     grads: Array, evaluations: list[list[int]], values: dict, tangents: dict
 ) -> Array:
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index c5f8ac6..955bb77 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -11,6 +11,8 @@ from horqrux.composite import Observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     contract_tangents,
+    instantiate_tangents,
+    is_zero_tangent,
     prepare_param_gates_seq,
     prepare_shifts,
     shift_rule,
@@ -94,7 +96,7 @@ def finite_shots_gpsr_backward(
     return jnp.stack([jvp_component(param, key) for param, key in params_with_keys]).sum(axis=-1)
 
 
-@partial(jax.custom_jvp, nondiff_argnums=(0, 1, 2, 4, 5))
+@partial(jax.custom_jvp, nondiff_argnums=(1, 2, 4))
 def finite_shots_fwd(
     state: State,
     gates: Union[Primitive, Iterable[Primitive]],
@@ -126,34 +128,36 @@ def finite_shots_fwd(
     return finite_shots(state, gates, observables, values, n_shots, key)
 
 
-@finite_shots_fwd.defjvp
+@partial(finite_shots_fwd.defjvp, symbolic_zeros=True)
 def finite_shots_jvp(
-    state: Array,
     gates: Union[Primitive, Iterable[Primitive]],
     observable: list[Observable],
     n_shots: int,
-    key: Array,
-    primals: tuple[dict[str, Array]],
-    tangents: tuple[dict[str, Array]],
+    primals: tuple[State, dict[str, Array], Array],
+    tangents: tuple[State, dict[str, Array], Array],
 ) -> tuple[Array, Array]:
     """Jvp version for `finite_shots_fwd`.
 
     Args:
-        state (Array): Input state or density matrix.
         gates (Union[Primitive, Iterable[Primitive]]): sequence of gates.
         observable (list[Observable]): List of observables.
         n_shots (int): Number of shots.
-        key (Array): Key for randomness.
-        primals (tuple[dict[str, Array]]): Values we are differentiating over.
+        primals (tuple[State, dict[str, Array], Array]): Input state or density matrix,
+            values we are differentiating over, and key for randomness.
             Jax-specific syntax argument.
-        tangents (tuple[dict[str, Array]]): Bases for differentiation.
+        tangents (tuple[State, dict[str, Array], Array]): Bases for differentiation.
             Jax-specific syntax argument.
 
+    Raises:
+        NotImplementedError: If differentiating with respect to the state.
+
     Returns:
         tuple[Array, Array]: Forward eveluation and gradient
     """
-    values = primals[0]
-    tangent_dict = tangents[0]
+    state, values, key = primals
+    if not is_zero_tangent(tangents[0]):
+        raise NotImplementedError("Finite shots cannot be differentiated by the state.")
+    tangent_dict = instantiate_tangents(tangents[1])
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
     gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
-- 
2.43.0


From 04ba1daf6a7b0c2d149dfe4ed2f208dba43f7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:18 +0000
Subject: [PATCH 27/29] fix: parameter-shift gradients of parameters of both
 the circuit and the observables

---
 horqrux/differentiation/gpsr/analytical.py | 38 +++++++++++-----
 horqrux/differentiation/gpsr/gpsr_utils.py | 52 ++++++++++++++++------
 horqrux/differentiation/gpsr/shots.py      | 48 +++++++++++++-------
 3 files changed, 95 insertions(+), 43 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 18c10fc..58bc300 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -15,11 +15,12 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     contract_tangents,
     instantiate_tangents,
     is_zero_tangent,
+    observable_param_names,
     prepare_param_gates_seq,
     prepare_shifts,
     shift_rule,
 )
-from horqrux.primitives import Primitive
+from horqrux.primitives import Parametric, Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
 from horqrux.utils.values_utils import _values_processing
@@ -86,16 +87,33 @@ def analytical_gpsr_bwd(
     """
     gates = list(iter(gates))
     param_to_gates_indices = prepare_param_gates_seq(tuple(values.keys()), gates)
+    observed = observable_param_names(observables)
 
     def difference(gates_up: list, values_up: dict, gates_down: list, values_down: dict) -> Array:
         f_up = jitted_analytical_exp(state, gates_up, observables, values_up)
         f_down = jitted_analytical_exp(state, gates_down, observables, values_down)
         return f_up - f_down
 
+    def shift_values(param_name: str, gate: Parametric | None = None) -> Array:
+        # only in the circuit, or only in the observables
+        part = "observables" if gate is None else "circuit"
+        separated = {"circuit": values, "observables": values}
+        val = values[param_name]
+        return sum(
+            coeff
+            * difference(
+                gates,
+                {**separated, part: {**values, param_name: val + shift}},
+                gates,
+                {**separated, part: {**values, param_name: val - shift}},
+            )
+            for shift, coeff in shift_rule(gate)
+        )
+
     def jvp_component(param_name: str) -> Array:
         shift_gates = param_to_gates_indices[param_name]
         if len(shift_gates) > 1:
-            return sum(
+            jvp = sum(
                 coeff
                 * difference(
                     alter_gate_sequence(gates, ind, shift),
@@ -106,15 +124,11 @@ def analytical_gpsr_bwd(
                 for ind in shift_gates
                 for shift, coeff in shift_rule(gates[ind])  # type: ignore[arg-type]
             )
-        gate = gates[shift_gates[0]] if shift_gates else None
-        val = values[param_name]
-        return sum(
-            coeff
-            * difference(
-                gates, {**values, param_name: val + shift}, gates, {**values, param_name: val - shift}
-            )
-            for shift, coeff in shift_rule(gate)  # type: ignore[arg-type]
-        )
+        elif shift_gates:
+            jvp = shift_values(param_name, gates[shift_gates[0]])  # type: ignore[arg-type]
+        else:
+            return shift_values(param_name)
+        return jvp + shift_values(param_name) if param_name in observed else jvp
 
     return jnp.stack([jvp_component(param) for param in values]).sum(axis=-1)
 
@@ -181,7 +195,7 @@ def analytical_gpsr_jvp(
         )
 
     gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
-        gates, values
+        gates, observable, values
     )
 
     def jvp_caller(carry_grad: Array, evaluation: dict[str, Array]) -> tuple[Array, Array]:
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index cf9d1ed..33e2944 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -9,6 +9,7 @@ import numpy as np
 from jax import Array
 from jax.custom_derivatives import SymbolicZero
 
+from horqrux.composite import OpSequence, Scale
 from horqrux.primitives import Parametric, Primitive
 from horqrux.utils.sparse_utils import stack_sp
 from horqrux.utils.values_utils import _values_processing
@@ -84,14 +85,36 @@ def shift_rule(gate: Parametric | None = None) -> tuple[tuple[float, float], ...
     return tuple(zip(shifts.tolist(), coefficients.tolist()))
 
 
+def observable_param_names(observables: Iterable[Any]) -> set[str]:
+    """Names of the parameters that observables depend on.
+
+    Args:
+        observables (Iterable[Any]): Observables, or operations they are made of.
+
+    Returns:
+        set[str]: Names of parameters.
+    """
+    names: set = set()
+    for op in observables:
+        if isinstance(op, OpSequence):
+            names |= observable_param_names(op.operations)
+            if isinstance(op, Scale):
+                names.add(op.parameter)
+        elif op.is_parametric:
+            names.add(op.param)
+    return names
+
+
 def prepare_shifts(
     gates: Union[Primitive, Iterable[Primitive]],
+    observables: Iterable[Any],
     values: dict,
 ) -> tuple[list[Primitive], Array, Callable, list[list[int]], Array, Array]:
     """Prepare the evaluations at shifted parameters needed for GPSR.
 
     Args:
         gates (Union[Primitive, Iterable[Primitive]]): Sequence of gates.
+        observables (Iterable[Any]): Observables.
         values (dict): Parameter values, possibly separated for circuit and observables.
 
     Returns:
@@ -107,29 +130,32 @@ def prepare_shifts(
     if any(len(inds) > 1 for inds in occurrences.values()):
         # use temporary gates and values for repeated parameters
         gates = create_renamed_operators(gates, occurrences.keys())  # type: ignore[assignment]
-    names: list[str] = []
+    observed = observable_param_names(observables)
+    # a parameter of both the circuit and observables is shifted in one at a time
+    names: list[tuple[str, str]] = []
     params: list = []
     evaluations: list[list[int]] = []
     shifts: list[tuple[int, float]] = []
     coefficients: list[float] = []
 
-    def add_parameter(value: Any, entries: list[tuple[str, Parametric | None]]) -> None:
+    def add_parameter(value: Any, entries: list[tuple[str, str, Parametric | None]]) -> None:
         evaluations.append([])
-        for name, gate in entries:
+        for part, name, gate in entries:
             for shift, coefficient in shift_rule(gate):
                 evaluations[-1].append(len(shifts))
                 shifts.append((len(names), shift))
                 coefficients.append(coefficient)
-            names.append(name)
+            names.append((part, name))
             params.append(value)
 
     for name, inds in occurrences.items():
-        entries = [(gates[i].param, gates[i]) for i in inds]  # type: ignore[attr-defined]
-        add_parameter(values_circuit[name], entries or [(name, None)])  # type: ignore[arg-type]
-    n_circuit = len(names)
+        entries = [("circuit", gates[i].param, gates[i]) for i in inds]  # type: ignore[attr-defined]
+        if not inds or (name in observed and not separated):
+            entries += [("circuit" if separated else "observables", name, None)]  # type: ignore[list-item]
+        add_parameter(values_circuit[name], entries)  # type: ignore[arg-type]
     if separated:
         for name, value in values_observables.items():
-            add_parameter(value, [(name, None)])
+            add_parameter(value, [("observables", name, None)])
 
     values_array = stack_sp(params).reshape(-1)
     shift_array = np.zeros((len(shifts), len(names)))
@@ -137,12 +163,10 @@ def prepare_shifts(
         shift_array[row, ind] = shift
 
     def to_values(x: Array) -> dict:
-        if not separated:
-            return dict(zip(names, x))
-        return {
-            "circuit": dict(zip(names[:n_circuit], x[:n_circuit])),
-            "observables": dict(zip(names[n_circuit:], x[n_circuit:])),
-        }
+        parts: dict = {"circuit": dict(), "observables": dict()}
+        for (part, name), value in zip(names, x):
+            parts[part][name] = value
+        return parts
 
     return (
         gates,
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index 955bb77..db8f662 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -13,11 +13,12 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     contract_tangents,
     instantiate_tangents,
     is_zero_tangent,
+    observable_param_names,
     prepare_param_gates_seq,
     prepare_shifts,
     shift_rule,
 )
-from horqrux.primitives import Primitive
+from horqrux.primitives import Parametric, Primitive
 from horqrux.shots import finite_shots
 from horqrux.utils.operator_utils import State
 
@@ -53,6 +54,7 @@ def finite_shots_gpsr_backward(
     """
     gates = list(iter(gates))
     param_to_gates_indices = prepare_param_gates_seq(tuple(values.keys()), gates)
+    observed = observable_param_names(observables)
 
     def difference(
         gates_up: list, values_up: dict, gates_down: list, values_down: dict, key: Array
@@ -62,11 +64,34 @@ def finite_shots_gpsr_backward(
         f_down = jitted_finite_shots(state, gates_down, observables, values_down, n_shots, down_key)
         return f_up - f_down
 
+    def shift_values(param_name: str, key: Array, gate: Parametric | None = None) -> Array:
+        # only in the circuit, or only in the observables
+        part = "observables" if gate is None else "circuit"
+        separated = {"circuit": values, "observables": values}
+        rules = shift_rule(gate)
+        shift_keys = random.split(key, len(rules)) if len(rules) > 1 else [key]
+        val = values[param_name]
+        return sum(
+            coeff
+            * difference(
+                gates,
+                {**separated, part: {**values, param_name: val + shift}},
+                gates,
+                {**separated, part: {**values, param_name: val - shift}},
+                shift_key,
+            )
+            for (shift, coeff), shift_key in zip(rules, shift_keys)
+        )
+
     def jvp_component(param_name: str, key: Array) -> Array:
         shift_gates = param_to_gates_indices[param_name]
+        if not shift_gates:
+            return shift_values(param_name, key)
+        if param_name in observed:
+            key, observed_key = random.split(key)
         if len(shift_gates) > 1:
             terms = [(ind, *rule) for ind in shift_gates for rule in shift_rule(gates[ind])]  # type: ignore[arg-type]
-            return sum(
+            jvp = sum(
                 coeff
                 * difference(
                     alter_gate_sequence(gates, ind, shift),
@@ -77,20 +102,9 @@ def finite_shots_gpsr_backward(
                 )
                 for (ind, shift, coeff), shift_key in zip(terms, random.split(key, len(terms)))
             )
-        rules = shift_rule(gates[shift_gates[0]] if shift_gates else None)  # type: ignore[arg-type]
-        shift_keys = random.split(key, len(rules)) if len(rules) > 1 else [key]
-        val = values[param_name]
-        return sum(
-            coeff
-            * difference(
-                gates,
-                {**values, param_name: val + shift},
-                gates,
-                {**values, param_name: val - shift},
-                shift_key,
-            )
-            for (shift, coeff), shift_key in zip(rules, shift_keys)
-        )
+        else:
+            jvp = shift_values(param_name, key, gates[shift_gates[0]])  # type: ignore[arg-type]
+        return jvp + shift_values(param_name, observed_key) if param_name in observed else jvp
 
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
     return jnp.stack([jvp_component(param, key) for param, key in params_with_keys]).sum(axis=-1)
@@ -161,7 +175,7 @@ def finite_shots_jvp(
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
     gates, values_array, to_values, evaluations, shifts, coefficients = prepare_shifts(
-        gates, values
+        gates, observable, values
     )
 
     def jvp_caller(carry_grad: Array, evaluation: dict[str, Array]) -> tuple[Array, Array]:
-- 
2.43.0


From f4b477e386c0228828327365c5b3c2569e794b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 28/29] fix: Kraus operators of Pauli probabilities that add up
 to one up to rounding

---
 horqrux/noise/utils_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/noise/utils_noise.py b/horqrux/noise/utils_noise.py
index 7fd2631..43c0c1b 100644
--- a/horqrux/noise/utils_noise.py
+++ b/horqrux/noise/utils_noise.py
@@ -125,7 +125,7 @@ def PauliChannel(error_probability: tuple[float, ...]) -> tuple[Array, ...]:
         error_probability[2],
     )
 
-    K0: Array = jnp.sqrt(1.0 - (px + py + pz)) * OPERATIONS_DICT["I"]
+    K0: Array = jnp.sqrt(jnp.maximum(1.0 - (px + py + pz), 0.0)) * OPERATIONS_DICT["I"]
     K1: Array = jnp.sqrt(px) * OPERATIONS_DICT["X"]
     K2: Array = jnp.sqrt(py) * OPERATIONS_DICT["Y"]
     K3: Array = jnp.sqrt(pz) * OPERATIONS_DICT["Z"]
-- 
2.43.0


From 3edee8640508bd9922d730153dd46dd58723f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 29/29] fix: probabilities of a density matrix in the tensor
 form density_mat returns

---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 40a4eef..558c2ae 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -533,7 +533,8 @@ def _(state: Array) -> Array:
 
 @probabilities.register
 def _(state: DensityMatrix) -> Array:
-    return jnp.diagonal(state.array).real
+    d = 2 ** (int(log2(state.array.size)) // 2)
+    return jnp.diagonal(state.array.reshape((d, d))).real
 
 
 @singledispatch
-- 
2.43.0

