From abd19d6839a288487328c7106fb89d0479341826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/32] fix: `in` on a node agrees with indexing for missing
 parents and trailing slashes

---
 src/mpllayout/containers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..4be34d3 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -163,13 +163,14 @@ class Node(Generic[TValue]):
 
     def __contains__(self, key: str) -> bool:
         split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
+        parent_key, child_keys = split_keys[0], split_keys[1:]
 
-        if child_key == "":
-            return parent_key in self.children
+        if parent_key not in self.children:
+            return False
+        elif len(child_keys) == 0:
+            return True
         else:
-            return child_key in self[parent_key]
+            return child_keys[0] in self.children[parent_key]
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 709bf3a739ce637186ddfaeb76e2451628cf0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 02/32] fix: `ItemCounter.__contains__` read a non-existent
 attribute

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 4be34d3..7aae513 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -280,7 +280,7 @@ class ItemCounter(Generic[TItem]):
         return self._category_counts
 
     def __contains__(self, key):
-        return key in self._p
+        return key in self.category_counts
 
     def categorize(self, item: TItem) -> str:
         """
-- 
2.43.0


From 764d06a4d0ab32634b19d217eb1a1cff5bb83646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 03/32] fix: `Node.copy` keeps the type of every node

---
 src/mpllayout/containers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 7aae513..0585b5d 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -142,9 +142,8 @@ class Node(Generic[TValue]):
             self.children[key] = child
 
     def copy(self):
-        def identity(value: TValue) -> TValue:
-            return value
-        return map(identity, self)
+        # NOTE: `map` would return plain `Node` instances here
+        return unflatten(flatten('', self))[0]
 
     ## String methods
 
-- 
2.43.0


From 2234a766777a12b6f2e2246571453046c506776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 04/32] fix: a jax pytree round trip keeps the order of child
 nodes

---
 src/mpllayout/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 0585b5d..0165379 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -510,13 +510,15 @@ AuxData = Any
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # NOTE: The child keys are auxiliary data because jax sorts `dict` keys, which
+        # would reorder the children
+        flat_node = (node.value, tuple(node.children.values()))
+        aux_data = tuple(node.children.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From a57f227d36b3fc32585dbfa2465dbe56e2544e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 05/32] fix: check the number of child primitives for each
 child construction

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..13a3e4c 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -176,7 +176,7 @@ class ConstructionNode(Node[ConstructionValue]):
             for (key, prim_types), prim_keys
             in zip(child_prim_types.items(), value.child_prim_keys)
         }
-        if not all(valid_child_prim_keys):
+        if not all(valid_child_prim_keys.values()):
             invalid_cons_keys = {
                 key for key, valid in valid_child_prim_keys.items() if not valid
             }
-- 
2.43.0


From dfd6baffcde20b3b6c759049ac2f31ff5daa77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 06/32] fix: children of a sum of constructions use the
 primitives of their own term

---
 src/mpllayout/constructions.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 13a3e4c..c2354a6 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1633,8 +1633,19 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # The primitives of `cons_b` come after those of `cons_a` so 'arg{n}' keys of
+        # `cons_b` have to be shifted
+        def shift_arg_number(prim_key: str) -> str:
+            arg_prefix, *child_key = prim_key.split("/", 1)
+            arg_num = int(arg_prefix[3:]) + len(signature_a.prim_types)
+            return "/".join([f"arg{arg_num}"] + child_key)
+
         sum_child_prim_keys = tuple(
-            concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
+            concat_prims(
+                tuple(prim_keys_a),
+                tuple(shift_arg_number(prim_key) for prim_key in prim_keys_b)
+            )
+            for prim_keys_a, prim_keys_b
             in zip(value_a.child_prim_keys, value_b.child_prim_keys)
         )
 
-- 
2.43.0


From dfc230afdc4acd00f6372f97e609fc1428cad745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 07/32] fix: multiplying a `Scalar` construction by a number

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index c2354a6..6b3ac5d 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -445,7 +445,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From 20f20666c1e4d31c9c2704158e476aa7a9032e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 08/32] fix: `transform_partial` without frozen parameters
 keeps the parameters

---
 src/mpllayout/constructions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 6b3ac5d..0fc5f25 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1838,7 +1838,9 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types,
+        param_types[:len(param_types) - len(freeze_params)],
+        value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 4b012fd3d3b15e78068c56f4e276628cb6794003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 09/32] fix: the `Angle` construction stays in its documented
 range

---
 src/mpllayout/constructions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 0fc5f25..b56bbee 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1018,9 +1018,8 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # NOTE: The difference of the two line angles could leave the range `(-pi, pi)`
+        return jnp.arctan2(jnp.cross(dir0, dir1), jnp.dot(dir0, dir1))
 
 
 ## Point and Line constructions
-- 
2.43.0


From 1886b7888dad87f16ec41acfcbca4ba1e940e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 10/32] fix: each node of a `Vector` tree gets its own chunk of
 the vector

---
 src/mpllayout/constructions.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index b56bbee..2030ef0 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -636,19 +636,17 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.ndim(value) == 0:
                 value = value* np.ones(cumsize_node.value)
 
-            return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
-            )
+            # The first chunk of `value` belongs to this node and each remaining
+            # chunk belongs to a child node (including all of its children)
+            _, *child_values = chunk(value, (size_node.value,) + child_cumsizes)
+            return tuple((child_value,) for child_value in child_values)
 
         return (keys, constructions, prim_keys, child_params)
 
@@ -658,10 +656,14 @@ class Vector(Construction, _NullSignature):
 
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        # FIXME: Does this work for an empty root node???
-        # Seems that it would return a non-empty vector which would be wrong?
+        # NOTE: `value` also contains the chunks of any child nodes
         return value
 
+    def assem_atleast_1d(self, prims: Prims, *params: Params) -> NDArray:
+        # Only the first chunk of the vector belongs to this node
+        value = super().assem_atleast_1d(prims, *params)
+        return value[:self.signature.value_size]
+
 
 class Scalar(LeafConstruction, _NullSignature):
     """
@@ -1665,7 +1667,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
-- 
2.43.0


From b40b5c8288a036921eeb7ee703510a49f463a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 11/32] fix: `RectilinearGrid` supplies parameters for its
 children only

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..676718f 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -1034,7 +1034,7 @@ class RectilinearGrid(ArrayConstraint, con._QuadrilateralsSignature):
         prim_keys = tuple(align_row_args + align_col_args)
 
         def child_params(params: Params) -> tuple[Params, ...]:
-            return 4 * num_row*num_col * ((),)
+            return (num_row + num_col) * ((),)
         return keys, constraints, prim_keys, child_params
 
     @classmethod
-- 
2.43.0


From 1568851ee38993cc62b445af4909f22e3ef2bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 12/32] fix: check the number of parameters of child
 constructions

---
 src/mpllayout/constructions.py | 9 ++++++++-
 src/mpllayout/layout.py        | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 2030ef0..a15d0f7 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,7 +356,14 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
-        children_params = self.child_params(params)
+        self.validate_params(params)
+        children_params = tuple(self.child_params(params))
+        if len(children_params) != len(self):
+            raise TypeError(
+                f"Expected parameters for {len(self)} child constructions"
+                f", not {len(children_params)}"
+            )
+
         children = {
             key: child.root_params(child_params)
             for (key, child), child_params in zip(self.items(), children_params)
diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..f72988d 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -202,12 +202,13 @@ class Layout:
 
         try:
             constraint.validate_params(param)
+            param_node = constraint.root_params(param)
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
         self.root_constraint.add_child(key, constraint)
         self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_param.add_child(key, param_node)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From ef88da9079e6b7fe9c93f347c37b992e17189892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 13/32] fix: a failing `add_constraint` leaves the layout
 unchanged

---
 src/mpllayout/layout.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index f72988d..26c5c9d 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -206,8 +206,11 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        prim_keys_node = constraint.root_prim_keys(prim_keys)
+
+        # Create all nodes before adding any, so that an error leaves the layout as is
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
+        self.root_prim_keys.add_child(key, prim_keys_node)
         self.root_param.add_child(key, param_node)
 
 def update_layout_constraints(
-- 
2.43.0


From 3e6b321aeb3d46b8c90998738f55f2e8eff38557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 14/32] fix: an updated layout doesn't share trees with the
 original layout

---
 src/mpllayout/layout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 26c5c9d..7d909a1 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -265,9 +265,9 @@ def update_layout_constraints(
     )
 
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        layout.root_prim.copy(),
+        layout.root_constraint.copy(),
+        layout.root_prim_keys.copy(),
         new_root_param
     )
 
-- 
2.43.0


From 72b9aef056f9006f81d89e19be2455e063a15ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 15/32] fix: `idx_1d` strides for more than two axes

---
 src/mpllayout/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 676718f..7472a68 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -982,7 +982,9 @@ def idx_1d(multi_idx: tuple[int, ...], shape: tuple[int, ...]):
     """
     Return a 1D array index from a multi-dimensional array index
     """
-    strides = shape[1:] + (1,)
+    strides = tuple(
+        int(np.prod(shape[axis+1:])) for axis, _ in enumerate(shape)
+    )
     return sum(axis_idx * stride for axis_idx, stride in zip(multi_idx, strides))
 
 
-- 
2.43.0


From 3d79b9c250d5241800e113ad733eee243e419075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 16/32] fix: primitives created from the same array are
 different unknowns

---
 src/mpllayout/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..da168b8 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -180,7 +180,9 @@ class Primitive(PrimitiveNode):
         elif isinstance(value, (list, tuple)):
             value = np.array(value)
         elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
+            # NOTE: Copy the array so that primitives created from the same array
+            # remain different unknowns (see `filter_unique_values_from_prim`)
+            value = np.array(value)
         else:
             raise TypeError()
 
-- 
2.43.0


From 833ed7ba358b27274a3421373be71b5c6e2b7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 17/32] fix: reject a wrong number of parameterizing primitives

---
 src/mpllayout/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index da168b8..0529002 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -190,6 +190,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Invalid `prims` must be {len(child_keys)} not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
-- 
2.43.0


From 29a7fa3c1fc270390061de7f96f7d1fbdeee6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 18/32] fix: solve layouts without any constraints

---
 src/mpllayout/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..c5a3417 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,8 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        # NOTE: The empty array handles layouts without any constraints
+        return jnp.concatenate([np.zeros(0)] + residuals)
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +205,8 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        # NOTE: The empty array handles layouts without any constraints
+        return jnp.sum(jnp.concatenate([np.zeros(0)] + residuals)**2)
 
     class MinHistory:
 
-- 
2.43.0


From ab2ce7cbc0b919ab9ab7613dd968c544e6d69acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 19/32] fix: 'minimize' solver errors are the residual 2-norm

---
 src/mpllayout/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index c5a3417..79e089c 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -215,7 +215,8 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            # The objective function is the square of the residual 2-norm
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
             rel_err = abs_err / self.abs_errs[0]
-- 
2.43.0


From ce6a76d3097de5319c367ff321bda49f3865a29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 20/32] fix: rotation of lines pointing downwards

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From 13418ca504174c7fd7fefd2fd86371a5c2e06126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 21/32] fix: restore the axis label visibility if there is an
 error

---
 src/mpllayout/constraints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 7472a68..421a784 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -641,7 +641,10 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
 
-    axis_bbox = axis.get_tightbbox()
+    try:
+        axis_bbox = axis.get_tightbbox()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     if axis_bbox is None:
         dim = 0
@@ -661,8 +664,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From ffff955a93d6e782c08d9185b55d152a017978e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 22/32] fix: axis label coordinates are relative to the figure
 origin

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From 2f40b473de90fad5df3f2ad89a72b9eaacd426bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 23/32] fix: `CoincidentLines` returns four values

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 421a784..162eb8a 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From c6b72e0bb18e99ddf46a8b0a40d9ab1310c4e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 24/32] fix: reject parameterizing primitives of a `Point`

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 0529002..d279c7d 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -295,7 +295,7 @@ class Point(StaticPrimitive):
 
     @classmethod
     def init_children(cls, prims):
-        return (), ()
+        return (), prims
 
     @classmethod
     def default_value(cls):
-- 
2.43.0


From 195af0805f73c703df615842a05c5a47a9bb7e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 25/32] fix: a polygon can be plotted without giving its
 opacity

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index ccef777..128d2d5 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -99,7 +99,7 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     ]
     verts = np.array([point.value for point in points])
     patch_kwargs = kwargs.copy()
-    patch_kwargs['alpha'] = 0.1*kwargs['alpha']
+    patch_kwargs['alpha'] = 0.1*kwargs.get('alpha', 1)
     poly_patch = Polygon(verts, closed=True, **patch_kwargs)
     ax.add_patch(poly_patch)
 
-- 
2.43.0


From 869c79c1cd18bc8200f2d2a50e4b560d8f6bddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 26/32] fix: divide constructions by parameters of any integer
 type

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index a15d0f7..f2b5505 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1763,7 +1763,7 @@ def transform_scalar_div(
     if not isinstance(scalar, Scalar):
         scalar = transform_partial(Scalar(), scalar)
 
-    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1))
+    return transform_scalar_mul(cons, transform_scalar_pow(scalar, -1.0))
 
 
 def transform_scalar_pow(
-- 
2.43.0


From f4a8a639ff95adf49558637be11504664c730d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 27/32] fix: `numpy` numbers can be factors and exponents of
 constructions

---
 src/mpllayout/constructions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index f2b5505..ded317b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -144,6 +144,10 @@ class ConstructionNode(Node[ConstructionValue]):
         Child constructions
     """
 
+    # NOTE: This makes `numpy` numbers use `__rmul__` instead of treating the node as an
+    # array of its children
+    __array_ufunc__ = None
+
     def __init__(self, value: ConstructionValue, children: dict[str, TCons]):
 
         ## Check `value`
@@ -1740,7 +1744,7 @@ def transform_scalar_mul(
         )
         return ScalarMultipleConstruction, node_value, child_keys_a
 
-    if isinstance(scalar, (float, int)):
+    if isinstance(scalar, (float, int, np.number)):
         scalar = transform_partial(Scalar(), scalar)
     elif not isinstance(scalar, Scalar):
         raise TypeError(f"`scalar` must have type `Scalar` not {type(scalar)}")
@@ -1813,7 +1817,7 @@ def transform_scalar_pow(
         )
         return ScalarPowerConstruction, node_value, child_keys_a
 
-    if isinstance(scalar, (float, int)):
+    if isinstance(scalar, (float, int, np.number)):
         scalar = transform_partial(Scalar(), scalar)
     elif not isinstance(scalar, Scalar):
         raise TypeError(f"`scalar` must have type `Scalar` not {type(scalar)}")
-- 
2.43.0


From a96e8e0c8013aead6e54a10c582af565fe4e7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 28/32] fix: the shape of an `OuterMarginArray` can be an
 integer

---
 src/mpllayout/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 162eb8a..73ef31b 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -805,6 +805,8 @@ class OuterMarginArray(con.CompoundConstruction):
     """
 
     def __init__(self, shape: tuple[int, ...], side: Literal['bottom', 'top', 'left', 'right']):
+        if isinstance(shape, int):
+            shape = (shape,)
         super().__init__(shape=shape, side=side)
 
     @classmethod
-- 
2.43.0


From e39d67dadc09c3a1cafee08609c7be87f7ca24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:43 +0000
Subject: [PATCH 29/32] fix: reject parameter vectors that are not
 one-dimensional

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index d279c7d..4e2b9ec 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,7 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        assert value.shape == (param_size,)
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From 20ad383d4af0f55565c1e6902206a2fa4398495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 30/32] fix: update thickness constraints of axes in groups

---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 7d909a1..944bf3e 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -250,12 +250,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From 8d070fa15b6e4f16eb11fd0236b468ea00aa99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:54 +0000
Subject: [PATCH 31/32] fix: keep the ticks of misaligned axis regions on sides
 that the axis can have

---
 src/mpllayout/matplotlibutils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index 7f69e77..5f7696b 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -123,12 +123,20 @@ def update_subplots(
             axis_bbox = f"{axis_prefix}Axis"
             if axis_bbox in root_prim[key]:
                 axis_quad = root_prim[f"{key}/{axis_bbox}"]
-                axis_tick_position = find_axis_position(quad, axis_quad)
+                # NOTE: `matplotlib` raises an error for other positions
+                axis_positions = {"X": ("bottom", "top"), "Y": ("left", "right")}
+                axis_tick_position = find_axis_position(
+                    quad, axis_quad, axis_positions[axis_prefix]
+                )
                 axis.set_ticks_position(axis_tick_position)
 
     return fig, axs
 
-def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) -> str:
+def find_axis_position(
+    axes_frame: pr.Quadrilateral,
+    axis: pr.Quadrilateral,
+    positions: tuple[str, ...] = ("bottom", "top", "left", "right")
+) -> str:
     """
     Return the axis position relative to a frame
 
@@ -140,11 +148,13 @@ def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) ->
         The axes axis
 
         This can be any x or y axis
+    positions: tuple[str, ...]
+        The positions that the axis can have
 
     Returns
     -------
     position: str
-        One of ('bottom', 'top', 'left', 'right') indicating the axis position
+        One of `positions` indicating the axis position
     """
     coincident_line = cr.CoincidentLines()
     params = {"reverse": True}
@@ -157,6 +167,10 @@ def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) ->
         np.linalg.norm(res) for res in (bottom_res, top_res, left_res, right_res)
     )
     residual_positions = ("bottom", "top", "left", "right")
+    residuals = tuple(
+        residual if position in positions else np.inf
+        for residual, position in zip(residuals, residual_positions)
+    )
 
     if not np.isclose(np.min(residuals), 0):
         warnings.warn("The axis isn't closely aligned with any of the axes sides")
-- 
2.43.0


From a5b20001e0e198c7c84758c2a852fd9de4f0b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:41 +0000
Subject: [PATCH 32/32] fix: update multiples of thickness constraints by a
 parameter

The parameters after the axis (the factor, for example) were lost, so that
updating a layout raised an error.
---
 src/mpllayout/layout.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 944bf3e..5dc852d 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -251,12 +251,16 @@ def update_layout_constraints(
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
                 axes_key = axis_key.rsplit("/", 1)[0]
-                constraintkey_to_param[key] = (axs[axes_key].xaxis,)
+                constraintkey_to_param[key] = (
+                    axs[axes_key].xaxis, *constraint_param.value[1:]
+                )
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
                 axes_key = axis_key.rsplit("/", 1)[0]
-                constraintkey_to_param[key] = (axs[axes_key].yaxis,)
+                constraintkey_to_param[key] = (
+                    axs[axes_key].yaxis, *constraint_param.value[1:]
+                )
 
     new_root_param = update_root_param(
         layout.root_constraint,
-- 
2.43.0

