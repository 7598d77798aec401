From b9712302e5d5bfee3495a6d1afc0a7fdc183c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 01/30] fix: Node membership is False, not an error, when a
 parent is missing

---
 src/mpllayout/containers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index bee6167..4be34d3 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -163,13 +163,14 @@ class Node(Generic[TValue]):
 
     def __contains__(self, key: str) -> bool:
         split_keys = key.split("/", 1)
-        parent_key = split_keys[0]
-        child_key = "/".join(split_keys[1:])
+        parent_key, child_keys = split_keys[0], split_keys[1:]
 
-        if child_key == "":
-            return parent_key in self.children
+        if parent_key not in self.children:
+            return False
+        elif len(child_keys) == 0:
+            return True
         else:
-            return child_key in self[parent_key]
+            return child_keys[0] in self.children[parent_key]
 
     def __len__(self) -> int:
         return len(self.children)
-- 
2.43.0


From 5aef13993fb3b3bff6a6b3d77102cc3762eef9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 02/30] fix: keep the child order of nodes in the jax pytree
 form

---
 src/mpllayout/containers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 4be34d3..46442b2 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -511,13 +511,15 @@ AuxData = Any
 def _make_flatten_unflatten(node_type: type[TNode]):
 
     def _flatten_node(node: TNode) -> tuple[FlatNode, AuxData]:
-        flat_node = (node.value, node.children)
-        aux_data = None
+        # Child keys are static data so that `jax` preserves the child order
+        # (`jax` sorts the keys of `dict` pytrees)
+        flat_node = (node.value, tuple(node.children.values()))
+        aux_data = tuple(node.children.keys())
         return (flat_node, aux_data)
 
     def _unflatten_node(aux_data: AuxData, flat_node: FlatNode) -> TNode:
         value, children = flat_node
-        return node_type.from_tree(value, children)
+        return node_type.from_tree(value, dict(zip(aux_data, children)))
 
     return _flatten_node, _unflatten_node
 
-- 
2.43.0


From 60a120ddf003810dbc9154cff107363f7172b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 03/30] fix: Node.copy keeps node types

---
 src/mpllayout/containers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 46442b2..8b00245 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -142,9 +142,7 @@ class Node(Generic[TValue]):
             self.children[key] = child
 
     def copy(self):
-        def identity(value: TValue) -> TValue:
-            return value
-        return map(identity, self)
+        return unflatten(flatten("", self))[0]
 
     ## String methods
 
-- 
2.43.0


From 9152487acccf60a4c92a91dc2a9e564918fbbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 04/30] fix: a rejected Layout.add_constraint leaves the layout
 unchanged

---
 src/mpllayout/layout.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..d0fb015 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -205,9 +205,13 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
+        # Create all nodes first so that an error leaves the layout unchanged
+        prim_keys_node = constraint.root_prim_keys(prim_keys)
+        params_node = constraint.root_params(param)
+
         self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        self.root_prim_keys.add_child(key, prim_keys_node)
+        self.root_param.add_child(key, params_node)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From fafdfebbac56702b751d6bd6334938bd67e499bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 05/30] fix: reject a wrong number of parameters for nested
 constructions

---
 src/mpllayout/constructions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..b03e4c1 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -356,6 +356,9 @@ class ConstructionNode(Node[ConstructionValue]):
         root_params: ParamsNode
             A tree of params
         """
+        # A wrong number of parameters for a nested child construction would
+        # otherwise misalign the parameter and construction trees
+        self.validate_params(params)
         children_params = self.child_params(params)
         children = {
             key: child.root_params(child_params)
-- 
2.43.0


From 1e4aa2e4a950f0cdda9f599a66c627265a2d95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 06/30] fix: transform_partial without frozen parameters keeps
 the parameter types

---
 src/mpllayout/constructions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index b03e4c1..aa6e69b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1830,7 +1830,9 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types,
+        param_types[:len(param_types)-len(freeze_params)],
+        value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 688dbad899031e04cd26cf29a9b599ead0362410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 07/30] fix: a Scalar construction can be multiplied by a
 number

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index aa6e69b..3c4944b 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -448,7 +448,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From 491c62f01ed7ef397d27c7b959eadd0f9b1f8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 08/30] fix: Vector splits values between nested constructions

---
 src/mpllayout/constructions.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 3c4944b..609eea7 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -639,7 +639,6 @@ class Vector(Construction, _NullSignature):
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
@@ -647,10 +646,12 @@ class Vector(Construction, _NullSignature):
             if isinstance(value, (float, int)):
                 value = value* np.ones(cumsize_node.value)
 
+            # The node's own chunk comes first, followed by the chunks for each
+            # child (including all of the child's own children)
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value
+                in chunk(value[size_node.value:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -659,10 +660,17 @@ class Vector(Construction, _NullSignature):
     def init_signature(cls, size_node: Optional[Node[int]]=None):
         return cls.make_signature(size_node.value, (np.ndarray,))
 
+    def assem_atleast_1d(self, prims: tuple[()], *params: Params) -> NDArray:
+        # `assem` returns the chunk for this node and all of its children
+        value = super().assem_atleast_1d(prims, *params)
+        value_size = self.signature.value_size
+        if value.size == 1:
+            return jnp.broadcast_to(value, (value_size,))
+        else:
+            return value[:value_size]
+
     @classmethod
     def assem(cls, prims: tuple[()], value: float | NDArray):
-        # FIXME: Does this work for an empty root node???
-        # Seems that it would return a non-empty vector which would be wrong?
         return value
 
 
@@ -1658,7 +1666,10 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
             def assem(cls, sum_prims: Prims, *sum_params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(sum_prims)
                 params_a, params_b = split_params(sum_params)
-                return cons_a.assem(prims_a, *params_a) + cons_b.assem(prims_b, *params_b)
+                return (
+                    cons_a.assem_atleast_1d(prims_a, *params_a)
+                    + cons_b.assem_atleast_1d(prims_b, *params_b)
+                )
 
         return SumConstruction, node_value, sum_child_keys
 
-- 
2.43.0


From dea36b8d22c470b85a7a3d9c4fbde25e5f1525e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 09/30] fix: Vector accepts any scalar type and rejects the
 wrong size

---
 src/mpllayout/constructions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 609eea7..699666d 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -643,8 +643,13 @@ class Vector(Construction, _NullSignature):
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
 
-            if isinstance(value, (float, int)):
+            if np.size(value) == 1:
                 value = value* np.ones(cumsize_node.value)
+            elif np.size(value) != cumsize_node.value:
+                raise ValueError(
+                    f"`value` must have size {cumsize_node.value}"
+                    f" not {np.size(value)}"
+                )
 
             # The node's own chunk comes first, followed by the chunks for each
             # child (including all of the child's own children)
-- 
2.43.0


From 337aa21d6d4cb7f21d0e4f622bd61df3eba0b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 10/30] fix: the sum of compound constructions uses the
 primitives of each operand

---
 src/mpllayout/constructions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 699666d..a4dddc0 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1649,9 +1649,15 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+        # The primitive arguments for `cons_b` come after those for `cons_a`
+        arg_keys_b = tuple(
+            f"arg{len(signature_a.prim_types) + n}"
+            for n in range(len(signature_b.prim_types))
+        )
         sum_child_prim_keys = tuple(
-            concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            concat_prims(tuple(prim_keys_a), prim_keys_b)
+            for prim_keys_a, prim_keys_b
+            in zip(value_a.child_prim_keys, cons_b.child_prim_keys(arg_keys_b))
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From b3c6fba9d73950659fc4ceb5b18a236a61a523bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 11/30] fix: CoincidentLines declares its output size

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..42c0a4f 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From 076bb6cde52cf7df57d077068481018e1e25071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 12/30] fix: Angle is in the documented range

---
 src/mpllayout/constructions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index a4dddc0..6b298da 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1034,9 +1034,7 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        return jnp.arctan2(jnp.cross(dir0, dir1), jnp.dot(dir0, dir1))
 
 
 ## Point and Line constructions
-- 
2.43.0


From 58d519f0968aa2515f567e02f8af55ea9221f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 13/30] fix: axis label coordinates are relative to the figure
 origin

---
 src/mpllayout/matplotlibutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..7f69e77 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -114,7 +114,7 @@ def update_subplots(
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
-                label_coords = axis_label_point.value
+                label_coords = axis_label_point.value - fig_origin
                 axis.set_label_coords(
                     *(label_coords / fig_size), transform=fig.transFigure
                 )
-- 
2.43.0


From 4b719386ea18793614045018fe6dd9e7446d6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 14/30] fix: get_axis_thickness restores the label visibility
 on error

---
 src/mpllayout/constraints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 42c0a4f..c3ee056 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -640,7 +640,12 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     # Ignore the axis label in the height by temporarily making it invisible
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
+    try:
+        return _get_axis_thickness_no_label(axis)
+    finally:
+        axis.label.set_visible(label_visibility)
 
+def _get_axis_thickness_no_label(axis: XAxis | YAxis):
     axis_bbox = axis.get_tightbbox()
 
     if axis_bbox is None:
@@ -661,8 +666,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             raise ValueError()
 
-    axis.label.set_visible(label_visibility)
-
     return dim
 
 
-- 
2.43.0


From 4c93bb6b570b6165b3c1eb51c2677b61e3ea4af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 15/30] fix: rotation of downward pointing lines

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..ccef777 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From 5855047008aa2f256b88f2637b784ef0c68facbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 16/30] fix: solve_minimize reports the 2-norm of the residual

---
 src/mpllayout/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..ba4adb8 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -213,7 +213,8 @@ def solve_minimize(
             self.rel_errs = []
 
         def callback(self, intermediate_result: OptimizeResult):
-            abs_err = intermediate_result['fun']
+            # The objective is the squared 2-norm of the residual
+            abs_err = np.sqrt(intermediate_result['fun'])
             self.abs_errs.append(abs_err)
 
             rel_err = abs_err / self.abs_errs[0]
-- 
2.43.0


From 322e86ff44c2eec053a2aa625e94bcd88b9bf338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 17/30] fix: solve a layout without constraints

---
 src/mpllayout/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index ba4adb8..05811bf 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -116,7 +116,7 @@ def solve_newton(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.concatenate(residuals)
+        return jnp.concatenate([jnp.array(())] + residuals)
 
     assem_global_jac = jax.jacfwd(assem_global_res)
 
@@ -204,7 +204,7 @@ def solve_minimize(
         residuals = assem_constraint_residual(
             root_prim, constraints, constraint_graph, constraint_params
         )
-        return jnp.sum(jnp.concatenate(residuals)**2)
+        return jnp.sum(jnp.concatenate([jnp.array(())] + residuals)**2)
 
     class MinHistory:
 
-- 
2.43.0


From 6729ea427b8fe5add56a3f4edbcb4c95c4cd0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 18/30] fix: reject surplus primitives instead of dropping them

---
 src/mpllayout/primitives.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 20aae2b..604b35f 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -188,6 +188,10 @@ class Primitive(PrimitiveNode):
             prims = self.default_prims(**kwargs)
 
         child_keys, child_prims = self.init_children(prims, **kwargs)
+        if len(child_keys) != len(child_prims):
+            raise ValueError(
+                f"Expected {len(child_keys)} child primitives, not {len(child_prims)}"
+            )
 
         super().__init__(
             value, {key: prim for key, prim in zip(child_keys, child_prims)}
-- 
2.43.0


From 3f6477135d21b532fb65f2cd174b0de8f91ab879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 19/30] fix: primitives created from the same array are
 independent

---
 src/mpllayout/primitives.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 604b35f..b47639f 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -177,10 +177,11 @@ class Primitive(PrimitiveNode):
     ):
         if value is None:
             value = self.default_value(**kwargs)
-        elif isinstance(value, (list, tuple)):
+        elif isinstance(value, (list, tuple, np.ndarray, jax.numpy.ndarray)):
+            # Each primitive needs its own array because primitives with the same
+            # array are treated as the same primitive
+            # (see `filter_unique_values_from_prim`)
             value = np.array(value)
-        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):
-            value = value
         else:
             raise TypeError()
 
-- 
2.43.0


From 70c9df121cff61db1cddfe92a77a3ba42c3a2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 20/30] fix: ItemCounter membership

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 8b00245..91f8cc2 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -278,7 +278,7 @@ class ItemCounter(Generic[TItem]):
         return self._category_counts
 
     def __contains__(self, key):
-        return key in self._p
+        return key in self._category_counts
 
     def categorize(self, item: TItem) -> str:
         """
-- 
2.43.0


From bd4791afca4344826335efe7961322b8710718a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 21/30] fix: idx_1d for more than two dimensions

---
 src/mpllayout/constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index c3ee056..13d8c15 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -985,7 +985,9 @@ def idx_1d(multi_idx: tuple[int, ...], shape: tuple[int, ...]):
     """
     Return a 1D array index from a multi-dimensional array index
     """
-    strides = shape[1:] + (1,)
+    strides = tuple(
+        int(np.prod(shape[axis+1:])) for axis in range(len(shape))
+    )
     return sum(axis_idx * stride for axis_idx, stride in zip(multi_idx, strides))
 
 
-- 
2.43.0


From 89aa94ccef45a6b6a7c5a4a9de0226c9a4609477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 22/30] fix: update_layout_constraints handles nested axes

---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index d0fb015..9f3feed 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -250,12 +250,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From 9bc1a9f15dc678af847695797512d8aa188263f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 23/30] fix: reject primitives supplied for a point instead of
 dropping them

---
 src/mpllayout/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index b47639f..5ceef16 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -294,7 +294,7 @@ class Point(StaticPrimitive):
 
     @classmethod
     def init_children(cls, prims):
-        return (), ()
+        return (), prims
 
     @classmethod
     def default_value(cls):
-- 
2.43.0


From f37351f3d3707addc35c89127a92a3c8688d9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 24/30] fix: reject primitive values that are not vectors

---
 src/mpllayout/primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/primitives.py b/src/mpllayout/primitives.py
index 5ceef16..a1f452c 100644
--- a/src/mpllayout/primitives.py
+++ b/src/mpllayout/primitives.py
@@ -117,7 +117,10 @@ class PrimitiveNode(cn.Node[NDArray[np.float64]]):
         )
         param_size, prim_type_sig = self.signature
 
-        assert len(value) == param_size
+        if value.shape != (param_size,):
+            raise ValueError(
+                f"`value` must have shape {(param_size,)} not {value.shape}"
+            )
 
         prims = [cprim for _, cprim in children.items()]
         if isinstance(prim_type_sig, tuple):
-- 
2.43.0


From ba96de86adb227d893bda87961cdc0e800892d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 25/30] fix: solve_minimize performs no iteration for
 max_iter=0

---
 src/mpllayout/solver.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 05811bf..fa3d221 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -228,15 +228,17 @@ def solve_minimize(
     ## Iteratively minimize the global residual as function of the global parameter vector
 
     # TODO: (not critical) Implement other optimization solvers besides 'L-BFGS-B'
-    res = minimize(
-        jax.value_and_grad(assem_objective),
-        global_param_n,
-        method='L-BFGS-B',
-        jac=True,
-        callback=min_hist.callback,
-        options={'maxiter': max_iter}
-    )
-    global_param_n = res['x']
+    # (`minimize` would perform one iteration for `maxiter=0`)
+    if max_iter > 0:
+        res = minimize(
+            jax.value_and_grad(assem_objective),
+            global_param_n,
+            method='L-BFGS-B',
+            jac=True,
+            callback=min_hist.callback,
+            options={'maxiter': max_iter}
+        )
+        global_param_n = res['x']
 
     prim_params_n = [
         np.array(global_param_n[idx_start:idx_end])
-- 
2.43.0


From a1ca05104271f5e3ffb6097687fdcada5e0d147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 26/30] fix: an axis is never positioned on a side where it
 cannot have ticks

---
 src/mpllayout/matplotlibutils.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index 7f69e77..f66a468 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -108,8 +108,11 @@ def update_subplots(
         # Set x/y axis properties
         axis_prefixes = ("X", "Y")
         axis_tuple = (ax.xaxis, ax.yaxis)
+        axis_positions = (("bottom", "top"), ("left", "right"))
 
-        for axis_prefix, axis in zip(axis_prefixes, axis_tuple):
+        for axis_prefix, axis, positions in zip(
+            axis_prefixes, axis_tuple, axis_positions
+        ):
             # Set the axis label position
             axis_label = f"{axis_prefix}AxisLabel"
             if axis_label in root_prim[key]:
@@ -123,12 +126,16 @@ def update_subplots(
             axis_bbox = f"{axis_prefix}Axis"
             if axis_bbox in root_prim[key]:
                 axis_quad = root_prim[f"{key}/{axis_bbox}"]
-                axis_tick_position = find_axis_position(quad, axis_quad)
+                axis_tick_position = find_axis_position(quad, axis_quad, positions)
                 axis.set_ticks_position(axis_tick_position)
 
     return fig, axs
 
-def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) -> str:
+def find_axis_position(
+    axes_frame: pr.Quadrilateral,
+    axis: pr.Quadrilateral,
+    positions: tuple[str, ...] = ("bottom", "top", "left", "right")
+) -> str:
     """
     Return the axis position relative to a frame
 
@@ -140,6 +147,8 @@ def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) ->
         The axes axis
 
         This can be any x or y axis
+    positions: tuple[str, ...]
+        The positions the axis can have
 
     Returns
     -------
@@ -153,14 +162,14 @@ def find_axis_position(axes_frame: pr.Quadrilateral, axis: pr.Quadrilateral) ->
     left_res = coincident_line((axes_frame["Line3"], axis["Line1"]), params)
     right_res = coincident_line((axes_frame["Line1"], axis["Line3"]), params)
 
-    residuals = tuple(
-        np.linalg.norm(res) for res in (bottom_res, top_res, left_res, right_res)
-    )
-    residual_positions = ("bottom", "top", "left", "right")
+    position_to_res = {
+        "bottom": bottom_res, "top": top_res, "left": left_res, "right": right_res
+    }
+    residuals = tuple(np.linalg.norm(position_to_res[key]) for key in positions)
 
     if not np.isclose(np.min(residuals), 0):
         warnings.warn("The axis isn't closely aligned with any of the axes sides")
-    position = residual_positions[np.argmin(residuals)]
+    position = positions[np.argmin(residuals)]
     return position
 
 
-- 
2.43.0


From 37094b5aaa2f76855cd62d53b1bbf7792d437b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 27/30] fix: an updated layout shares no trees with the
 original

---
 src/mpllayout/layout.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 9f3feed..41d71d2 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -264,10 +264,12 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
+    # The layouts can't share trees because adding constraints or primitives to one
+    # of them would change the other
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        layout.root_prim.copy(),
+        layout.root_constraint.copy(),
+        layout.root_prim_keys.copy(),
         new_root_param
     )
 
-- 
2.43.0


From 18273b1eab3f636ec048b0873c75ce7b52d56891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 28/30] fix: plot_polygon can be called without an opacity

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index ccef777..128d2d5 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -99,7 +99,7 @@ def plot_polygon(ax: Axes, polygon: pr.Polygon, label: Optional[str]=None, **kwa
     ]
     verts = np.array([point.value for point in points])
     patch_kwargs = kwargs.copy()
-    patch_kwargs['alpha'] = 0.1*kwargs['alpha']
+    patch_kwargs['alpha'] = 0.1*kwargs.get('alpha', 1)
     poly_patch = Polygon(verts, closed=True, **patch_kwargs)
     ax.add_patch(poly_patch)
 
-- 
2.43.0


From 6d4ce848b7b21605f41d613ccd1998b645a8d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 29/30] fix: integer values can be raised to negative powers
 and be divisors

---
 src/mpllayout/constructions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 6b298da..0694d53 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1798,9 +1798,9 @@ def transform_scalar_pow(
             def assem(cls, prims: Prims, *params: Params) -> NDArray:
                 prims_a, prims_b = split_prims(prims)
                 params_a, params_b = split_params(params)
-                return (
-                    cons_a.assem(prims_a, *params_a) ** cons_b.assem(prims_b, *params_b)
-                )
+                # NumPy integers can't be raised to negative integer powers
+                base = 1.0 * cons_a.assem(prims_a, *params_a)
+                return base ** cons_b.assem(prims_b, *params_b)
 
         def mul_child_params(params: Params) -> tuple[Params, ...]:
             params_a, params_b = split_params(params)
-- 
2.43.0


From 8cbc4d8799f67d0178df6ce7cd5592c1487adf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:40 +0000
Subject: [PATCH 30/30] fix: replacing below a child with an empty name

---
 src/mpllayout/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/containers.py b/src/mpllayout/containers.py
index 91f8cc2..ff80a08 100644
--- a/src/mpllayout/containers.py
+++ b/src/mpllayout/containers.py
@@ -215,7 +215,7 @@ class Node(Generic[TValue]):
         if key not in self:
             raise KeyError(key)
         else:
-            if parent_key == "":
+            if len(split_keys) == 1:
                 parent = self
             else:
                 parent = self[parent_key]
-- 
2.43.0

