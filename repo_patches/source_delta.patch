From 5c589f4ed0aa51640929a19a93decdbacbc69e00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 01/82] fix: import_frozen_program of programs with
 non-persistent buffers

Non-persistent buffers are not in the state_dict of an ExportedProgram but in
its constants, so importing any such program failed.
---
 python/torch_mlir/extras/fx_importer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e760500..63e9e0d 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -960,10 +960,14 @@ class FxImporter:
                     ) from e
                 arg_replacements[input_name] = state_value
 
-        # Always lift buffers.
+        # Always lift buffers. Non-persistent buffers are not part of the
+        # "state_dict", they are stored with the "constants".
         for input_name, state_name in sig.inputs_to_buffers.items():
             try:
-                state_value = state_dict[state_name]
+                if state_name in sig.non_persistent_buffers:
+                    state_value = prog.constants[state_name]
+                else:
+                    state_value = state_dict[state_name]
             except KeyError as e:
                 raise AssertionError("Could not find state mapping for buffer") from e
             arg_replacements[input_name] = state_value
-- 
2.43.0


From ea61c9f090f091f10e4775444396c90f5bd16fc7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 02/82] fix: constant outputs of programs which also mutate
 state

Constant outputs were recorded by their position among all output specs,
mutations included, but looked up by their position among the user outputs.
---
 python/torch_mlir/extras/fx_importer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 63e9e0d..325b6c6 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -694,7 +694,7 @@ class FxImporter:
         # producer for the output.
         user_outputs: List[Optional[Node]] = []
         user_output_types: List[IrType] = []
-        for i, output_spec in enumerate(sig.output_specs):
+        for output_spec in sig.output_specs:
             kind = output_spec.kind
             arg = output_spec.arg
             if kind == OutputKind.USER_OUTPUT:
@@ -711,8 +711,9 @@ class FxImporter:
                         self._cc.node_val_to_type(output_producer_node)
                     )
                 elif isinstance(arg, ConstantArgument):
-                    # Constant Outputs don't have a node so we will only store their values
-                    constant_output_values[i] = arg.value
+                    # Constant Outputs don't have a node so we will only store their
+                    # values, keyed by their position in the user outputs.
+                    constant_output_values[len(user_outputs)] = arg.value
                     # Placeholder for constant outputs in the node list
                     user_outputs.append(None)
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
-- 
2.43.0


From 7f78b07c603d81eef7ca9c52ebedb84bcaf1bd73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 03/82] fix: lost mutations in FX program import

Hooks for the producers of mutated inputs and buffers were keyed by producer
name, so only one of several updates with the same producer was emitted, and
an update whose producer is a placeholder was never emitted.
---
 python/torch_mlir/extras/fx_importer.py | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 325b6c6..cee6a6b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -872,6 +872,8 @@ class FxImporter:
             import_symbolic_shape_expressions=import_symbolic_shape_expressions,
         )
 
+        node_importer.run_placeholder_producer_hooks(placeholder_nodes.values())
+
         # Call the return function that handles both nodes and constant values
         node_importer.return_node_values(loc, user_outputs, constant_output_values)
 
@@ -1430,8 +1432,8 @@ class GraphNodeImporter:
         self._v: Dict[Union[Callable[[], Value], Tuple[torch_fx.Node, int]], Value] = {}
         # Map of Shape Symbol to MLIR Value
         self._symbol_to_value: Dict[str, Value] = {}
-        # Map of node name to hook that should be called when it is produced.
-        self._on_node_produced: Dict[str, Callable[[Value], None]] = {}
+        # Map of node name to hooks that should be called when it is produced.
+        self._on_node_produced: Dict[str, List[Callable[[Value], None]]] = {}
         # Statically multi-result nodes which we have de-tupled are noted here.
         # They will have their getitem calls short-circuited.
         self._multi_result_nodes: Set[torch_fx.Node] = set()
@@ -1455,9 +1457,21 @@ class GraphNodeImporter:
         assert key not in self._v, f"Node already has a value: {node}"
         self._v[key] = value
 
-        producer_callback = self._on_node_produced.get(node.name)
-        if producer_callback is not None:
-            producer_callback(value)
+        # Placeholders are bound (possibly lazily) before all hooks are known. See
+        # `run_placeholder_producer_hooks`.
+        if node.op != "placeholder":
+            for producer_callback in self._on_node_produced.get(node.name, ()):
+                producer_callback(value)
+
+    def run_placeholder_producer_hooks(self, placeholder_nodes: Iterable[Node]):
+        """Runs the hooks of those placeholders which are themselves the producer of
+        an update (i.e. an input is copied to another input or a buffer)."""
+        for node in placeholder_nodes:
+            producer_callbacks = self._on_node_produced.get(node.name, ())
+            if producer_callbacks:
+                value = self.resolve_node_value(node)
+                for producer_callback in producer_callbacks:
+                    producer_callback(value)
 
     def resolve_node_value(self, node: Node, result_index: int = 0) -> Value:
         """Resolves a node to a value."""
@@ -1526,7 +1540,7 @@ class GraphNodeImporter:
                     operands=[value, mutable_value],
                 )
 
-        self._on_node_produced[producer_node_name] = on_produced
+        self._on_node_produced.setdefault(producer_node_name, []).append(on_produced)
         return copy_result
 
     def import_constant(self, loc: Location, node: Node, constant: Any) -> Value:
@@ -1570,7 +1584,9 @@ class GraphNodeImporter:
                         self, buffer_value, value, info
                     )
 
-            self._on_node_produced[info.store_producer_node] = on_produced
+            self._on_node_produced.setdefault(info.store_producer_node, []).append(
+                on_produced
+            )
 
     def return_node_values(self, loc, nodes: List[Node], constants: Dict[int, Any]):
         # This function returns both node values and constant values
-- 
2.43.0


From 382d1958818e927df43fb4ffc76e4d6505c9ac4f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/82] fix: FX importer literals after an id is reused

The reference tracker identifies tensors by id(), which is reused after a
tensor is collected: when one importer imports several programs, literals of a
later program could silently get the data of an earlier one.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index cee6a6b..7b7000d 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2720,6 +2720,9 @@ class RefMapping:
     def is_empty(self):
         return self.value is Empty
 
+    def refers_to(self, referrent: Any) -> bool:
+        return self._referrent() is referrent
+
     def __repr__(self):
         return (
             f"<RefMapping {id(self._referrent) if self._referrent is not Empty else 'empty'} -> "
@@ -2736,7 +2739,8 @@ class RefTracker:
     def track(self, referrent: Any) -> RefMapping:
         ref_id = id(referrent)
         existing = self._refs.get(ref_id)
-        if existing:
+        # The id may have been reused if the original referrent was collected.
+        if existing is not None and existing.refers_to(referrent):
             return existing
         info = RefMapping(referrent)
         # Finalizer is removed due to a memory leak
-- 
2.43.0


From 4d855c639da9eb092d46a6aff973173240e26c29 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 05/82] fix: numbering of complex dtypes in the FX importer

complex64 was imported with the value of complex128 and complex32 with the
value of complex64; complex128 was missing. The values are those of
torch_upstream::ScalarType.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 7b7000d..677fc37 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -244,9 +244,9 @@ TORCH_DTYPE_TO_INT = {
     torch.float16: 5,
     torch.float32: 6,
     torch.float64: 7,
-    # torch.complex_half 8
-    torch.complex32: 9,
-    torch.complex64: 10,
+    torch.complex32: 8,
+    torch.complex64: 9,
+    torch.complex128: 10,
     torch.bool: 11,
     # torch.qint8: 12, # quantized dtypes are not supported in all backends, currently we do not support them
     # torch.quint8: 13,
-- 
2.43.0


From 4615cf66d529c4c4aa3f8314a24547553bd2502f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 06/82] fix: FX get_attr constants with several uses

Whether a get_attr node was already imported was looked up by target name
instead of by node, so importing a second use of the constant failed.
---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 677fc37..96bbbea 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2242,7 +2242,7 @@ class GraphNodeImporter:
                 raise RuntimeError(f"Attempt to de-reference a multi-result node")
 
             # catch references to dynamically created constant attributes and make sure they have an origin in our module
-            if arg.op == "get_attr" and (arg.target, 0) not in self._v:
+            if arg.op == "get_attr" and (arg, 0) not in self._v:
                 gm = arg.graph.owning_module
                 assert hasattr(
                     gm, arg.target
-- 
2.43.0


From bff623716deafdc7bec54e1dce681b9dcd208053 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 07/82] fix: sparsity encoding of BSC tensors

The block rows and columns were swapped, and the blocks described as
column-major although torch stores them row-major.
---
 python/torch_mlir/extras/fx_importer.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 96bbbea..cf57d7b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -431,19 +431,17 @@ def sparsity_encoding(t: torch.Tensor) -> str:
         idx_dtype = t.row_indices().dtype
     else:
         assert sparse_dim == 2
-        blocksize = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        m, n = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        i, j = batch_dim, batch_dim + 1
         if t.layout is torch.sparse_bsr:
-            i, j = batch_dim, batch_dim + 1
+            blocks = f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed"
             idx_dtype = t.col_indices().dtype
         else:
             assert t.layout is torch.sparse_bsc
-            j, i = batch_dim, batch_dim + 1
+            blocks = f"d{j} floordiv {n}:dense,d{i} floordiv {m}:compressed"
             idx_dtype = t.row_indices().dtype
-        m, n = blocksize
-        lvls = (
-            f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed,"
-            f"d{i} mod {m}:dense,d{j} mod {n}:dense"
-        )
+        # The elements within a block are stored row-major in both layouts.
+        lvls = f"{blocks},d{i} mod {m}:dense,d{j} mod {n}:dense"
 
     if batch_dim > 0:
         batch = ",".join(f"d{d}:batch" for d in range(batch_dim))
-- 
2.43.0


From d0d6ef9cc19752d2deb91457cb186e823a881448 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 08/82] fix: numbering of sparse layouts in the FX importer

The layout operands of torch ops use c10::Layout, where 3 is Mkldnn and the
compressed sparse layouts after SparseCsr are 4 (CSC), 5 (BSR) and 6 (BSC).
---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index cf57d7b..863053f 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -277,9 +277,9 @@ TORCH_LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 PY_BUILTIN_TO_TORCH_OP = {
-- 
2.43.0


From 93ed9babb231701a28df41cb2111d582b3742a7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 09/82] fix: as_strided rewrite through dtype and conjugate
 views

aten.view.dtype, view_as_real, real/imag and the lazy conj/neg views share the
storage of their operand but not its element type or values, so tracing the
base of as_strided through them read wrong elements.
---
 python/torch_mlir/extras/fx_as_strided.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 063509c..0b339d0 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -183,7 +183,15 @@ def _same_storage_arg(value: torch.Tensor, arg: Any) -> fx.Node | None:
     if isinstance(arg, fx.Node):
         arg_value = arg.meta.get("val")
         if isinstance(arg_value, torch.Tensor):
-            if value.untyped_storage() is arg_value.untyped_storage():
+            # A node which reinterprets its operand's storage (another dtype, or a
+            # lazy conjugation or negation) is a base of its own: addresses and
+            # values of the operand are not the ones of the view.
+            if (
+                value.untyped_storage() is arg_value.untyped_storage()
+                and value.dtype == arg_value.dtype
+                and value.is_conj() == arg_value.is_conj()
+                and value.is_neg() == arg_value.is_neg()
+            ):
                 return arg
     if isinstance(arg, _LIST):
         for item in arg:
-- 
2.43.0


From ce885b8f8ba7224f50732e1f44549052b033db22 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 10/82] fix: as_strided rewrite of rank-0 tensors

aten.index.Tensor needs at least one index; broadcast the scalar instead.
---
 python/torch_mlir/extras/fx_as_strided.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 0b339d0..1909720 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -10,6 +10,7 @@ import torch.fx as fx
 
 _AS_STRIDED = torch.ops.aten.as_strided.default
 _INDEX = torch.ops.aten.index.Tensor
+_EXPAND = torch.ops.aten.expand.default
 _LIST = (list, tuple, fx.immutable_collections.immutable_list)
 _MISSING = object()
 
@@ -85,7 +86,11 @@ def _rewrite(g: fx.Graph, node: fx.Node) -> fx.Node:
     )
     index_nodes = [_constant(g, node, i, v) for i, v in enumerate(indices)]
     with g.inserting_before(node):
-        replacement = g.call_function(_INDEX, args=(base, index_nodes))
+        if index_nodes:
+            replacement = g.call_function(_INDEX, args=(base, index_nodes))
+        else:
+            # A rank-0 base has nothing to index: every element is the scalar.
+            replacement = g.call_function(_EXPAND, args=(base, list(size)))
     replacement.meta.update(node.meta)
     replacement.meta["val"] = torch.empty(
         tuple(size), dtype=_tensor(node, "result").dtype
-- 
2.43.0


From 45bf6f8d2e29aa6774e23a03242ce79dcd74ad2a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 11/82] fix: as_strided rewrite keeps fake tensor metadata

Graphs whose nodes carry only meta['val'] could not be imported because the
replacement was given a real tensor, which has no importable type.
---
 python/torch_mlir/extras/fx_as_strided.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 1909720..ff44958 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -92,9 +92,9 @@ def _rewrite(g: fx.Graph, node: fx.Node) -> fx.Node:
             # A rank-0 base has nothing to index: every element is the scalar.
             replacement = g.call_function(_EXPAND, args=(base, list(size)))
     replacement.meta.update(node.meta)
-    replacement.meta["val"] = torch.empty(
-        tuple(size), dtype=_tensor(node, "result").dtype
-    )
+    # Like the result of the original node a fake tensor, but with storage of its
+    # own: the import derives the type of the replacement from it.
+    replacement.meta["val"] = _tensor(node, "result").new_empty(tuple(size))
     return replacement
 
 
-- 
2.43.0


From 24731d1055d4d9dcf3a0fec6829a6b5b1cb82ece Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 12/82] fix: diagnostic for values without an importable type

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 863053f..1680c20 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1277,7 +1277,7 @@ class ContextCache:
 
         raise NotImplementedError(
             f"Could not deduce type from value info: "
-            f"tensor_meta={tensor_meta}, val={val} {type(val)}, sparsity={sparsity}"
+            f"tensor_meta={tensor_meta}, val={val} {type(val)}"
         )
 
     def tensor_metadata_to_type(
-- 
2.43.0


From 771b61f3674f7783a92b9de696cf0da99379c5c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 13/82] fix: as_strided rewrite of bases with unit dimensions

The stride of a size-1 dimension is arbitrary; decoding storage offsets with it
rejected valid requests on dense (e.g. channels-last with C=1) tensors.
---
 python/torch_mlir/extras/fx_as_strided.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index ff44958..688326f 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -232,13 +232,14 @@ def _indices(
             shape[dim] = size[dim]
             offsets += torch.arange(size[dim], dtype=torch.int64).reshape(shape) * step
 
-    # Decode high-stride dimensions first. Zero-stride base dimensions keep
-    # coordinate zero because they do not contribute to storage offsets.
+    # Decode high-stride dimensions first. Zero-stride and unit base dimensions
+    # keep coordinate zero because they do not contribute to storage offsets (the
+    # stride of a unit dimension is arbitrary, as in channels-last with C=1).
     coords: list[torch.Tensor] = [torch.zeros_like(offsets)] * len(base_shape)
     remaining = offsets
     dims = sorted(range(len(base_shape)), key=lambda i: base_stride[i], reverse=True)
     for dim in dims:
-        if base_stride[dim]:
+        if base_stride[dim] and base_shape[dim] != 1:
             coord = torch.div(remaining, base_stride[dim], rounding_mode="floor")
             coords[dim] = coord
             remaining -= coord * base_stride[dim]
-- 
2.43.0


From 1a22be2b9c56f94a7f1f58e44bff0dc7e486e226 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 14/82] fix: FX import of scalars read from bool and
 dynamic-graph tensors

A bool read with item() was imported as a torch.aten.Int.Tensor with a bool
result, and graphs whose nodes carry only meta['val'] raised a KeyError.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 1680c20..8d2d900 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2919,9 +2919,13 @@ def empty_memory_format(node: torch_fx.Node):
 
 @register_canonicalize(torch.ops.aten._local_scalar_dense.default)
 def aten__local_scalar_dense_default(node: torch_fx.Node):
-    input_type = node.args[0].meta["tensor_meta"].dtype
+    input_meta = node.args[0].meta
+    # Nodes of dynamic graphs have only a `val`.
+    input_type = input_meta.get("tensor_meta", input_meta.get("val")).dtype
     if input_type.is_floating_point:
         node.target = torch.ops.aten.Float.Tensor
+    elif input_type == torch.bool:
+        node.target = torch.ops.aten.Bool.Tensor
     else:
         node.target = torch.ops.aten.Int.Tensor
     node.args = (node.args[0],)
-- 
2.43.0


From 98e11432393acf22eb0b9762b820459fdad382c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 15/82] fix: FX import of symbolic modulo

Python's % takes the sign of the divisor (aten.remainder) and yields an int for
ints; aten.fmod truncates and aten.fmod.int yields a float.
---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 8d2d900..e9d49a6 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -292,7 +292,7 @@ PY_BUILTIN_TO_TORCH_OP = {
     "ge": torch.ops.aten.ge,
     "ne": torch.ops.aten.ne,
     "gt": torch.ops.aten.gt,
-    "mod": torch.ops.aten.fmod,
+    "mod": torch.ops.aten.remainder,
     "eq": torch.ops.aten.eq,
     "floordiv": torch.ops.aten.floordiv,
     "neg": torch.ops.aten.neg,
-- 
2.43.0


From 875768902827c456fbf2b5d004bc4c2900c04eee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 16/82] fix: FX import of symbolic int/float comparisons

int < float was imported as float < int: the operands were swapped to fit the
float_int overloads without mirroring the (non-commutative) comparison.
---
 python/torch_mlir/extras/fx_importer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e9d49a6..9ea8525 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1695,9 +1695,12 @@ class GraphNodeImporter:
             if all(is_int):
                 op_overload = "int"
             elif any(is_int):
-                if target.__name__ in ("add", "lt", "ge", "ne", "gt"):
+                if target.__name__ in ("add", "ne") or (
+                    target.__name__ in ("lt", "ge", "gt") and arg_types[0] == float
+                ):
                     op_overload = "float_int"
-                    # put float arg first, as expected in signature
+                    # put float arg first, as expected in signature (only valid
+                    # for the commutative operations)
                     if arg_types[1] == float:
                         node.args = (node.args[1], node.args[0])
                 else:
-- 
2.43.0


From e0d1bf3da7501c5b28bf319d1d556f03f6525a25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 17/82] fix: FX import of symbolic arithmetic modified the
 source graph

Operand promotion left nodes which are not part of the graph in it, so the same
program could not be imported a second time.
---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 9ea8525..a455e7b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1674,6 +1674,7 @@ class GraphNodeImporter:
         )
         temp_node.meta["val"] = torch.sym_float(param.meta["val"])
         self._import_torch_op_overload(loc, temp_node, temp_target)
+        temp_node.args = ()  # Not a user of `param`: it is not part of the graph.
         return temp_node
 
     def _import_symbolic_torch_op(
@@ -1686,6 +1687,7 @@ class GraphNodeImporter:
     ):
         # parse builtin operations like add, sub, mul, etc. because dynamo captures these
         # operations on symbolic arguments as regular python expressions rather than as torch ops
+        original_args = node.args
         if is_builtin_function_or_method(target):
             arg_types = [
                 (arg.meta["val"].node.pytype if isinstance(arg, Node) else type(arg))
@@ -1745,6 +1747,8 @@ class GraphNodeImporter:
             concrete_target is not None
         ), f"Unable to parse symbolic operation: {target} with args {node.args}"
         self._import_torch_op_overload(loc, node, concrete_target)
+        # Leave the source graph as it was: it may be imported again.
+        node.args = original_args
 
     def _import_hop(self, loc: Location, node: torch_fx.Node, hop: HigherOrderOperator):
         # Imports a higher-order operator.
-- 
2.43.0


From 65492da7d891282cdb435f246b077bf55c69e300 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 18/82] fix: function names of child modules in the FX importer

---
 python/torch_mlir/extras/fx_importer.py | 45 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a455e7b..41da3f9 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -586,8 +586,10 @@ class FxImporter:
         self._hooks = hooks or FxImporterHooks()
         self.symbol_table = SymbolTable(self._m.operation)
         self._hooks.prepare_module(self._m.operation)
-        # Used specifically in HOPs to map module IDs to function names
-        self._graph_module_to_func_name: Dict[int, str] = {}
+        # Used specifically in HOPs to map modules to function names
+        self._graph_module_to_func_name: weakref.WeakKeyDictionary[GraphModule, str] = (
+            weakref.WeakKeyDictionary()
+        )
         # Handles collision of function names in the same module
         self._func_name_counter: int = 0
 
@@ -854,6 +856,9 @@ class FxImporter:
         for node, (buffer_value, info) in buffer_bindings.items():
             node_importer.lazy_import_buffer(loc, node, buffer_value, info)
 
+        # Claim the name of this function before those of the child modules.
+        self.symbol_table.insert(func_op)
+
         # Import all child graph modules recursively for HOPs BEFORE importing nodes
         # This is necessary because HOP nodes need to reference these functions.
         # Even though import_stateless_graph is deprecated as an entrypoint mechanism,
@@ -875,10 +880,19 @@ class FxImporter:
         # Call the return function that handles both nodes and constant values
         node_importer.return_node_values(loc, user_outputs, constant_output_values)
 
-        self.symbol_table.insert(func_op)
-
         return func_op
 
+    def _unique_func_name(self, func_name: str) -> str:
+        """Derives a name which no function in the module has or will get."""
+        unique_name = func_name
+        while (
+            unique_name in self.symbol_table
+            or unique_name in self._graph_module_to_func_name.values()
+        ):
+            unique_name = f"{func_name}_{self._func_name_counter}"
+            self._func_name_counter += 1
+        return unique_name
+
     def _import_all_child_modules(
         self,
         module: GraphModule,
@@ -1027,17 +1041,8 @@ class FxImporter:
         it should be removed when no longer required for backwards compatibility.
         """
         # Store the mapping for this module itself (HOPs will need to look this up)
-        module_id = id(gm)
-        if module_id not in self._graph_module_to_func_name:
-            # Ensure the func_name is unique
-            final_func_name = func_name
-            if func_name in self._graph_module_to_func_name.values():
-                final_func_name = f"{func_name}_{self._func_name_counter}"
-                self._func_name_counter += 1
-            self._graph_module_to_func_name[module_id] = final_func_name
-        else:
-            # Module already imported, use existing name
-            final_func_name = self._graph_module_to_func_name[module_id]
+        final_func_name = self._unique_func_name(func_name)
+        self._graph_module_to_func_name[gm] = final_func_name
 
         self._import_all_child_modules(gm, func_name, import_symbolic_shape_expressions)
         # Then import this module's own graph
@@ -1792,9 +1797,9 @@ class GraphNodeImporter:
         cond_fn_module = getattr(root_module, cond_fn_node.target, None)
         body_fn_module = getattr(root_module, body_fn_node.target, None)
 
-        # Generate function names with module IDs for uniqueness
-        cond_fn_name = self.fx_importer._graph_module_to_func_name[id(cond_fn_module)]
-        body_fn_name = self.fx_importer._graph_module_to_func_name[id(body_fn_module)]
+        # Look up the functions the modules were imported as
+        cond_fn_name = self.fx_importer._graph_module_to_func_name[cond_fn_module]
+        body_fn_name = self.fx_importer._graph_module_to_func_name[body_fn_module]
 
         # Import the carries (loop state variables)
         carry_values = []
@@ -2000,7 +2005,7 @@ class GraphNodeImporter:
             score_mod_module = getattr(root_module, score_mod_arg.target, None)
             if score_mod_module is not None:
                 score_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                    id(score_mod_module)
+                    score_mod_module
                 ]
                 score_mod_ref = FlatSymbolRefAttr.get(score_mod_func_name)
 
@@ -2019,7 +2024,7 @@ class GraphNodeImporter:
                 mask_mod_module = getattr(root_module, mask_mod_arg.target, None)
                 if mask_mod_module is not None:
                     mask_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                        id(mask_mod_module)
+                        mask_mod_module
                     ]
                     mask_mod_ref = FlatSymbolRefAttr.get(mask_mod_func_name)
 
-- 
2.43.0


From d5e6cd29e520adc7240e67cf7a22f15ea255af3f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 19/82] fix: FX import of while_loop with captured or single
 values

---
 python/torch_mlir/extras/fx_importer.py | 96 ++++++++++---------------
 1 file changed, 38 insertions(+), 58 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 41da3f9..cb5549c 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1775,15 +1775,15 @@ class GraphNodeImporter:
     ):
         """Imports the torch._higher_order_ops.while_loop HOP.
 
-        Args format: (cond_fn, body_fn, carries)
+        Args format: (cond_fn, body_fn, carried_inputs, additional_inputs)
         The cond_fn and body_fn are get_attr nodes pointing to submodule graphs
-        that have already been imported by import_program().
+        that have already been imported by import_program(). Both take the
+        carried inputs followed by the additional (loop invariant) inputs.
 
         Emits torch.prim.Loop with proper control flow structure.
         """
-        # while_loop HOP args: (cond_fn, body_fn, car`ries...)
-        # Unpack the first two args and the rest as carries
-        cond_fn_node, body_fn_node, *carries = node.args
+        cond_fn_node, body_fn_node, carried_inputs, *rest = node.args
+        additional_inputs = rest[0] if rest else ()
 
         # Extract function names from get_attr nodes
         assert (
@@ -1801,41 +1801,38 @@ class GraphNodeImporter:
         cond_fn_name = self.fx_importer._graph_module_to_func_name[cond_fn_module]
         body_fn_name = self.fx_importer._graph_module_to_func_name[body_fn_module]
 
-        # Import the carries (loop state variables)
-        carry_values = []
-        for carry in carries:
-            if isinstance(carry, tuple):
-                # Handle tuple carries by importing each element
-                carry_values.extend(self._import_tuple_argument(loc, carry, None))
-            else:
-                carry_values.append(self._import_argument(loc, carry))
+        # Import the loop state variables and the values which are the same in
+        # every iteration. The latter are used from within the region.
+        carry_values = [self._import_argument(loc, arg) for arg in carried_inputs]
+        invariant_values = [self._import_argument(loc, arg) for arg in additional_inputs]
 
         # Determine result types from node metadata
-        node_val = node.meta.get("val")
-        if isinstance(node_val, (list, tuple)) and len(node_val) > 1:
-            result_types = [self._cc.value_info_to_type(v) for v in node_val]
-            self._multi_result_nodes.add(node)
-        else:
-            result_types = [self._cc.node_val_to_type(node)]
+        result_types = [self._cc.value_info_to_type(v) for v in node.meta["val"]]
 
-        # Call the condition function with initial carries to get initial condition
-        cond_result_type = self._cc.get_vtensor_type(torch.Size([]), torch.bool)
+        # The condition is a tensor, unless it is computed from scalars only.
+        cond_ftype, _ = self.fx_importer._graph_to_function_meta(cond_fn_module.graph)
+        (cond_result_type,) = cond_ftype.results
 
-        initial_cond_call = Operation.create(
-            "func.call",
-            attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
-            results=[cond_result_type],
-            operands=carry_values,
-            loc=loc,
-        )
+        def emit_condition(values: List[Value]) -> Value:
+            cond = Operation.create(
+                "func.call",
+                attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
+                results=[cond_result_type],
+                operands=values + invariant_values,
+                loc=loc,
+            ).result
+            if cond_result_type == self._cc.torch_bool_type:
+                return cond
+            # Convert vtensor<bool> to torch.bool
+            return Operation.create(
+                name="torch.aten.Bool.Tensor",
+                results=[self._cc.torch_bool_type],
+                operands=[cond],
+                loc=loc,
+            ).result
 
-        # Convert vtensor<bool> to torch.bool
-        bool_conv = Operation.create(
-            name="torch.aten.Bool.Tensor",
-            results=[self._cc.torch_bool_type],
-            operands=[initial_cond_call.results[0]],
-            loc=loc,
-        )
+        # Call the condition function with initial carries to get initial condition
+        initial_cond = emit_condition(carry_values)
 
         # Create max iterations constant (INT64_MAX)
         with loc:
@@ -1849,7 +1846,7 @@ class GraphNodeImporter:
         loop_op = Operation.create(
             name="torch.prim.Loop",
             results=result_types,
-            operands=[max_iter.results[0], bool_conv.results[0]] + carry_values,
+            operands=[max_iter.results[0], initial_cond] + carry_values,
             regions=1,
             loc=loc,
         )
@@ -1868,27 +1865,13 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(body_fn_name)},
                 results=result_types,
-                operands=list(loop_block.arguments[1:]),  # Skip iteration counter
+                operands=list(loop_block.arguments[1:]) + invariant_values,
                 loc=loc,
             )
             body_results = list(body_results_op.results)
 
             # Call condition function with updated carries
-            cond_result_loop = Operation.create(
-                name="func.call",
-                attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
-                results=[IrType.parse("!torch.vtensor<[],i1>", context=self._c)],
-                operands=body_results,
-                loc=loc,
-            ).result
-
-            # Convert to bool
-            cond_bool = Operation.create(
-                name="torch.aten.Bool.Tensor",
-                results=[self._cc.torch_bool_type],
-                operands=[cond_result_loop],
-                loc=loc,
-            ).result
+            cond_bool = emit_condition(body_results)
 
             # Emit loop condition with updated carries
             Operation.create(
@@ -1899,12 +1882,9 @@ class GraphNodeImporter:
             )
 
         # Bind the loop results to the node
-        if len(result_types) > 1:
-            self._multi_result_nodes.add(node)
-            for i, value in enumerate(loop_op.results):
-                self.bind_node_value(node, value, i)
-        else:
-            self.bind_node_value(node, loop_op.results[0])
+        self._multi_result_nodes.add(node)
+        for i, value in enumerate(loop_op.results):
+            self.bind_node_value(node, value, i)
 
     def _import_hop_auto_functionalized(
         self, loc: Location, node: torch_fx.Node, hop: HigherOrderOperator
-- 
2.43.0


From 3989592c7a80235444982af2ccd9776cf223c5fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 20/82] fix: FX import of flex_attention with captured tensors

---
 python/torch_mlir/extras/fx_importer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index cb5549c..5406ed9 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1971,6 +1971,15 @@ class GraphNodeImporter:
             kernel_options,
         ) = node.args[:7]
 
+        # The op has no operands for tensors captured by score_mod and mask_mod.
+        if any(node.args[7:]) or any(
+            node.kwargs.get(name)
+            for name in ("score_mod_other_buffers", "mask_mod_other_buffers")
+        ):
+            raise NotImplementedError(
+                "flex_attention with tensors captured by score_mod or mask_mod"
+            )
+
         # Import Q, K, V tensors
         query = self._import_argument(loc, query_arg, None)
         key = self._import_argument(loc, key_arg, None)
-- 
2.43.0


From 138942e7723c0cab0d9f4eb42c968b3238689aef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 21/82] fix: function name of frozen programs with child
 modules

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 5406ed9..3b0931a 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1012,6 +1012,8 @@ class FxImporter:
         # This ensures that any higher-order operations (like while_loop) can
         # reference the already-imported child module functions
         if hasattr(g, "owning_module") and g.owning_module is not None:
+            func_name = self._unique_func_name(func_name)
+            self._graph_module_to_func_name[g.owning_module] = func_name
             self._import_all_child_modules(
                 g.owning_module, func_name, import_symbolic_shape_expressions
             )
-- 
2.43.0


From d664a990bc29d34116f21ffdbe3f7850f0709275 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 22/82] fix: ONNX values of unknown rank were imported as rank
 0

---
 python/torch_mlir/extras/onnx_importer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1597a8f..8b45ffc 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -651,6 +651,8 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
+            if not tt.HasField("shape"):
+                return f"vtensor<*,{element_type}>"
             dims = tuple(
                 (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
             )
@@ -664,6 +666,8 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
+            if not tt.HasField("shape"):
+                return f"vtensor<*,{element_type}>"
             dims = tuple(
                 (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
             )
@@ -677,13 +681,16 @@ class ContextCache:
         raise OnnxImportError(f"Unsupport optional element type")
 
     def get_vtensor_type(
-        self, dims: Tuple[Optional[int]], element_type: IrType
+        self, dims: Optional[Tuple[Optional[int]]], element_type: IrType
     ) -> IrType:
         key = (dims, element_type)
         t = self._vtensor_type_map.get(key)
         if t is None:
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            asm = f"!torch.vtensor<[{shape_asm}],{str(element_type)}>"
+            if dims is None:
+                shape_asm = "*"
+            else:
+                shape_asm = f"[{','.join('?' if d is None else str(d) for d in dims)}]"
+            asm = f"!torch.vtensor<{shape_asm},{str(element_type)}>"
             try:
                 t = IrType.parse(asm, context=self._c)
             except MLIRError as e:
@@ -717,6 +724,9 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
+            # No shape at all means an unknown rank, as opposed to an empty shape.
+            if not tt.HasField("shape"):
+                return self.get_vtensor_type(None, element_type)
             dims = tuple(
                 # NOTE: dynamic dimension can either be denoted by d.dim_param being set
                 #       (and d.dim_value consequently not set) or
-- 
2.43.0


From f825d87793c91a2728629282a93a8a7a1e21ee6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 23/82] fix: types of outer values for ONNX functions called in
 subgraphs

---
 python/torch_mlir/extras/onnx_importer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 8b45ffc..4531ac9 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -157,9 +157,11 @@ class GraphInfo:
         model_info: ModelInfo,
         graph_proto: onnx.GraphProto,
         is_subgraph: bool = False,
+        parent: Optional["GraphInfo"] = None,
     ):
         self.model_info = model_info
         self.graph_proto = graph_proto
+        self.parent = parent
         self.initializer_map: Dict[str, onnx.TensorProto] = {
             n.name: n for n in graph_proto.initializer
         }
@@ -213,6 +215,10 @@ class GraphInfo:
                 tensor_proto.data_type, tensor_proto.dims
             )
 
+        # Subgraphs can refer to the values of the graphs around them.
+        if self.parent is not None:
+            return self.parent.find_type_proto_for_name(name)
+
         # No type information is associated, this can occur when the value is unused:
         return ""
 
@@ -511,7 +517,9 @@ class NodeImporter:
                 *block_types, arg_locs=[op.location] * len(block_types)
             )
             block = region.blocks[0]
-            graph_info = GraphInfo(self._gi.model_info, attr.g, is_subgraph=True)
+            graph_info = GraphInfo(
+                self._gi.model_info, attr.g, is_subgraph=True, parent=self._gi
+            )
             imp = NodeImporter(
                 graph_info,
                 parent_op=op,
-- 
2.43.0


From ceb2daf34d5f62f744225495a43c3575cfecfc85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 24/82] fix: function expansion config inside expanded ONNX
 functions

---
 python/torch_mlir/extras/onnx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 4531ac9..d779c71 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -1096,7 +1096,7 @@ class ModuleCache:
             caller_node,
         )
 
-        tmp_model_info = ModelInfo(tmp_model_proto)
+        tmp_model_info = ModelInfo(tmp_model_proto, config=config)
         tmp_graph_info = GraphInfo(tmp_model_info, tmp_model_proto.graph)
         # Mark function as private so it will be thrown away after inlining
         imp = NodeImporter.define_function(
-- 
2.43.0


From 6cc525f5cdc51919201adf2ad5624ceed84597a0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 25/82] fix: ONNX function calls that leave out trailing inputs

---
 python/torch_mlir/extras/onnx_importer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index d779c71..b6c957c 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -940,9 +940,17 @@ def _specialize_function_and_create_model(
         output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
 
+    # Trailing optional inputs may be left out at the call-site, the body then has
+    # to see them as omitted too.
+    omitted_inputs = set(function_proto.input[len(input_type_protos) :])
+
     for node in function_proto.node:
         # Import referenced attributes from call-site or default values
-        graph_proto.node.append(_bind_attributes_on_node(node, caller_node, op_schema))
+        new_node = _bind_attributes_on_node(node, caller_node, op_schema)
+        for i, input_name in enumerate(new_node.input):
+            if input_name in omitted_inputs:
+                new_node.input[i] = ""
+        graph_proto.node.append(new_node)
 
     graph_proto.name = name_to_give_model
 
-- 
2.43.0


From 8382a0383ff78e67c628b438cd17d6fb7f5d30a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 26/82] fix: temporary directory of the ONNX command-line
 importer

---
 .../torch_mlir/tools/import_onnx/__main__.py  | 36 +++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/python/torch_mlir/tools/import_onnx/__main__.py b/python/torch_mlir/tools/import_onnx/__main__.py
index 972cfda..afdaaa8 100644
--- a/python/torch_mlir/tools/import_onnx/__main__.py
+++ b/python/torch_mlir/tools/import_onnx/__main__.py
@@ -18,6 +18,7 @@ import os
 from pathlib import Path
 import shutil
 import sys
+import tempfile
 
 import onnx
 import onnx.version
@@ -63,17 +64,7 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     # https://github.com/onnx/onnx/blob/main/docs/PythonAPIOverview.md#shape-inference-a-large-onnx-model-2gb
     # for details about the file-based technique.
 
-    # Make a temp dir for all the temp files we'll be generating as a side
-    # effect of infering shapes.  For now, the only file is a new .onnx holding
-    # the revised model with shapes.
-    #
-    # TODO: If the program temp_dir is None, we should be using an ephemeral
-    # temp directory instead of a hard-coded path in order to avoid data races
-    # by default.
     input_dir = os.path.dirname(os.path.abspath(args.input_file))
-    temp_dir = Path(args.temp_dir or input_dir) / "onnx-importer-temp"
-    shutil.rmtree(temp_dir, ignore_errors=True)
-    temp_dir.mkdir(exist_ok=True)
 
     # Load the model, with possible external data coming from the default
     # location, or the location specified on the conmand line.
@@ -118,6 +109,27 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     # onnx.shape_inference.infer_shapes_path(temp_raw_file, temp_inferred_file)
     # inferred_model = onnx.load(temp_inferred_file)
 
+    # Make a temp dir for all the temp files we'll be generating as a side
+    # effect of infering shapes.  Its name is unique, so that neither concurrent
+    # runs nor existing files are disturbed.
+    temp_dir = Path(
+        tempfile.mkdtemp(prefix="onnx-importer-temp-", dir=args.temp_dir or input_dir)
+    )
+    try:
+        return infer_shapes_via_files(args, raw_model, raw_model_modified, temp_dir)
+    finally:
+        # Remove the temp files unless asked to keep them
+        if not args.keep_temps:
+            shutil.rmtree(temp_dir)
+
+
+def infer_shapes_via_files(
+    args: argparse.Namespace,
+    raw_model: onnx.ModelProto,
+    raw_model_modified: bool,
+    temp_dir: Path,
+) -> onnx.ModelProto:
+    input_dir = os.path.dirname(os.path.abspath(args.input_file))
     data_dir = Path(args.data_dir or input_dir)
 
     # Model is too big for in-memory inference: do file-based shape inference
@@ -148,10 +160,6 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     inferred_model = onnx.load(temp_inferred_file, load_external_data=False)
     onnx.load_external_data_for_model(inferred_model, str(data_dir))
 
-    # Remove the inferred shape file unless asked to keep it
-    if not args.keep_temps:
-        shutil.rmtree(temp_dir)
-
     return inferred_model
 
 
-- 
2.43.0


From 96b7b6430232ea01fd1ec88c207501514eabdcd7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 27/82] fix: custom operators with the ONNX function allowlist
 disabled

---
 python/torch_mlir/extras/onnx_importer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index b6c957c..b76dcaf 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -1015,9 +1015,13 @@ class ModuleCache:
         if op_domain in denylists and op_name in denylists[op_domain]:
             return None
 
-        op_schema = onnx.defs.get_schema(
-            op_name, domain=op_domain, max_inclusive_version=opset_version
-        )
+        try:
+            op_schema = onnx.defs.get_schema(
+                op_name, domain=op_domain, max_inclusive_version=opset_version
+            )
+        except onnx.defs.SchemaError:
+            # Not an operator known to ONNX (e.g. custom domain), so not a function
+            return None
 
         # The get_schema() lookup above should get the right version of the
         # operator definition, but the function body can change slightly
-- 
2.43.0


From 6cd9cc73fb71752e4c82b1faaf1cd8dda21b028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 28/82] fix: failures to print the IR are reported like other
 lowering failures

---
 python/torch_mlir/compiler_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index fa056e5..9c4a8b3 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -91,6 +91,7 @@ def run_pipeline_with_repro_report(
     """Runs `pipeline` on `module`, with a nice repro report if it fails."""
     module_name = get_module_name_for_debug_dump(module)
     original_stderr = sys.stderr
+    asm_for_error_report = ""
     try:
         sys.stderr = StringIO()
         asm_for_error_report = module.operation.get_asm(
-- 
2.43.0


From eb17a38fba81a78b4e5086b4a7c0d91dfeb5c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 29/82] fix: compile diagnostics are reported when the
 reproducer cannot be written

---
 python/torch_mlir/compiler_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index 9c4a8b3..5db93c5 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -116,9 +116,13 @@ def run_pipeline_with_repro_report(
         #   up /tmp)
         # - if we do have have colliding filenames, writes should at least
         #   avoid being racy.
-        filename = os.path.join(tempfile.gettempdir(), module_name + ".mlir")
-        with open(filename, "w") as f:
-            f.write(asm_for_error_report)
+        filename = module_name + ".mlir"
+        try:
+            filename = os.path.join(tempfile.gettempdir(), filename)
+            with open(filename, "w") as f:
+                f.write(asm_for_error_report)
+        except OSError as write_error:
+            sys.stderr.write(f"\n(cannot write {filename}: {write_error})")
         debug_options = "-mlir-print-ir-after-all -mlir-disable-threading"
         # Put something descriptive here even if description is empty.
         description = description or f"{module_name} compile"
-- 
2.43.0


From faa091111a7d8537cb11944e5d961c61a33ee210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 30/82] fix: keyword arguments in the Dynamo FX importer

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 81908d8..8acd9ac 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -318,7 +318,7 @@ class _FXGraphImporter:
         # `Argument` is the term that FX uses analogous to mlir "Value". It is
         # more precise to call them "formal parameters".
         for i, parameter in enumerate(node.target._schema.arguments):
-            if parameter.kwarg_only and parameter.name in node.kwargs:
+            if parameter.name in node.kwargs:
                 arg = node.kwargs[parameter.name]
             elif i < len(node.args):
                 arg = node.args[i]
-- 
2.43.0


From 0c1a36ebd090cfccd6ae3cba46899463b8cd9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 31/82] fix: numbering of sparse layouts in the Dynamo FX
 importer

---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 8acd9ac..70a2710 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -228,9 +228,9 @@ LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 
-- 
2.43.0


From 4dbbff1a7d5e477c9cd2d6d725e731776de8c0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 32/82] fix: promotion of complex and 8-bit floating point
 element types

---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 57 +++++++++++++++++------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 0136ed0..5df7d69 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -28,6 +28,12 @@ static inline bool isQIntType(ScalarType t) {
 // Type promotion related code are copied from
 // aten/src/ATen/native/TypeProperties.*.
 //===----------------------------------------------------------------------===//
+static inline bool isFloat8OrFloat4Type(ScalarType t) {
+  return t == ScalarType::Float8_e5m2 || t == ScalarType::Float8_e4m3fn ||
+         t == ScalarType::Float8_e5m2fnuz || t == ScalarType::Float8_e4m3fnuz ||
+         t == ScalarType::Float8_e8m0fnu || t == ScalarType::Float4_e2m1fn_x2;
+}
+
 static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
   // This is generated according to NumPy's promote_types
   constexpr auto u1 = ScalarType::Byte;
@@ -58,35 +64,41 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
                     "figure out what the correct rules should be");
   }
 
+  // There is no promotion between these types and any other.
+  if (isFloat8OrFloat4Type(a) || isFloat8OrFloat4Type(b)) {
+    return a == b ? a : ScalarType::Undefined;
+  }
+
   // this matrix has to be consistent with AT_FORALL_SCALAR_TYPES_WITH_COMPLEX
   // so that's why we have to add undefined as we are not sure what is the
   // corrent values for the type promotions in complex type cases.
   static constexpr ScalarType _promoteTypesLookup[static_cast<int>(
       ScalarType::NumOptions)][static_cast<int>(ScalarType::NumOptions)] = {
       /*        u1  i1  i2  i4  i8  f2  f4  f8  c2  c4  c8  b1  q1  q2  q3  bf*/
-      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, u1, ud, ud, ud, bf},
-      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, i1, ud, ud, ud, bf},
-      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, i2, ud, ud, ud, bf},
-      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, ud, c4, c8, i4, ud, ud, ud, bf},
-      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, ud, c4, c8, i8, ud, ud, ud, bf},
-      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, ud, c4, c8, f2, ud, ud, ud, f4},
-      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, ud, c4, c8, f4, ud, ud, ud, f4},
-      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, ud, c8, c8, f8, ud, ud, ud, f8},
-      /* c2 */ {ud, ud, ud, ud, ud, ud, ud, ud, c2, c4, c8, ud, ud, ud, ud, ud},
+      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, u1, ud, ud, ud, bf},
+      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, i1, ud, ud, ud, bf},
+      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, i2, ud, ud, ud, bf},
+      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, c2, c4, c8, i4, ud, ud, ud, bf},
+      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, c2, c4, c8, i8, ud, ud, ud, bf},
+      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, c2, c4, c8, f2, ud, ud, ud, f4},
+      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, c4, c4, c8, f4, ud, ud, ud, f4},
+      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, c8, c8, c8, f8, ud, ud, ud, f8},
+      /* c2 */ {c2, c2, c2, c2, c2, c2, c4, c8, c2, c4, c8, c2, ud, ud, ud, c4},
       /* c4 */ {c4, c4, c4, c4, c4, c4, c4, c8, c4, c4, c8, c4, ud, ud, ud, c4},
       /* c8 */ {c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, ud, ud, ud, c8},
-      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, b1, ud, ud, ud, bf},
+      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, b1, ud, ud, ud, bf},
       /* q1 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q2 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q3 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
-      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, ud, c4, c8, bf, ud, ud, ud, bf},
+      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, c4, c4, c8, bf, ud, ud, ud, bf},
   };
   return _promoteTypesLookup[static_cast<int>(a)][static_cast<int>(b)];
 }
 
 static inline bool isFloatingType(ScalarType t) {
   return (t == ScalarType::Double || t == ScalarType::Float ||
-          t == ScalarType::Half || t == ScalarType::BFloat16);
+          t == ScalarType::Half || t == ScalarType::BFloat16 ||
+          isFloat8OrFloat4Type(t));
 }
 
 static inline bool isComplexType(ScalarType t) {
@@ -94,13 +106,30 @@ static inline bool isComplexType(ScalarType t) {
           t == ScalarType::ComplexDouble);
 }
 
+static inline ScalarType toComplexType(ScalarType t) {
+  switch (t) {
+  case ScalarType::BFloat16:
+    // BFloat16 has range equivalent to Float.
+    return ScalarType::ComplexFloat;
+  case ScalarType::Half:
+    return ScalarType::ComplexHalf;
+  case ScalarType::Float:
+    return ScalarType::ComplexFloat;
+  case ScalarType::Double:
+    return ScalarType::ComplexDouble;
+  default:
+    return ScalarType::Undefined;
+  }
+}
+
 static inline ScalarType combine_categories(ScalarType higher,
                                             ScalarType lower) {
   // NOLINTNEXTLINE(bugprone-branch-clone)
   if (isComplexType(higher)) {
     return higher;
-  } else if (!isComplexType(lower) && isFloatingType(higher)) {
-    return higher;
+  } else if (isFloatingType(higher)) {
+    // Preserve the value type of `higher`.
+    return isComplexType(lower) ? toComplexType(higher) : higher;
   }
   if (higher == ScalarType::Bool || isFloatingType(lower) ||
       isComplexType(lower)) {
-- 
2.43.0


From 4c754c8fda6bf41d0c5e61d17e45b8f38718d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 33/82] fix: promotion of several operands when the library's
 dtype functions are tested

---
 .../build_tools/library_generator.py          | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
index 5285aa0..e111f0b 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
@@ -138,6 +138,34 @@ def _promote_scalar_scalar(
     return _promote_tensor_tensor(0, lhs_dtype, 0, rhs_dtype)
 
 
+@torch.jit.ignore
+def _promote_operands(
+    ranks: List[Optional[int]], dtypes: List[torch.dtype]
+) -> torch.dtype:
+    # Operands are promoted within their category (tensors of non-zero rank,
+    # tensors of rank zero, scalars) before the categories are combined.
+    dim_result, zero_result, scalar_result = None, None, None
+    for rank, dtype in zip(ranks, dtypes):
+        if rank is None:
+            scalar_result = _promote_scalar_scalar(scalar_result or dtype, dtype)
+        elif rank == 0:
+            zero_result = _promote_tensor_tensor(0, zero_result or dtype, 0, dtype)
+        else:
+            dim_result = _promote_tensor_tensor(1, dim_result or dtype, 1, dtype)
+    if scalar_result is not None:
+        if zero_result is not None:
+            zero_result = _promote_scalar_tensor(scalar_result, 0, zero_result)
+        elif dim_result is not None:
+            return _promote_scalar_tensor(scalar_result, 1, dim_result)
+        else:
+            return scalar_result
+    if dim_result is None:
+        return zero_result
+    if zero_result is None:
+        return dim_result
+    return _promote_tensor_tensor(1, dim_result, 0, zero_result)
+
+
 def promote_dtypes(
     ranks: List[Optional[int]], dtypes: List[torch.dtype]
 ) -> torch.dtype:
@@ -156,22 +184,7 @@ def __torch_mlir_internal_promote_dtypes(
     2. Computes the actual promotion logic at the Python level in order
        to be able to test dtype calculation functions against PyTorch
     """
-    lhs_optional_rank = ranks[0]
-    lhs_dtype = dtypes[0]
-    for rhs_optional_rank, rhs_dtype in zip(ranks, dtypes):
-        if lhs_optional_rank is None and rhs_optional_rank is None:
-            lhs_dtype = _promote_scalar_scalar(lhs_dtype, rhs_dtype)
-        elif lhs_optional_rank is None and rhs_optional_rank is not None:
-            lhs_dtype = _promote_scalar_tensor(lhs_dtype, rhs_optional_rank, rhs_dtype)
-            lhs_optional_rank = rhs_optional_rank
-        elif lhs_optional_rank is not None and rhs_optional_rank is None:
-            lhs_dtype = _promote_scalar_tensor(rhs_dtype, lhs_optional_rank, lhs_dtype)
-        elif lhs_optional_rank is not None and rhs_optional_rank is not None:
-            lhs_dtype = _promote_tensor_tensor(
-                lhs_optional_rank, lhs_dtype, rhs_optional_rank, rhs_dtype
-            )
-            lhs_optional_rank = max(lhs_optional_rank, rhs_optional_rank)
-    return lhs_dtype
+    return _promote_operands(ranks, dtypes)
 
 
 def not_present_in_registry(f):
-- 
2.43.0


From d0a96cefe20dec2350b31b5ea5adf4c48e4c8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 34/82] fix: shape functions of elementwise operators broadcast
 their operands

---
 .../Transforms/AbstractInterpLibrary.cpp      | 19 ++++++++++---------
 .../build_tools/abstract_interp_lib_gen.py    | 18 +++++++++---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 9235270..e02053c 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -7339,11 +7339,11 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.tanh_backward\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.sigmoid_backward\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.gelu_backward\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.str) -> !torch.list<int> {\n"
@@ -7351,7 +7351,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.elu_backward\"(%arg0: !torch.list<int>, %arg1: !torch.float, %arg2: !torch.float, %arg3: !torch.float, %arg4: !torch.bool, %arg5: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg5) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.leaky_relu_backward\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float, %arg3: !torch.bool) -> !torch.list<int> {\n"
@@ -7403,7 +7403,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.polar\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.mish\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
@@ -10280,19 +10280,19 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.logaddexp\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.logaddexp2\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_fill.Scalar\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_fill.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>) -> !torch.list<int> {\n"
-"    %0 = call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.zero\"(%arg0: !torch.list<int>) -> !torch.list<int> {\n"
@@ -11454,7 +11454,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %arg0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.masked_scatter\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.list<int>) -> !torch.list<int> {\n"
-"    return %arg0 : !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.select.int\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.select(%arg0, %arg1, %arg2) : (!torch.list<int>, !torch.int, !torch.int) -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 5329ba1..f318322 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -302,16 +302,16 @@ def aten〇reciprocal〡shape(self: List[int]) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇tanh_backward〡shape(grad_output: List[int], output: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(grad_output)
+    return upstream_shape_functions.broadcast(grad_output, output)
 
 def aten〇sigmoid_backward〡shape(grad_output: List[int], output: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(grad_output)
+    return upstream_shape_functions.broadcast(grad_output, output)
 
 def aten〇gelu_backward〡shape(grad_output: List[int], self: List[int], approximate: str = "none") -> List[int]:
     return upstream_shape_functions.unary(grad_output)
 
 def aten〇elu_backward〡shape(grad_output: List[int], alpha: float, scale: float, input_scale: float, is_result: bool, self_or_result: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(grad_output)
+    return upstream_shape_functions.broadcast(grad_output, self_or_result)
 
 def aten〇leaky_relu_backward〡shape(grad_output: List[int], self: List[int], negative_slope: float, self_is_result: bool) -> List[int]:
     return upstream_shape_functions.unary(grad_output)
@@ -350,7 +350,7 @@ def aten〇softshrink〡shape(self: List[int], lambd: float = 0.5) -> List[int]:
     return upstream_shape_functions.unary(self)
 
 def aten〇polar〡shape(abs: List[int], angle: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(abs)
+    return upstream_shape_functions.broadcast(abs, angle)
 
 def aten〇mish〡shape(self: List[int]) -> List[int]:
     return upstream_shape_functions.unary(self)
@@ -1639,16 +1639,16 @@ def aten〇_to_copy〡shape(self: List[int], dtype: Optional[int] = None, layout
     return upstream_shape_functions.unary(self)
 
 def aten〇logaddexp〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇logaddexp2〡shape(self: List[int], other: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, other)
 
 def aten〇masked_fill〇Scalar〡shape(self: List[int], mask: List[int], value: float) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇masked_fill〇Tensor〡shape(self: List[int], mask: List[int], value: List[int]) -> List[int]:
-    return upstream_shape_functions.unary(self)
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇zero〡shape(self: List[int]) -> List[int]:
     return self
@@ -2232,7 +2232,7 @@ def aten〇slice_scatter〡shape(self: List[int], src: List[int], dim: int = 0,
     return self
 
 def aten〇masked_scatter〡shape(self: List[int], mask: List[int], source: List[int]) -> List[int]:
-    return self
+    return upstream_shape_functions.broadcast(self, mask)
 
 def aten〇select〇int〡shape(self: List[int], dim: int, index: int) -> List[int]:
     return upstream_shape_functions.select(self, dim, index)
-- 
2.43.0


From 90b7917e0bda5f392748c137daddc054ddf46772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 35/82] fix: shape functions of losses without reduction
 broadcast their operands

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp   | 9 +++++----
 .../build_tools/abstract_interp_lib_gen.py               | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index e02053c..514522e 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11695,7 +11695,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %0 = torch.prim.Uninitialized : !torch.list<int>\n"
 "    %1 = torch.aten.eq.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
-"      %3 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %3 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %3 : !torch.list<int>\n"
 "    } else {\n"
 "      %3 = torch.prim.ListConstruct %int1, %int2 : (!torch.int, !torch.int) -> !torch.list<int>\n"
@@ -11735,7 +11735,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.eq.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.list<int>) {\n"
-"      %2 = func.call @__torch__.torch.jit._shape_functions.unary(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %2 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %2 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
@@ -11752,7 +11752,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %0 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
 "    %1 = torch.aten.eq.int %arg4, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %2 = torch.prim.If %1 -> (!torch.list<int>) {\n"
-"      %3 = func.call @__torch__.torch.jit._shape_functions._copy(%arg0) : (!torch.list<int>) -> !torch.list<int>\n"
+"      %3 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
 "      torch.prim.If.yield %3 : !torch.list<int>\n"
 "    } else {\n"
 "      torch.prim.If.yield %0 : !torch.list<int>\n"
@@ -11763,7 +11763,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %int0 = torch.constant.int 0\n"
 "    %0 = torch.aten.eq.int %arg5, %int0 : !torch.int, !torch.int -> !torch.bool\n"
 "    %1 = torch.prim.If %0 -> (!torch.list<int>) {\n"
-"      torch.prim.If.yield %arg0 : !torch.list<int>\n"
+"      %2 = func.call @__torch__.torch.jit._shape_functions.broadcast(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"      torch.prim.If.yield %2 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
 "      torch.prim.If.yield %2 : !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index f318322..a6ef831 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2332,7 +2332,7 @@ def aten〇deg2rad〡shape(self: List[int]) -> List[int]:
 
 def aten〇kl_div〡shape(self: List[int], target: List[int], reduction: int = 1, log_target: bool = False) -> List[int]:
     if reduction == 0:
-        return upstream_shape_functions.unary(self)
+        return upstream_shape_functions.broadcast(self, target)
     elif reduction in [1, 2]:
         return []
     else:
@@ -2358,7 +2358,7 @@ def aten〇mse_loss〡shape(self: List[int], target: List[int], reduction: int =
 
 def aten〇l1_loss〡shape(self: List[int], target: List[int], reduction: int = 1) -> List[int]:
     if reduction == 0:
-        return upstream_shape_functions.unary(self)
+        return upstream_shape_functions.broadcast(self, target)
     return []
 
 def aten〇cross_entropy_loss〡shape(self: List[int], target: List[int], weight: Optional[List[int]] = None, reduction: int = 1, ignore_index: int = -100, label_smoothing: float = 0.) -> List[int]:
@@ -2367,7 +2367,7 @@ def aten〇cross_entropy_loss〡shape(self: List[int], target: List[int], weight
 def aten〇binary_cross_entropy_with_logits〡shape(self: List[int], target: List[int], weight: Optional[List[int]] = None, pos_weight: Optional[List[int]] = None, reduction: int = 1) -> List[int]:
     scalar_shape: List[int] = []
     if reduction == 0:
-        result_shape = upstream_shape_functions._copy(self)
+        result_shape = upstream_shape_functions.broadcast(self, target)
     else:
         result_shape = scalar_shape
     return result_shape
@@ -2379,7 +2379,7 @@ def aten〇binary_cross_entropy_with_logits〡shape(self: List[int], target: Lis
 ])
 def aten〇poisson_nll_loss〡shape(input: List[int], target: List[int], log_input: bool, full: bool, eps: float, reduction: int) -> List[int]:
     if reduction == 0:
-        return input
+        return upstream_shape_functions.broadcast(input, target)
     return []
 
 @check_shape_function([
-- 
2.43.0


From de5c263078d4b23b5609301b3c3a0e6bab0c1c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 36/82] fix: shape function of conv_tbc uses the transposed
 operands

---
 .../Transforms/AbstractInterpLibrary.cpp      | 25 ++++++++++++-------
 .../build_tools/abstract_interp_lib_gen.py    |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 514522e..49e8cbd 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11215,6 +11215,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    %str = torch.constant.str \"AssertionError: \"\n"
 "    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
+"    %int0 = torch.constant.int 0\n"
 "    %int2 = torch.constant.int 2\n"
 "    %0 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
 "    %1 = torch.aten.eq.int %0, %int3 : !torch.int, !torch.int -> !torch.bool\n"
@@ -11249,15 +11250,21 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.RaiseException %str, %none : !torch.str, !torch.none\n"
 "      torch.prim.If.yield\n"
 "    }\n"
-"    %9 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
-"    %10 = torch.prim.ListConstruct %arg3 : (!torch.int) -> !torch.list<int>\n"
-"    %11 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %12 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
-"    %13 = torch.derefine %arg2 : !torch.list<int> to !torch.optional<list<int>>\n"
-"    %14 = call @__torch__.torch.jit._shape_functions.conv_forwards(%arg0, %arg1, %13, %9, %10, %11, %false, %12, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
-"    %15:3 = torch.prim.ListUnpack %14 : !torch.list<int> -> !torch.int, !torch.int, !torch.int\n"
-"    %16 = torch.prim.ListConstruct %15#2, %15#0, %15#1 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
-"    return %16 : !torch.list<int>\n"
+"    %9 = torch.aten.__getitem__.t %arg0, %int1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %10 = torch.aten.__getitem__.t %arg0, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %11 = torch.prim.ListConstruct %9, %6, %10 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %12 = torch.aten.__getitem__.t %arg1, %int2 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %13 = torch.aten.__getitem__.t %arg1, %int0 : !torch.list<int>, !torch.int -> !torch.int\n"
+"    %14 = torch.prim.ListConstruct %12, %6, %13 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    %15 = torch.prim.ListConstruct %int1 : (!torch.int) -> !torch.list<int>\n"
+"    %16 = torch.prim.ListConstruct %arg3 : (!torch.int) -> !torch.list<int>\n"
+"    %17 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %18 = torch.prim.ListConstruct  : () -> !torch.list<int>\n"
+"    %19 = torch.derefine %arg2 : !torch.list<int> to !torch.optional<list<int>>\n"
+"    %20 = call @__torch__.torch.jit._shape_functions.conv_forwards(%11, %14, %19, %15, %16, %17, %false, %18, %int1) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
+"    %21:3 = torch.prim.ListUnpack %20 : !torch.list<int> -> !torch.int, !torch.int, !torch.int\n"
+"    %22 = torch.prim.ListConstruct %21#2, %21#0, %21#1 : (!torch.int, !torch.int, !torch.int) -> !torch.list<int>\n"
+"    return %22 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.convolution\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<list<int>>, %arg3: !torch.list<int>, %arg4: !torch.list<int>, %arg5: !torch.list<int>, %arg6: !torch.bool, %arg7: !torch.list<int>, %arg8: !torch.int) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.torch.jit._shape_functions.conv_forwards(%arg0, %arg1, %arg2, %arg3, %arg4, %arg5, %arg6, %arg7, %arg8) : (!torch.list<int>, !torch.list<int>, !torch.optional<list<int>>, !torch.list<int>, !torch.list<int>, !torch.list<int>, !torch.bool, !torch.list<int>, !torch.int) -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index a6ef831..d2213b0 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2117,7 +2117,7 @@ def aten〇conv_tbc〡shape(self: List[int], weight: List[int], bias: List[int],
     bias_bct = bias
 
     # use existing shape inf
-    output_size_bct = upstream_shape_functions.conv_forwards(self, weight, bias, stride=[1], padding=[pad], dilation=[], transposed=False, output_padding=[], groups=1)
+    output_size_bct = upstream_shape_functions.conv_forwards(self_bct, weight_bct, bias_bct, stride=[1], padding=[pad], dilation=[], transposed=False, output_padding=[], groups=1)
 
     batch_out, channels_out, time_out = output_size_bct
 
-- 
2.43.0


From c6a8225c1a701912cc9c534be50d42959e2a5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 37/82] fix: shape function of _unsafe_view infers the extent
 given as -1

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp         | 3 ++-
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 49e8cbd..d2af2a7 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8613,7 +8613,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten._unsafe_view\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>) -> !torch.list<int> {\n"
-"    return %arg1 : !torch.list<int>\n"
+"    %0 = call @__torch__.torch.jit._shape_functions.view(%arg0, %arg1) : (!torch.list<int>, !torch.list<int>) -> !torch.list<int>\n"
+"    return %0 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.resize_\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.optional<int>) -> !torch.list<int> {\n"
 "    return %arg1 : !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index d2213b0..1f1bf44 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1061,7 +1061,7 @@ def aten〇_reshape_alias〡shape(self: List[int], size: List[int], stride: List
     return upstream_shape_functions.view(self, size)
 
 def aten〇_unsafe_view〡shape(self: List[int], size: List[int]) -> List[int]:
-    return size
+    return upstream_shape_functions.view(self, size)
 
 def aten〇resize_〡shape(self: List[int], size: List[int], memory_format: Optional[int] = None) -> List[int]:
     return size
-- 
2.43.0


From 158d8d734d79886a8c1d75ea2c77a381f5cca7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 38/82] fix: result types of torchvision.nms and
 torchvision.roi_pool

---
 .../Torch/Transforms/AbstractInterpLibrary.cpp      | 13 ++++++-------
 .../build_tools/abstract_interp_lib_gen.py          |  6 +++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index d2af2a7..a926e43 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -6931,17 +6931,16 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %3 : !torch.tuple<list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.torchvision.roi_pool\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.float, %arg3: !torch.int, %arg4: !torch.int) -> !torch.tuple<int, int> {\n"
-"    %int4 = torch.constant.int 4\n"
+"    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
 "    %0 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %1 = torch.prim.TupleConstruct %0, %int4 : !torch.int, !torch.int -> !torch.tuple<int, int>\n"
+"    %1 = torch.prim.TupleConstruct %0, %int3 : !torch.int, !torch.int -> !torch.tuple<int, int>\n"
 "    return %1 : !torch.tuple<int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.torchvision.nms\"(%arg0: !torch.list<int>, %arg1: !torch.list<int>, %arg2: !torch.float) -> !torch.list<int> {\n"
 "    %0 = call @__torch__.hacky_get_unknown_dimension_size() : () -> !torch.int\n"
-"    %1 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
-"    %2 = torch.prim.ListConstruct %0, %1 : (!torch.int, !torch.int) -> !torch.list<int>\n"
-"    return %2 : !torch.list<int>\n"
+"    %1 = torch.prim.ListConstruct %0 : (!torch.int) -> !torch.list<int>\n"
+"    return %1 : !torch.list<int>\n"
 "  }\n"
 "  func.func @__torch__.hacky_get_unknown_dimension_size() -> !torch.int {\n"
 "    %0 = torch.prim.CreateObject !torch.nn.Module<\"__torch__.DummyClassType\">\n"
@@ -6954,8 +6953,8 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %none : !torch.none\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.torchvision.nms\"(%arg0: !torch.tuple<int, int>, %arg1: !torch.tuple<int, int>, %arg2: !torch.float) -> !torch.int {\n"
-"    %int3 = torch.constant.int 3\n"
-"    return %int3 : !torch.int\n"
+"    %int4 = torch.constant.int 4\n"
+"    return %int4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.diagonal\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.int) -> !torch.list<int> {\n"
 "    %str = torch.constant.str \"AssertionError: diagonal dimensions cannot be identical\"\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 1f1bf44..3720fce 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -97,13 +97,13 @@ def torchvision〇roi_pool〡shape(input: List[int], rois: List[int], spatial_sc
     return (output, output)
 
 def torchvision〇roi_pool〡dtype(input_rank_dtype: Tuple[int, int], rois_rank_dtype: Tuple[int, int], spatial_scale: float, pooled_height: int, pooled_width: int) -> Tuple[int, int]:
-    return (input_rank_dtype[1], torch.int64) 
+    return (input_rank_dtype[1], torch.int32) 
 
 def torchvision〇nms〡shape(dets: List[int], scores: List[int], iou_threshold: float) -> List[int]:
-    return [hacky_get_unknown_dimension_size(), len(dets)]
+    return [hacky_get_unknown_dimension_size()]
 
 def torchvision〇nms〡dtype(dets_rank_dtype: Tuple[int, int], scores_rank_dtype: Tuple[int, int], iou_threshold: float) -> int:
-    return torch.int
+    return torch.int64
 
 @check_shape_function([
     Invocation(TensorOfShape(2, 3, 4)), # Basic case.
-- 
2.43.0


From 8caa1feb11dd6b5c22d0fd94fad2980e9ef81c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 39/82] fix: element type of the pivots of _linalg_det

---
 lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp      | 6 +++---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index a926e43..33031c0 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -7246,12 +7246,12 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %2 : !torch.tuple<list<int>, list<int>, list<int>>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_dtype_fn.aten._linalg_det\"(%arg0: !torch.tuple<int, int>) -> !torch.tuple<int, int, int> {\n"
+"    %int3 = torch.constant.int 3\n"
 "    %int1 = torch.constant.int 1\n"
 "    %0 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
 "    %1 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %2 = torch.prim.TupleIndex %arg0, %int1 : !torch.tuple<int, int>, !torch.int -> !torch.int\n"
-"    %3 = torch.prim.TupleConstruct %0, %1, %2 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
-"    return %3 : !torch.tuple<int, int, int>\n"
+"    %2 = torch.prim.TupleConstruct %0, %1, %int3 : !torch.int, !torch.int, !torch.int -> !torch.tuple<int, int, int>\n"
+"    return %2 : !torch.tuple<int, int, int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.linalg_slogdet\"(%arg0: !torch.list<int>) -> !torch.tuple<list<int>, list<int>> {\n"
 "    %int-2 = torch.constant.int -2\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 3720fce..30b3c53 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -264,7 +264,7 @@ def aten〇_linalg_det〡shape(A: List[int]) -> Tuple[List[int], List[int], List
     return (aten〇linalg_det〡shape(A), A, A[:-1])
 
 def aten〇_linalg_det〡dtype(A_rank_dtype: Tuple[int, int]) -> Tuple[int, int, int]:
-    return (A_rank_dtype[1], A_rank_dtype[1], A_rank_dtype[1])
+    return (A_rank_dtype[1], A_rank_dtype[1], torch.int32)
 
 def aten〇linalg_slogdet〡shape(A: List[int]) -> Tuple[List[int], List[int]]:
     assert len(A) == 2 or len(A) == 3
-- 
2.43.0


From 7881f1640124405a51f07afddd414aa05b1cded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 40/82] fix: shape function of repeat_interleave with a
 negative dimension

---
 .../Transforms/AbstractInterpLibrary.cpp      | 21 +++++++++++--------
 .../build_tools/abstract_interp_lib_gen.py    |  1 +
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 33031c0..741d698 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -8492,6 +8492,7 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.repeat_interleave.self_int\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.optional<int>, %arg3: !torch.optional<int>) -> !torch.list<int> {\n"
 "    %int-1 = torch.constant.int -1\n"
+"    %true = torch.constant.bool true\n"
 "    %none = torch.constant.none\n"
 "    %int0 = torch.constant.int 0\n"
 "    %int1 = torch.constant.int 1\n"
@@ -8504,15 +8505,17 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "      torch.prim.If.yield %5 : !torch.list<int>\n"
 "    } else {\n"
 "      %2 = torch.prim.unchecked_cast %arg2 : !torch.optional<int> -> !torch.int\n"
-"      %3 = torch.aten.slice.t %arg0, %none, %2, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
-"      %4 = torch.aten.__getitem__.t %arg0, %2 : !torch.list<int>, !torch.int -> !torch.int\n"
-"      %5 = torch.aten.mul.int %4, %arg1 : !torch.int, !torch.int -> !torch.int\n"
-"      %6 = torch.prim.ListConstruct %5 : (!torch.int) -> !torch.list<int>\n"
-"      %7 = torch.aten.add.t %3, %6 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
-"      %8 = torch.aten.add.int %2, %int1 : !torch.int, !torch.int -> !torch.int\n"
-"      %9 = torch.aten.slice.t %arg0, %8, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
-"      %10 = torch.aten.add.t %7, %9 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
-"      torch.prim.If.yield %10 : !torch.list<int>\n"
+"      %3 = torch.aten.len.t %arg0 : !torch.list<int> -> !torch.int\n"
+"      %4 = func.call @__torch__.torch.jit._shape_functions.maybe_wrap_dim(%2, %3, %true) : (!torch.int, !torch.int, !torch.bool) -> !torch.int\n"
+"      %5 = torch.aten.slice.t %arg0, %none, %4, %int1 : !torch.list<int>, !torch.none, !torch.int, !torch.int -> !torch.list<int>\n"
+"      %6 = torch.aten.__getitem__.t %arg0, %4 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %7 = torch.aten.mul.int %6, %arg1 : !torch.int, !torch.int -> !torch.int\n"
+"      %8 = torch.prim.ListConstruct %7 : (!torch.int) -> !torch.list<int>\n"
+"      %9 = torch.aten.add.t %5, %8 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      %10 = torch.aten.add.int %4, %int1 : !torch.int, !torch.int -> !torch.int\n"
+"      %11 = torch.aten.slice.t %arg0, %10, %none, %int1 : !torch.list<int>, !torch.int, !torch.none, !torch.int -> !torch.list<int>\n"
+"      %12 = torch.aten.add.t %9, %11 : !torch.list<int>, !torch.list<int> -> !torch.list<int>\n"
+"      torch.prim.If.yield %12 : !torch.list<int>\n"
 "    }\n"
 "    return %1 : !torch.list<int>\n"
 "  }\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 30b3c53..b2282a3 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -1006,6 +1006,7 @@ def aten〇repeat_interleave〇self_int〡shape(self: List[int], repeats: int, d
         flatten_size = upstream_shape_functions.flatten(self, 0, -1)[0]
         return [flatten_size * repeats]
     else:
+        dim = upstream_shape_functions.maybe_wrap_dim(dim, len(self))
         out = self[:dim] + [self[dim] * repeats] + self[dim + 1:]
         return out
 
-- 
2.43.0


From 46a8088c8e226b32459d5230267007678ee8797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 41/82] fix: shape function of narrow with a negative start

---
 .../Transforms/AbstractInterpLibrary.cpp      | 19 ++++++++++++++-----
 .../build_tools/abstract_interp_lib_gen.py    |  2 ++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
index 741d698..0871e84 100644
--- a/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
+++ b/lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp
@@ -11449,12 +11449,21 @@ StringRef mlir::torch::Torch::getAbstractInterpLibrary() {
 "    return %int4 : !torch.int\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.narrow\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.int, %arg3: !torch.int) -> !torch.list<int> {\n"
+"    %int0 = torch.constant.int 0\n"
 "    %int1 = torch.constant.int 1\n"
-"    %0 = torch.aten.add.int %arg2, %arg3 : !torch.int, !torch.int -> !torch.int\n"
-"    %1 = torch.derefine %arg2 : !torch.int to !torch.optional<int>\n"
-"    %2 = torch.derefine %0 : !torch.int to !torch.optional<int>\n"
-"    %3 = call @__torch__.torch.jit._shape_functions.slice(%arg0, %arg1, %1, %2, %int1) : (!torch.list<int>, !torch.int, !torch.optional<int>, !torch.optional<int>, !torch.int) -> !torch.list<int>\n"
-"    return %3 : !torch.list<int>\n"
+"    %0 = torch.aten.lt.int %arg2, %int0 : !torch.int, !torch.int -> !torch.bool\n"
+"    %1 = torch.prim.If %0 -> (!torch.int) {\n"
+"      %6 = torch.aten.__getitem__.t %arg0, %arg1 : !torch.list<int>, !torch.int -> !torch.int\n"
+"      %7 = torch.aten.add.int %arg2, %6 : !torch.int, !torch.int -> !torch.int\n"
+"      torch.prim.If.yield %7 : !torch.int\n"
+"    } else {\n"
+"      torch.prim.If.yield %arg2 : !torch.int\n"
+"    }\n"
+"    %2 = torch.aten.add.int %1, %arg3 : !torch.int, !torch.int -> !torch.int\n"
+"    %3 = torch.derefine %1 : !torch.int to !torch.optional<int>\n"
+"    %4 = torch.derefine %2 : !torch.int to !torch.optional<int>\n"
+"    %5 = call @__torch__.torch.jit._shape_functions.slice(%arg0, %arg1, %3, %4, %int1) : (!torch.list<int>, !torch.int, !torch.optional<int>, !torch.optional<int>, !torch.int) -> !torch.list<int>\n"
+"    return %5 : !torch.list<int>\n"
 "  }\n"
 "  func.func @\"__torch_mlir_shape_fn.aten.narrow.Tensor\"(%arg0: !torch.list<int>, %arg1: !torch.int, %arg2: !torch.list<int>, %arg3: !torch.int) -> !torch.list<int> {\n"
 "    %0 = torch.aten._set_item.t %arg0, %arg1, %arg3 : !torch.list<int>, !torch.int, !torch.int -> !torch.list<int>\n"
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index b2282a3..3bf5c1b 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -2222,6 +2222,8 @@ def aten〇argsort〡dtype(self_rank_dtype: Tuple[int, int], dim: int = -1, desc
     return torch.long
 
 def aten〇narrow〡shape(self: List[int], dim: int, start: int, length: int) -> List[int]:
+    if start < 0:
+        start = start + self[dim]
     return upstream_shape_functions.slice(self, dim, start, start + length, 1)
 
 # This shape function is a little hacky, because we don't know the start index which is determined by a tensor param.
-- 
2.43.0


From e0f2d1a4a1ff10f249c6feb3e9ec7434e80794c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 42/82] fix: import options apply inside union types of
 TorchScript

---
 .../jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
index afac7b1..ae82fab 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
@@ -219,7 +219,8 @@ torch_mlir::getMlirTypeFromTorchType(MlirLocation loc,
     std::vector<MlirType> containedTypes;
     for (const c10::TypePtr &type :
          torchType->cast<c10::UnionType>()->containedTypes()) {
-      containedTypes.push_back(getMlirTypeFromTorchType(loc, type));
+      containedTypes.push_back(
+          getMlirTypeFromTorchType(loc, type, importOptions));
     }
     return torchMlirTorchUnionTypeGet(context, containedTypes.size(),
                                       containedTypes.data());
-- 
2.43.0


From f90f4c735ed9448d2d44de092ef665d9345cf26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 43/82] fix: import of TorchScript tuples which hold lists or
 dictionaries

---
 .../jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
index ef02096..b06874c 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
@@ -50,7 +50,9 @@ using namespace torch_mlir;
 namespace {
 struct IValueHasher {
   size_t operator()(const c10::IValue &ivalue) const {
-    if (ivalue.isObject() || ivalue.isList() || ivalue.isGenericDict()) {
+    // Tuples may contain unhashable values, and are compared by identity anyway.
+    if (ivalue.isObject() || ivalue.isList() || ivalue.isGenericDict() ||
+        ivalue.isTuple()) {
       return std::hash<const void *>()(
           static_cast<const void *>(ivalue.internalToPointer()));
     }
-- 
2.43.0


From 132273ad5e12e7fd0fa67d7415e775f5c64a64bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 44/82] fix: sign of zero when TorchScript attributes are
 imported

---
 .../jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
index b06874c..19c8deb 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
@@ -12,6 +12,7 @@
 #include "function_importer.h"
 #include "torch_to_mlir_utils.h"
 
+#include <cmath>
 #include <unordered_map>
 
 #include "mlir_utils.h"
@@ -68,6 +69,11 @@ struct IValueHasher {
 namespace {
 struct IValueEq {
   bool operator()(const c10::IValue &lhs, const c10::IValue &rhs) const {
+    // 0.0 and -0.0 compare equal, but are different values.
+    if (lhs.isDouble() && rhs.isDouble() &&
+        std::signbit(lhs.toDouble()) != std::signbit(rhs.toDouble())) {
+      return false;
+    }
     return lhs.isSameIdentity(rhs);
   }
 };
-- 
2.43.0


From eaf24d65a5d52ef745306231cfbda5286353bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:16 +0000
Subject: [PATCH 45/82] fix: unsupported TorchScript types are reported instead
 of used

---
 .../csrc/jit_ir_importer/ivalue_importer.cpp  | 21 ++++++++-----
 .../jit_ir_importer/torch_to_mlir_utils.cpp   | 30 ++++++++++++++-----
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
index 19c8deb..6873377 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp
@@ -116,6 +116,7 @@ public:
 
 private:
   MlirValue rawImportIValue(c10::IValue ivalue);
+  MlirType importType(MlirLocation loc, const c10::TypePtr &torchType);
   MlirValue importTensor(c10::IValue ivalue);
   MlirValue importModule(torch::jit::Module jitModule);
   void importMethod(torch::jit::Function *function, MlirBlock classTypeBody,
@@ -296,8 +297,7 @@ MlirValue IValueImporter::rawImportIValue(c10::IValue ivalue) {
     }
     MlirOperation operation = createMlirOperationAtEnd(
         importBlock, "torch.prim.ListConstruct", loc,
-        torchMlirTorchListTypeGet(
-            getMlirTypeFromTorchType(loc, list.elementType(), importOptions)),
+        torchMlirTorchListTypeGet(importType(loc, list.elementType())),
         elems);
     return mlirOperationGetResult(operation, 0);
   }
@@ -311,9 +311,8 @@ MlirValue IValueImporter::rawImportIValue(c10::IValue ivalue) {
     }
     MlirOperation operation = createMlirOperationAtEnd(
         importBlock, "torch.prim.DictConstruct", loc,
-        torchMlirTorchDictTypeGet(
-            getMlirTypeFromTorchType(loc, dict.keyType(), importOptions),
-            getMlirTypeFromTorchType(loc, dict.valueType(), importOptions)),
+        torchMlirTorchDictTypeGet(importType(loc, dict.keyType()),
+                                  importType(loc, dict.valueType())),
         keys, values);
     return mlirOperationGetResult(operation, 0);
   }
@@ -379,6 +378,15 @@ MlirValue IValueImporter::rawImportIValue(c10::IValue ivalue) {
   throw std::invalid_argument(msg.str());
 }
 
+MlirType IValueImporter::importType(MlirLocation loc,
+                                    const c10::TypePtr &torchType) {
+  MlirType type = getMlirTypeFromTorchType(loc, torchType, importOptions);
+  if (mlirTypeIsNull(type)) {
+    throw mlir_diagnostic_emitted("unsupported type");
+  }
+  return type;
+}
+
 MlirValue IValueImporter::importTensor(c10::IValue ivalue) {
   assert(ivalue.isTensor() && "expected a tensor!");
 
@@ -501,8 +509,7 @@ void IValueImporter::importClassType(c10::ClassType *classType) {
             "name", mlirStringAttrGet(
                         context, toMlirStringRef(classAttribute.getName()))),
         toMlirNamedAttribute(
-            "type", mlirTypeAttrGet(getMlirTypeFromTorchType(
-                        loc, classAttribute.getType(), importOptions))),
+            "type", mlirTypeAttrGet(importType(loc, classAttribute.getType()))),
         isPrivate);
   }
 
diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
index ae82fab..6defe5e 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
@@ -201,9 +201,12 @@ torch_mlir::getMlirTypeFromTorchType(MlirLocation loc,
     return torchMlirTorchStringTypeGet(context);
   }
   case TypeKind::OptionalType: {
-    return torchMlirTorchOptionalTypeGet(getMlirTypeFromTorchType(
+    MlirType elementType = getMlirTypeFromTorchType(
         loc, torchType->cast<c10::OptionalType>()->getElementType(),
-        importOptions));
+        importOptions);
+    if (mlirTypeIsNull(elementType))
+      return {nullptr};
+    return torchMlirTorchOptionalTypeGet(elementType);
   }
   case TypeKind::TupleType: {
     std::vector<MlirType> containedTypes;
@@ -211,6 +214,8 @@ torch_mlir::getMlirTypeFromTorchType(MlirLocation loc,
          torchType->cast<c10::TupleType>()->containedTypes()) {
       containedTypes.push_back(
           getMlirTypeFromTorchType(loc, type, importOptions));
+      if (mlirTypeIsNull(containedTypes.back()))
+        return {nullptr};
     }
     return torchMlirTorchTupleTypeGet(context, containedTypes.size(),
                                       containedTypes.data());
@@ -221,20 +226,29 @@ torch_mlir::getMlirTypeFromTorchType(MlirLocation loc,
          torchType->cast<c10::UnionType>()->containedTypes()) {
       containedTypes.push_back(
           getMlirTypeFromTorchType(loc, type, importOptions));
+      if (mlirTypeIsNull(containedTypes.back()))
+        return {nullptr};
     }
     return torchMlirTorchUnionTypeGet(context, containedTypes.size(),
                                       containedTypes.data());
   }
   case TypeKind::ListType: {
-    return torchMlirTorchListTypeGet(getMlirTypeFromTorchType(
+    MlirType elementType = getMlirTypeFromTorchType(
         loc, torchType->cast<c10::ListType>()->getElementType(),
-        importOptions));
+        importOptions);
+    if (mlirTypeIsNull(elementType))
+      return {nullptr};
+    return torchMlirTorchListTypeGet(elementType);
   }
   case TypeKind::DictType: {
     auto dictType = torchType->cast<c10::DictType>();
-    return torchMlirTorchDictTypeGet(
-        getMlirTypeFromTorchType(loc, dictType->getKeyType(), importOptions),
-        getMlirTypeFromTorchType(loc, dictType->getValueType(), importOptions));
+    MlirType keyType =
+        getMlirTypeFromTorchType(loc, dictType->getKeyType(), importOptions);
+    MlirType valueType =
+        getMlirTypeFromTorchType(loc, dictType->getValueType(), importOptions);
+    if (mlirTypeIsNull(keyType) || mlirTypeIsNull(valueType))
+      return {nullptr};
+    return torchMlirTorchDictTypeGet(keyType, valueType);
   }
   case TypeKind::NoneType: {
     return torchMlirTorchNoneTypeGet(context);
@@ -320,6 +334,8 @@ MlirAttribute torch_mlir::convertTensorToMlirElementsAttr(at::Tensor tensor,
   // quantization scheme to create a tensor of e.g. `!torch.qint8` element type.
   MlirType elementType = getMlirTypeForTorchScalarType(
       loc, c10::toUnderlying(tensor.scalar_type()));
+  if (mlirTypeIsNull(elementType))
+    throwUnsupportedTensorError();
   std::vector<int64_t> shape(tensor.sizes().begin(), tensor.sizes().end());
   MlirType shapedType = mlirRankedTensorTypeGetChecked(
       loc, shape.size(), shape.data(), elementType, {nullptr});
-- 
2.43.0


From 2a513e95721a905d70e6fff4621a6eb1b2ca6fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 46/82] fix: lazily negated tensors are imported with their
 negation

---
 .../jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
index 6defe5e..36ff925 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/torch_to_mlir_utils.cpp
@@ -317,6 +317,9 @@ MlirAttribute torch_mlir::convertTensorToMlirElementsAttr(at::Tensor tensor,
     throw std::invalid_argument(msg.str());
   };
 
+  // The elements of a lazily negated view are stored without their negation.
+  tensor = tensor.resolve_neg();
+
   // Get a C-contiguous form as we can bulk-load that into a DenseElementsAttr.
   if (!tensor.is_contiguous())
     tensor = tensor.contiguous();
-- 
2.43.0


From 0d048c755d747d2d6aeba885c77b3850d766da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 47/82] fix: quantized tensor constants keep their quantization
 when imported

---
 .../jit_ir_common/csrc/jit_ir_importer/node_importer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/projects/jit_ir_common/csrc/jit_ir_importer/node_importer.cpp b/projects/jit_ir_common/csrc/jit_ir_importer/node_importer.cpp
index 0bb4722..9ac416c 100644
--- a/projects/jit_ir_common/csrc/jit_ir_importer/node_importer.cpp
+++ b/projects/jit_ir_common/csrc/jit_ir_importer/node_importer.cpp
@@ -195,6 +195,15 @@ void NodeImporter::importNode(Node *node, MlirBlock appendToBlock,
           toMlirNamedAttribute(
               "value", mlirStringAttrGet(context, toMlirStringRef(node->s(
                                                       c10::attr::value)))));
+    } else if (output->type()->cast<c10::TensorType>() &&
+               node->t(c10::attr::value).is_quantized()) {
+      // `importIValue` also materializes the quantization parameters.
+      ClassAnnotator dummyAnnotator;
+      MlirValue quantizedValue =
+          importIValue(node->t(c10::attr::value), appendToBlock, context,
+                       dummyAnnotator, importOptions);
+      mapResults(node, mlirOpResultGetOwner(quantizedValue));
+      return; // Early return, since `importIValue` already added op to block.
     } else if (output->type()->cast<c10::TensorType>()) {
       MlirAttribute attr = importAttribute(loc, node, c10::attr::value);
       if (importOptions.assumeTensorsHaveValueSemantics) {
-- 
2.43.0


From c5d68e7316364676be11167aa46a2cbe4c58d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 48/82] fix: decomposing signbit of integers reports its
 success

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index ace58d6..eef13ef 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -9952,6 +9952,7 @@ class DecomposeAtenSignbitOp : public OpRewritePattern<AtenSignbitOp> {
           ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(0));
       Value shift = AtenLtScalarOp::create(rewriter, loc, resultTy, self, zero);
       rewriter.replaceOp(op, shift);
+      return success();
     }
     return failure();
   }
-- 
2.43.0


From bb647f05b56f07022a218b47f18dc70d9c93d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 49/82] fix: the NaN masks of a decomposed fmin or fmax have
 the shapes of the operands

---
 .../Torch/Transforms/DecomposeComplexOps.cpp       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index eef13ef..8ccf75e 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -13025,21 +13025,21 @@ public:
                                 PatternRewriter &rewriter) const override {
     Location loc = op.getLoc();
     BaseTensorType outType = cast<BaseTensorType>(op.getType());
-    Type nanMaskType = outType.getWithSizesAndDtype(
-        !outType.hasSizes() ? std::optional<ArrayRef<int64_t>>()
-                            : llvm::ArrayRef(outType.getSizes()),
-        rewriter.getI1Type());
-
     Value self = op.getSelf();
     Value other = op.getOther();
+    auto getNanMaskType = [&](Value v) -> Type {
+      auto type = cast<BaseTensorType>(v.getType());
+      return type.getWithSizesAndDtype(type.getOptionalSizes(),
+                                       rewriter.getI1Type());
+    };
 
     Value normalResult =
         AtenOpT::create(rewriter, loc, outType, self, other).getResult();
     Value selfIsNan =
-        Torch::AtenIsnanOp::create(rewriter, loc, nanMaskType, self)
+        Torch::AtenIsnanOp::create(rewriter, loc, getNanMaskType(self), self)
             .getResult();
     Value otherIsNan =
-        Torch::AtenIsnanOp::create(rewriter, loc, nanMaskType, other)
+        Torch::AtenIsnanOp::create(rewriter, loc, getNanMaskType(other), other)
             .getResult();
     normalResult = Torch::AtenWhereSelfOp::create(
         rewriter, loc, outType, otherIsNan, self, normalResult);
-- 
2.43.0


From 5691fd12343817987ac48e1f0f4afbbe919349fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 50/82] fix: a decomposed leaky_relu_backward selects by the
 sign of its input

---
 .../Torch/Transforms/DecomposeComplexOps.cpp  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 8ccf75e..5eac9bf 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -4312,20 +4312,21 @@ public:
       return rewriter.notifyMatchFailure(
           op, "unimplemented: self_is_result should be false");
 
+    auto inputType = cast<BaseTensorType>(input.getType());
+    auto gradType = cast<BaseTensorType>(gradOutput.getType());
+    if (!gradType.hasDtype() || !isa<mlir::FloatType>(gradType.getDtype()))
+      return rewriter.notifyMatchFailure(op, "Only support floating type");
     Value constantZero =
         ConstantIntOp::create(rewriter, loc, rewriter.getI64IntegerAttr(0));
-    Value constantOne =
-        ConstantFloatOp::create(rewriter, loc, rewriter.getF64FloatAttr(1.0));
-    Value zeroTensor = createRank0Tensor(rewriter, loc, resType, constantZero);
-    Value positiveOutput =
-        AtenMaximumOp::create(rewriter, loc, resType, zeroTensor, gradOutput);
-    Value negativeOutput =
-        AtenMinimumOp::create(rewriter, loc, resType, zeroTensor, input);
-    Value scaledNegativeOutput = AtenMulScalarOp::create(
-        rewriter, loc, resType, negativeOutput, negativeSlope);
-    Value leakyReluBackwardOutput =
-        AtenAddTensorOp::create(rewriter, loc, resType, positiveOutput,
-                                scaledNegativeOutput, constantOne);
+    Type maskType = inputType.getWithSizesAndDtype(inputType.getOptionalSizes(),
+                                                   rewriter.getI1Type());
+    Value isPositive =
+        AtenGtScalarOp::create(rewriter, loc, maskType, input, constantZero);
+    Value scaledGrad =
+        AtenMulScalarOp::create(rewriter, loc, gradType, gradOutput,
+                                negativeSlope);
+    Value leakyReluBackwardOutput = AtenWhereSelfOp::create(
+        rewriter, loc, resType, isPositive, gradOutput, scaledGrad);
 
     rewriter.replaceOp(op, leakyReluBackwardOutput);
     return success();
-- 
2.43.0


From 6323092f852e3fa053f4662bd322f9ea90fbcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 51/82] fix: a decomposed softshrink adds lambd to the values
 below -lambd

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 5eac9bf..730fd15 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -3334,7 +3334,7 @@ public:
     Value posValue = AtenSubScalarOp::create(rewriter, loc, resTy, self,
                                              poslambd, constOneFloat);
     Value negValue = AtenAddScalarOp::create(rewriter, loc, resTy, self,
-                                             neglambd, constOneFloat);
+                                             poslambd, constOneFloat);
 
     Value result = AtenWhereScalarOtherOp::create(rewriter, loc, resTy, posMask,
                                                   posValue, zero);
-- 
2.43.0


From 22a7f817d9a26d833cadb1844fa028c36987b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 52/82] fix: tril_indices without a constant dtype is left
 alone without new operations

---
 .../Torch/Transforms/DecomposeComplexOps.cpp  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 730fd15..c9df9b0 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -1106,16 +1106,6 @@ public:
     Value device = op.getDevice();
     Value pinMemory = op.getPinMemory();
 
-    // Constants
-    Value cstZero = Torch::ConstantIntOp::create(rewriter, loc, 0);
-    Value cstOne = Torch::ConstantIntOp::create(rewriter, loc, 1);
-    Value cstTwo = Torch::ConstantIntOp::create(rewriter, loc, 2);
-    Value cstFalse = ConstantBoolOp::create(rewriter, loc, false);
-    Value cstZeroPointFive = Torch::ConstantFloatOp::create(
-        rewriter, loc, rewriter.getF64FloatAttr(0.5));
-    Value cstTwoFloat = Torch::ConstantFloatOp::create(
-        rewriter, loc, rewriter.getF64FloatAttr(2.0));
-
     // Get int value for dtype
     int64_t dtypeInt;
     if (!matchPattern(dtype, m_TorchConstantInt(&dtypeInt)))
@@ -1127,6 +1117,16 @@ public:
     if (failed(dtypeType))
       return rewriter.notifyMatchFailure(op, "dtype is undefined");
 
+    // Constants
+    Value cstZero = Torch::ConstantIntOp::create(rewriter, loc, 0);
+    Value cstOne = Torch::ConstantIntOp::create(rewriter, loc, 1);
+    Value cstTwo = Torch::ConstantIntOp::create(rewriter, loc, 2);
+    Value cstFalse = ConstantBoolOp::create(rewriter, loc, false);
+    Value cstZeroPointFive = Torch::ConstantFloatOp::create(
+        rewriter, loc, rewriter.getF64FloatAttr(0.5));
+    Value cstTwoFloat = Torch::ConstantFloatOp::create(
+        rewriter, loc, rewriter.getF64FloatAttr(2.0));
+
     // Calculte trapezoidSize, rectangleSize and mFirstRow
     std::tuple<int64_t, int64_t, int64_t> triuSizes =
         getTrilSizes(rowInt, colInt, offsetInt);
-- 
2.43.0


From 65df5c4baa9236fd8f761f3e980410679754425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 53/82] fix: an unsupported stft.center is left alone without
 new operations

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index c9df9b0..bff58f0 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -6970,12 +6970,6 @@ public:
     if (!matchPattern(n_fft, m_TorchConstantInt(&n_fftInt)))
       return rewriter.notifyMatchFailure(op, "Unsupported: non-constant n_fft");
 
-    Value hopLength = op.getHopLength();
-    if (isa<Torch::NoneType>(hopLength.getType())) {
-      hopLength = AtenFloordivIntOp::create(
-          rewriter, loc, n_fft, ConstantIntOp::create(rewriter, loc, 4));
-    }
-
     int64_t winLengthInt;
     // TODO: add support for non-constant win_length
     if (isa<Torch::NoneType>(op.getWinLength().getType())) {
@@ -7024,6 +7018,12 @@ public:
       return rewriter.notifyMatchFailure(op,
                                          "Unsupported: return_complex=False");
 
+    Value hopLength = op.getHopLength();
+    if (isa<Torch::NoneType>(hopLength.getType())) {
+      hopLength = AtenFloordivIntOp::create(
+          rewriter, loc, n_fft, ConstantIntOp::create(rewriter, loc, 4));
+    }
+
     Value window = op.getWindow();
     ValueTensorType windowTensorType;
     Type windowDType;
-- 
2.43.0


From b93066e30be7a3aee599276b210ea613dd0c331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 54/82] fix: decompositions of softmax that do not apply create
 nothing

---
 .../Torch/Transforms/DecomposeComplexOps.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index bff58f0..885f837 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -89,14 +89,14 @@ static Type computeReductionType(PatternRewriter &rewriter, Operation *op,
 static Value createSumAlongDimension(PatternRewriter &rewriter, Location loc,
                                      Operation *op, Value input, Value dim,
                                      bool keepDim) {
-  Value dimList = PrimListConstructOp::create(
-      rewriter, loc, Torch::ListType::get(dim.getType()), dim);
-  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
-  Value dtype = ConstantNoneOp::create(rewriter, loc);
   Type resultType = computeReductionType(
       rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim);
   if (!resultType)
     return nullptr;
+  Value dimList = PrimListConstructOp::create(
+      rewriter, loc, Torch::ListType::get(dim.getType()), dim);
+  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
+  Value dtype = ConstantNoneOp::create(rewriter, loc);
   return AtenSumDimIntListOp::create(rewriter, loc, resultType, input, dimList,
                                      keepDimCst, dtype);
 }
@@ -105,11 +105,11 @@ static Value createSumAlongDimension(PatternRewriter &rewriter, Location loc,
 static Value createMaxAlongDimension(PatternRewriter &rewriter, Location loc,
                                      Operation *op, Value input, Value dim,
                                      bool keepDim) {
-  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
-  BaseTensorType valueType = cast<BaseTensorType>(computeReductionType(
+  auto valueType = dyn_cast_or_null<BaseTensorType>(computeReductionType(
       rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
   if (!valueType)
     return nullptr;
+  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
   BaseTensorType indexType =
       cast<BaseTensorType>(valueType.getWithSizesAndDtype(
           !valueType.hasSizes() ? std::optional<ArrayRef<int64_t>>()
@@ -124,11 +124,11 @@ static Value createMaxAlongDimension(PatternRewriter &rewriter, Location loc,
 static Value createMinAlongDimension(PatternRewriter &rewriter, Location loc,
                                      Operation *op, Value input, Value dim,
                                      bool keepDim) {
-  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
-  BaseTensorType valueType = cast<BaseTensorType>(computeReductionType(
+  auto valueType = dyn_cast_or_null<BaseTensorType>(computeReductionType(
       rewriter, op, cast<BaseTensorType>(input.getType()), dim, keepDim));
   if (!valueType)
     return nullptr;
+  Value keepDimCst = ConstantBoolOp::create(rewriter, loc, keepDim);
   BaseTensorType indexType =
       cast<BaseTensorType>(valueType.getWithSizesAndDtype(
           !valueType.hasSizes() ? std::optional<ArrayRef<int64_t>>()
-- 
2.43.0


From b0c2a9cf58eaa3a61d1ccb76e36d47489bbc9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 55/82] fix: softmax gradients over an invalid dimension are
 left alone without new operations

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index 885f837..cb666a4 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -2700,6 +2700,8 @@ public:
     BaseTensorType tensorType = cast<BaseTensorType>(gradOutput.getType());
     if (!tensorType.hasDtype() || !isa<mlir::FloatType>(tensorType.getDtype()))
       return rewriter.notifyMatchFailure(op, "Only support floating type");
+    if (!computeReductionType(rewriter, op, tensorType, dim, /*keepDim=*/true))
+      return failure();
 
     Value newGrad =
         AtenMulTensorOp::create(rewriter, loc, tensorType, gradOutput, output);
@@ -2767,6 +2769,8 @@ public:
     BaseTensorType tensorType = cast<BaseTensorType>(gradOutput.getType());
     if (!tensorType.hasDtype() || !isa<mlir::FloatType>(tensorType.getDtype()))
       return rewriter.notifyMatchFailure(op, "Only support floating type");
+    if (!computeReductionType(rewriter, op, tensorType, dim, /*keepDim=*/true))
+      return failure();
 
     Value expOut = AtenExpOp::create(rewriter, loc, tensorType, output);
     Value result = createSoftmaxBackwardCommonKernel(
-- 
2.43.0


From fd90a666def205411e8961ab705bf06414252124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 56/82] fix: a decomposed cosine_similarity bounds each norm by
 eps

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index cb666a4..b709f7d 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -9870,14 +9870,16 @@ class DecomposeAtenCosineSimilarityOp
         rewriter, loc, op.getType(), x2, ord, dimList, /*keepdim=*/cstFalse,
         /*dtype=*/cstNone);
 
-    // Compute the product of the norms
+    // Compute the product of the norms, each of them at least eps
+    normA = AtenClampOp::create(rewriter, loc, op.getType(), normA, op.getEps(),
+                                /*max=*/cstNone);
+    normB = AtenClampOp::create(rewriter, loc, op.getType(), normB, op.getEps(),
+                                /*max=*/cstNone);
     Value normProduct =
         AtenMulTensorOp::create(rewriter, loc, op.getType(), normA, normB);
-    Value normProductClamp = AtenClampOp::create(
-        rewriter, loc, op.getType(), normProduct, op.getEps(), /*max=*/cstNone);
     // Compute the final cosine similarity by division
     rewriter.replaceOpWithNewOp<AtenDivTensorOp>(
-        op, op.getType(), sumDotProduct, normProductClamp);
+        op, op.getType(), sumDotProduct, normProduct);
     return success();
   }
 };
-- 
2.43.0


From 2966278d619c6f62e546b4c8d7c65985cb7b2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 57/82] fix: stft.center returning real numbers is not
 decomposed

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index b709f7d..f9c8e70 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -7018,7 +7018,7 @@ public:
     if (!matchPattern(returnComplex, m_TorchConstantBool(&returnComplexBool)))
       return rewriter.notifyMatchFailure(
           op, "Unsupported: non-constant return_complex");
-    if (!returnComplex)
+    if (!returnComplexBool)
       return rewriter.notifyMatchFailure(op,
                                          "Unsupported: return_complex=False");
 
-- 
2.43.0


From 35c555f35491fa5c25e7782416d3326390a78e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 58/82] fix: folding a sort of a scalar tensor does not look
 for its dimension

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index bda1d0f..ef293d2 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3213,7 +3213,8 @@ LogicalResult AtenSortOp::fold(FoldAdaptor adaptor,
   int64_t dimInt = dimAttribute.getValue().getSExtValue();
   if (dimInt < 0)
     dimInt += operandType.getSizes().size();
-  if (dimAttribute) {
+  int64_t rank = operandType.getSizes().size();
+  if (dimInt >= 0 && dimInt < rank) {
     unaryDim = operandType.getSizes()[dimInt] == 1;
   }
 
-- 
2.43.0


From 27e7d723e75eabed42d87cccecafd15f2fa91378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 59/82] fix: torchvision operators declared legal are not
 decomposed

---
 lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
index f9c8e70..0398ac1 100644
--- a/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
+++ b/lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp
@@ -13617,7 +13617,9 @@ private:
     // on `Operation *` are not allowed, since there is no way of telling if
     // that pattern will match on an op in the `legalOpsSet` or not.
     assert(opName && "All decomposition patterns must target a single op");
-    if (!legalOpsSet.contains(opName->getStringRef().ltrim(kTorchOpPrefix)))
+    StringRef legalName = opName->getStringRef();
+    legalName.consume_front(kTorchOpPrefix);
+    if (!legalOpsSet.contains(legalName))
       patterns.add<DecomposePattern>(context);
   }
 
-- 
2.43.0


From 329688e543fe0f778d6aab38bbfcabe835210de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 60/82] fix: folders read the numbers of constants as signed

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index ef293d2..741c2c8 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1526,6 +1526,11 @@ static bool checkAllSplats(llvm::ArrayRef<Attribute> attrs) {
   return true;
 }
 
+static bool isSignedNumber(Type type) {
+  auto intTy = cast<IntegerType>(type);
+  return intTy.isSigned() || (intTy.isSignless() && intTy.getWidth() > 1);
+}
+
 llvm::SmallVector<double> getFoldValueAtIndexFp(llvm::ArrayRef<Attribute> attrs,
                                                 int64_t idx = 0) {
   llvm::SmallVector<double> splattrs;
@@ -1533,7 +1538,7 @@ llvm::SmallVector<double> getFoldValueAtIndexFp(llvm::ArrayRef<Attribute> attrs,
   // Note that i1 is neither signed nor unsigned.
   // But we should trait i1 as unsigned, otherwise that
   // APInt(1,1).getSExtValue() return allOnes 64-bit integer.
-  // So here only distinguish signed integer.
+  // The signless i64 of constant numbers is signed.
   auto convertAPIntToDouble = [](APInt value, bool isSigned) -> double {
     if (isSigned)
       return static_cast<double>(value.getSExtValue());
@@ -1549,7 +1554,7 @@ llvm::SmallVector<double> getFoldValueAtIndexFp(llvm::ArrayRef<Attribute> attrs,
         splattrs.push_back(dense.getValues<APFloat>()[idx].convertToDouble());
       }
     } else if (auto dense = dyn_cast<DenseIntElementsAttr>(attr)) {
-      bool isSigned = cast<IntegerType>(dense.getElementType()).isSigned();
+      bool isSigned = isSignedNumber(dense.getElementType());
       if (dense.isSplat()) {
         splattrs.push_back(
             convertAPIntToDouble(dense.getSplatValue<APInt>(), isSigned));
@@ -1560,7 +1565,7 @@ llvm::SmallVector<double> getFoldValueAtIndexFp(llvm::ArrayRef<Attribute> attrs,
     } else if (auto fpattr = dyn_cast<FloatAttr>(attr)) {
       splattrs.push_back(fpattr.getValueAsDouble());
     } else if (auto intattr = dyn_cast<IntegerAttr>(attr)) {
-      bool isSigned = cast<IntegerType>(intattr.getType()).isSigned();
+      bool isSigned = isSignedNumber(intattr.getType());
       splattrs.push_back(convertAPIntToDouble(intattr.getValue(), isSigned));
     } else {
       return {};
@@ -1578,25 +1583,21 @@ llvm::SmallVector<APInt> getFoldValueAtIndexInt(llvm::ArrayRef<Attribute> attrs,
   for (auto attr : attrs) {
     bool isSigned = false;
     if (auto dense = dyn_cast<DenseIntElementsAttr>(attr)) {
-      isSigned = cast<IntegerType>(dense.getElementType()).isSigned();
+      isSigned = isSignedNumber(dense.getElementType());
       if (dense.isSplat()) {
         splattrs.push_back(dense.getSplatValue<APInt>());
       } else {
         splattrs.push_back(dense.getValues<APInt>()[idx]);
       }
     } else if (auto intattr = dyn_cast<IntegerAttr>(attr)) {
-      isSigned = cast<IntegerType>(intattr.getType()).isSigned();
+      isSigned = isSignedNumber(intattr.getType());
       splattrs.push_back(intattr.getValue());
     } else {
       return {};
     }
 
-    // Note that i1 is neither signed nor unsigned.
-    // But we should trait i1 as unsigned, otherwise that
-    // APInt(1,1).getSExtValue() return allOnes 64-bit integer.
-    // So here only distinguish signed integer.
     auto &apint = splattrs.back();
-    if (apint.getBitWidth() < bitwidth) {
+    if (apint.getBitWidth() != bitwidth) {
       if (isSigned) {
         apint = apint.sextOrTrunc(bitwidth);
       } else {
-- 
2.43.0


From efe1f6554e45f4557c0a876c34a285849642e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 61/82] fix: folding a comparison with a number of another kind
 than the tensor

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 82 ++++++++++++++-----------------
 1 file changed, 36 insertions(+), 46 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 741c2c8..98d99f5 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1973,28 +1973,35 @@ static OpFoldResult comparisonScaleFolder(DenseElementsAttr lhs, Attribute rhs,
 
   auto ctx = lhs.getContext();
   auto tensorETy = cast<RankedTensorType>(lhs.getType()).getElementType();
-  if (lhs.isSplat()) {
-    if (auto intAttr = dyn_cast<IntegerAttr>(rhs)) {
-      auto unsign = cast<IntegerType>(tensorETy).isUnsigned();
-      auto scalarAP = intAttr.getValue();
-      auto tensorAP = lhs.getSplatValue<IntegerAttr>().getValue();
-      tensorAP = APInt(
-          scalarAP.getBitWidth(),
-          unsign ? tensorAP.getZExtValue() : tensorAP.getSExtValue(), !unsign);
-      auto resultBool = intFolder(tensorAP, scalarAP, unsign);
-      auto resultAP = IntegerAttr::get(IntegerType::get(ctx, 1), resultBool);
-      return DenseElementsAttr::get(resultTy.toBuiltinTensor(), resultAP);
-    }
-
-    if (auto floatAttr = dyn_cast<FloatAttr>(rhs)) {
-      APFloat scalarAP = floatAttr.getValue();
-      APFloat tensorAP = lhs.getSplatValue<FloatAttr>().getValue();
-      auto resultBool =
-          fpFolder(tensorAP.convertToDouble(), scalarAP.convertToDouble());
-      auto resultAP = IntegerAttr::get(IntegerType::get(ctx, 1), resultBool);
-      return DenseElementsAttr::get(resultTy.toBuiltinTensor(), resultAP);
-    }
+  auto intETy = dyn_cast<IntegerType>(tensorETy);
+  if (!intETy && !isa<mlir::FloatType>(tensorETy))
     return nullptr;
+  auto intAttr = dyn_cast<IntegerAttr>(rhs);
+  auto floatAttr = dyn_cast<FloatAttr>(rhs);
+  if (!intAttr && !floatAttr)
+    return nullptr;
+
+  // Numbers of different kinds are compared as floating point numbers.
+  auto compareInt = [&](const APInt &value) -> bool {
+    bool zext = intETy.isUnsigned() || intETy.getWidth() == 1;
+    int64_t number = zext ? value.getZExtValue() : value.getSExtValue();
+    if (floatAttr)
+      return fpFolder(number, floatAttr.getValueAsDouble());
+    APInt scalarAP = intAttr.getValue();
+    return intFolder(APInt(scalarAP.getBitWidth(), number, /*isSigned=*/true),
+                     scalarAP, intETy.isUnsigned());
+  };
+  auto compareFp = [&](const APFloat &value) -> bool {
+    return fpFolder(value.convertToDouble(),
+                    floatAttr ? floatAttr.getValueAsDouble()
+                              : intAttr.getValue().getSExtValue());
+  };
+
+  if (lhs.isSplat()) {
+    bool resultBool = intETy ? compareInt(lhs.getSplatValue<APInt>())
+                             : compareFp(lhs.getSplatValue<APFloat>());
+    auto resultAP = IntegerAttr::get(IntegerType::get(ctx, 1), resultBool);
+    return DenseElementsAttr::get(resultTy.toBuiltinTensor(), resultAP);
   }
 
   int64_t count = 1;
@@ -2004,32 +2011,15 @@ static OpFoldResult comparisonScaleFolder(DenseElementsAttr lhs, Attribute rhs,
   if (count > kMaxFold)
     return nullptr;
 
-  if (auto intAttr = dyn_cast<IntegerAttr>(rhs)) {
-    auto unsign = cast<IntegerType>(tensorETy).isUnsigned();
-    llvm::SmallVector<bool> values;
-    for (auto tensorAP : lhs.getValues<APInt>()) {
-      auto scalarAP = intAttr.getValue();
-      tensorAP = APInt(
-          scalarAP.getBitWidth(),
-          unsign ? tensorAP.getZExtValue() : tensorAP.getSExtValue(), !unsign);
-      auto resultBool = intFolder(tensorAP, scalarAP, unsign);
-      values.push_back(resultBool);
-    }
-    return DenseElementsAttr::get(resultTy.toBuiltinTensor(), values);
-  }
-
-  if (auto floatAttr = dyn_cast<FloatAttr>(rhs)) {
-    llvm::SmallVector<bool> values;
-    for (auto tensorAP : lhs.getValues<APFloat>()) {
-      APFloat scalarAP = floatAttr.getValue();
-      auto resultBool =
-          fpFolder(tensorAP.convertToDouble(), scalarAP.convertToDouble());
-      values.push_back(resultBool);
-    }
-    return DenseElementsAttr::get(resultTy.toBuiltinTensor(), values);
+  llvm::SmallVector<bool> values;
+  if (intETy) {
+    for (auto tensorAP : lhs.getValues<APInt>())
+      values.push_back(compareInt(tensorAP));
+  } else {
+    for (auto tensorAP : lhs.getValues<APFloat>())
+      values.push_back(compareFp(tensorAP));
   }
-
-  return nullptr;
+  return DenseElementsAttr::get(resultTy.toBuiltinTensor(), values);
 }
 
 OpFoldResult AtenLeScalarOp::fold(FoldAdaptor adaptor) {
-- 
2.43.0


From eab203694806b2766d3cbc58f52c5f1bbfc15e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 62/82] fix: folding a where leaves a value of another element
 type than the result

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 98d99f5..07c10ad 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -5221,8 +5221,10 @@ static Attribute getBroadcastedAttr(Attribute attr, ValueTensorType ty) {
   if (auto valueDense = dyn_cast<DenseElementsAttr>(attr)) {
     if (!valueDense.isSplat())
       return nullptr;
-    auto splattr = valueDense.getSplatValue<Attribute>();
     auto attrty = ty.toBuiltinTensor();
+    if (valueDense.getElementType() != attrty.getElementType())
+      return nullptr;
+    auto splattr = valueDense.getSplatValue<Attribute>();
     return DenseElementsAttr::get(attrty, splattr);
   }
 
-- 
2.43.0


From 6485a0e9f7cd7535a9cd914f824072cf21cd1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 63/82] fix: canonicalizing masked_fill.Tensor reports its
 success

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 07c10ad..8ba1647 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3122,7 +3122,7 @@ void AtenMaskedFillTensorOp::getCanonicalizationPatterns(
     Value scalarVal = scalarIntVal ? scalarIntVal : scalarFloatVal;
     rewriter.replaceOpWithNewOp<AtenMaskedFillScalarOp>(
         op, op.getType(), op.getSelf(), op.getMask(), scalarVal);
-    return failure();
+    return success();
   });
 }
 
-- 
2.43.0


From 3e3cfd965db24c20b51568bd9508a77a0266fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 64/82] fix: the exponents of pow are only rewritten where the
 result stays the same

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 8ba1647..57c7146 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -2649,6 +2649,11 @@ void AtenPowTensorScalarOp::getCanonicalizationPatterns(
     auto floatAttr = dyn_cast_or_null<mlir::FloatAttr>(baseAttr);
     if (!floatAttr)
       return failure();
+    // An integer raised to an integer would stay an integer.
+    auto baseTy = dyn_cast<BaseTensorType>(op.getSelf().getType());
+    if (!baseTy || !baseTy.hasDtype() ||
+        isa<mlir::IntegerType>(baseTy.getDtype()))
+      return failure();
     double expValue = floatAttr.getValueAsDouble();
     auto truncValue = static_cast<int64_t>(expValue);
     if (expValue != static_cast<double>(truncValue))
@@ -2674,6 +2679,10 @@ void AtenPowTensorTensorOp::getCanonicalizationPatterns(
     auto attr = dyn_cast_or_null<DenseElementsAttr>(expAttr);
     if (!attr || attr.getNumElements() != 1)
       return failure();
+    // A number as the exponent does not take part in broadcasting and
+    // promotion.
+    if (op.getSelf().getType() != op.getType())
+      return failure();
     auto elem = *attr.value_begin<Attribute>();
     auto intAttr = dyn_cast<mlir::IntegerAttr>(elem);
     auto floatAttr = dyn_cast<mlir::FloatAttr>(elem);
-- 
2.43.0


From 2ec369cebf88bb49949226b9d1c7281109ad67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 65/82] fix: folding the remainder of a tensor takes the sign
 of the divisor

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 57c7146..5421e90 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4097,12 +4097,17 @@ OpFoldResult AtenRemainderScalarOp::fold(FoldAdaptor adaptor) {
   }
   auto fpFold = [](llvm::ArrayRef<double> inputs) {
     assert(inputs.size() == 2);
-    return std::fmod(inputs[0], inputs[1]);
+    double ret = std::fmod(inputs[0], inputs[1]);
+    if (ret != 0 && (ret < 0) != (inputs[1] < 0))
+      ret += inputs[1];
+    return ret;
   };
 
   auto intFold = [unsign](llvm::ArrayRef<APInt> inputs) {
     assert(inputs.size() == 2);
     auto ret = unsign ? inputs[0].urem(inputs[1]) : inputs[0].srem(inputs[1]);
+    if (!unsign && !ret.isZero() && ret.isNegative() != inputs[1].isNegative())
+      ret += inputs[1];
     return ret;
   };
 
-- 
2.43.0


From f5eb38aa84f23f314c61c368d51b5db90109a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 66/82] fix: folding aten.tensor of a number of another kind
 than its dtype

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 5421e90..4015f35 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4795,7 +4795,8 @@ OpFoldResult AtenTensorOp::fold(FoldAdaptor adaptor) {
   ShapedType shapedTy = resultTy.toBuiltinTensor();
 
   SmallVector<int64_t> data;
-  if (matchPattern(getData(), m_TorchListOfConstantInts(data)) &&
+  if (isa<mlir::IntegerType>(eTy) &&
+      matchPattern(getData(), m_TorchListOfConstantInts(data)) &&
       data.size() == 1) {
     Attribute attribute = IntegerAttr::get(eTy, data[0]);
     return DenseElementsAttr::get(shapedTy, attribute);
@@ -4816,7 +4817,8 @@ OpFoldResult AtenTensorIntOp::fold(FoldAdaptor adaptor) {
   ShapedType shapedTy = resultTy.toBuiltinTensor();
 
   int64_t data;
-  if (matchPattern(getT(), m_TorchConstantInt(&data))) {
+  if (isa<mlir::IntegerType>(eTy) &&
+      matchPattern(getT(), m_TorchConstantInt(&data))) {
     Attribute attribute = IntegerAttr::get(eTy, data);
     return DenseElementsAttr::get(shapedTy, attribute);
   }
@@ -4836,7 +4838,8 @@ OpFoldResult AtenTensorFloatOp::fold(FoldAdaptor adaptor) {
   ShapedType shapedTy = resultTy.toBuiltinTensor();
 
   double data;
-  if (matchPattern(getT(), m_TorchConstantFloat(&data))) {
+  if (isa<mlir::FloatType>(eTy) &&
+      matchPattern(getT(), m_TorchConstantFloat(&data))) {
     Attribute attribute = FloatAttr::get(eTy, data);
     return DenseElementsAttr::get(shapedTy, attribute);
   }
-- 
2.43.0


From 48409b8fce5160e140586766491f3443670441a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 67/82] fix: norms of bfloat16 tensors are valid

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 4015f35..8a48dc1 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -5559,8 +5559,8 @@ LogicalResult AtenNormScalarOp::verify() {
   // Check if dtype is one of those supported by norm operation.
   // ComplexType will match any torch complex types, but each float must be
   // checked individually.
-  if (!isa<mlir::ComplexType, mlir::Float16Type, mlir::Float32Type,
-           mlir::Float64Type>(inTensorDtype)) {
+  if (!isa<mlir::ComplexType, mlir::BFloat16Type, mlir::Float16Type,
+           mlir::Float32Type, mlir::Float64Type>(inTensorDtype)) {
     return emitOpError(
                "expected a float or complex type for input tensor, but got ")
            << inTensorDtype;
-- 
2.43.0


From cc6d4601a4c55897856504b2e64e63827bfc355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 68/82] fix: the stride left out of a pooling is its kernel
 size

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 8a48dc1..f5ed833 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -5937,6 +5937,8 @@ LogicalResult expandPoolParams(AtenPoolOpT op, int numSpatialDims,
   // expand singleton elements
   expand(kernelSizeInts, numSpatialDims);
   expand(paddingInts, numSpatialDims);
+  if (strideInts.empty())
+    strideInts = kernelSizeInts;
   expand(strideInts, numSpatialDims);
 
   Location loc = op.getLoc();
-- 
2.43.0


From c421ae7136ce4f9b4ddcda6884108521f134dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 69/82] fix: folding any.dims keeps what is not a boolean

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index f5ed833..8069380 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1319,7 +1319,8 @@ OpFoldResult AtenAnyDimsOp::fold(FoldAdaptor adaptor) {
   auto resultShape = resultType.toBuiltinTensor().getShape();
   auto inputType = dyn_cast<ValueTensorType>(getOperand(0).getType());
   auto inputShape = inputType.toBuiltinTensor().getShape();
-  if ((inputType.getDtype() == resultType.getDtype()) &&
+  if (inputType.getDtype().isInteger(1) &&
+      (inputType.getDtype() == resultType.getDtype()) &&
       (inputShape == resultShape)) {
     return getSelf();
   }
-- 
2.43.0


From 9ed825420d0acdd29c282924d6674583d0c545e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 70/82] fix: folding a cat of tensors of different element
 types

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 8069380..1f53bfd 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4249,7 +4249,7 @@ OpFoldResult AtenCatOp::fold(FoldAdaptor adaptor) {
       return nullptr;
 
     auto oty = dyn_cast<RankedTensorType>(dattr.getType());
-    if (!oty)
+    if (!oty || oty.getElementType() != resultTy.getDtype())
       return nullptr;
 
     if (dattr.isSplat()) {
-- 
2.43.0


From 74b98065d81baa037aed9cae247ee4389d65fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 71/82] fix: to.dtype_layout without a dtype is no to.dtype

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 1f53bfd..db8e5df 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1189,6 +1189,9 @@ void AtenToDtypeLayoutOp::getCanonicalizationPatterns(
     }
 
     if (isa<Torch::NoneType>(op.getDevice().getType())) {
+      // `to.dtype` cannot do without a dtype.
+      if (isa<Torch::NoneType>(op.getDtype().getType()))
+        return failure();
       // The device arg is `none`. Rewrite to to.dtype.
       AtenToDtypeOp toDtype = AtenToDtypeOp::create(
           rewriter, op.getLoc(), op.getType(), op.getSelf(), op.getDtype(),
-- 
2.43.0


From 12e4223843aaf97862848c33c60fa0facc743363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 72/82] fix: the fold of _shape_as_tensor needs a static result

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index db8e5df..cf7756b 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4859,7 +4859,7 @@ OpFoldResult Aten_ShapeAsTensorOp::fold(FoldAdaptor adaptor) {
   auto selfTy = dyn_cast<BaseTensorType>(getSelf().getType());
   auto resultTy = dyn_cast<BaseTensorType>(getType());
   if (!selfTy || !resultTy || !selfTy.hasSizes() || !resultTy.hasDtype() ||
-      !resultTy.hasSizes())
+      !resultTy.areAllSizesKnown())
     return {};
 
   llvm::SmallVector<int64_t> values(selfTy.getSizes());
-- 
2.43.0


From a6839186fa09f5934ad87054cb7a0eda384d0a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 73/82] fix: the fold of add.Tensor does not wrap booleans
 around

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index cf7756b..c046444 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1711,6 +1711,11 @@ void AtenAddTensorOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
 }
 
 OpFoldResult AtenAddTensorOp::fold(FoldAdaptor adaptor) {
+  // The sum of booleans is their disjunction, not an addition modulo 2.
+  auto resultTy = dyn_cast<BaseTensorType>(getType());
+  if (!resultTy || !resultTy.hasDtype() || resultTy.getDtype().isInteger(1))
+    return nullptr;
+
   auto fpFold = [](llvm::ArrayRef<double> inputs) {
     assert(inputs.size() == 3);
     return inputs[0] + (inputs[1] * inputs[2]);
-- 
2.43.0


From 10bae7ac41c3299d47acebe3c08735234dd793de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 74/82] fix: folding eq.int_list minds lists that are mutated

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index c046444..959fb54 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3746,6 +3746,9 @@ OpFoldResult AtenEqIntListOp::fold(FoldAdaptor adaptor) {
   auto rhsLiteral = getB().getDefiningOp<Torch::PrimListConstructOp>();
   if (!rhsLiteral)
     return nullptr;
+  if (isListPotentiallyMutated(lhsLiteral) ||
+      isListPotentiallyMutated(rhsLiteral))
+    return nullptr;
 
   // If the sizes don't match, then we know the lists aren't equal.
   if (lhsLiteral.getNumOperands() != rhsLiteral.getNumOperands())
-- 
2.43.0


From ebf1553b57db5f6c95ba6713eb8c9c857478d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 75/82] fix: folding prim.min of a list minds lists that are
 mutated

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 959fb54..baaa2d8 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -5448,7 +5448,7 @@ OpFoldResult PrimNumToTensorScalarOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult PrimMinSelfIntOp::fold(FoldAdaptor adaptor) {
   auto list = getOperand().getDefiningOp<PrimListConstructOp>();
-  if (!list)
+  if (!list || isListPotentiallyMutated(list))
     return nullptr;
   // TODO: What does it return for an empty list?
   if (list->getNumOperands() == 0)
-- 
2.43.0


From ca84e0e9919e5de80b87e10c0a5991b83ab7dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:57 +0000
Subject: [PATCH 76/82] fix: folding a dictionary access minds keys that are
 not constants

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index baaa2d8..fe23af3 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3913,10 +3913,17 @@ OpFoldResult Aten__Getitem__DictStrOp::fold(FoldAdaptor adaptor) {
     return nullptr;
 
   auto targetKey = getKey();
-  for (auto i : llvm::zip(dictConstruct.getKeys(), dictConstruct.getValues())) {
+  // The last of the equal keys counts.
+  for (auto i : llvm::reverse(
+           llvm::zip_equal(dictConstruct.getKeys(), dictConstruct.getValues()))) {
     auto k = std::get<0>(i);
     if (k == targetKey)
       return std::get<1>(i);
+    // Another key may only be skipped when it is known to differ.
+    std::string key, target;
+    if (!matchPattern(k, m_TorchConstantStr(key)) ||
+        !matchPattern(targetKey, m_TorchConstantStr(target)) || key == target)
+      return nullptr;
   }
   return nullptr;
 }
-- 
2.43.0


From 37fd842e602cb5924db76604b31a0c21920ac39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:46 +0000
Subject: [PATCH 77/82] fix: canonicalizing a list sort leaves the earlier uses
 of the list alone

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index fe23af3..ff6c8c9 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3173,6 +3173,15 @@ void AtenSortIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     if (!matchPattern(op.getReverse(), m_TorchConstantBool(&reverse)))
       return rewriter.notifyMatchFailure(
           op, "Expected reverse arg to be constant bool.");
+    // Only what comes after the sort sees the list sorted.
+    for (Operation *user : op.getSelf().getUsers()) {
+      if (user == op)
+        continue;
+      Operation *ancestor = op->getBlock()->findAncestorOpInBlock(*user);
+      if (!ancestor || ancestor->isBeforeInBlock(op))
+        return rewriter.notifyMatchFailure(
+            op, "the list is used elsewhere than after the sort.");
+    }
 
     std::sort(listElements.begin(), listElements.end());
     if (reverse)
-- 
2.43.0


From 149c052de7cffbe00748ce6e97c3c72055bcf64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 78/82] fix: canonicalizing a list slice minds empty lists and
 steps that are not positive

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index ff6c8c9..a4664be 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3724,7 +3724,7 @@ void AtenSliceTOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     } else if (!matchPattern(op.getEnd(), m_TorchConstantInt(&end))) {
       return failure();
     }
-    if (!matchPattern(op.getStep(), m_TorchConstantInt(&step))) {
+    if (!matchPattern(op.getStep(), m_TorchConstantInt(&step)) || step < 1) {
       return failure();
     }
 
@@ -3739,7 +3739,7 @@ void AtenSliceTOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     }
 
     rewriter.replaceOpWithNewOp<PrimListConstructOp>(
-        op, Torch::ListType::get(listElements[0].getType()), newListElements);
+        op, op.getType(), newListElements);
     return success();
   });
 }
-- 
2.43.0


From 20da2819c6f9e0ac2644601becb4b5246857b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 79/82] fix: folding floordiv.int and remainder.int rounds like
 PyTorch, and not by zero

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index a4664be..a16469f 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4057,9 +4057,14 @@ OpFoldResult AtenAliasOp::fold(FoldAdaptor adaptor) {
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenFloordivIntOp::fold(FoldAdaptor adaptor) {
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getOperands()[1]);
+  if (divisor && divisor.getValue().isZero())
+    return nullptr;
   return atenBinaryIntOperatorFoldHelper(
       adaptor.getOperands(),
-      [](int64_t a, int64_t b) { return std::floor(a / (double)b); });
+      [](int64_t a, int64_t b) {
+        return a / b - (a % b != 0 && (a % b < 0) != (b < 0) ? 1 : 0);
+      });
 }
 
 void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
@@ -4105,8 +4110,14 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenRemainderIntOp::fold(FoldAdaptor adaptor) {
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getOperands()[1]);
+  if (divisor && divisor.getValue().isZero())
+    return nullptr;
+  // The remainder has the sign of the divisor.
   return atenBinaryIntOperatorFoldHelper(
-      adaptor.getOperands(), [](int64_t a, int64_t b) { return a % b; });
+      adaptor.getOperands(), [](int64_t a, int64_t b) {
+        return a % b + (a % b != 0 && (a % b < 0) != (b < 0) ? b : 0);
+      });
 }
 
 // ===----------------------------------------------------------------------===//
-- 
2.43.0


From ea9fc3310ece750bfda25b93a37de122d9853c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:56 +0000
Subject: [PATCH 80/82] fix: folding the length of a range minds empty ranges
 and steps of zero

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index a16469f..41fedc5 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -773,8 +773,10 @@ OpFoldResult Aten__RangeLengthOp::fold(FoldAdaptor adaptor) {
   auto hiInt = dyn_cast_or_null<IntegerAttr>(hi).getValue();
   auto stepInt = dyn_cast_or_null<IntegerAttr>(step).getValue();
   // TODO: Implement folding for negative steps.
-  if (stepInt.isNegative())
+  if (stepInt.isNegative() || stepInt.isZero())
     return nullptr;
+  if (hiInt.slt(loInt))
+    return IntegerAttr::get(cast<TypedAttr>(lo).getType(), 0);
   // From Python language spec:
   // r[i] = lo + step*i such that i >= 0 and r[i] < hi
   // So maximize `i` such that lo + step * i < hi
-- 
2.43.0


From a14bb23b734367db9433fc1afaf957e9e045d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:56 +0000
Subject: [PATCH 81/82] fix: folding comparisons and quotients of floats minds
 NaN

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 41fedc5..f6b737e 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -2781,8 +2781,9 @@ using ConstantFloatComparator = std::function<bool(double, double)>;
 template <typename OpTy>
 static OpFoldResult
 floatComparatorFoldHelper(OpTy op, ConstantFloatComparator comparator) {
-  if (op.getOperand(0) == op.getOperand(1))
-    return getI1IntegerAttr(op.getContext(), comparator(0, 0));
+  // NaN is neither equal to nor less or greater than itself.
+  if (op.getOperand(0) == op.getOperand(1) && !comparator(0, 0))
+    return getI1IntegerAttr(op.getContext(), false);
 
   double lhs, rhs;
   if (!matchPattern(op.getOperand(0), m_TorchConstantFloat(&lhs)) ||
@@ -4987,8 +4988,6 @@ OpFoldResult AtenDivFloatOp::fold(FoldAdaptor adaptor) {
   double lhs, rhs;
   bool lConstant = matchPattern(getOperand(0), m_TorchConstantFloat(&lhs));
   bool rConstant = matchPattern(getOperand(1), m_TorchConstantFloat(&rhs));
-  if (lConstant && lhs == 0.0)
-    return getF64FloatAttr(getContext(), 0.0);
   if (lConstant && rConstant && rhs == 1.0)
     return getF64FloatAttr(getContext(), lhs);
   if (lConstant && rConstant)
-- 
2.43.0


From 5161262477e018fa6a96aa2f806482ababe9d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:02 +0000
Subject: [PATCH 82/82] fix: a product only cancels with the divisor of a
 floordiv.int

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index f6b737e..1f29283 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4078,9 +4078,9 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     bool rConstant = matchPattern(op.getB(), m_TorchConstantInt(&rhs));
     if (lConstant && rConstant)
       return failure();
-    if (lConstant || rConstant) {
-      int64_t firstConstant = lConstant ? lhs : rhs;
-      Value firstOperand = lConstant ? op.getB() : op.getA();
+    if (rConstant && rhs != 0) {
+      int64_t firstConstant = rhs;
+      Value firstOperand = op.getA();
       if (firstOperand.getDefiningOp() &&
           firstOperand.getDefiningOp<AtenMulIntOp>()) {
         auto prevMulIntOp = firstOperand.getDefiningOp<AtenMulIntOp>();
-- 
2.43.0

