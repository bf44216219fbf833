NOT_APPLICABLE = []

prop("F01", "An imported FX program computes what the source program computes",
     "For every PyTorch program in FX form that the importer accepts, executing the imported "
     "torch-dialect module on any inputs yields exactly the values the source program yields: each "
     "operator receives the same operands and literal, default and keyword arguments in the positions "
     "its schema gives them, and each program output is returned in its position. "
     "This holds through every public entry point (exported program, frozen exported program, "
     "stateless graph, raw graph module), with parameters, buffers and constants bound to the values "
     "the program captured, for any number of imports into one importer.",
     ["programs", "inputs", "histories"],
     "All programs over the supported operator calls (any argument form: positional, keyword, omitted, "
     "None, list, scalar), all data-flow wirings, all output structures, all entry points, all "
     "sequences of imports into one importer or context.",
     "No existing test that runs here executes the FX importer; the e2e suites go through TorchScript. "
     "A test samples a few programs, whereas argument binding, default filling, multi-result "
     "projection and value numbering must be right for every operator schema and wiring.",
     [FX, FXPY],
     [("operator import and argument binding", FX + " GraphNodeImporter"),
      ("entry points", FXPY + " export_and_import, stateless_fx_import; FxImporter.import_*")],
     "explicit-state bounded enumeration of programs, executed on the real importer; differential "
     "oracle (imported IR interpreted vs PyTorch)",
     "model_checking",
     "Exhaustive within the stated bounds (program depth <= 3 over a 172-letter operator alphabet, all "
     "wirings; all output forms; all entry points x module family; multi-import histories). MLIR "
     "itself is replaced by a faithful Python stand-in which records the IR; IR ops are given the "
     "meaning of the PyTorch operator they name.")

prop("F02", "Mutations of inputs and buffers survive import",
     "A program that updates its inputs or its registered buffers in place has, after import, the same "
     "outputs, the same final input contents and the same final buffer contents as running the program "
     "in PyTorch, whatever the order, repetition or aliasing of the updates and reads. "
     "Updates are never dropped, duplicated, reordered or applied to the wrong tensor.",
     ["programs", "histories"],
     "Every sequence of in-place updates and reads of inputs and buffers, every form of returned value.",
     "A loss needs a specific sequence (the same value stored to two places, an input stored unchanged, "
     "a constant output beside a mutation); no test in the tree executes a mutating FX import.",
     [FX, FXPY],
     [("mutation epilogue", FX + " FxImporter.import_program"),
      ("input mutation hooks", FX + " InputInfo / mutable value handling")],
     "explicit-state enumeration of in-place update histories on the real importer, differential oracle",
     "model_checking",
     "Exhaustive over all statement sequences up to the depth bound over two inputs and two buffers; "
     "trusts the IR interpreter and torch.export.")

prop("F03", "Captured tensors are embedded bit for bit",
     "Every constant, parameter, buffer and literal tensor the FX importer embeds in a module has the "
     "captured tensor's exact shape, element type and bit pattern, whatever its strides, views, storage "
     "offset, requires-grad state or subclass. "
     "This holds for every sequence of imports in one process: a tensor that was released never lends "
     "its data to another one, and equal-looking but distinct tensors never share data.",
     ["inputs", "histories"],
     "All element types and bit patterns (all 2^8 and 2^16 for the small types), layouts, import routes, "
     "and all import/alloc/release histories including immediate identity reuse by the allocator.",
     "Needs particular bit patterns (NaN payloads, -0, odd float formats), layouts, or an allocator "
     "that reuses an address between two imports; no existing test imports a literal at all.",
     [FX],
     [("literal creation", FX + " _make_vtensor_literal_op / create_mlir_tensor_type"),
      ("identity cache", FX + " RefTracker / RefMapping"),
      ("resource blobs", FX + " ContextCache")],
     "explicit-state enumeration of import histories under an adversarial allocator (object identity "
     "controlled by the harness) + exhaustive bit patterns",
     "model_checking",
     "Exhaustive within the bounds; object identity is controlled by substituting id() in the module "
     "under test, and the MLIR attribute constructors are recorded byte for byte.")

prop("F04", "Declared tensor types match the run-time values",
     "Every type the FX importer writes into a module - shape, static or dynamic dimension, element "
     "type, sparse layout encoding, scalar kind - describes the values the source program has there, and "
     "every element-type, layout or memory-format argument of an operator denotes the requested one. "
     "Dimensions are dynamic exactly where the program is exported as dynamic there. "
     "Element types or layouts which cannot be represented are rejected with an error.",
     ["inputs", "configurations"],
     "All element types, layouts, memory formats, ranks and dynamic-dimension subsets; all sparse "
     "formats with batch, dense and block dimensions and index types.",
     "The tables involved (element types, numbering, sparse level maps) have dozens of rows and each "
     "wrong row shows up only for that row; no existing test imports them.",
     [FX],
     [("type tables", FX + " TORCH_DTYPE_TO_MLIR_TYPE, TORCH_DTYPE_TO_INT, TORCH_LAYOUT_TO_INT"),
      ("tensor metadata to type", FX + " ContextCache"), ("sparsity", FX + " sparsity_encoding")],
     "exhaustive enumeration of configurations executed on the real importer; types read back and "
     "checked against run-time values and an independent decoder",
     "model_checking",
     "Exhaustive over the enumerated tables/configurations; numbering is judged against the torch "
     "dialect's ScalarType/Layout enums.")

prop("F05", "Strided-storage reads are imported exactly or rejected",
     "Importing a program that reads a tensor through explicit sizes, strides and storage offset yields "
     "a module computing exactly the elements PyTorch reads from that storage, whatever layout and view "
     "chain (including reinterpreting views) lies in between, for every use of the result. "
     "Requests whose elements cannot be expressed on the available base tensor are rejected with an "
     "error, and requests that stay within a dense base tensor are accepted.",
     ["inputs", "programs"],
     "All base layouts, view chains, sizes, strides and offsets; all graph positions (nested, repeated, "
     "beside mutations).",
     "Wrong address decoding shows only for specific stride/offset combinations; the few lit tests for "
     "this do not run here and sample a handful of requests.",
     ["python/torch_mlir/extras/fx_as_strided.py", FX],
     [("rewrite", "fx_as_strided.py rewrite_as_strided / _indices / _base")],
     "explicit-state enumeration: base layout x view chain states, every bounded as_strided request as "
     "transition, executed on the real rewrite against PyTorch",
     "model_checking",
     "Exhaustive over 19 base layouts x 27 (+5 complex) view chains x all requests in a box (rank <= 2, "
     "dims 0-3, strides 0-4, offsets), plus rank-3/4 permutations; rejections are only allowed off dense bases.")

prop("F06", "Symbolic sizes, scalars and shape relations are imported exactly",
     "Arithmetic and comparisons on symbolic sizes and data-dependent scalars, in a program imported "
     "with dynamic shapes, have in the imported module the value and kind (int, float, bool) they have "
     "in Python for every admissible input size and value, or the import is rejected. "
     "The shape relations and symbol ranges the module declares hold for every admissible input size "
     "and equal the constraints the program was exported with. "
     "Importing leaves the source program unchanged: importing it again gives the same module.",
     ["programs", "inputs", "histories"],
     "All scalar expressions over sizes, data-dependent scalars and literals; all input sizes in range; "
     "all forms of dimension constraints.",
     "Sign conventions, operand order of mixed int/float operations and boundary sizes only show for "
     "particular operand kinds and values; no existing test that runs executes symbolic imports.",
     [FX],
     [("symbolic arithmetic", FX + " _import_symbolic_torch_op, PY_BUILTIN_TO_TORCH_OP"),
      ("shape relations", FX + " sympy_expr_to_semi_affine_expr, _create_bind_symbolic_shape_ops"),
      ("ranges", FX + " set_symbolic_guards")],
     "explicit-state enumeration of scalar/shape expressions on the real importer, each executed for "
     "every enumerated size assignment against Python arithmetic",
     "model_checking",
     "Exhaustive over all expressions of depth <= 2 (13 operations, 10 operand kinds), all shape "
     "expression trees of depth 2, 17 constraint forms x 9 programs; 4 size assignments each.")

prop("F07", "Loops, nested graphs and mutating custom operators import faithfully",
     "Programs with while loops (any carried and captured values, any nesting, any trip count "
     "including zero), attention with user score and mask functions, and custom operators that mutate "
     "their arguments compute, after import, what the source program computes. "
     "Every nested graph becomes a function which only its own program calls: whatever is imported "
     "before or after it into the same module, under whatever names, each imported function keeps its "
     "requested name and its meaning. Constructs that cannot be represented are rejected with an error.",
     ["programs", "histories"],
     "All loop programs over the alphabet of carried values, conditions, bodies and captures; all "
     "histories of imports (entry point, name, released programs, second importer on the module).",
     "Needs a captured value in a loop, a name collision, or an identity reused by a later program; the "
     "only tests print IR through MLIR bindings that do not exist here.",
     [FX],
     [("while loops", FX + " _import_hop_while_loop"), ("attention", FX + " _import_hop_flex_attention"),
      ("mutating custom operators", FX + " _import_hop_auto_functionalized"),
      ("function naming", FX + " import_graph_module, _import_all_child_modules")],
     "explicit-state enumeration of loop programs and import histories (adversarial allocator) on the "
     "real importer, differential oracle",
     "model_checking",
     "Exhaustive within the bounds (5 carry shapes x 5 conditions x 10 bodies x 3 inputs; histories of "
     "<= 3 imports; calls of 5 mutating schemas in all operand permutations; 12 score/mask pairs).")

prop("O01", "An imported ONNX model computes what the ONNX model computes",
     "For every ONNX model the importer accepts, the imported module has one operation per node, in an "
     "order that respects data flow, with the node's operator name, all its attributes unchanged, its "
     "inputs (omitted ones as none) and its outputs (omitted ones skipped without shifting others) in "
     "their positions, so that it computes the model's outputs in order from its inputs. "
     "Inputs backed by initializers are constants, operator-set versions and model metadata are "
     "recorded as declared, and names cannot capture or shadow one another.",
     ["programs", "inputs"],
     "All node/edge structures, omission patterns, attribute kinds and values, constant forms, name "
     "spellings and operator-set declarations; all operator examples of the ONNX standard.",
     "No test here executes the ONNX importer; an omitted input, a duplicated name or a rare attribute "
     "kind only misbehaves for that particular structure.",
     [ONNX],
     [("node import", ONNX + " NodeImporter.import_node / import_all"),
      ("attributes", ONNX + " import_attributes, ATTRIBUTE_TYPE_HANDLERS"),
      ("constants", ONNX + " _handle_node_Constant, import_initializer")],
     "explicit-state enumeration of models executed on the real importer; two oracles (free-term "
     "semantics of the ModelProto; ONNX's reference evaluator)",
     "model_checking",
     "Exhaustive within the bounds (graphs of <= 2 nodes, thorough 3, over all operand/omission forms; all "
     "attribute kinds x values; the whole operator corpus of the standard); MLIR replaced by a stand-in.")

prop("O02", "ONNX tensor data is embedded bit for bit",
     "Every tensor of a model - initializer, constant, tensor or tensor-list attribute, at the top level "
     "or inside a subgraph - appears in the imported module with its exact shape, element type and bits, "
     "for every element type and every storage form ONNX allows, or the model is rejected with an error. "
     "Distinct tensors never share or overwrite each other's data, whatever their names.",
     ["inputs"],
     "All element types, all 2^8/2^16 bit patterns of small types and boundary patterns of wide ones, "
     "all storage forms, shapes, positions, and all pairs of tensors under clashing names.",
     "Byte order, sub-byte packing, NaN payloads, empty tensors and clashing resource names each show only "
     "for their own combination; no test imports any.",
     [ONNX],
     [("tensor data", ONNX + " tensor_proto_to_attr, ELEM_TYPE_INLINE_TENSOR_PROTO_CB"),
      ("element types", ONNX + " ELEM_TYPE_TO_IR_TYPE_CB")],
     "exhaustive enumeration of tensors x storage forms x positions on the real importer; bytes compared "
     "with ONNX's own decoding",
     "model_checking",
     "Exhaustive over the stated tables and bit patterns; wide types use boundary patterns.")

prop("O03", "Expanding ONNX functions does not change what a model computes",
     "Whichever ONNX function operators are configured to be expanded, the imported module computes the "
     "same outputs as the model, exactly the configured operators are expanded (also inside other "
     "expanded functions and subgraphs), and operators which are not functions are left alone. "
     "Within one module, each call uses a function body specialised for its own attributes, operand types "
     "and operator-set version, whatever calls came before.",
     ["programs", "configurations", "histories"],
     "All expansion configurations x operator examples; all sequences of function calls that differ in "
     "attributes, types, shapes, omitted operands or version.",
     "A wrong specialisation is only visible when two calls that differ in one respect meet in a module.",
     [ONNX],
     [("function cache", ONNX + " ModuleCache.get_operator_function"),
      ("specialisation", ONNX + " _specialize_function_and_create_model, _bind_attributes_on_node")],
     "explicit-state enumeration of expansion configurations and call sequences on the real importer; "
     "differential oracle (ONNX reference evaluator)",
     "model_checking",
     "Exhaustive over the operator corpus x configurations and over call sequences of length <= 2 "
     "(thorough 3) per function family.")

prop("O04", "Control flow of ONNX models imports faithfully",
     "Conditionals, loops in every trip-count and condition form, scans and sequence maps, in any nesting, "
     "compute after import what the ONNX standard defines for every condition value and trip count. "
     "Bodies see exactly the values of the enclosing graphs that they name (including values defined "
     "outside several levels), their local names never leak into or collide with other graphs, and "
     "body results keep their order and types.",
     ["programs", "inputs"],
     "All nestings of two control-flow operators (thorough three) over all small bodies; every "
     "condition and trip count.",
     "Scoping mistakes need a name shared between particular scopes and a value that differs there.",
     [ONNX],
     [("regions", ONNX + " import_regions, count_regions"), ("scopes", ONNX + " GraphInfo, NodeImporter._nv_map")],
     "explicit-state enumeration of control-flow programs on the real importer, executed against an "
     "independent evaluator of the ONNX standard's control flow",
     "model_checking",
     "Exhaustive over 9 control-flow forms x all bodies of <= 2 statements x nesting depth 2 (3).")

prop("O05", "ONNX value types become the torch types they denote",
     "Every type an ONNX model declares or infers for a value - element type, fixed, symbolic or "
     "unspecified dimension, unknown rank, sequence or optional - appears in the imported module as the "
     "torch type denoting the same values, at every place it applies: inputs, outputs, results and "
     "subgraph arguments. A type with no torch counterpart is rejected with an error.",
     ["inputs"],
     "All element types x dimension vectors x ranks, all nestings of the type constructors to depth 3, "
     "every position, every ordered pair of types in one model.",
     "One wrong row (a zero dimension, a missing shape, a list element) shows only for that type.",
     [ONNX],
     [("types", ONNX + " ContextCache.type_proto_to_type, get_list_type, get_optional_type, get_vtensor_type"),
      ("type lookup", ONNX + " GraphInfo.find_type_proto_for_name")],
     "exhaustive enumeration of types x positions (and pairs) on the real importer; independent type oracle",
     "model_checking",
     "Exhaustive over ranks <= 3 (4 for one element type), nesting depth 3 and 6 positions.")

prop("O06", "The ONNX command-line importer is faithful and leaves nothing behind",
     "For every combination of options, in-memory or file-based inference and storage of the model's data, "
     "a run that succeeds writes exactly the module the requested model imports to (converted to the "
     "requested operator-set version, with the requested options in effect), and a run that fails says so. "
     "No run, whether it succeeds, fails at any file operation, is killed, or overlaps another run, "
     "alters its input files or any file it did not create; unless asked to keep them, a run that is not "
     "killed leaves no temporary files, and overlapping runs do not affect each other's result.",
     ["configurations", "crash_points", "schedules"],
     "All option combinations x models x storage; a fault or a kill at every file operation; all "
     "interleavings of two runs at file operations with at most 2 (thorough 3) preemptions.",
     "Races and leftovers depend on where a run is interrupted; no test runs the tool here.",
     [ONNXMAIN],
     [("loading and inference", ONNXMAIN + " load_onnx_model"), ("driver", ONNXMAIN + " main, parse_arguments")],
     "stateless exploration of the real tool under a fault injector and a controlled scheduler "
     "(real processes, preemption-bounded) + exhaustive option combinations",
     "model_checking",
     "Exhaustive at the granularity of Python-level file operations; file access inside ONNX's C++ "
     "inference is one atomic step.")

FW = "projects/pt1/python/torch_mlir_e2e_test/framework.py"
REP = "projects/pt1/python/torch_mlir_e2e_test/reporting.py"
CFG = "projects/pt1/python/torch_mlir_e2e_test/configs/"
MAIN = "projects/pt1/e2e_testing/main.py"

prop("E01", "A test passes only if its trace matches the golden trace",
     "A test is reported as passing only if the program under test made the same calls as the golden run, in the "
     "same order and number, with equal inputs, and every returned value matches: the same kind, structure, dtype "
     "and shape, and numbers equal within the numeric tolerance, NaN only with NaN and infinities only with "
     "themselves. A trace that does match is reported as passing, and judging never raises.",
     ["inputs", "histories"],
     "All ordered pairs of values (scalars, strings, tensors of all dtypes with special values, lists, tuples, "
     "dictionaries, nested) and all pairs of traces of calls.",
     "A verdict is needed for pairs that differ in one place in one way; a suite in which everything passes "
     "never exercises the failing side.",
     [REP],
     [("value comparison", REP + " ValueReport"), ("trace comparison", REP + " TraceItemReport, SingleTestReport")],
     "exhaustive enumeration of (golden, produced) pairs of values and traces judged by the real report "
     "classes; independent definition of a match",
     "model_checking",
     "Exhaustive over the stated universe: all pairs of ~100 leaves, containers to depth 2 (3), traces of <= 3 calls.")

prop("E02", "A trace holds what each call took and returned at that time",
     "The golden trace of a test holds, for every call made into the program (or a submodule of it), the values it "
     "was given and the values it returned as they were at that call, whatever the program or the caller does to "
     "those values afterwards, and two recordings of one test are identical, random inputs included. Replaying a "
     "golden trace on the unmodified program with the native or TorchScript configuration returns the same trace "
     "and leaves the golden trace unchanged.",
     ["histories"],
     "All sequences of calls (fresh results, views, inputs or program state returned, nested containers, in-place "
     "updates, submodules) and of later updates by the caller.",
     "Aliasing between a recorded value and live state shows only if a later step of the history writes through it.",
     [FW, CFG],
     [("recording", FW + " _Tracer, clone_torch_script_value, generate_golden_trace"),
      ("replay", CFG + "native_torch.py, torchscript.py")],
     "stateless exploration of call/update histories on the real tracer and configurations; deep-copying recorder as oracle",
     "model_checking",
     "Exhaustive over histories of <= 3 (thorough 4) steps over the stated alphabet.")

prop("E03", "Every test ends in exactly one correctly classified result",
     "Whatever goes wrong while one test runs - an exception of any kind at any stage, or its time limit "
     "expiring at any moment - yields exactly one result for that test: a compilation error up to and including "
     "compilation, a runtime error after it, a timeout named as such, with the failure's description; otherwise the "
     "result carries both traces. The time limit of one test never affects the next test in the same process.",
     ["fault_sequences", "schedules"],
     "Every stage x every kind of failure; the time limit expiring at every instruction of the framework and every "
     "line of the test.",
     "When the alarm goes off cannot be controlled by a test; the windows between two stages are a few "
     "instructions wide.",
     [FW],
     [("classification", FW + " compile_and_run_test, timeout")],
     "stateless exploration of the real function under a fault injector; the alarm is delivered at every "
     "bytecode boundary in turn",
     "model_checking",
     "Exhaustive at bytecode granularity in the framework's code and line granularity in the test's code.")

prop("E04", "A test run gives one result per test or fails; it never hangs",
     "Running a set of tests, sequentially or in parallel, with any number of processes and whatever the order in "
     "which they finish, executes each test exactly once and returns exactly one result per test, in name order, "
     "each the same as if that test had been run alone. If a test process dies, at any point and with any exit "
     "status or signal, the run ends with a failure within a bounded time and never counts the lost test as passed. "
     "The concurrency and verbosity settings of the environment are honoured, and invalid ones are rejected.",
     ["schedules", "crash_points", "configurations"],
     "All completion orders for n tests on w processes, all deaths (position x exit status/signal x tests finished "
     "before), all vectors of outcomes, all settings.",
     "Ordering, dying processes and lost results depend on the schedule; the project's own runs only see the "
     "schedule of the day.",
     [FW],
     [("the runner", FW + " run_tests")],
     "stateless exploration of the real runner with real processes following every bounded schedule of completions "
     "and deaths",
     "model_checking",
     "Exhaustive for n <= 4 (5) tests and w <= 4 processes; death schedules for n <= 3.")

prop("E05", "A run's exit status says whether every test behaved as expected",
     "For every configuration, filter and set of outcomes, the test driver attempts exactly the registered tests that "
     "match the filter and are not listed as crashing, each with the compiler and backend the configuration names; "
     "reports each one once as passed, failed, expectedly failed or unexpectedly passed according to its verdict and "
     "the configuration's list of expected failures, with matching totals; and exits with status 0 exactly if no "
     "test failed unexpectedly or passed unexpectedly (or failures are to be ignored). Invalid names and filters "
     "that select nothing are errors, and no two tests can be registered under one name.",
     ["configurations", "histories"],
     "All configurations x option combinations x outcome vectors x filters; all registration histories.",
     "The exit status gates everything else, and a green suite never shows what a red one would report.",
     [MAIN, REP, "projects/pt1/python/torch_mlir_e2e_test/registry.py"],
     [("driver", MAIN + " main"), ("report", REP + " report_results"),
      ("registration", "projects/pt1/python/torch_mlir_e2e_test/registry.py register_test_case")],
     "exhaustive enumeration of configurations, options and outcome vectors run through the real driver",
     "model_checking",
     "Exhaustive over all 12 configurations, all option combinations and all outcome vectors of <= 4 tests.")

BE = "projects/pt1/python/torch_mlir_e2e_test/"
CU = "python/torch_mlir/compiler_utils.py"

prop("B01", "Calling a compiled module passes and returns exactly the values",
     "When a module compiled for the reference backend is called, the compiled code sees each argument with its exact "
     "element type, shape and values whatever the argument's memory layout, and the caller gets back exactly the "
     "values, element types and shapes the code returned, in order, for every supported list of result types. "
     "Modules with several functions, of any signatures, may be called in any order and any number of times, results "
     "stay valid when further calls are made, and a call that fails affects no other call. "
     "The conversions of test inputs and outputs between PyTorch and backend values preserve values and nesting, and "
     "anything unsupported is rejected.",
     ["inputs", "histories"],
     "All element types x shapes x layouts of arguments; all lists of <= 3 result types with boundary values; all pairs of "
     "function signatures x call histories.",
     "No stable test executes compiled code; errors need a boundary value (64-bit integers, NaN, bool), an unusual "
     "layout or a particular sequence of functions called.",
     [BE + "linalg_on_tensors_backends/refbackend.py", BE + "configs/utils.py"],
     [("invocation", BE + "linalg_on_tensors_backends/refbackend.py RefBackendInvoker"),
      ("conversions", BE + "configs/utils.py recursively_convert_*")],
     "explicit-state enumeration of signatures, argument layouts and call histories on the real invoker over an "
     "ABI-accurate engine",
     "model_checking",
     "Exhaustive within the stated bounds; the compiled code and MLIR's Python runtime helpers are replaced by stand-ins "
     "which follow the documented C ABI (memref descriptors, C function pointers).")

prop("B02", "Lowering runs the requested stages; every failure is explained",
     "Every way to request a lowering - any entry point, any accepted spelling of the output type, any options - runs "
     "exactly the stages that output type needs, in order, on the imported module, with the options the caller gave, "
     "and returns that module; unknown output types are rejected naming the choices. "
     "A failure at any stage, of any kind, is raised as a compiler error containing all diagnostics, the exception and "
     "the failing pipeline, with a reproducer of the IR before that stage if it can be written; nothing runs after it. "
     "Neither success nor failure disturbs the process's error stream or any later lowering.",
     ["configurations", "fault_sequences", "histories"],
     "Entry points x output type spellings x option combinations; faults at every stage x kind of exception x diagnostics "
     "x broken temporary directory or unprintable IR; all histories of 2 (3) requests.",
     "The error path runs only when a pass fails, and its own failures (unwritable directory, unprintable IR) hide the "
     "diagnostics exactly when they are needed.",
     [CU, FXPY],
     [("pipelines", CU + " lower_mlir_module, OutputType"), ("error report", CU + " run_pipeline_with_repro_report"),
      ("FX entry points", FXPY + " _module_lowering")],
     "exhaustive enumeration of requests and of injected faults, run on the real lowering code under a recording, "
     "fault-injecting pass manager",
     "model_checking",
     "Exhaustive over the stated configurations, faults and histories; the passes themselves are not run (MLIR's Python "
     "bindings cannot be built here).")

DY = "projects/pt1/python/torch_mlir/"

prop("D01", "TorchDynamo graphs import to programs with the same meaning",
     "A graph of the documented subset of FX (placeholders, operator overloads, getitem, a list of results) imported by "
     "the TorchDynamo importer yields a valid program with the given function name which computes, for its operands in "
     "order, exactly what PyTorch computes for the graph: every operand position, keyword argument, default value, "
     "literal, element type, layout and result index is carried over. "
     "A graph outside the subset is rejected with an error, and earlier or failed imports have no influence on an import.",
     ["programs", "inputs"],
     "All graphs over ~170 operator applications x operand wirings to depth 3; all forms of results; all element types and "
     "enumerated literals; histories of imports.",
     "An argument form that no test happens to use (a keyword argument, a rare layout or dtype, the third result of an "
     "operator) can be imported wrongly without any test noticing; the importer has no stable test here.",
     [DY + "_dynamo_fx_importer.py"],
     [("argument import", DY + "_dynamo_fx_importer.py _FXGraphImporter._import_op_overload_call"),
      ("literals", DY + "_dynamo_fx_importer.py _import_literal, DTYPE_TO_INT, LAYOUT_TO_INT")],
     "explicit-state enumeration of operator graphs, each imported by the real importer and executed against PyTorch",
     "model_checking",
     "Exhaustive within the stated bounds; MLIR is replaced by a stand-in checked against the dialect's definitions.")

prop("D02", "Programs compiled through the TorchDynamo adapter behave as before",
     "A user's backend wrapped for TorchDynamo receives graphs in the canonical form (no result, one result, or a tuple "
     "of several results; operators without overloads; the listed operators decomposed), and the compiled program returns what the "
     "original program returns, in the same containers. "
     "This holds for every form of result, for several graphs compiled and called in any order, for recompilation, graph "
     "breaks, mutated inputs and buffers, and training steps, and a failing compilation leaves the others as they are.",
     ["programs", "histories"],
     "All forms of results x behaviours of the user's callable; all call histories of two and three compiled graphs; every "
     "operator application; network parts x evaluation/training histories.",
     "Whether the calling convention is restored depends on the form of the graph's result and on which graph is called "
     "when; tests use single graphs of one form.",
     [DY + "dynamo.py"],
     [("calling convention", DY + "dynamo.py _adjust_calling_convention, make_simple_dynamo_backend"),
      ("decompositions", DY + "dynamo.py _get_decomposition_table")],
     "explicit-state enumeration of result forms, user callables and call histories on the real adapter under PyTorch's "
     "own compiler, compared with eager execution",
     "model_checking",
     "Exhaustive within the stated bounds.")

LG = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
LC = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"

prop("T01", "Shape functions give the shape PyTorch gives",
     "For every operator in the abstract interpretation library and every call PyTorch accepts, the shape function returns "
     "the shape of PyTorch's result (of each result, where there are several), and an extent that depends on the data is "
     "left unknown rather than guessed. "
     "It refuses a call PyTorch accepts only in the documented unsupported forms.",
     ["inputs"],
     "All calls of each operator, over all ranks, extents (0 and 1 included), optional arguments, lists and negative indices.",
     "The shapes decide the type of every compiled value; a test has one or two calls per function, while mistakes sit in "
     "broadcasting, negative dimensions, extents of zero, missing optional arguments and combinations of them.",
     [LG, LC],
     [("shape functions", LG + " functions named ...〡shape"), ("shared rules", LG + " upstream_shape_functions, helpers")],
     "explicit-state enumeration of operator calls over finite argument domains, each executed by the library function and "
     "by PyTorch",
     "model_checking",
     "Exhaustive over all calls within two (thorough: three) arguments of each base call, over finite domains per argument "
     "type; existing deviations are listed call by call.")

prop("T02", "Dtype functions give the element types PyTorch gives",
     "For every operator in the abstract interpretation library and every call PyTorch accepts, the dtype function returns "
     "the element type of PyTorch's result (of each result, where there are several), including type promotion among "
     "tensors of any rank, Python numbers and an explicit dtype argument. "
     "It refuses a call PyTorch accepts only in the documented unsupported forms.",
     ["inputs"],
     "All calls of each operator, over all combinations of element types, ranks, kinds of numbers and dtype arguments.",
     "Promotion has a case for each combination of operand kinds; tests run the functions with a fixed set of element types.",
     [LG, LC],
     [("dtype functions", LG + " functions named ...〡dtype"), ("promotion", LG + " promote_dtypes, _get_dtype_of_floating_point_op")],
     "explicit-state enumeration of operator calls over finite argument domains, each executed by the library function and "
     "by PyTorch",
     "model_checking",
     "Exhaustive over all calls within two (thorough: three) arguments of each base call, over finite domains per argument "
     "type; existing deviations are listed call by call.")

prop("T03", "The library built into the compiler is the library of the sources",
     "The shape and dtype functions compiled into the passes and the Python functions they are generated from are the same: "
     "each has its counterpart with the same operands and results, and for every call, valid or not, both return the same "
     "value or both raise. "
     "This includes calls that PyTorch rejects and ranks or element types no operator test uses.",
     ["inputs", "configurations"],
     "All functions of both sides and all enumerated calls of each.",
     "The compiled library is a generated text committed beside its source; nothing here regenerates it, so either side can "
     "be changed alone, and a text of 18,000 lines is not reviewed.",
     [LC, LG],
     [("compiled library", LC), ("its sources", LG + ", library_generator.py")],
     "explicit-state enumeration of operator calls, executed on the compiled text operation by operation and on the Python "
     "source",
     "model_checking",
     "Exhaustive within the stated bounds; the text is executed by an interpreter of the operations it uses.")

TU = "lib/Dialect/Torch/Utils/TorchUpstream.cpp"
prop("T04", "Element type promotion in the compiler is PyTorch's",
     "For every list of operands, each a Python number, a tensor of rank zero or a tensor of higher rank and of any element "
     "type, the compiler promotes to the element type PyTorch promotes to, whatever the order of the operands. "
     "The promotion used when the library's dtype functions are tested agrees with the compiler's, and the names of "
     "reductions map to the numbers PyTorch uses.",
     ["inputs"],
     "All lists of up to three (thorough: four) operands over all kinds and element types.",
     "The rule has a table entry per pair of types and a case per combination of kinds of operands; no stable test executes "
     "the compiler's side.",
     [TU, "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py"],
     [("promotion", TU + " result_type, promote_skip_undefined, combine_categories"),
      ("promotion in tests", "library_generator.py promote_dtypes, get_dtype_of_scalar")],
     "exhaustive enumeration of operand lists, executed by the compiled code, by PyTorch and by an explicit model",
     "model_checking",
     "Exhaustive within the stated bounds; the C++ file is compiled from the tree under test with stand-ins for LLVM headers.")

JI = "projects/jit_ir_common/csrc/jit_ir_importer"
prop("J01", "An imported TorchScript function computes what TorchScript computes",
     "For every TorchScript function the importer accepts, the imported program returns what TorchScript returns for the same "
     "arguments, leaves its arguments as TorchScript leaves them, and raises where TorchScript raises. "
     "This holds for all control flow (branches, loops, break, continue, early return, nesting), all scalar and container "
     "types, aliasing and in-place updates, calls with default and keyword arguments, and every import option. "
     "The imported program is always valid IR.",
     ["programs", "inputs", "configurations"],
     "All programs of a statement alphabet in all control-flow templates, all inputs of a small domain, all import options.",
     "The importer is not built by the stable tests, and a misplaced operand, block argument or cast shows only for the "
     "combination of construct, type and control flow that uses it.",
     [JI + "/node_importer.cpp", JI + "/function_importer.cpp", JI + "/torch_to_mlir_utils.cpp"],
     [("nodes and blocks", JI + "/node_importer.cpp NodeImporter"), ("functions", JI + "/function_importer.cpp importJitFunctionAsFuncOp"),
      ("static information", JI + "/torch_to_mlir_utils.cpp adjustStaticInformationForValues, createOperationFromSchema")],
     "bounded exhaustive enumeration of TorchScript programs, each imported by the compiled C++ importer and executed beside "
     "TorchScript",
     "model_checking",
     "Exhaustive within the stated alphabet and nesting; the C++ importer is compiled from the tree under test and runs on a "
     "stand-in for MLIR's C API.")

prop("J02", "An imported TorchScript module holds and keeps the state of the original",
     "After a scripted module is imported, every attribute, parameter, buffer and submodule has the value, type and sharing it "
     "had in TorchScript, and every sequence of method calls changes the imported state exactly as it changes TorchScript's, "
     "whichever point of a history the import was made at. "
     "Which methods and attributes are private and which bounds arguments carry is what the annotations made before the "
     "import say.",
     ["histories", "inputs", "configurations"],
     "All pairs of attribute values in several layouts, all method-call histories to a bounded depth with the import at every "
     "point, and all annotator call sequences to a bounded depth.",
     "Sharing between attributes, state created by earlier calls and repeated annotation only matter in combination; the "
     "importer is not built by the stable tests.",
     [JI + "/ivalue_importer.cpp", JI + "/class_annotator.cpp"],
     [("object graph", JI + "/ivalue_importer.cpp IValueImporter"), ("annotations", JI + "/class_annotator.cpp ClassAnnotator")],
     "explicit-state enumeration of object graphs, call histories and annotator histories, each import executed beside "
     "TorchScript",
     "model_checking",
     "Exhaustive within the stated bounds; storage shared between distinct tensors, devices and complex numbers may be refused.")

prop("J03", "TorchScript types, constants and operators import as what they denote",
     "Every TorchScript type, static or not and however nested, imports as the type of the dialect that denotes it under the "
     "chosen import options; every constant (numbers to the last bit, strings, nested containers, tensors of any element type, "
     "shape and memory layout, quantized ones included) keeps its value; every operator PyTorch registers becomes the operation "
     "of that name and overload, or an opaque one carrying that name, with its operands and results in order. "
     "What has no counterpart is refused with a diagnostic, never mapped to something else.",
     ["inputs", "programs", "configurations"],
     "All type expressions to depth two (thorough: three), a pool of constants in four placements, all registered operator "
     "schemas, traced programs; all import options.",
     "There are thousands of operators, hundreds of types and many layouts of tensors; the importer is not built by the stable "
     "tests.",
     [JI + "/torch_to_mlir_utils.cpp", JI + "/node_importer.cpp", JI + "/ivalue_importer.cpp"],
     [("types", JI + "/torch_to_mlir_utils.cpp getMlirTypeFromTorchType"),
      ("constants", JI + "/torch_to_mlir_utils.cpp convertTensorToMlirElementsAttr, importAttribute"),
      ("operators", JI + "/torch_to_mlir_utils.cpp createOperationFromSchema")],
     "exhaustive enumeration of types, constants and operator schemas, each imported by the compiled C++ importer and compared "
     "with a model mapping or with TorchScript's execution",
     "model_checking",
     "Exhaustive within the stated pools and depth; the C++ importer runs on a stand-in for MLIR's C API.")

TL = "lib/Dialect/Torch"
prop("C01", "Decomposing an operator keeps its results",
     "For every operator with a decomposition and every call PyTorch executes, the decomposed program is valid, does not raise and "
     "returns tensors of the same shape, element type and values (within floating-point tolerance), whether or not the extents are "
     "known, and in whatever order decompositions are applied. "
     "A decomposition that does not apply changes nothing, and an operator a backend declares legal is left alone.",
     ["programs", "inputs", "configurations"],
     "All calls within one parameter of each base call of every operator with a decomposition, static and dynamic, each rewritten by "
     "the compiled pass and executed.",
     "The pass is C++ that the stable tests do not even compile; a wrong constant, sign or dimension shows only for particular ranks, "
     "dimensions, element types and optional arguments of one of 250 patterns.",
     [TL + "/Transforms/DecomposeComplexOps.cpp", TL + "/Utils/Utils.cpp"],
     [("patterns", TL + "/Transforms/DecomposeComplexOps.cpp DecomposeAten*"), ("legality", TL + "/Transforms/DecomposeComplexOps.cpp "
       "DecomposeComplexOpsPass::addPatternIfTargetOpIsIllegal")],
     "exhaustive enumeration of operator calls to a bounded distance from base calls; the compiled C++ pass rewrites each, and both sides are "
     "executed",
     "model_checking",
     "Exhaustive within one parameter of the base calls; the C++ sources are compiled from the tree under test on a stand-in for MLIR "
     "whose greedy rewriter, folding and verification follow MLIR's rules. 40 operators have known findings.")

prop("C02", "Canonicalization keeps what a program computes",
     "Folding and canonicalizing a program never changes what it returns, what it writes, or whether it is valid: for every operator with constant, "
     "constant-valued or unknown operands, for all numbers (negative, huge, infinite, NaN), and for programs whose lists, "
     "dictionaries and tensors are mutated between reads, through aliases, in branches and in loops.",
     ["programs", "inputs"],
     "All operator calls within one parameter of the base calls with literal and symbolic operands; all constant/argument/same-value "
     "masks of scalar operators over a value domain; all statement sequences to a depth over lists, dictionaries, tensors, branches and "
     "loops.",
     "A folder is wrong for one sign, one element type or one aliasing pattern, and the stable tests do not compile the C++ at all.",
     [TL + "/IR/TorchOps.cpp", "include/torch-mlir/Dialect/Torch/IR/TorchOps.td", "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td"],
     [("folders", TL + "/IR/TorchOps.cpp *::fold"), ("patterns", TL + "/IR/TorchOps.cpp *::getCanonicalizationPatterns"),
      ("effects", TL + "/IR/TorchOps.cpp potentiallyMutatesListOperands, getEffects"), ("verifiers", TL + "/IR/TorchOps.cpp *::verify")],
     "exhaustive enumeration of operator calls and of small programs; the compiled C++ folders and patterns rewrite each, and it is executed "
     "before and after",
     "model_checking",
     "Exhaustive within the stated bounds; compiled from the tree under test on a stand-in for MLIR. Six known findings.")
