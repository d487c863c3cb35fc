"""Single source of properties.jsonl and MANIFEST.json (python3-vt tools/catalog.py rewrites both)."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, *, state=(), observe=(), technique="", level="other", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, level=level, note=note, na=na))


ST, MG, SER, RN = "sd_mecha/streaming.py", "sd_mecha/merging.py", "sd_mecha/serialization.py", "sd_mecha/recipe_nodes.py"
MM, MC, MS, MF = (f"sd_mecha/extensions/{n}.py" for n in ("merge_methods", "model_configs", "merge_spaces", "model_formats"))
BM = "sd_mecha/extensions/builtin/merge_methods/__init__.py"
BC = "sd_mecha/extensions/builtin/model_configs/__init__.py"
WR, HP, CV, LY = "sd_mecha/merge_method_wrappers.py", "sd_mecha/helpers.py", "sd_mecha/conversion.py", "sd_mecha/extensions/builtin/lycoris.py"
AI = "path-sensitive abstract interpretation of the syntax trees"

prop("C01", "A saved file's index locates exactly the stored bytes of every tensor",
     "When tensors are stored into a streamed safetensors output, from any number of threads and with any buffer size, and the output is then closed, the index of the file lists every stored key with its dtype and shape and a byte range of the data section holding exactly the bytes stored for that key. Byte ranges of different keys never overlap and the data section contains nothing else.",
     ["schedules", "inputs"], "every interleaving of storing threads, every sequence of tensor sizes, every buffer size",
     "The tests never write a safetensors file; the range of a key depends on the interleaving of the flushes of other threads and on how sizes fill a buffer.",
     [ST], [("per-thread buffer, flush under a lock, local offsets rebased by the file position taken in the same critical section", "streaming.py OutSafetensorsDict.__setitem__, _flush_buffer")],
     state=[("thread_states", "unflushed bytes and local index of each thread", ST), ("flushed_size", "bytes of data section already in the file", ST), ("header", "index to be written", ST)],
     observe=["the safetensors file"],
     technique=AI + " with symbolic sizes and offsets, lock owners and enumerated preemption points",
     note="Bounded histories: up to four stores from one thread, two threads with one preemption at every scheduling point; tensor, buffer and header sizes are unbounded symbols. Assumes the lock is a mutex and dictionary updates are atomic.")

prop("C02", "The stored bytes of a tensor are its elements in row-major order",
     "Whatever the memory layout or device of a stored tensor (transposed, strided, sliced with an offset, on an accelerator, empty), the bytes written for it are exactly its elements in row-major order in its own dtype, and the tensor is left unmodified.",
     ["inputs"], "every memory layout, device and size of a stored tensor",
     "No test stores a non-contiguous tensor; layouts and devices are unbounded.",
     [ST], [("conversion to a contiguous cpu tensor before its memory is read", "streaming.py tensor_to_bytes")], observe=["the data section of a saved file"],
     technique=AI + " with a layout/device typestate and an object-lifetime rule on raw memory reads",
     note="Decides where the raw memory that is copied comes from, its layout/device typestate, its extent and the lifetime of its owner; that torch's contiguous()/cpu() do what they say is assumed.")

prop("C03", "Short reads and partial writes are never silent",
     "Reading a tensor from a truncated safetensors file raises an error instead of returning data that is not in the file, and no part of what is to be saved is dropped because an operating-system read or write transferred fewer bytes than asked for.",
     ["fault_sequences", "inputs"], "every short transfer of every read and write of a model file",
     "Tests use neither truncated files nor short writes; where a transfer is cut short is unbounded.",
     [ST], [("checked transfer size, buffered writes", "streaming.py InSafetensorsDict, OutSafetensorsDict")], observe=["exceptions, the saved file"],
     technique=AI + " with unknown transfer counts; obligation on every path that hands out data or discards a transfer count",
     note="All paths of opening, reading, storing and closing short histories are interpreted with every transfer count an unknown. Assumes buffered file objects complete writes or raise.")

prop("C04", "A finished file's header length, header and data section agree",
     "After closing a streamed safetensors output, the 8-byte length at the start of the file equals the distance from byte 8 to the data section, the index (space-padded when shorter) exactly fills it, and the data section has been moved intact when the index turned out longer than the reserved space.",
     ["inputs", "schedules"], "every index length relative to the reserved length, every data size and buffer size",
     "The reserved length is an estimate; the relocation fallback is never reached by tests.",
     [ST], [("reserved header, padding, relocation of the data section", "streaming.py OutSafetensorsDict._init_buffer, close")],
     state=[("max_header_size", "bytes reserved for the index", ST)], observe=["the safetensors file"],
     technique=AI + " of closing with linear arithmetic over symbolic sizes and a symbolic file layout",
     note="Symbolic index, data and buffer sizes; the relocation loop is interpreted for up to three chunks of symbolic size. Trusts struct.pack and seek/write semantics.")

prop("C05", "Tensors read from a file keep their content, from any number of threads",
     "A tensor read from a safetensors file holds exactly the bytes of the range its index entry names, for any read order, buffer size and number of threads reading the same file, also after an earlier read failed; later reads of other keys never change a tensor that was already returned.",
     ["schedules", "histories", "fault_sequences"], "every interleaving and history of reads, including failing ones, for every buffer size",
     "No test reads a model file at all; sharing one read buffer among threads is a schedule property.",
     [ST], [("one lock around buffer refill and use, a fresh buffer for each refill, bookkeeping published last", "streaming.py InSafetensorsDict._load_tensor, _ensure_buffer")],
     state=[("buffer", "bytes of a window of the file", ST), ("buffer_start_offset", "file position of the window", ST)], observe=["returned tensors"],
     technique=AI + " with buffer aliasing, enumerated preemption points and a failing transfer at every read",
     note="Bounded histories: up to three reads in any order, two threads with one preemption at every scheduling point, failures of reads; offsets, sizes and the buffer size are unbounded symbols. Assumes the lock is a mutex and frombuffer aliases its buffer.")

prop("C06", "Dtype names, sizes and casts agree everywhere",
     "Every dtype that can be read can be written and the reverse, under the safetensors name and element size of that dtype; no two dtypes share a name. Every dtype a merge can be asked to cast to is known by one name that maps back to it.",
     ["inputs"], "every dtype of every table",
     "Tests use float32 only.",
     [ST, BM], [("dtype tables", "streaming.py DTYPE_MAPPING, DTYPE_REVERSE_MAPPING; merge_methods cast_dtype_map")], observe=["saved index, cast results"],
     technique="table extraction by abstract interpretation of module bodies; agreement of sibling tables with the safetensors specification",
     note="Complete over the finite tables and the functions that read them; torch element sizes and safetensors names are a frozen specification.")

prop("C07", "A merge never hides an error",
     "If computing or storing any key raises anything other than the library's missing-key error, the merge call raises instead of returning normally; only keys whose computation raised the missing-key error are left out. This holds for any number of threads and wherever in the recipe the error is raised, also when another input of the same merge is missing the key.",
     ["fault_sequences", "schedules"], "every point at which a key's computation, any of its inputs, or its store can raise",
     "Tests never run a full merge with a failing method; which input fails in which worker is unbounded.",
     [MG], [("task results inspected; error holder; missing-key filter", "merging.py merge, _track_output, ErrorHolder")], observe=["exceptions raised by merge, keys of the output"],
     technique=AI + " of the merge entry point and of every submitted task, raising at every input and at every store",
     note="Two representative keys, nodes of every kind as inputs, every combination of raise/return of inputs. The executor is modelled by its contract (each submitted call runs once).")

prop("C08", "Files are closed on every exit, and only after all workers stopped",
     "When merge returns or raises, every model file it opened has been closed and a streamed output has been finalised exactly once, and by then every worker task has finished, so that no worker touches a closed input or output.",
     ["fault_sequences", "schedules"], "every exit of a merge, normal or exceptional, at any step after the first file was opened",
     "Needs a failure between opening and closing with workers still running; no test does this.",
     [MG], [("nesting of the contexts of inputs, output and executor", "merging.py merge, open_input_dicts, _get_output_dict")], observe=["open file handles, the saved file"],
     technique=AI + " (typestate of inputs, output and executor) with an exception injected at every external call",
     note="Every external call of the merge may raise on some explored trace; executor shutdown is modelled as waiting for its tasks (with-statement contract).")

prop("C09", "A rejected recipe leaves an existing output untouched",
     "merge rejects, with an error, a recipe that is not in weight space when that is required, an invalid thread count, missing mandatory keys, incompatible inputs, missing model files and a recipe that cannot be evaluated to a model config; when it does, the output file has not been created or truncated and an output dict has not been modified.",
     ["inputs", "configurations"], "every rejection raised before the first key is computed",
     "Tests never merge to a file.",
     [MG], [("validation before the output is opened", "merging.py merge, _get_output_dict")], observe=["the previous content of the output path"],
     technique=AI + " of merge: must-precede rule between every explicit rejection and the first effect on the output",
     note="Every raise statement reached before work is submitted, on every path, for file and mapping outputs.")

prop("C10", "Merge options take effect as documented",
     "Each documented option of merge has its documented effect and documented default: inputs are cast to the merge device and dtype, results to the output device and dtype, the fallback supplies missing keys, ema keys are left out as omit_ema says (defaulting to omit_extra_keys), and the output goes to the given path (below the first model directory when relative) or mapping. An option passed to a Defaults object is used by its merge and convert unless the call overrides it.",
     ["configurations"], "every combination of given and omitted options",
     "Tests call merge with no options.",
     [MG, HP], [("option defaults and their forwarding", "merging.py merge; helpers.py Defaults")], observe=["the merged state dict"],
     technique=AI + " of merge and Defaults with distinct opaque values for every option (value-flow agreement)",
     note="Value-flow of every option from the entry point to the operation it controls; each option given, omitted or taken from Defaults.")

prop("C11", "Every operation on a recipe reaches every model in it",
     "Loading, closing, counting, searching, casting, serializing and evaluating a recipe reach every input of it, wherever the input occurs: positional argument, keyword argument, or value of a (nested) dictionary of recipes.",
     ["programs"], "every recipe shape",
     "Tests build two-node recipes with positional arguments only; recipe shapes are unbounded.",
     [MG, RN, SER], [("visitors over recipe nodes", "merging.py, recipe_nodes.py, serialization.py")], observe=["files opened and closed, serialized text, merged values"],
     technique=AI + " of every visitor class over one representative node per node kind with distinct children (structural induction)",
     note="Every RecipeVisitor subclass found in the tree; the induction step over the three node kinds, argument positions and dictionary nesting.")

prop("C12", "Merging never modifies shared state or the caller's objects",
     "Running merges leaves the registered model configs, merge methods, merge spaces and formats as they were, and does not modify the recipe's dictionaries and tensors or the argument lists given by the caller; repeating a merge gives the same keys.",
     ["histories", "configurations"], "every sequence of merges in one process, every option combination",
     "A second merge in the same process is needed to see a damaged registry; no test merges twice.",
     [MG, MC, HP], [("copies before modification", "merging.py merge, copy_extra_keys; model_configs.py caches")], state=[("model config caches", "shared key metadata of a config", MC)], observe=["keys of a later merge"],
     technique="effect analysis: ownership of every object mutated on any path of merge and of the per-key tasks, by " + AI,
     note="Every mutation event on every explored path is attributed to an object allocated by the call, a declared output, or a violation.")

prop("C13", "Merge methods never modify their inputs in place",
     "No registered merge method or conversion modifies the tensors or state dicts it receives, or values already stored in a node's cache; results may share memory with an input but are not written to after that.",
     ["inputs", "programs"], "every merge method, every branch, every argument",
     "A merge method is tested alone on fresh tensors; the damage shows in another branch of a recipe using the same literal tensor.",
     [BM, LY, BC], [("out-of-place tensor operations", "builtin merge methods and converters")], observe=["input tensors after a merge"],
     technique="effect and alias analysis: " + AI + " of merges of every registered method over abstract tensors with storage roots; every write to a storage or container is checked against the roots of inputs and caches",
     note="Every method with every option value class and representative shapes; views share the root of what they view, torch operations are modelled in tensorlib (which may alias, which write). Shapes and option values outside the classes are not covered.")

prop("C14", "Literal values survive serialization",
     "For every recipe accepted by serialize, deserializing the text yields the same literal values: strings with any characters (quotes, backslashes, '=', spaces, line breaks, leading '&', numeric look), integers, floats including non-finite ones, booleans, null, dictionary keys, file paths and merge-space and config names.",
     ["inputs"], "every literal value in every argument position",
     "The repository has no serialization test; strings are unbounded.",
     [SER], [("quoting, escaping and tokenizing", "serialization.py SerializerVisitor, deserialize")], observe=["deserialize(serialize(recipe))"],
     technique=AI + " of writer and reader as string transducers over a partition of characters (product exploration of per-character transitions)",
     note="The tokenizer is run on abstract strings: an arbitrary prefix state and one character per class derived from the characters the code distinguishes. Float text round-trip (repr) is trusted.")

prop("C15", "The graph of a recipe survives serialization",
     "Deserializing a serialized recipe yields a graph with the same merge methods, the same arguments at the same positions and names, the same models with their paths, configs and merge spaces, and the same dictionaries; the last line is the root.",
     ["programs"], "every recipe graph",
     "The repository has no serialization test; graph shapes are unbounded.",
     [SER], [("one instruction per node with back-references", "serialization.py SerializerVisitor")], observe=["deserialize(serialize(recipe))"],
     technique=AI + " of serialize then deserialize over representative graphs of every node kind, with every call into node constructors compared",
     note="Representative graphs cover each node kind as root, positional, keyword and dictionary value, shared sub-graphs and look-alike nodes; instruction indexes are concrete, node contents symbolic.")

prop("C16", "Reading recipes, configs or models never executes code from them",
     "Deserializing a recipe, loading a model config or reading a model file never evaluates code, imports modules or constructs arbitrary objects named by the data.",
     ["inputs"], "every content of every data file",
     "A test cannot enumerate hostile files.",
     [SER, MC, ST], [("safe YAML loader, json, explicit tokenizer", "model_configs.py from_yaml; streaming.py; serialization.py")], observe=["side effects of loading"],
     technique="who-may-call rule over the resolved call names of the package, with a positive control",
     note="Every call in the package is resolved through imports and aliases; unsafe loaders and evaluators are enumerated. Attribute lookup by data-controlled names is limited to a listed idiom.")

prop("C17", "Registered callbacks use the values of their own registration",
     "A merge method, converter or config property created in a loop or by a factory refers to the config or key it was created for, not to whatever a shared variable holds later.",
     ["programs"], "every function created in a loop anywhere in the package",
     "Only the last-registered instance behaves; tests use none.",
     [LY, MC, MG], [("factories and default-bound lambdas", "lycoris.py, model_configs.py, merging.py")], observe=["converted keys"],
     technique="scope analysis: free variables of escaping closures against loop-carried and reassigned bindings",
     note="All closures of the package; a closure that outlives an iteration must not capture a variable rebound by that loop.")

prop("C18", "Built-in conversions map every key of the target to the right source",
     "For every registered conversion, each key of the target config that the source config covers is computed from exactly the source keys that the naming of the two formats pairs with it (split, joined, transposed or reshaped as the target declares), with the declared shape, and keys the source does not cover raise the missing-key error. Two different target keys never come from the same part of the same source tensor, no source tensor is dropped and none is written to; a LoRA delta is alpha / rank times the product of its up and down weights in the shape of the base key.",
     ["inputs"], "every conversion and every key of its target config",
     "There are thousands of keys and 20 conversions; tests run none of them.",
     ["sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py", "sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py", "sd_mecha/extensions/builtin/model_configs/convert_sd1_kohya_to_original.py", "sd_mecha/extensions/builtin/model_configs/convert_flux.py", "sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py"],
     [("key rewriting functions", "extensions/builtin/model_configs/convert_*.py")], observe=["converted state dicts"],
     technique=AI + " of each converter with the target key fixed and tensors abstracted to symbolic values of the declared shape; shipped configs and an independent naming table as oracle",
     note="Exhaustive over all target keys of all registered conversions, block conversions included; LoRA conversions on layers of each kind and size relation. Whether the naming table matches files in the wild cannot be seen from this repository.")

prop("C19", "Built-in compositions are well typed in merge spaces",
     "Every recipe-building helper and operator (add_difference with and without a base, add_perpendicular, ties variants, copy_region, rotate, dropout, model stock, '+', '-', '|') builds, for each documented combination of weight and delta inputs, a recipe whose merge space is the documented one, uses every model and option it was given, and rejects undocumented combinations at construction.",
     ["inputs", "configurations"], "every helper, every combination of merge spaces and optional arguments",
     "Tests exercise two helpers with tensors, none with recipe nodes.",
     [WR, RN], [("composition of merge methods", "merge_method_wrappers.py, recipe_nodes.py")], observe=["merge_space of the recipe, its inputs"],
     technique=AI + " of each helper over merge-space-typed symbolic nodes (type inference over all input typings)",
     note="Exhaustive over merge-space typings of inputs (two/three models) and optional arguments.")

prop("C20", "Incompatible inputs are rejected when a recipe is built",
     "Combining inputs whose merge spaces violate a merge method's declaration (a space that is not allowed, or two parameters declared equal resolving differently) raises an error instead of producing a recipe node. Inputs whose model configs differ from each other or from the declared ones raise an error as soon as the node's model config is determined, before a merge computes or writes anything.",
     ["inputs"], "every assignment of merge spaces and configs to the parameters of any merge method",
     "Tests check a few signatures.",
     [MM, RN, MS], [("resolution of merge spaces and configs", "merge_methods.py MergeMethod.get_return_merge_space, get_return_config")], observe=["exception at construction", "exception when the model config is determined"],
     technique=AI + " of the two resolution functions over representative declarations and opaque spaces/configs, against a reference decision table",
     note="Exhaustive over declaration forms (set, singleton, symbol, shared symbol, default; positional, variadic, keyword) and input equality patterns.")

prop("C21", "Merge methods use each input in the form they declared",
     "A merge method parameter declared as a whole state dict is only used by looking up keys, as a mapping or through its model config; a parameter declared as tensor is never looked up by key; a literal parameter is used as the python value. Reading a state dict needs the requested key, which only methods accepting extra keyword arguments receive.",
     ["programs"], "every registered merge method, every branch",
     "Tests call merge methods with plain tensors, which hides the mismatch.",
     [BM, "sd_mecha/extensions/builtin/merge_methods/ema.py", LY], [("parameter annotations", "builtin merge methods")], observe=["exceptions while merging"],
     technique=AI + " of every registered method with arguments typed as declared; type errors on any path are reported",
     note="Every method is merged with inputs of the declared forms, every option value class and representative shapes; python, torch and numpy operations check the kinds they are given.")

prop("C22", "Seeded methods draw all randomness from their seed",
     "A merge method with a seed parameter draws every random number from a generator initialised from that seed and from nothing else, so that the same seed and inputs give the same result whatever other threads or earlier merges did; a None seed is random.",
     ["schedules", "histories"], "every branch of every method with a seed",
     "Re-running a test in one thread cannot show dependence on global generator state.",
     [BM], [("generator objects", "merge methods dropout, ties_sum_with_dropout")], observe=["merged tensors"],
     technique="value-flow: " + AI + " of merges of every seeded method, in which every random draw carries the generator and the seed it came from",
     note="Every draw on every path must come from a generator created in the same task and seeded by the parameter alone. Decides the source of randomness, not bitwise equality of floating point kernels.")

prop("C23", "Fallback, pick and omit select keys exactly as documented",
     "For every key, fallback returns the first input's value, and the second's only when the first is missing the key; picking a component yields exactly the keys of that component and omitting it exactly the others, both failing with an error for an unknown component name.",
     ["inputs"], "every key, component and presence pattern",
     "Tests run none of these methods.",
     [BM], [("merge methods fallback, pick_component, omit_component", "builtin merge methods")], observe=["keys and values of the merged dict"],
     technique=AI + " over presence/membership patterns, against the stated decision table",
     note="Exhaustive over presence and membership patterns of a symbolic key.")

prop("C24", "Shipped model configs are consistent",
     "Every shipped model config is registered under the identifier written inside it, its keys are unique across components, its dtypes are known, and no alias equals a key or an alias of another key.",
     ["configurations"], "every shipped config and every key in it",
     "There are more than ten thousand keys in ten files; tests read none.",
     [BC, MC], [("YAML config files", "sd_mecha/extensions/builtin/model_configs/*.yaml")], observe=["resolve(identifier)"],
     technique="syntactic analysis of the shipped YAML data together with the interpreted registration code",
     note="Exhaustive over shipped data; registration decided by interpreting the registering function.")

prop("C25", "Model configs survive to_yaml and from_yaml",
     "Converting any model config to YAML and back yields a config with the same identifier, components, keys, shapes, dtypes, aliases and optional flags.",
     ["inputs"], "every model config",
     "No test serializes a config.",
     [MC], [("field-driven serialization", "model_configs.py serialize, to_yaml, from_yaml")], observe=["from_yaml(to_yaml(config))"],
     technique=AI + " of serialize and of construction from the resulting tree, over symbolic identifiers, keys and metadata fields",
     note="The YAML text layer itself (PyYAML dump/load of plain trees) is trusted; every metadata field is symbolic, with all combinations of defaulted and given fields.")

prop("C26", "Registries reject duplicates and report unknown names",
     "Registering a model config, model format or merge space under an identifier that is already taken raises an error and leaves the registered one in place; resolving an unknown name raises ValueError and resolving a registered name returns what was registered.",
     ["histories"], "every sequence of registrations and lookups",
     "Tests register distinct names.",
     [MC, MF, MS, MM], [("registries", "model_configs.py, model_formats.py, merge_spaces.py, merge_methods.py")], observe=["resolve(name)"],
     technique=AI + " of register/resolve with symbolic identifiers on an arbitrary registry",
     note="Symbolic identifier against registries in an arbitrary state.")

prop("C27", "Linear merge methods satisfy their defining equations",
     "weighted_sum returns (1-alpha)*a + alpha*b, and exactly a or b at alpha 0 or 1; n_average the mean; subtract a-b; add_difference a + alpha*b, so that adding back a full difference restores the model; the three-model helper builds a + alpha*(b-c), and model-relative helpers add their delta to the base they were given.",
     ["inputs"], "every input tensor and alpha",
     "Tests sample other methods at a few values; the equations hold for all reals.",
     [BM, WR], [("merge method bodies", "builtin merge methods, wrappers")], observe=["merged tensors"],
     technique=AI + " into polynomial normal form over uninterpreted tensors, compared with the defining polynomial",
     note="Exact over the reals; rounding is out of scope.")

prop("C28", "convert builds an existing chain of conversions or raises",
     "convert returns a recipe whose successive conversions lead from the input's config to the requested config, applied in order to the given recipe, using a shortest chain; if there is none, or a config is unknown, it raises ValueError; if the input is already in the requested config it is returned as is.",
     ["inputs", "configurations"], "every conversion graph and every pair of configs",
     "Tests never call convert.",
     [CV], [("shortest path over registered conversions", "conversion.py convert, dijkstra")], observe=["the returned recipe"],
     technique=AI + " of convert over all small conversion graphs (exhaustive up to isomorphism) and the shipped graph, against reachability",
     note="Graphs with up to four configs exhaustively plus the registered graph; edges are opaque converters, so the path is decided by graph shape only.")

prop("C29", "Keys are found under their aliases and missing keys are named",
     "Reading a key of a model or an in-memory state dict yields the value stored under the key itself or else under the first of its aliases that is present; if none is present the library's missing-key error naming the requested key is raised, and never a different exception.",
     ["inputs"], "every key, every alias list, every presence pattern, files and in-memory dicts",
     "Only one shipped config has aliases; tests read none.",
     [MG, ST], [("alias lookup", "merging.py KeyMergeVisitor; streaming.py InSafetensorsDict")], observe=["merged values, exceptions"],
     technique=AI + " of key evaluation over presence patterns of a key and its aliases",
     note="Exhaustive over presence patterns for zero to three aliases and both container kinds.")

prop("C30", "Calling a merge method binds arguments like a Python call",
     "Calling a merge method binds positional, keyword, default and variadic arguments exactly as calling the decorated Python function would, and rejects missing, unknown and duplicate arguments; evaluating the node passes each bound value to the parameter it was bound to.",
     ["inputs", "programs"], "every signature form and every way to pass its arguments",
     "Tests pass positional arguments to a few signatures.",
     [MM, MG], [("argument binding", "merge_methods.py MergeMethod.create_recipe; merging.py KeyMergeVisitor")], observe=["arguments seen by the merge function"],
     technique=AI + " of recipe construction and evaluation over an exhaustive family of signatures and call shapes, against Python's binding rules",
     note="Exhaustive over signatures with up to two positional parameters (with/without default), varargs, keyword-only, and all call shapes up to three positional and two keyword arguments.")

prop("C31", "Mandatory keys are enforced and extra keys only reported",
     "With the mandatory-key check on, a model is rejected exactly when some key of its config that is not optional is present neither under its own name nor under an alias; with it off a model is never rejected for missing keys. Keys outside the config are reported but never cause a rejection.",
     ["inputs"], "every presence pattern of keys and aliases, optional or not",
     "Tests never load a model.",
     [MG], [("key check at load time", "merging.py check_model_config, LoadInputDictsVisitor")], observe=["exceptions while loading"],
     technique=AI + " of loading over presence patterns of keys and aliases, against the stated decision",
     note="Exhaustive over presence patterns of a mandatory and an optional key with aliases, for files and in-memory dicts.")

prop("C32", "Keys are computed independently of each other",
     "Computing one key of a merge never changes the result of another key: tasks share no state other than the output, progress reporting, the inputs and caches, whose entries are only added, never changed.",
     ["schedules"], "every interleaving of the tasks of one merge",
     "Schedules are unbounded; tests run one key at a time.",
     [MG, BM], [("per-key visitors and per-call locals", "merging.py KeyMergeVisitor; builtin merge methods")], observe=["merged values for any thread count"],
     technique="effect analysis and non-interference: " + AI + " of merges of every method over two keys in both orders, with cold and warm caches; writes to objects shared by tasks are enumerated, and the symbolic results are compared",
     note="Two keys, both orders, every method and option class; objects written by two tasks must be the output, the progress or a cache. Interleavings within one task are covered by the enumeration of shared writes, not explored.")

prop("C33", "Extra keys are forwarded only when asked for",
     "Keys of an input that its config does not define are never written to the output unless omit_extra_keys is false; when it is false, every such key of an input model that has the same config and merge space as the result is present in the output with the value the recipe gives it or, where the recipe lacks it, that of the first such input that has it, and a key stored under an alias appears once under its canonical name.",
     ["inputs", "configurations"], "every set of extra keys in every input",
     "Tests never merge models with extra keys.",
     [MG], [("forwardable inputs appended as fallbacks", "merging.py copy_extra_keys, ForwardableNodesVisitor")], observe=["keys of the merged dict"],
     technique=AI + " of merge over membership patterns of keys in inputs and config",
     note="Representative inputs: target config, other config, other merge space, aliases.")

prop("C34", "LoRA keys are named alike by config and converter",
     "For every base config and every key of it that a LoRA can adapt, the keys the LoRA conversion reads are exactly the keys the LoRA config declares for that base key (its name without '.weight', dots turned to underscores, after the prefix), and different base keys never share a LoRA key; keys that cannot be adapted are reported missing.",
     ["inputs"], "every base config and each of its keys",
     "Tests never load a LoRA.",
     [LY], [("one naming function for config and converter", "lycoris.py")], observe=["converted LoRA deltas"],
     technique=AI + " of config creation and conversion per base key; set agreement of the two key families",
     note="Exhaustive over shipped base configs and keys.")

prop("C35", "Options of merge methods mean what they are documented to mean",
     "At the ends of an option's range a method gives one of its inputs or what it degenerates to (slerp, geometric_sum, crossover, rotate, tensor_sum, truncate_rank, select_max_delta, dropout and ties_sum_with_dropout at 0 and 1), tensor_sum takes exactly the rows of its wrapping region from the second model, and rotate moves the centroid of the neurons by alignment. ties_sum averages, element by element, the top k fraction of each delta that has the elected sign, and the switches vote_sgn, apply_stock, apply_median, no_rescale and rescale select exactly the variant they name, with the eps, maxiter and seed given. Difference masks, add_cosine, select_max_delta, model_stock and geometric_median steps compute their formula, in which alpha enters as documented.",
     ["inputs", "configurations"], "every tensor, option value class and number of models",
     "Tests sample the default options of a few methods on small fixed tensors.",
     [BM, WR], [("option handling", "builtin merge methods")], observe=["merged tensors"],
     technique=AI + " of merges of each method over symbolic tensors into polynomial normal form, compared with the input, the other merge or the reference formula that the option values are documented to select",
     note="Option values are representatives of each class; exact over the reals, up to the treatment of values that are not numbers; rounding is out of scope. vote_sgn selects the opposite of what the comments say: a known finding, because a stable test requires it.")

prop("C36", "Merge methods accept tensors of every shape and keep it",
     "For every option value in its documented range and tensors of every shape that occurs in models (scalars, vectors, matrices, convolutions, single elements), every built-in merge method returns a tensor of the same shape as its inputs and raises no error.",
     ["inputs", "configurations"], "every method, option value class and tensor shape",
     "Tests use matrices and vectors with the default options.",
     [BM, "sd_mecha/extensions/builtin/merge_methods/svd.py"], [("reshaping, broadcasting and reductions", "builtin merge methods")], observe=["shape of merged tensors, exceptions"],
     technique=AI + " of merges of every method over abstract tensors of concrete shape and symbolic contents; torch operations check shapes and raise as torch does",
     note="Representative shapes of every rank and degenerate size, every option value class and pairs of them; numerical failures inside decompositions are out of scope.")

prop("C37", "Merge methods obey the laws of the operation they are named for",
     "Merging copies of one model with a method that interpolates, averages, selects, clamps, rotates, or combines deltas of which nothing is dropped, gives that model back for every option value; differences and difference masks are zero where there is no difference; the perpendicular component is the second model less its projection on the first; averages, medians and ties votes do not depend on the order of the models, and negating every delta negates them; weighted_sum, slerp and geometric_sum of (b, a, 1 - alpha) equal those of (a, b, alpha); clamp gives the nearest value within its bounds.",
     ["inputs", "configurations"], "every tensor, option value class and number of models",
     "The laws quantify over all tensors; tests compare a few fixed matrices for two methods.",
     [BM], [("the formulas of the methods", "builtin merge methods")], observe=["merged tensors"],
     technique=AI + " of merges of each method over symbolic tensors into polynomial normal form; both sides of a law are merged in the same trace and compared, maxima and minima in the free distributive lattice",
     note="Two to five models, representative shapes and option values; exact over the reals, rounding is out of scope.")

prop("C40", "Iterative and spectral methods reach their numerical optimum",
     "geometric_median converges to the geometric median, rotate yields an orthogonal alignment, truncate_rank the best low-rank approximation, slerp constant angular speed.",
     ["inputs"], "all tensors",
     "Numerical behaviour over all reals.",
     [BM], [("iterations and decompositions", "builtin merge methods")],
     na="quantifies over floating-point results of iterations and decompositions; no structural necessary condition short of the result itself, and a static proxy would freeze the implementation text")
prop("C41", "Memory stays within the configured buffer budget",
     "A merge streams keys so that its peak memory is bounded by the configured total buffer size plus the tensors being merged.",
     ["inputs", "schedules"], "all models, thread counts, buffer sizes",
     "Peak memory is not observed by tests.",
     [MG, ST], [("buffer division among files and threads", "merging.py merge")],
     na="peak memory depends on allocator, tensor sizes and method internals at run time; the only static part, dividing the budget, is not a necessary condition that fails observably")
prop("C42", "Config inference picks the architecture a human would",
     "Given the keys of a model file, the inferred config is the architecture the model belongs to.",
     ["inputs"], "all key sets",
     "Heuristic thresholds.",
     [MG], [("key affinity heuristic", "merging.py infer_model_configs")],
     na="the specification is a heuristic (share of matching keys); whether a guess is right is not determined by the source")
prop("C43", "Merging is bitwise deterministic across thread counts",
     "The same recipe gives bit-identical results for every thread count.",
     ["schedules"], "all thread counts",
     "Depends on kernels.",
     [MG], [("per-key tasks", "merging.py merge")],
     na="bitwise equality depends on torch kernels and their internal threading; the structural part, independence of tasks, is claimed as C32")
prop("C44", "A killed merge leaves no file that looks complete",
     "If the process dies while merging to a file, what is left at the output path is not accepted as a complete model.",
     ["crash_points"], "every point of a merge",
     "No test kills a merge.",
     [ST], [("index written last", "streaming.py OutSafetensorsDict.close")],
     na="the library makes no such promise (it writes in place, and the ordering of cached writes at a crash is up to the operating system); a static order rule on write calls would not decide it")


def main():
    with open(V / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif (V / "sa" / "checks" / f"{p['id'].lower()}.py").exists():
            cmd = f"python3-vt sa/run.py {p['id']}"
            src = (V / "sa" / "checks" / f"{p['id'].lower()}.py").read_text()
            p["level"] = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=f"VERIF_TIER=thorough {cmd}", technique=p["technique"], level=p["level"],
                               level_note=p["note"], evidence_file=f"evidence/{p['id']}.json"))
        else:
            na.append(dict(property=p["id"], reason="no check built (yet)"))
    json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
                   notes="Static analysis only: the checks read /repo's current source files and never import, compile or run them."),
              open(V / "MANIFEST.json", "w"), indent=1, ensure_ascii=False)


main()
