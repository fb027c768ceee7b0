NA = []
prop("C01", "Generated C code computes what each operator of the model means",
     "For every supported operator, with every admissible combination of attributes, operand shapes and constants, the C program generated from a model computes on every input the value the model format defines for it, up to floating-point rounding. "
     "This includes padding, strides, dilation, broadcasting, negative axes and indices, optional operands and a following activation function.",
     ["inputs", "programs"], "for every supported operator, attribute combination, operand shape, constant and input tensor",
     "Unit tests run a handful of shapes per operator with one random seed, mostly with default attributes, and compare against the Python reference of the same tool or a framework output within tolerance.",
     ["generator/layers", "templates/layers", "importers/ONNX_importer/create_layer.py", "generator/activation_functions.py"],
     [("per-layer code templates", "templates/layers"), ("layer constructors translating model attributes", "importers/ONNX_importer/create_layer.py"),
      ("activation expressions", "generator/activation_functions.py")],
     observe=["output file of the compiled program"],
     note="Bounded: tensors of at most a few hundred elements, values exact or with a derived rounding bound; trusts gcc, TLC and the semantics written in spec/Ops.tla (cross-checked with onnxruntime during development).")
prop("C02", "The Python reference computes what each operator of the model means",
     "For every supported operator, with every admissible combination of attributes, operand shapes and constants, the reference inference run in Python computes on every input the value the model format defines for it, up to floating-point rounding.",
     ["inputs", "programs"], "for every supported operator, attribute combination, operand shape, constant and input tensor, including large magnitudes",
     "The Python reference is itself the oracle of most tests, so a shared mistake goes unseen, and inputs are small positive random values.",
     ["generator/layers", "generator/activation_functions.py", "generator/neural_network.py"],
     [("forward computation of each layer", "generator/layers"), ("activation functions", "generator/activation_functions.py"),
      ("reference inference", "generator/neural_network.py:compute_inference")],
     observe=["output_python.txt"],
     note="Same specification and bounds as C01, other observation channel.")
prop("C03", "A whole network computes the same function from model file to C program",
     "For every network built from supported operators, with branches, tensors read by several layers, constants and layers without run-time effect, the compiled C program and the Python reference both output, for every test input, the value of the model given; what a verbose program prints and what the reference returns are the values of their output files.",
     ["programs", "inputs"], "for every acyclic network of supported operators and every input",
     "The tests run about ten fixed networks, nearly all of them chains or with one residual branch, each on one seed.",
     ["generator/neural_network.py", "graph/graph_interpretor.py", "importers/ONNX_importer/parser_ONNX.py", "ir/layer.py"],
     [("graph import and linking", "importers/ONNX_importer/parser_ONNX.py"), ("scheduling and buffer assignment", "graph/graph_interpretor.py"),
      ("emission of the layer sequence", "generator/neural_network.py:generate_function_source_file")],
     observe=["output file of the compiled program", "output_python.txt"],
     note="Random networks of 3 to about 20 layers; trusts gcc, TLC and spec/Ops.tla.")
prop("C06", "Optimisation of the network preserves the function it computes",
     "When optimisation is enabled, for every network and input, the C program and the Python reference still output the value of the model given, whatever layers are fused and wherever the fused layers stand in the graph.",
     ["programs", "inputs"], "for every acyclic network of supported operators and every input, with optimisation enabled",
     "Each rewrite is tested on one network where it applies in isolation; interactions with branches, shared tensors, buffer indices and other rewrites are not sampled.",
     ["pattern_matching", "generator/neural_network.py"],
     [("rewrite driver", "pattern_matching/PatternMatcher.py"), ("fusions", "pattern_matching/patterns"), ("index and link updates", "pattern_matching/Pattern.py")],
     observe=["output file of the compiled program", "output_python.txt"],
     technique="TLA+ specification of the rewrites model-checked with TLC over every small network and order (the term computed never changes); its networks, chains of the layers concerned and random networks run with optimisation and judged with TLC by the TLA+ network semantics",
     note="The oracle is the meaning of the unoptimised model; networks of 3 layers all, of 4 sampled, larger ones random.")
prop("C04", "Every layer finds its operands intact and every tensor fits its slot",
     "When the layers are executed in the emitted order, every layer reads each of its operands from a slot that still holds that operand's value: no live tensor is overwritten by a layer executed in between, including tensors read by several layers, read twice by one layer, or kept aside for a later branch. "
     "Every slot is at least as large as each tensor placed in it.",
     ["programs", "histories"], "for every acyclic network of supported layers, whatever its branches, listing order and tensor sizes",
     "Whether a slot is overwritten depends on the interplay of branching, listing order, in-place layers and slot reuse; the tests contain a handful of topologies.",
     ["graph/graph_interpretor.py", "generator/neural_network.py", "ir/layer.py"],
     [("slot assignment and release", "graph/graph_interpretor.py:tri_topo"), ("slot sizes", "graph/graph_interpretor.py:get_max_paths"),
      ("second slot of tensors kept aside", "graph/graph_interpretor.py:to_save")],
     observe=["generated inference.c", "slots of the layers of a CodeGenerator"],
     technique="TLA+ specification of storage assignment model-checked with TLC over all small networks; real schedules and slot assignments replayed on it; real runs judged by the network semantics",
     note="Design: every network of up to 4 (quick) or 5 (thorough) layers. Binding: every small network of the same size and random larger ones, generated by the real tool.")
prop("C05", "Any listing of a network is scheduled soundly and gives the same function",
     "Whatever the order in which a model file lists the nodes of a network, and whatever nodes that do not lead to the output it contains, each needed layer is executed exactly once, after all the layers it reads, and the program computes the function of the network.",
     ["schedules", "programs"], "for every acyclic network and every listing order of its nodes",
     "Test models list their nodes in the one order their exporter chose.",
     ["graph/graph_interpretor.py", "importers/ONNX_importer/parser_ONNX.py"],
     [("topological sort", "graph/graph_interpretor.py:tri_topo"), ("selection and linking of the nodes", "importers/ONNX_importer/parser_ONNX.py")],
     observe=["generated inference.c", "output file of the compiled program"],
     technique="TLA+ specification of the scheduling algorithm model-checked with TLC over all small graphs; real schedules replayed on the storage specification; real runs judged by the network semantics",
     note="Design: every acyclic graph of 4 (quick) or 5 (thorough) nodes with every listing; binding by relisted random networks, with and without dead nodes.")
prop("C07", "Selecting implementations changes exactly what was selected, never the result",
     "Whatever registered implementation is selected for a layer, by type or by index, singly or in any combination, the program still computes the function of the network. "
     "Exactly the layers selected use the implementation selected and all others their default.",
     ["programs", "configurations"], "for every network, every combination of selections of registered implementations and every input",
     "The tests select one implementation for all layers of one network and compare two runs of the tool.",
     ["versioning", "generator/neural_network.py", "generator/layers/Conv2D", "templates/layers/Conv"],
     [("selection of implementations", "versioning/versioning.py"), ("factories of the layer types", "versioning/layer_factories.py"),
      ("implementations of Conv2D", "generator/layers/Conv2D")],
     observe=["output file of the compiled program", "layers of a CodeGenerator", "generated inference.c"],
     technique="TLA+ specification of implementation selection, against which real selections are checked with TLC; real runs under random selections judged by the network semantics",
     note="Gemm and loop implementations of convolutions; the blocked channels-last ones are covered by C08.")
prop("C08", "Tensors are read in the order in which they were written",
     "Whether code is generated for channels first or last, whatever the implementations selected and the order of the model's data, the program computes the function of the network. "
     "A combination in which a layer would take the values of a tensor for others, because its implementation is written for the other order, is refused at generation.",
     ["programs", "configurations"], "for every network, order of the generated code, selection of implementations of either order and input",
     "The tests generate two fixed chains of convolutions channels last; no other layer, size or combination is sampled.",
     ["generator/neural_network.py", "generator/layers/convolution", "generator/layers/pooling", "generator/layers/input", "templates/layers", "templates/memory_layout"],
     [("conversion of inputs and outputs", "templates/memory_layout"), ("blocked channels-last convolutions", "generator/layers/convolution/Conv2Ddirect_block.py"),
      ("channels-last pooling", "templates/layers/template_Pooling2D_HWC.c.tpl")],
     observe=["output file of the compiled program", "acceptance or refusal of the generation"],
     technique="TLA+ specification of tensor orders and of the acceptance rule, model-checked with TLC over all small networks; real acceptances replayed on it; real runs judged by the network semantics",
     note="Design: every network of up to 3 (quick) or 4 (thorough) layers. Binding: random networks with mixed implementations, text and binary parameters.")
prop("C09", "An inference depends on its input only, whatever runs before or meanwhile",
     "A call of the inference answers the value of the model for its input, writes only to its context and its result and leaves the input unchanged, whatever the context contained before, whatever inferences ran before in this context, and whatever inferences run at the same time in other contexts. "
     "The generated program computes every sample of a dataset of any size exactly once, in a context used by no other sample at that time, and answers each in its own line.",
     ["histories", "schedules", "inputs"], "for every network, every history of calls in any threads, and every dataset size",
     "The tests run a few samples once, in fresh contexts and mostly without threads; a leftover of a former call or a shared scratch only shows in particular histories.",
     ["templates/template_main_file.c.tpl", "templates/template_header_file.c.tpl", "templates/template_source_file.c.tpl", "templates/layers", "generator/neural_network.py"],
     [("batches of the main program", "templates/template_main_file.c.tpl"), ("context of an inference", "templates/template_header_file.c.tpl"),
      ("buffers of the layers", "templates/layers")],
     observe=["answers of the compiled inference under histories of calls", "calls of the inference by the compiled program"],
     technique="TLA+ specification of the batched concurrent execution model-checked with TLC; recorded executions replayed on it; answers of call histories judged by the network semantics",
     note="Design: datasets up to 5 (quick) or 6 (thorough) samples with batches of 2. Binding: real batches of 32 with threads on up to 140 samples; scheduling of threads is sampled, not controlled.")
prop("C10", "The inference stays within its memory and reads only what it computed",
     "For every network, options and input, the generated inference reads and writes only within its parameters, its input, its output and its context, each of the declared size. "
     "Every value it uses was computed by the same call or is a parameter, so that nothing left in the memory can reach the output.",
     ["programs", "inputs"], "for every network of supported operators, implementation and option",
     "An access one element outside of a buffer, or of a value of a previous call, most often leaves the outputs of a test unchanged.",
     ["templates/layers", "templates/template_header_file.c.tpl", "generator/neural_network.py", "generator/layers"],
     [("loops over the tensors", "templates/layers"), ("sizes of the buffers", "generator/neural_network.py")],
     observe=["compiled inference with instrumented memory accesses", "answers in contexts filled with invalid values"],
     technique="Call behaviours over the TLA+ network semantics replayed on instrumented code: exact-size buffers, contexts filled with invalid values, every answer judged with TLC",
     note="Random operators and networks; memory bounds observed by gcc's address and undefined-behaviour instrumentation, values by the specification.")
prop("C11", "Parameters, constants and test inputs reach the program bit for bit",
     "Every weight, bias, constant attribute and test input has in the generated program and in the Python reference exactly the value, to the last bit, that the model and the data give it, whatever carries it: hexadecimal or decimal text, binary files, an array or a text file given by the user, or a file read at run time. "
     "This includes the largest and the smallest numbers, infinities, NaN and the sign of zero, in single and double precision, and the number and the order of the samples.",
     ["inputs", "configurations"], "for every value of each element type and every form of the data",
     "Tests compare outputs of random small weights with a tolerance, in the default form only; digits lost in writing or a sample read twice do not show.",
     ["generator/neural_network.py", "templates/template_parameter_file.c.tpl", "templates/template_main_file.c.tpl", "templates/template_test_dataset_source.c.tpl", "generator/layers"],
     [("writing of numbers", "generator/neural_network.py:data2c"), ("test datasets", "generator/neural_network.py:_initialise_dataset"),
      ("reading at run time", "templates/template_main_file.c.tpl")],
     observe=["output file of the compiled program", "output_python.txt"],
     technique="TLA+ specification of networks that only move values (opaque bit patterns); recorded outputs of the real programs trace-checked with TLC",
     note="Random networks of value-preserving operators and neutral products; trusts the C library's reading of hexadecimal constants.")

prop("C12", "A network means the same whichever model format it is read from",
     "A network given as an NNET text (with or without normalization), as a JSON description of a Keras model or as an exported PyTorch program computes, in the Python reference and in the generated program, exactly the function that format defines for it: kernel and tensor layouts, paddings, strides, axes, operand order, activations, batch normalization, branches, in-place operations, layers without effect and value type included. "
     "What an importer doesn't support it refuses at import; it never computes something else.",
     ["programs", "inputs", "configurations"], "for every network each format can express with the layers ACETONE supports",
     "Tests import a handful of models and mostly compare ACETONE with itself; a transposed kernel or a default stride read wrongly shows only on other models.",
     ["importers/NNET_importer/parser_NNET.py", "importers/NNET_importer/nnet_normalize.py", "importers/JSON_importer/parser_JSON.py", "importers/PYTORCH_importer/parse_pytorch.py"],
     [("NNET", "importers/NNET_importer/parser_NNET.py:load_nnet"), ("Keras JSON", "importers/JSON_importer/parser_JSON.py:load_json"),
      ("PyTorch", "importers/PYTORCH_importer/parse_pytorch.py:load_pytorch"), ("normalization", "templates/normalization")],
     observe=["output_python.txt", "output file of the compiled program"],
     technique="TLA+ denotational machine of networks; runs of the real importers on random networks written in each format trace-checked with TLC",
     note="Keras .h5 reading is disabled by the code for this Python version. The expectation for PyTorch modules is cross-checked with PyTorch itself.")

prop("C13", "A generation overwrites nothing and depends on its inputs only",
     "Generating writes exactly the files the options and the user's own generation functions define, into the directory given, and touches no other; if any of them already exists the whole generation is refused and the directory stays as it was. "
     "The content of every file, and the result of the Python reference, is a function of the model, the data and the options only: however often, in whatever order and in whichever process generators are created, reused for inference and reused for generation, every byte is the same and no object of the caller (model, data, options) changes. What is generated builds with its own Makefile.",
     ["histories", "configurations"], "for every history of generators, directories and files",
     "Tests generate once, into an empty directory, from a fresh generator.",
     ["generator/neural_network.py", "templates/template_makefile.tpl", "templates/template_makefile.py"],
     [("files of a generation", "generator/neural_network.py:select_generation_functions"), ("refusal", "generator/neural_network.py:generate_c_files"),
      ("Makefile", "generator/neural_network.py:generate_makefile"), ("reference", "generator/neural_network.py:compute_inference")],
     observe=["listing and digests of the directories after every action", "digests of the caller's objects", "outcome of every call"],
     technique="TLA+ model of the histories, checked with TLC; behaviours generated by TLC replayed with real generators in several processes, recordings trace-checked with TLC",
     note="In debug mode the generated code names its directory; that mode is left to C14.")

prop("C14", "Debug mode shows every intermediate value, named and exact",
     "In debug mode the compiled program and the Python reference show, for each layer that computes something and in the same order, the name and index of the layer and the values the model defines for it, in the layout of the model, whatever the implementations, the storage order and the fusions; the outputs stay those of the network. "
     "Choosing layers by index or by tensor name gives the values of exactly those layers, and the comparison with a reference succeeds on equal values, fails on a changed or missing one, and names the layers that differ, the first of them and how many. "
     "A program timing its layers shows the time of each layer that computes, in their order, and their sum.",
     ["programs", "inputs", "configurations"], "for every network, input, implementation choice and storage order",
     "Tests compare the debug values of one small chain, where layouts, two-digit indices, branches and ignored layers don't show.",
     ["generator/neural_network.py", "templates/template_source_file.c.tpl", "debug/debug_tools.py", "debug/debug_onnx.py"],
     [("values of the program", "templates/template_source_file.c.tpl"), ("values of the reference", "generator/neural_network.py:compute_inference"),
      ("choice and comparison", "debug/debug_tools.py"), ("reference values of ONNX models", "debug/debug_onnx.py")],
     observe=["debug_file.txt", "debug result of compute_inference", "verdicts of compare_result"],
     technique="TLA+ denotational machine of networks, every value of which is observed: debug recordings of real runs trace-checked with TLC against each evaluated node",
     note="One sample per run, the debug file being rewritten by every inference. debug_keras needs an older Keras; the mode 'time' runs on a stand-in of the hardware counters.")


prop("C15", "What is not implemented is refused at import, never computed as something else",
     "A model may contain anything its format allows: operators, layers, attributes, attribute values, operand forms, ranks, batches, element types, opsets, domains or outputs beyond the list ACETONE implements. "
     "Importing such a model either fails with an error, or the Python reference and the generated program compute exactly what the format defines for it; no construct is ignored, given a default or replaced by a similar one; the constructs ACETONE supports are accepted. This holds for ONNX, Keras JSON and PyTorch models alike.",
     ["programs", "inputs"], "for every model of each format, implemented or not",
     "A test of an unimplemented construct has to be thought of one by one, and ignoring an attribute leaves all the tests of the implemented forms green.",
     ["importers/ONNX_importer/parser_ONNX.py", "importers/ONNX_importer/create_layer.py", "importers/JSON_importer/parser_JSON.py", "importers/PYTORCH_importer/parse_pytorch.py", "generator/layers"],
     [("operators and attributes", "importers/ONNX_importer/create_layer.py"), ("selection of nodes", "importers/ONNX_importer/parser_ONNX.py:load_onnx"),
      ("layers and attributes", "importers/JSON_importer/parser_JSON.py:load_json"), ("operations", "importers/PYTORCH_importer/parse_pytorch.py:ShapeAwareVisitor")],
     observe=["exceptions of the import", "output_python.txt", "output file of the compiled program"],
     technique="TLA+ denotational machine of networks extended with operators ACETONE lacks (OpsExt); recorded imports and runs trace-checked with TLC: refusal, or the specified value",
     note="About 145 families of constructs with random parameters; known finding: LRN is read and ignored.")

prop("C16", "What does not belong to the function of a model does not change it",
     "Names of nodes, tensors and graphs (absent, equal, or any text), documentation strings, a free batch dimension, further outputs, inputs nothing reads, nodes the output does not need, constants given as initializers, inputs or nodes in any encoding, shape annotations present or absent, a file or an object: none of these changes whether a model is accepted, nor the code's validity, nor one computed value. "
     "Importing leaves the caller's model object unchanged.",
     ["programs", "configurations"], "for every model and every form of it which leaves its function unchanged",
     "Tests read models written by one exporter with tame names, so that a name ending in a comment mark or a second output is never met.",
     ["importers/ONNX_importer/parser_ONNX.py", "importers/ONNX_importer/create_layer.py", "generator/neural_network.py", "templates"],
     [("reading of the graph", "importers/ONNX_importer/parser_ONNX.py:load_onnx"), ("outputs and inputs", "importers/ONNX_importer/parser_ONNX.py:select_nodes"),
      ("names in the code", "templates/layers")],
     observe=["exceptions of the import", "build of the generated code", "outputs of both", "bytes of the caller's model"],
     technique="TLA+ denotational machine of networks; runs of the real tool chain on equivalent forms of random models trace-checked with TLC",
     note="ONNX models; the forms are composed at random.")


prop("C17", "A quantized network computes in the fixed point of its description",
     "For every network of matrix products and additions quantized by a target description (with rectifiers, transpositions, reshapes and concatenations between them), the Python reference and the generated program both output exactly the stored integers fixed-point arithmetic defines: parameters rounded to the nearest value of their format, products accumulated without loss and shifted to the format of the result, results stored in the integer type of the tensors. "
     "This holds with and without optimisation, whichever way parameters and inputs are stored; a description that leaves a parameter or a product without a readable format is refused.",
     ["programs", "inputs", "configurations"], "for every network of these layers, every description and every input whose accumulators fit their type",
     "One network with one description is tested, on positive inputs and within a tolerance.",
     ["generator/neural_network.py", "quantize", "generator/layers/matmul/MatMul.py", "generator/layers/broadcast/add/Add.py", "templates/layers/template_MatMul.c.tpl"],
     [("rounding of the parameters", "generator/neural_network.py:quantize_layers"), ("rescaling", "quantize/activation.py"), ("formats", "quantize/qform.py")],
     observe=["output_python.txt", "output file of the compiled program", "exceptions of the generation"],
     technique="TLA+ specification of fixed-point evaluation: error bounds model-checked with TLC on all small formats; recorded quantized runs trace-checked with TLC, integer for integer",
     note="Integer types of 8, 16 and 32 bits; accumulators within their type. The second target's code is assembly for another processor; layers the description cannot rescale (dense, convolution) are outside.")
prop("C18", "The command line generates what the library does with the settings it spells",
     "For every command line, acetone_generate reads the options (in any order, shortened, repeated, with the value in the same word or in the next one) as one set of settings, with the documented defaults for those it does not mention, "
     "and leaves in the output directory exactly the files and the reference output which the library produces with these settings. A command line which means nothing (unknown, ambiguous or stray words, missing or malformed values, required options left out) is refused with an error and generates nothing.",
     ["inputs", "configurations"], "for every sequence of words, model format and dataset",
     "The tests call the function behind the command with a few settings; no test passes words through the parser, and options with boolean words were never tried.",
     ["cli/generate.py", "generator/neural_network.py"],
     [("options", "cli/generate.py:acetone_generate"), ("settings of the generation", "cli/generate.py:cli_acetone")],
     observe=["exit of the command", "files in the output directory", "files generated by the library with the same settings"],
     technique="TLA+ specification of the reading of command lines model-checked with TLC; recorded runs trace-checked word by word, against library runs with the settings the specification reads",
     note="The command runs in the process of the check (the entry point, not the installed script).")
prop("C19", "The comparison tool finds every difference between two result files",
     "For every two result files and number of inferences, in any of the notations the programs write (hexadecimal, decimal, integers, infinities, NaN), the comparison considers exactly the values of the first inferences of both, and reports the largest absolute and the largest relative difference, and agreement only if all these values agree. "
     "Files that hold fewer inferences, or inferences with other numbers of values, or unreadable ones, are refused and never reported as equal.",
     ["inputs"], "for every pair of files and every number of inferences",
     "No test runs the tool: it silently ignored missing values and lines, read decimal values as hexadecimal and forgot NaN.",
     ["cli/compare.py"],
     [("values", "cli/compare.py:preprocess_line"), ("inferences", "cli/compare.py:compare_lines"), ("files", "cli/compare.py:compare_files")],
     observe=["verdict and differences returned", "differences printed", "exit of the command"],
     technique="TLA+ specification of the comparison model-checked with TLC on all small files; recorded comparisons trace-checked with TLC",
     note="Values are integers times a unit, differences checked up to the rounding of a float; two NaN at the same place may be judged either way.")
prop("C20", "The shared library computes batches and hands out its parameters",
     "For every network, the shared library built next to the program answers, for a batch of any size, the value of the model for each of its rows in order, and writes nothing beyond them; it saves all the parameters, each once and bit for bit, in the order they are declared, and answers how many bytes it wrote; each array of parameters starts at a multiple of the page size asked for. "
     "Replacing the parameters makes the given ones those that are saved and computed with. The order of the calls does not matter.",
     ["histories", "inputs", "programs"], "for every network, batch size and history of calls",
     "The library is built by no test; its entry points are never called.",
     ["templates/template_train_hook_file.c.tpl", "generator/neural_network.py", "templates/template_makefile.tpl"],
     [("list of the parameters", "generator/neural_network.py:generate_train_hook_file"), ("batches, saving and replacing", "templates/template_train_hook_file.c.tpl")],
     observe=["answers of the batches", "files of saved parameters", "parameters in memory"],
     technique="TLA+ specification of the hooks as a state machine over the parameters; recorded histories of the real library trace-checked with TLC; rows judged by the network semantics",
     note="Replacing fails in every network with parameters (they are constants): known finding copy:failed.")
prop("C21", "The Makefile builds the generated files, as configured, and stays up to date",
     "For every configuration, the Makefile of a generation compiles each of its sources once, and nothing else, with the compiler and the flags asked for: those of the caller where he gives them, the defaults where he does not, followed by those of the target description, whose compiler prevails; it links the program of all the sources and the library of its parts, the libraries last. "
     "After any history of edits of sources, headers and binary data, removals of products, builds of any goal and cleanings, the products of the goal built are made of the current files, a build without a change makes nothing, cleaning leaves no product, and no build touches a file of the generation or an object of the caller.",
     ["histories", "configurations"], "for every configuration and every history of edits and builds",
     "The tests build each directory once, with the default properties.",
     ["templates/template_makefile.tpl", "templates/template_makefile.py", "generator/neural_network.py"],
     [("rules", "templates/template_makefile.tpl"), ("properties", "generator/neural_network.py:_get_makefile_properties"), ("sources and flags", "generator/neural_network.py:generate_makefile")],
     observe=["calls of the compiler, the linker and objcopy", "content of the products", "files of the directory"],
     technique="TLA+ specification of builds model-checked with TLC (the dependencies are enough to be up to date); histories generated by TLC replayed on real Makefiles with recording compilers, and trace-checked with TLC",
     note="The compilers are stand-ins that record their calls and write what their product is made of; the real ones are used by all the other checks.")

prop("C22", "Registered implementations are kept, listed and used, each under its name",
     "After any history of registrations of implementations and layer types, creations of generators and generations, the registry lists exactly the implementations registered, for each type that shares them; a name already taken, of an implementation or of a type, and the request of an implementation nobody registered are refused and change nothing. "
     "Each layer of a generation is written by the implementation that was registered, when the generator was created, under the name asked for its index or its type, and by the tool's own when none was asked; the program made of them computes the function of the model when they do.",
     ["histories"], "for every history of registrations, creations and generations",
     "The tests register nothing: they select the implementations of the tool.",
     ["versioning/layer_factories.py", "versioning/versioning.py", "generator/neural_network.py"],
     [("registration", "versioning/layer_factories.py:register_implementation"), ("types and listing", "versioning/versioning.py:list_all_implementations"), ("selection", "generator/neural_network.py:select_layers_implementation")],
     observe=["answers of the calls", "listing of the registry", "code of each layer"],
     technique="TLA+ specification of the registry model-checked with TLC (what is registered stays); histories generated by TLC replayed on the real registry with implementations that mark their code, and trace-checked with TLC")
