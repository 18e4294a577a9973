"""Source of properties.jsonl and MANIFEST.json (run from anywhere)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, M, V, PO, D, R, TR = ("continual/" + n for n in ("container.py", "module.py", "conv.py", "pooling.py", "delay.py", "rnn.py", "transformer.py"))
MH = "continual/multihead_attention/"
MHF = [MH + "mha_base.py", MH + "single_output_mha.py", MH + "retroactive_mha.py"]
PE, SK, CL, LI, CV, UT, ON, SH, PT = ("continual/" + n for n in ("positional_encoding.py", "skip.py", "closure.py", "linear.py", "convert.py", "utils.py", "onnx.py", "shape.py", "ptflops.py"))
ALLMODS = [C, M, V, PO, D, R, TR, PE, SK, CL, LI, SH] + MHF
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("P01", "Previewing with update_state=False leaves no trace",
     "Processing a frame or a clip with state updates switched off returns exactly what the updating call would have returned, and leaves the module as it was: every later output and the retrievable state are the same as if the preview had never happened. Composite modules hand the switch to every sub-module they run, so a preview of a network previews all of it.",
     ["inputs", "histories", "configurations"], "every stateful module type and container, every hyper-parameter value, every prior stream, every previewed frame or clip",
     "Tests preview one hand-built module after one particular stream; the claim ranges over all module types, hyper-parameters and stream positions (mid-stride, partially filled buffers, wrapped ring index).",
     ALLMODS, [("state write guarded by the switch", "forward_step/forward_steps of every module"), ("cloning before in-place buffer writes", V + ":_forward_step, " + M + ":_clone_first"), ("switch passed on to children", C)],
     [("stored stream state", "ring buffer(s), write index and stride counter kept between calls", "get_state of each module")], ["outputs and get_state after the preview"])

prop("P02", "A clip gives what its frames give one by one",
     "Feeding a clip in one call without end padding yields exactly the outputs that feeding its frames one at a time would have yielded, stacked in order along time, and leaves the module in the same state; if no frame of the clip produces an output, the call produces nothing. This holds from a fresh module and from any point in a stream.",
     ["inputs", "histories", "configurations"], "every streaming module, every hyper-parameter value, every clip length and every prior state",
     "The existing tests compare the two on a handful of shapes; they cannot range over clip lengths, chunkings, strides and prior stream positions.",
     [M, V, PO, D, R, PE, SK, CL] + MHF, [("clip loop over the single-step function", M + ":_forward_steps_impl"), ("per-module step function", "_forward_step of each module")],
     [("stored stream state", "carried from frame to frame", "get_state")], ["outputs and get_state"])

prop("P03", "Cleaning the state equals starting over",
     "After cleaning, a module behaves as a freshly constructed one with the same parameters: no frame, index or stride phase seen before the cleaning influences any later output. Cleaning a composite module cleans every sub-module in it, whichever branch was in use.",
     ["histories", "configurations"], "every stateful module and container, every stream before the cleaning",
     "Tests clean a module at one or two stream positions; leftovers show only for particular phases (mid-stride, wrapped buffers, an inactive branch).",
     ALLMODS, [("reset of the stored state", "clean_state of each module"), ("recursion into children", C + ":clean_state")], observe=["get_state and outputs after clean_state"])

prop("P04", "State can be taken out and put back",
     "Setting a state makes the module continue precisely from there: the state read back is the one set, and the outputs and states that follow do not depend on what the module had processed before. The state a module reports has the layout its own functional step accepts, so a stream can be suspended (by keeping a copy of the state) and resumed at any frame.",
     ["histories", "configurations", "inputs"], "every stateful module type and hyper-parameter, every stream position at which the state is taken or replaced",
     "Round trips are tested for few modules at one position; resumption must work at every position, and for state that no test ever visits.",
     [V, PO, D, R, PE, SK] + MHF, [("state accessors", "get_state/set_state of each module"), ("functional step", "_forward_step of each module")], observe=["get_state", "outputs after set_state"])

prop("P05", "Regular forward neither uses nor disturbs the stream",
     "Processing a whole clip in the regular (non-continual) mode depends only on the input and the parameters: the result is the same whatever the module has streamed before, and the stream continues afterwards as if the call had not happened. Positional encodings are excepted, as their clip position is defined by the stream.",
     ["histories", "inputs", "configurations"], "every module, hyper-parameter, input clip and prior stream",
     "Tests call forward on fresh modules; interference appears only for a module that is in the middle of a stream.",
     ALLMODS, [("regular forward", "forward of each module"), ("children invoked in forward mode", C + ":forward")], observe=["outputs", "get_state around forward"])

prop("P06", "Calls are dispatched to the mode that was selected",
     "Calling a module runs exactly the processing mode that applies - the mode set on the module, or the temporarily selected one while such a scope is active, in any accepted spelling (name, number or tensor) - with all arguments passed on and the result returned unchanged, for built-in modules, converted modules and modules lifted from plain ones. The hooks registered on the module run once per call around the selected computation.",
     ["configurations", "programs"], "every module class, every mode spelling, instance mode and temporary mode in every combination, every set of hooks",
     "Tests exercise a few classes in a few modes; the dispatch has to be right for every class and for every combination of instance mode, scope and hook.",
     [M, CV, LI, C] + MHF, [("mode property and dispatch", M + ":CoModule.call_mode, _call_impl"), ("mode scope", M + ":_CallModeContext"), ("lifted modules", CV + ":forward_stepping")], observe=["which of forward / forward_step / forward_steps ran"])

prop("P07", "Scoped settings are restored on every exit",
     "A setting changed for a scope - the call mode, the flattened checkpoint naming, a temporarily replaced parameter - applies inside the scope only, and on leaving it, normally or by an exception, the value from before the scope is in force again. Nested scopes unwind one by one to the value of the enclosing scope.",
     ["fault_sequences", "programs"], "every scope, every nesting depth and order, every exception raised inside",
     "Tests enter one scope and leave it normally; nesting and exceptions are combinations they do not build.",
     [M, UT, CV, PO] + [MH + "mha_base.py"], [("mode scope", M + ":_CallModeContext"), ("flat naming scope", UT + ":_FlatStateDict"), ("temporary parameter", UT + ":temporary_parameter")], observe=["the setting after the scope"])

prop("P08", "A sequence runs each stage once, in order, in the mode asked for",
     "A sequence of modules feeds its input to the first stage and each stage's result to the next, running every stage exactly once and in the same mode as the sequence itself; its result is that of the last stage. When a stage has no output yet for a step or a clip, nothing further down is run and the sequence produces nothing.",
     ["inputs", "histories", "configurations"], "every number of stages, every mode, every pattern of stages that are ready or not",
     "Tests run a few concrete networks; which stages yield nothing, and when, depends on delays and strides that tests sample sparsely.",
     [C], [("stage loop", C + ":Sequential.forward/forward_step/forward_steps/_forward_step")], observe=["order and mode of the calls on the stages"])

prop("P09", "Parallel branches advance in lock-step",
     "In a parallel arrangement every branch receives every frame exactly once, in the mode of the arrangement, even when other branches have nothing to output yet; so the branches never get out of step with each other. A result is produced only when all branches have one, and it is made of all of them in branch order.",
     ["inputs", "histories", "configurations"], "every number of branches, every mode, every readiness pattern of the branches",
     "Whether a branch misses a frame depends on the readiness pattern of the others, which tests sample only for concrete delays.",
     [C], [("branch loops", C + ":BroadcastReduce, Parallel (forward, forward_step, forward_steps, _forward_step)"), ("distribution and reduction", C + ":Broadcast, Reduce, ParallelDispatch")], observe=["calls on the branches", "the reduced output"])

prop("P10", "A conditional module takes the same branch in every mode",
     "A conditional module asks its predicate once per call with itself and the input, runs the first module when the predicate is true and otherwise the second one (or passes the input through when there is none), the same in every mode and with all options handed on. The branch that is not taken is not run and its state does not change.",
     ["inputs", "configurations"], "every predicate outcome, mode, option value and branch",
     "Tests use one predicate on one pair of branches; the four modes are separate code paths that must agree.",
     [C], [("branch selection", C + ":Conditional.forward/forward_step/forward_steps/_forward_step")], observe=["which branch is called, with what"])

prop("P11", "End padding flushes the stream without staying in it",
     "Asking for end padding on a clip appends to the outputs exactly those obtained by continuing, right after the last frame, with as many filler frames as the module's temporal padding, of its declared fill kind; the state kept afterwards is the one right after the last real frame. Containers pass the request on to their children; attention modules, which define no end padding, are excepted.",
     ["inputs", "histories", "configurations"], "every padded module, padding amount, fill kind, clip length and prior state",
     "End padding is tested for a few kernel/padding pairs from a fresh module; leakage of filler frames and wrong counts show with other strides and positions.",
     [M, C, V, PO, D], [("padding loop", M + ":_forward_steps_impl"), ("fill kinds", V + ", " + PO + ", " + D), ("option passed on", C)], observe=["outputs and state with and without end padding"])

prop("P12", "Temporal metadata follows the composition rules",
     "The advertised receptive field, delay, stride and padding of a module follow from its hyper-parameters, and those of a composition from its parts: stages in sequence multiply strides and accumulate fields and paddings scaled by the strides before them, parallel branches take the largest field, delay and padding. They hold for every nesting and after modules are appended to a sequence.",
     ["configurations", "programs"], "every hyper-parameter value; every combination of part metadata for up to four parts (more by the per-part update rule)",
     "Tests check a handful of numbers; the formulas must hold for every combination of field, stride and padding of the parts.",
     [C, V, PO, D, SK, CL, R, M] + MHF, [("formulas", C + ":receptive_field, delay, stride, padding of the containers"), ("leaf formulas", "delay/receptive_field/stride of each module")], observe=["receptive_field, delay, stride, padding"])

prop("P13", "First output comes after the advertised delay, then every stride",
     "Stepping a fresh (or cleaned) module, the first output appears with the frame that follows the advertised number of delay frames, not earlier or later, and from then on once per stride; modules that cut off leading frames (skips, centrally shrinking delays) withhold those frames as well, and attention modules start when their window is full. In a sequence the same holds for its composed delay and stride.",
     ["configurations", "inputs"], "an enumerated grid of kernel sizes, strides, paddings, dilations, delays and window lengths (thorough: a larger grid), symbolic frame contents, fresh and cleaned modules",
     "Warm-up behaviour is tested for single concrete sizes; off-by-one errors show for particular size/stride/padding relations.",
     [V, PO, D, SK] + MHF, [("stride counter / readiness test", "_forward_step of each module"), ("initial counters", "init_state of each module")], [("stride counter", "phase of the stream", "get_state"), ("buffer index", "fill level", "get_state")], ["which steps return an output"])

prop("P14", "Buffer positions stay in bounds for streams of any length",
     "However many frames are streamed, the write positions and phase counters a module keeps stay within the range its buffer and stride allow, so that a module never fails or reads a wrong slot because the stream became long. Every reachable state is one from which the next frame is processed.",
     ["histories", "configurations"], "streams of any length, every hyper-parameter value (inductive: from any in-range state, one more frame)",
     "Tests run tens of frames; the claim is about unbounded streams and every phase of the ring.",
     [V, PO, D, SK, PE] + MHF, [("modular index arithmetic", "_forward_step of each module"), ("phase counter reset", "_forward_step of each module")], [("write index", "slot that is written next", "get_state")], ["get_state"])

prop("P15", "The functional step is pure and its state layout is declared truthfully",
     "The functional form of a step takes the state as an argument and returns output and next state: it neither reads nor writes the stream stored in the module, and gives the same output and state as the stateful step. The number of state tensors and which of them vary with the batch, as declared by the module for export, match the state it really returns, also for nested compositions.",
     ["inputs", "histories", "configurations"], "every module with a functional step, every hyper-parameter and given state",
     "Tests export a few networks; an impure step corrupts only some later run, and a wrong declaration shows only for particular nestings.",
     ALLMODS, [("functional step", "_forward_step of each module"), ("declarations", "_state_shape/_dynamic_state_inds of each module")], observe=["_forward_step results, state declarations used by the export"])

prop("P16", "Exported models wire every state input to its own output",
     "A model prepared for export exposes one named input and one named output per state tensor, in matching order and all distinct, restores the nested state structure from the flat inputs exactly, and marks as dynamic exactly the states declared to vary with the batch. User-chosen names for the actual inputs and outputs are kept, exporter options are handed on, and a model that is not a continual module is refused.",
     ["configurations", "programs"], "every nesting of state declarations, with and without user-supplied names",
     "Exports are tested for one network where the runtime is available; the flattening is independent of it and must be right for every nesting.",
     [ON, UT], [("flatten / unflatten", ON + ":_shape_list, OnnxWrapper.forward, " + UT + ":flatten"), ("naming", ON + ":OnnxWrapper.state_input_names/state_output_names/state_dynamic_axes, export")], observe=["arguments given to the exporter, OnnxWrapper outputs"])

prop("P17", "Conversion keeps every hyper-parameter and weight",
     "Converting an existing module yields a continual one with the same hyper-parameters in every dimension and the same parameter values; nothing is dropped, swapped or re-initialised. Options given for the conversion override the transferred values.",
     ["configurations", "inputs"], "every convertible module type and every value of its constructor arguments",
     "Tests convert default-configured modules; a dropped argument (bias, dilation, groups, ceil mode, projection) matters only in configurations they do not use.",
     [V, PO, R, LI, SH, C, TR, CV] + MHF, [("field-by-field transfer", "build_from of each module"), ("weight copy", "build_from of each module")], observe=["attributes and parameters of the converted module"])

prop("P18", "Conversion picks the right counterpart and recurses everywhere",
     "Conversion maps each supported module to its registered continual counterpart, passes stateless modules through unchanged in behaviour in every mode, converts every element of a container in order under its own name, and leaves modules that already are continual as they are. A module type without counterpart and an invalid registration are refused with an error instead of being converted wrongly.",
     ["programs", "configurations"], "every module type in the conversion tables, every user registration, every container nesting",
     "Tests convert a few networks; the tables list dozens of types and the lifting rules concern each of them.",
     [CV, C], [("conversion tables and dispatch", CV + ":continual, register, MODULE_MAPPING, NAIVE_MAPPING"), ("lifting", CV + ":forward_stepping"), ("recursion", C + ":build_from, co_add_module")], observe=["class and methods of the converted module"])

prop("P19", "Stream state is never part of a checkpoint",
     "The parameters and persistent buffers of a module - what is saved in a checkpoint - are fixed at construction: streaming, cleaning, setting a state or previewing neither adds, removes nor changes any of them. So a checkpoint taken in the middle of a stream is the same as one taken before it and loads into a fresh module.",
     ["histories", "configurations"], "every stateful module, every stream position",
     "Tests save fresh modules; whether something enters the checkpoint later depends on what was called in between.",
     ALLMODS, [("plain-attribute or non-persistent state", "state attributes and register_buffer calls of each module")], observe=["state_dict keys and values"])

prop("P20", "Flattened checkpoint names map one-to-one",
     "With flattened naming, saving a container drops exactly the purely numeric levels from each entry's name, and loading a complete checkpoint saved that way maps each flattened name back to the same parameter, also for networks without or with nested containers and in whatever order the entries come. When two entries would get the same name, none is renamed, so that no entry overwrites another. Without flattening, names are untouched.",
     ["programs", "configurations"], "every nesting of containers, every mixture of named and auto-numbered levels",
     "Tests flatten one or two networks; collisions and mixed names come with nestings they do not contain.",
     [UT, C], [("name mapping", UT + ":state_dict, load_state_dict"), ("scope switch", C + ":FlattenableStateDict")], observe=["state_dict keys, load_state_dict"])

prop("P21", "Branches that are joined refer to the same moment",
     "When branches are joined - in a residual connection, a broadcast-and-reduce, a conditional with two given branches, a transformer layer's skip - the shorter branches are delayed so that all branches have the same total delay, and the values combined stem from the same input frame. In regular forward mode such a delay passes its input through (shrunk as declared), and arrangements that cannot be aligned are refused.",
     ["configurations", "programs"], "every combination of branch delays and stack positions; every residual shrink option",
     "Alignment is tested for one or two residual blocks; the inserted delay must be right for every combination of branch delays.",
     [C, D, TR], [("automatic delays", C + ":Parallel/BroadcastReduce/Conditional.__init__"), ("residual", C + ":Residual"), ("encoder layers", TR + ":_EncoderLayerFactory users")], observe=["delays of the branches, order of the sub-modules"])

prop("P22", "Inputs are never modified",
     "No processing call changes the input tensors or lists the caller passes in: after any call in any mode, with any options, the caller's input data are what they were.",
     ["inputs", "histories", "configurations"], "every module, mode, option and prior state",
     "Tests rarely look at their inputs after the call; in-place operations corrupt only callers that reuse them.",
     ALLMODS, [("out-of-place arithmetic and cloning", "every forward path")], observe=["argument tensors after the call"])

prop("P23", "Earlier outputs stay what they were",
     "An output returned by one call is not changed by later calls on the module, in any mode and with any options. So outputs can be collected over a stream and used later.",
     ["histories", "inputs", "configurations"], "every module, every sequence of later calls up to the explored depth",
     "Aliasing shows only when a caller keeps an output over further calls, which most tests do not.",
     [V, PO, D, R, PE, SK] + MHF, [("cloning of buffers before writing", "_forward_step of each module, " + M + ":_clone_first")], observe=["outputs kept over later calls"])

prop("P24", "Unsupported configurations are refused",
     "A configuration for which streaming is not defined - temporally dilated convolution, adaptive pooling to more than one time step, unequal branch strides, negative delays or skips, out-of-range query position or window, bidirectional recurrence, residuals over strided or oddly shrunk branches, zero attention, unconvertible modules, unknown modes, fills or reductions - is refused with an error when it is set up (added zero attention and inputs of the wrong rank: when it is first used). Every configuration inside the documented range is accepted.",
     ["configurations"], "every value of the guarded arguments",
     "Tests try a few bad values; the guard must refuse the whole forbidden range and nothing else.",
     [C, V, PO, D, R, PE, SK, CL, M, CV, ON] + MHF, [("guards", "constructors and validation of each module")], observe=["construction raising or not"])

prop("P25", "Constructor arguments reach the computation they name",
     "Every constructor argument takes effect as documented in all modes: kernel size, stride, padding, dilation, groups, bias, divisor and ceiling options, channel dimension, fill kinds, layer options and the like each end up in the operation they name, and a single number stands for the same value in every dimension. Defaults are the documented ones.",
     ["configurations"], "every constructor argument of every module, every value",
     "Tests use mostly default arguments; a swapped or ignored argument shows only when it differs from its neighbours.",
     [V, PO, D, R, LI, PE, TR, C] + MHF, [("argument forwarding", "constructors"), ("use in the operators", "forward and _forward_step")], observe=["attributes, arguments of the tensor operators"])

prop("P26", "Attention memories hold the last window in arrival order",
     "Continual attention keeps key and value memories that, after each step, hold exactly the most recent entries in order of arrival, oldest dropped and newest last, keys and values moving together with any running normaliser. The query used for the output is the one of the configured position in the window.",
     ["inputs", "histories", "configurations"], "every window length, query position and stream position, single- and retroactive attention",
     "Tests compare outputs for one window length; a memory that is shifted wrongly may agree for constant or short streams.",
     MHF, [("memory roll", MH + "single_output_mha.py, retroactive_mha.py:_scaled_dot_product_attention_step")], [("memories", "past queries, keys, values", "get_state")], ["get_state, attended values"])

prop("P27", "Reductions combine every branch exactly once",
     "The built-in reductions - sum, product, maximum and channel concatenation - use every branch output exactly once, with the operation their name says, for any number of branches and along the documented dimension. A user-supplied reduction receives all the branch outputs, in order.",
     ["inputs", "configurations"], "every number of branches (two to five explored, to eight in depth), every reduction, by name, by enumeration member or by function",
     "Tests reduce two branches with one or two reductions; errors in accumulation show with three or more.",
     [C, CL], [("reductions", C + ":reduce_sum, reduce_concat, reduce_mul, reduce_max, nonempty")], observe=["reduced output"])

prop("P28", "Function modules run the function given for each mode",
     "A module made from a function applies the function to its input in each mode - with the separate functions where given for regular, step and clip mode - sees a clip with a time dimension in every mode when declared to need one, and has no other effect. Arithmetic shorthands (add, multiply, constants, identity) compute what their name says.",
     ["inputs", "configurations", "programs"], "every function, every combination of per-mode functions and time handling, every step and clip",
     "Tests try a few functions; which function runs with which shape has to be right in every mode and combination.",
     [CL, SK], [("per-mode functions", CL + ":Lambda"), ("shorthands", CL + ":Add, Multiply, Constant, Zero, One, Identity")], observe=["calls of the function and their arguments"])

prop("P29", "Step mode uses the same parameters as regular forward",
     "For each module, the step computation uses the same weights, biases and operator options - per-dimension stride, padding, dilation, groups, ceiling and counting options, scaling and activation choices - as the regular forward computation. Setting an option changes both modes alike.",
     ["configurations", "inputs"], "every operator option and parameter of every module",
     "Forward/step agreement is tested for default options; an option that only one mode honours shows for other values only.",
     [V, PO, LI, R, TR] + MHF, [("operator calls", "forward, _forward_step of each module")], observe=["operator arguments in both modes"])

prop("P30", "Each output is computed from exactly its window of frames",
     "The value a streaming module returns at a given frame depends on precisely the frames of its window - for convolutions each frame meeting the kernel tap of its age, for pooling every dilated position once, for a delay the one frame of the declared age - and on nothing older or newer. Frames before the stream start are the declared fill.",
     ["inputs", "histories", "configurations"], "every concrete small kernel/stride/padding/dilation/delay combination in the enumerated range, arbitrary frame contents, several ring revolutions",
     "Tests compare numbers for a few sizes; the tap alignment must hold for each size, phase of the ring and stream position.",
     [V, PO, D, SK, R] + MHF, [("ring buffers", "_forward_step of each module")], [("ring buffer", "partial sums or frames", "get_state")], ["provenance of the output"])

prop("P31", "Streaming computes what the regular forward computes",
     "In exact arithmetic, the outputs of stepping frame by frame, of handing over a clip in one or several pieces, and of single frames followed by clips are, in order and number, the regular forward pass's outputs for the same frames with the end of the clip still open; with end padding, a clip gives exactly the regular forward outputs. Regular forward itself is the torch operator of the same name over the clip. This holds for the leaf modules (convolution, pooling, delay, skip, linear) and for networks composed of them, element-wise modules and the containers, in training and evaluation mode.",
     ["inputs", "histories", "configurations", "programs"], "every enumerated kernel/stride/padding combination and network, every split of the clip enumerated, arbitrary frame contents and parameters",
     "Tests compare random numbers for a handful of modules and lengths; the identity is decided here for arbitrary contents, position by position.",
     [V, PO, D, SK, LI, C, M, CV], [("step and clip computation", "_forward_step, forward_steps and forward of each module"), ("composition", C + ":Sequential, BroadcastReduce, Parallel, Conditional, Residual")], observe=["output tensors in every mode"])

prop("P32", "Continual attention equals softmax attention over the window",
     "In exact arithmetic, at every step both attention modules return multi-head softmax attention - in- and out-projections included - computed over the window of the latest frames: the retroactive module for every query of the window, its running numerator and normaliser notwithstanding, the single-output module for the query at the configured position. The outputs for a clip are those of its steps, in the layout of the input, and regular forward is torch's multi-head attention in that layout.",
     ["inputs", "histories", "configurations"], "every enumerated window length, head count, layout, query position and key/value width; arbitrary frames and parameters",
     "The retroactive update adds and removes terms of a running sum; tests compare random numbers within a tolerance for one window length, layout and head count.",
     MHF, [("attention step", MH + "single_output_mha.py, retroactive_mha.py:_scaled_dot_product_attention_step"), ("projection and layout", MH + "mha_base.py:multi_head_attention_forward_step, forward_steps")], [("running sums and memories", "d_mem, AV_mem, Q_mem, K_T_mem, V_mem", "get_state")], ["attended output in every mode"])

prop("P33", "A continual transformer encoder equals the regular encoder over the window",
     "Encoder layers and encoders of one or two layers, built by the provided factories, compute the regular post-norm transformer encoder: after each step from the first full window on, the output is that of a regular encoder (attention plus residual, norm, feed-forward plus residual, norm) over the latest frames, at the queried position - at every position for a retroactive layer. Clips give the outputs of their steps; regular forward is the regular encoder. Dropout in evaluation mode has no effect.",
     ["inputs", "histories", "configurations"], "every enumerated window length, query position, activation, norm, depth and head count; arbitrary frames and parameters",
     "Tests compare random numbers for one window length and width; a residual delayed by one frame too many, or a norm at the wrong place, may stay within their tolerance or their configuration.",
     [TR, C] + MHF, [("encoder wiring", TR + ":SingleOutputTransformerEncoderLayer, RetroactiveTransformerEncoderLayer, TransformerEncoder"), ("residual paths", TR + ":SelectOrDelay, RetroactiveUnity, RetroactiveLambda")], [("windows and memories", "Delay, RetroactiveUnity, attention memories", "get_state")], ["output of steps, clips, forward"])

prop("P34", "Warming up equals feeding `delay` empty frames",
     "warm_up(frame shape) leaves every module and network as if it had been stepped through exactly as many frames as its advertised delay, each holding the value the module pads time with (zeros; minus infinity for max pooling): the outputs that follow are those of the regular operators over such a stream, the first real frame yields an output wherever the delay says so, and a module without delay is left untouched.",
     ["inputs", "histories", "configurations", "programs"], "every enumerated leaf configuration and network; arbitrary frame contents and parameters",
     "One test warms up one convolution and looks at no output; the number of frames, their contents and the modules without delay are never looked at.",
     [M], [("warm-up", M + ":CoModule.warm_up"), ("frames in, state out", M + ":CoModule.forward_step, _forward_steps_impl")], [("stream state", "what the module remembers of its stream", "get_state")], ["outputs after warming up"])

NA = [
    ("N03", "An exported model computes what the module computes", "Running the exported graph in an ONNX runtime gives the same outputs and states as the module.",
     "Depends on torch's tracer and on an ONNX runtime outside the repository; the wiring on the repository's side is decided under P16."),
    ("N04", "Reported operation counts match the work done", "The operation counts registered for the profiler equal the multiply-accumulates performed.",
     "Ground truth is a count of operations performed at run time on concrete shapes inside torch operators; there is no source-level definition in the repository to compare with."),
    ("N05", "Streaming is cheaper than recomputing the window", "A step costs less time than the regular forward pass over the whole window.",
     "A timing statement about a runtime; not decidable from the source."),
    ("N06", "Gradients flow through a streamed clip as through the regular pass", "Training through streamed processing gives the gradients of the regular forward computation.",
     "Autograd behaviour of in-place updated buffers is decided by torch's engine at run time; the aliasing side is covered by P22 and P23."),
]
for id, t, st, why in NA:
    prop(id, t, st, ["inputs", "configurations"], "every module, input and configuration", "Numerical or runtime quantities sampled by tests at a few points only.", [ON] if id == "N03" else [PT] if id == "N04" else [M], [("see statement", "whole module")])

LEVEL_NOTE = "Static: abstract interpretation of the current source over symbolic inputs and hyper-parameters; sound up to the torch operator model and the stated loop bounds (evidence lists both and every undetermined obligation)."
TECH = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    tech = json.load(open(os.path.join(HERE, "tools", "technique.json")))
    checks, na = [], []
    reasons = {i: w for i, _, _, w in NA}
    for p in PROPS:
        i = p["id"]
        if i in reasons:
            na.append({"property": i, "reason": reasons[i]})
        elif os.path.exists(os.path.join(HERE, "rules", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                           "technique": tech.get(i, "path-sensitive abstract interpretation / value-numbering dataflow over the Python AST"), "level": "other", "level_note": tech.get("note_" + i, LEVEL_NOTE)})
        else:
            na.append({"property": i, "reason": "check under construction: not claimed yet"})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q coan rules check.py", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
