"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand, output committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, level="exploration"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, technique, note, level))


AR = "crypten/mpc/primitives/arithmetic.py"
BI = "crypten/mpc/primitives/binary.py"
MP = "crypten/mpc/mpc.py"

prop("C01", "Decryption returns exactly what the source party encrypted",
     "Encrypting any supported value (any shape including empty and scalar, any supported element type, list or number) at any source party, sharing type and precision, and decrypting it gives every party the source party's value rounded toward zero onto the chosen fixed-point grid. Nothing the other parties passed in has any influence, and the value encrypted is not modified.",
     ["inputs", "configurations"],
     "all shapes, element types, values in range, source parties, sharing types, precisions, party counts and ways to pass the size",
     "The tests encrypt random float tensors of a few sizes, mostly from party 0 with the default precision; extreme values, other types, sources, precisions and non-source inputs are not covered together.",
     [AR, BI, MP, "crypten/encoder.py", "crypten/__init__.py"],
     [("fixed-point encoding and decoding", "crypten/encoder.py: FixedPointEncoder"), ("zero sharing plus the source's value", AR + ": __init__, PRZS"), ("xor zero sharing", BI + ": __init__, PRZS")],
     ["decrypted tensors at every party"],
     "differential runtime monitor on real parties (exact fixed-point oracle)",
     "Exploration: seeded random and boundary inputs on real multi-process parties; oracle is exact integer arithmetic on the fixed-point grid.")

prop("C02", "Linear and bilinear arithmetic matches plaintext arithmetic",
     "Adding, subtracting, negating, summing and scaling by Python integers is exact on the fixed-point grid, and multiplying, squaring, dividing by public values, matrix products, convolutions (and transposed ones), means and average pooling are within the rounding error of fixed-point arithmetic, for encrypted or public operands, in- or out-of-place, with broadcasting and mixed precisions. This holds for every number of parties, randomness provider and multiplication protocol the library supports, and all parties decrypt the same result.",
     ["inputs", "configurations", "programs"],
     "all operands (shape, broadcast, sign, magnitude in range, precision, source), operators, parameters, party counts, providers and protocols",
     "The tests compare a few fixed shapes with a loose tolerance (0.05 or more), which hides systematic errors of many units in the last place, and never mix precisions, strides, groups, dilations or party counts freely.",
     [AR, "crypten/mpc/primitives/beaver.py", "crypten/mpc/primitives/replicated.py", MP, "crypten/common/functions/regular.py"],
     [("one place for add/sub/mul/matmul/conv", AR + ": _arithmetic_function"), ("Beaver multiplication, squaring and truncation", "crypten/mpc/primitives/beaver.py"), ("replicated multiplication and truncation", "crypten/mpc/primitives/replicated.py")],
     ["decrypted results at every party"],
     "differential runtime monitor on real parties with a tight fixed-point error bound",
     "Exploration: thousands of seeded operator/shape/parameter combinations on 1-4 real parties, oracle is float64 torch with an analytic error bound; values stay below the documented truncation-failure range, rare wrap errors are told apart by re-execution.")

prop("C03", "Comparisons, selection, sorting-type reductions and pooling are exact",
     "Comparisons, equality, sign, absolute value, rectification, clamping, selection, maximum, minimum, their positions and max pooling return the exact plaintext answer for every pair of representable values, ties and boundary values included, under every configured maximum algorithm. Position results are a valid one-hot choice (or index) of a maximal element.",
     ["inputs", "configurations"],
     "all operand values including ties, equal values, one-unit differences and large magnitudes; shapes and dimensions; methods; party counts; precisions",
     "Tests use random values, where ties, one-unit differences and extreme magnitudes practically never occur, and the class that tests these operations is not part of the reliable suite.",
     [MP, "crypten/common/functions/logic.py", "crypten/common/functions/maximum.py", "crypten/common/functions/pooling.py", "crypten/mpc/primitives/circuit.py", "crypten/mpc/primitives/converters.py"],
     [("sign bit extraction", MP + ": _ltz, _eqz_2PC, eq, ne"), ("argmax methods", "crypten/common/functions/maximum.py"), ("pooling rearrangement", "crypten/common/functions/pooling.py: _pool2d_reshape")],
     ["decrypted results at every party"],
     "differential runtime monitor on real parties (exact oracle, boundary-biased inputs)",
     "Exploration with values biased to ties, +-1 unit and range limits; exact oracle, valid-choice oracle for tie-breaking.")

prop("C04", "Bitwise operations on binary-shared tensors are exact",
     "Every operation on binary-shared tensors - xor, and, or, not, shifts, addition, subtraction of carries, comparisons, selection, indexing and reductions, with encrypted or public operands - returns exactly what 64-bit two's-complement integers give. This holds for all bit patterns, party counts, providers and protocols, and leaves operands unchanged.",
     ["inputs", "configurations"],
     "all 64-bit patterns (carry chains, sign bits), shapes, broadcasts, public/private operand kinds, party counts, providers and protocols",
     "Tests draw small random integers, so long carry chains, negative numbers and the top bits are rarely or never exercised.",
     [BI, "crypten/mpc/primitives/circuit.py", "crypten/mpc/primitives/beaver.py", "crypten/mpc/primitives/replicated.py"],
     [("binary operators", BI), ("parallel-prefix adder", "crypten/mpc/primitives/circuit.py"), ("AND protocol", "crypten/mpc/primitives/beaver.py: AND")],
     ["decrypted results at every party"],
     "differential runtime monitor on real parties (exact 64-bit oracle)",
     "Exploration biased to carry chains and extreme bit patterns.")

prop("C05", "Converting between sharing types preserves the value",
     "Converting a tensor between arithmetic and binary sharing, in either direction and back, keeps its value exactly for every representable value, precision and requested number of bits, and does not change the original tensor. Lowering precision loses only the rounding error of one fixed-point truncation.",
     ["inputs", "configurations"],
     "all representable values, precisions, bit widths, shapes, party counts and providers",
     "Tests convert random values of one size at the default precision with two parties.",
     ["crypten/mpc/primitives/converters.py", MP, "crypten/mpc/primitives/circuit.py", "crypten/mpc/primitives/beaver.py"],
     [("share-wise conversion", "crypten/mpc/primitives/converters.py"), ("single-bit conversion", "crypten/mpc/primitives/beaver.py: B2A_single_bit")],
     ["decrypted results at every party"],
     "differential runtime monitor on real parties (exact oracle)",
     "Exploration; chains of conversions compared with exact integers.")

prop("C06", "Shape, indexing and in-place operations behave like plaintext tensors",
     "Slicing, indexed assignment, concatenation, stacking, reshaping, permuting, padding, gathering, scattering, splitting, repeating and similar operations move exactly the right elements, on one tensor or over any sequence of such operations. An out-of-place operation never changes its operands, an in-place one changes exactly its target, and writing into a result of a copying operation never reaches the tensor it came from.",
     ["inputs", "programs", "histories"],
     "all operations with all argument forms, shapes and dimension conventions, and every sequence of them with in-place updates in between",
     "Tests call each operation once on a fresh tensor; aliasing and the effect of earlier operations on later in-place updates are not examined.",
     ["crypten/common/functions/regular.py", AR, BI, MP, "crypten/common/util.py"],
     [("pass-through of tensor functions to shares", "crypten/common/functions/regular.py"), ("copying vs shared data", MP + ": clone, shallow_copy")],
     ["decrypted operands and results after every step at every party"],
     "model-based runtime monitor: random programs replayed on plaintext tensors",
     "Exploration: random op sequences with a live set of tensors; after each step every live tensor is decrypted and compared with the plaintext model.")

prop("C07", "Approximated functions stay within their accuracy on their domain",
     "Exponential, logarithm, reciprocal, division, square root and its inverse, sine, cosine, sigmoid, tanh, error function, softmax, log-softmax, powers, norms and polynomials stay within their documented or inherent approximation error of the true function everywhere on their working domain. This holds under every supported method and iteration setting, for every shape and dimension.",
     ["inputs", "configurations"],
     "all inputs in the working domain (dense, with end points), methods, iteration settings, dimensions, party counts",
     "Tests sample a few points with loose tolerances at default settings and are not in the reliable suite.",
     ["crypten/common/functions/approximations.py", "crypten/common/functions/power.py", "crypten/common/util.py"],
     [("iterative approximations", "crypten/common/functions/approximations.py"), ("powers and polynomials", "crypten/common/functions/power.py")],
     ["decrypted results"],
     "runtime accuracy monitor against float64 functions and against an exact model of the iteration",
     "Exploration: dense sweeps of each domain; tolerance is the larger of the documented error and the error of the float64 run of the same published iteration plus fixed-point rounding.")

prop("C08", "Encrypted gradients equal plaintext gradients on any computation",
     "For every differentiable computation built from the supported operations, backpropagation through encrypted tensors gives every input that requires it the gradient that plaintext automatic differentiation gives, up to fixed-point and approximation error. Values used several times, broadcast operands, mixed public/encrypted operands and repeated backward passes accumulate correctly.",
     ["programs", "inputs"],
     "all compositions of supported operations, sharing of intermediate results, operand kinds, shapes and arguments",
     "Tests differentiate one operation at a time on a few shapes; composed graphs with fan-out, broadcast and argument variants are not sampled.",
     ["crypten/gradients.py", "crypten/cryptensor.py", "crypten/common/util.py"],
     [("per-operation forward/backward", "crypten/gradients.py"), ("graph traversal and accumulation", "crypten/cryptensor.py: backward, _identify_required_grads")],
     ["decrypted gradients of all leaves at every party"],
     "differential runtime monitor against torch autograd on single ops and random graphs",
     "Exploration: every registered gradient with argument variants, plus random computation graphs with fan-out.")

prop("C09", "Imported models compute what the original model computes",
     "A model converted from the plaintext framework, or built from CrypTen's own layers with the same parameters, gives when encrypted, on encrypted input, the original model's output up to fixed-point and approximation error, in training and evaluation mode, and still does so after decrypting, re-encrypting and copying its saved state into another instance. A construct that cannot be represented is rejected with an error, never silently computed differently.",
     ["programs", "inputs", "histories"],
     "all supported layers, their parameters, architectures composed from them, owners of the model, and sequences of mode switches, encryption, decryption and state loading",
     "Tests import one layer at a time with default-like parameters; compositions, parameter variants and life-cycle sequences are not sampled.",
     ["crypten/nn/module.py", "crypten/nn/onnx_converter.py", "crypten/gradients.py"],
     [("ONNX import", "crypten/nn/onnx_converter.py"), ("graph execution", "crypten/nn/module.py: Graph"), ("layer modules", "crypten/nn/module.py"), ("state handling", "crypten/nn/module.py: state_dict, load_state_dict, encrypt")],
     ["decrypted outputs, parameters and buffers"],
     "differential runtime monitor against the original PyTorch model",
     "Exploration: random architectures and layer parameters, random life-cycle sequences; oracle is the float64 PyTorch model.")

prop("C10", "Encrypted training follows the plaintext training trajectory",
     "Losses and optimizer steps on encrypted models - any batch data, learning rate, momentum, dampening, weight decay, Nesterov setting, parameter groups and number of steps - produce the parameters that the same plaintext training produces, up to accumulated fixed-point and approximation error. A step changes only the parameters handed to the optimizer that have a gradient.",
     ["inputs", "histories", "configurations"],
     "all hyper-parameters, loss functions and reductions, models and step sequences",
     "Tests check single optimizer settings over one short run; combinations of hyper-parameters and longer histories are not compared with plaintext training.",
     ["crypten/optim/sgd.py", "crypten/optim/optimizer.py", "crypten/nn/loss.py", "crypten/nn/module.py", "crypten/gradients.py"],
     [("SGD update", "crypten/optim/sgd.py"), ("losses", "crypten/nn/loss.py and crypten/gradients.py"), ("parameter update", "crypten/nn/module.py: update_parameters")],
     ["decrypted parameters after every step, losses"],
     "trajectory monitor against torch.optim and torch losses",
     "Exploration: random hyper-parameter sets and short trajectories compared at every step.")

prop("C11", "Correlated randomness is correct, fresh and used once",
     "Every piece of correlated randomness the protocols consume satisfies its relation exactly over all parties' shares (products, squares, bitwise ands, wrap counts, matching bits), its hidden values are unpredictable and independent of earlier ones, and no piece is ever handed out twice, also when it was generated in advance, saved and loaded. Requests beyond what was prepared are served with fresh randomness.",
     ["inputs", "histories", "configurations"],
     "all tuple kinds, sizes, operation parameters, party counts, providers and sequences of tracing, filling, saving, loading and consuming",
     "Tests check each relation for one size at a time, never compare successive tuples, and exercise the cache in a single sequence.",
     ["crypten/mpc/provider/provider.py", "crypten/mpc/provider/tfp_provider.py", "crypten/mpc/provider/ttp_provider.py", "crypten/common/rng.py", "crypten/common/util.py"],
     [("trusted first party", "crypten/mpc/provider/tfp_provider.py"), ("trusted third party", "crypten/mpc/provider/ttp_provider.py"), ("cache", "crypten/mpc/provider/provider.py")],
     ["shares of every tuple at all parties (joined by the monitor)"],
     "runtime monitor joining all parties' tuple shares (exact relations, freshness and no-reuse checks)",
     "Exploration: every tuple drawn by random workloads is intercepted, joined across parties and checked; statistical checks have false-alarm rate below 1e-12.",
     state=[("tuple cache", "tuples prepared in advance, keyed by request", "crypten/mpc/provider/provider.py: tuple_cache")])

prop("C12", "Shares and messages reveal nothing about private values",
     "What a party holds or receives before anything is decrypted - its shares and every message of every protocol - is uniformly distributed and statistically independent of the other parties' private inputs, and no mask is ever used for two different values. The masks come from operating-system entropy, never from a generator the application can seed.",
     ["inputs", "histories", "configurations"],
     "all operations, private inputs, party counts, providers and protocols, and sessions",
     "Correctness tests cannot notice a leak: results stay right when masks are small, reused, constant, biased or predictable.",
     ["crypten/__init__.py", "crypten/common/rng.py", AR, BI, "crypten/mpc/primitives/beaver.py", "crypten/mpc/provider/ttp_provider.py", "crypten/mpc/provider/tfp_provider.py"],
     [("seed set-up", "crypten/__init__.py: _setup_prng"), ("full-range randomness", "crypten/common/rng.py"), ("masking before opening", "crypten/mpc/primitives/beaver.py")],
     ["shares and message payloads recorded at the wire at every party"],
     "wire-level runtime monitor: statistical uniformity, mask-reuse and non-interference tests on recorded payloads",
     "Exploration: records all payloads of workloads on chosen inputs; uniformity and reuse tests with false-alarm rate below 1e-9; computational strength of the generators is trusted.")

prop("C13", "Communication is independent of the data",
     "The sequence of messages each party sends and receives - kinds, peers, sizes and order - depends only on the public shapes, operations and configuration, never on the values of the encrypted inputs. Two runs of the same program on different private data produce identical traffic patterns.",
     ["inputs", "programs", "configurations"],
     "all programs of supported operations and all pairs of private inputs of the same shape",
     "Tests never look at the traffic.",
     [MP, AR, BI, "crypten/mpc/primitives", "crypten/common/functions", "crypten/communicator"],
     [("data-oblivious protocols", "crypten/mpc/primitives, crypten/common/functions")],
     ["wire events (operation, peers, shapes, order) at every party"],
     "paired-execution trace monitor at the wire",
     "Exploration: every operation family is run on adversarially different inputs (all equal, zeros, negatives, sorted) and the recorded event logs must be identical.")

prop("C14", "Parties stay in step after any history of operations",
     "Whatever sequence of operations all parties run - including ones that fail with an error, configuration overrides, mixed sources, and different relative speeds of the parties - all parties finish each operation the same way, none is left waiting, and their shared random streams remain synchronised so that later results are still right. An error raised at one party for an invalid operation is raised at all of them.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of valid and invalid operations and all relative speeds of the parties",
     "Tests run one short operation sequence per process group and stop at the first error.",
     ["crypten/__init__.py", "crypten/communicator/distributed_communicator.py", AR, BI, MP, "crypten/mpc/provider"],
     [("shared seeds", "crypten/__init__.py: _sync_seeds"), ("checks before communication", AR + ", " + BI)],
     ["outcome at every party, zero-sharing probe, wire progress counters"],
     "lock-step runtime monitor with random histories, injected delays and invalid operations",
     "Exploration: random histories with delays; a blocked state is believed only when every silent party sits inside a collective without progress.",
     state=[("shared generators", "random streams shared by neighbours and by all parties", "crypten/__init__.py: generators")])

prop("C15", "Only the intended party learns a decrypted value",
     "Decrypting to a chosen party gives that party the value and all others nothing, for every tensor type and destination, and no other message of that decryption lets them compute it. Printing, comparing, branching on, hashing or indexing with an encrypted tensor never decrypts it outside of debug mode.",
     ["inputs", "configurations", "programs"],
     "all destinations, sharing types, shapes, party counts and ways to use an encrypted tensor in the host language",
     "Tests check a return value for one destination and not what the other parties received on the wire.",
     [MP, AR, BI, "crypten/cryptensor.py", "crypten/communicator/distributed_communicator.py", "crypten/nn/module.py"],
     [("decryption to a destination", AR + ": reveal, get_plain_text"), ("no implicit decryption", MP + ": __repr__; " + AR + ": __bool__")],
     ["return values and wire payloads at every party"],
     "wire-level runtime monitor of what each party receives",
     "Exploration; replies and payload logs of non-destination parties are searched for the plaintext.")

prop("C16", "Collectives deliver the right data to the right parties",
     "Every communication primitive - point-to-point, broadcast, scatter, gather, all-gather, reduce, all-reduce, object transfer and barrier, single or batched, over processes, or over threads as far as the thread back end provides it - gives each party exactly the data its definition promises and leaves the caller's inputs unmodified (except a broadcast's receive buffer). This holds for every root, payload, sequence of calls and relative speed of the parties, with no message lost, duplicated or delivered to a later call.",
     ["schedules", "histories", "inputs"],
     "all primitives, roots, payload shapes and values, call sequences, party counts and relative speeds",
     "Tests call each primitive separately with tiny payloads and no timing variation; the threaded back end is untested.",
     ["crypten/communicator/distributed_communicator.py", "crypten/communicator/in_process_communicator.py", "crypten/communicator/communicator.py"],
     [("process back end", "crypten/communicator/distributed_communicator.py"), ("thread back end", "crypten/communicator/in_process_communicator.py")],
     ["returned data at every party"],
     "conservation monitor: uniquely tagged payloads, random call sequences, injected delays",
     "Exploration of random call sequences with tagged payloads and injected delays on both back ends.")

prop("C17", "Received objects cannot run code",
     "Receiving an object from another party only ever builds plain data, tensors and explicitly registered model classes: a message that names any other function or class is rejected with an error and has no effect. Everything the library itself sends is accepted.",
     ["inputs", "fault_sequences"],
     "all byte strings a malicious party may send",
     "Tests try a handful of forbidden payloads.",
     ["crypten/common/serial.py", "crypten/communicator/distributed_communicator.py"],
     [("restricted unpickling", "crypten/common/serial.py: RestrictedUnpickler")],
     ["side effects, exceptions and result types of decoding"],
     "sandboxed attack-payload monitor (audit of side effects) plus acceptance runs",
     "Exploration: generated and mutated pickles over many gadgets and nesting forms; a side-effect monitor counts every call of every planted callable.")

prop("C18", "Configuration overrides are scoped exactly",
     "A temporary configuration override is in force exactly inside its block and every value is restored afterwards, also when blocks are nested, values are set inside, the value is empty, or the block ends by an exception; library functions that override settings internally leave them as they were, on errors too. Setting a value changes that value only.",
     ["histories", "inputs"],
     "all sequences and nestings of set, override, load and failing blocks over all settings",
     "Tests override one value in one nesting.",
     ["crypten/config/config.py", "configs/default.yaml", "crypten/common/functions"],
     [("override context", "crypten/config/config.py: temp_override")],
     ["all configuration values after every step"],
     "model-based monitor of random override histories",
     "Exploration: random histories against a stack model, plus a configuration snapshot around every library function, with injected failures.")

prop("C19", "Saved values and models load back without leaking",
     "What one party saves and another step loads is unchanged: encrypted tensors and models, plaintext tensors and model state survive saving and loading at all parties, and a value loaded from one party is encrypted as that party's value. Loading from a party sends the other parties only shapes and structure, never the stored numbers.",
     ["inputs", "histories", "fault_sequences"],
     "all objects, sources, closures, party counts, and failing loads",
     "Tests check that values come back, never what the other parties received.",
     ["crypten/__init__.py", "crypten/nn/module.py", "crypten/common/serial.py"],
     [("load/save from a party", "crypten/__init__.py: load_from_party, save_from_party"), ("load/save of shares", "crypten/__init__.py: load, save")],
     ["loaded values; wire payloads at non-source parties"],
     "round-trip monitor with wire-level leak search",
     "Exploration; files live in a scratch directory; payloads received by other parties are searched for the stored numbers.")

prop("C20", "Communication statistics count what was communicated",
     "With statistics enabled, the reported rounds and bytes equal, for any program, the sum over its communication calls of the documented cost of each call, start from zero after a reset and are never changed by enabling, disabling or printing them. Enabling statistics changes no result.",
     ["programs", "histories"],
     "all programs, primitives with positional or keyword arguments, resets and toggles",
     "Tests check single calls.",
     ["crypten/communicator/communicator.py", "crypten/communicator/distributed_communicator.py"],
     [("counting decorator", "crypten/communicator/communicator.py: _logging")],
     ["reported statistics against wire events"],
     "online monitor comparing reported statistics with independently recorded wire events",
     "Exploration: reported totals are recomputed from the wire log for random call sequences and whole programs.")

prop("C21", "Malicious-triple checking detects every corrupted multiplication",
     "With active security on, multiplications of honest parties succeed with the right result, and a multiplication whose correlated randomness was corrupted at any party, position and by any amount raises an error instead of returning a result. The check itself opens only masked values.",
     ["fault_sequences", "inputs"],
     "all positions, amounts and parties of corruption, operand shapes and party counts",
     "Tests never corrupt the randomness.",
     ["crypten/mpc/primitives/beaver.py"],
     [("sacrifice check", "crypten/mpc/primitives/beaver.py: __beaver_protocol")],
     ["outcome at every party under injected corruption"],
     "fault injection into tuple shares with a detection monitor",
     "Fault enumeration over corrupted component, party, position and amount (sampled); detection probability is 1-2^-63 for odd differences, amounts with large even factors are excluded as documented in DESIGN.md.",
     level="fault_enumeration")

prop("C22", "Random tensors are correctly distributed and agreed on",
     "Encrypted uniform, normal and Bernoulli sampling and dropout return one common tensor of the requested shape whose values lie in the promised range and follow the promised distribution, independent between elements, calls and sessions. Dropout keeps values scaled by the inverse keep probability and is the identity in evaluation mode.",
     ["inputs", "configurations"],
     "all shapes, probabilities, party counts and providers",
     "Tests check means with loose tolerances.",
     ["crypten/common/functions/sampling.py", "crypten/common/functions/dropout.py", MP, BI, "crypten/__init__.py"],
     [("random bits", MP + ": rand"), ("sampling", "crypten/common/functions/sampling.py"), ("dropout", "crypten/common/functions/dropout.py")],
     ["decrypted samples"],
     "statistical runtime monitor (distribution, independence, range)",
     "Exploration: goodness-of-fit tests with false-alarm rate below 1e-9, exact support checks.")

prop("C23", "Oblivious transfer delivers the chosen message only",
     "For every pair of messages, choice bit and batch size, the receiver of an oblivious transfer obtains exactly the message it chose, and what it received does not contain the other message in recoverable form; the sender's incoming messages do not depend on the choice in a recognisable way. Transfers are independent of each other.",
     ["inputs", "histories"],
     "all messages, choice vectors, batch sizes and sequences of transfers",
     "The transfer's test is not in the reliable suite and uses one batch.",
     ["crypten/mpc/primitives/ot/baseOT.py"],
     [("base transfer", "crypten/mpc/primitives/ot/baseOT.py")],
     ["received messages; wire payloads of both parties"],
     "runtime monitor on transfers, with wire-level search",
     "Exploration on random batches.")

prop("C24", "Split private training gives the right gradients and keeps labels private",
     "Training a plaintext model on one party against labels encrypted by another gives the model owner the gradients of the stated loss, up to fixed-point error plus exactly the configured noise, whichever protocol, source of noise and caching is configured; the label owner's data is not modified. Randomised response flips labels with the configured probability for plaintext and encrypted labels, and only the model owner obtains gradients.",
     ["inputs", "configurations"],
     "all models, batches, noise settings, response probabilities, parties in each role",
     "Tests use few roles and settings, never party 0 as noise source nor encrypted labels with response noise.",
     ["crypten/nn/privacy/dp_split.py"],
     [("split model", "crypten/nn/privacy/dp_split.py: DPSplitModel")],
     ["parameter gradients, labels, wire payloads"],
     "differential runtime monitor against plaintext gradients with statistical checks of the noise",
     "Exploration over roles and settings.")

prop("C25", "Validation mode catches wrong results and changes no right one",
     "With validation enabled, every supported operation whose result is right returns the same result as without it, and an operation with a plaintext counterpart (element-wise, reduction, shape, linear algebra) that returns a wrong value or shape raises an error on every party. Debug and validation settings never alter results.",
     ["inputs", "fault_sequences"],
     "all operations, inputs in range, and injected errors in results",
     "Tests try one wrong result.",
     ["crypten/debug/debug.py", "crypten/cryptensor.py", AR],
     [("validation of results", "crypten/debug/debug.py")],
     ["raised errors and results with injected faults"],
     "fault injection into operation results under validation mode",
     "Exploration with injected wrong results.", level="fault_enumeration")

prop("C26", "Launching and restarting parties returns every party's result in order",
     "Running a function over several parties returns each party's return value at that party's position, for every number of parties, provider and size of value, or reports failure when a party fails. Initialising, shutting down and initialising again works any number of times and starts with fresh, agreed random streams.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "all return values, party counts, providers, relative speeds, failing parties and sequences of start and stop",
     "Tests return small integers once; restarts are not tested.",
     ["crypten/mpc/context.py", "crypten/__init__.py", "crypten/communicator/distributed_communicator.py"],
     [("launcher", "crypten/mpc/context.py: run_multiprocess"), ("init/uninit", "crypten/__init__.py")],
     ["returned lists; outcome of restart histories"],
     "runtime monitor of launch and restart histories with injected delays and failures",
     "Exploration with delays, large values and failing parties.")

prop("C27", "Gradient recording follows the requested mode exactly",
     "A result is part of a differentiable computation exactly when recording was enabled at that point and one of its inputs requires gradients, for any nesting of the recording switches, also when a block ends by an exception; detached or gradient-free tensors never receive gradients. Backpropagation gives gradients only to leaves that require them and leaves the recording mode as it found it.",
     ["histories", "programs"],
     "all nestings of the switches, exceptions, detach and in-place operations, and graph shapes",
     "Tests check a single nesting.",
     ["crypten/cryptensor.py", "crypten/gradients.py"],
     [("recording mode", "crypten/cryptensor.py: no_grad, enable_grad, set_grad_enabled"), ("recording", "crypten/cryptensor.py: _get_autograd_forward_function")],
     ["requires-gradient flags, gradients and mode after every step"],
     "model-based runtime monitor of random mode/operation histories",
     "Exploration: random histories against a small reference model.")

CLAIMED = os.environ.get("CLAIMED")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note, level in P:
        if os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"],
                "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p["id"],
                "technique": tech, "level": level, "level_note": note, "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the instrumentation wraps torch.distributed and library entry points from outside at run time (vf/instrument.py)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
