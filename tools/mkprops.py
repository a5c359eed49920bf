#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
BR = "src/bristol_converter.rs"; BC = "src/bool_circuit.rs"; EV = "src/evaluator.rs"
INT = "src/circuits/arithmetic/int.rs"; LOG = "src/circuits/logic/mod.rs"; FP = "src/circuits/finite_field/mod.rs"

p("L01", "Loading does not depend on how the stream delivers the document",
  "Loading a well-formed circuit document (INV, XOR, AND, OR and EQW gates, EQ lines assigning the constant 0 or 1, any number of input and output groups, any wire numbering, LF or CRLF line ends, any spacing between fields) from a stream succeeds and gives a circuit whose inputs and outputs are the document's, in order, and which computes the function the document denotes, whatever buffer sizes, short reads and interrupted reads deliver it. The resulting circuit is equal to the one obtained from an undisturbed stream, and the load ends after a number of stream calls bounded by the document's length plus the number of interruptions.",
  ["inputs", "schedules", "fault_sequences"],
  "every well-formed document, every fragmentation of it into reads of one or more bytes, every buffer size, every placement of any number of interruptions",
  "The tests only read from in-memory slices that arrive whole and never fail; no test splits, interrupts or re-frames a document, and shipped documents are never checked against what they denote.",
  [BR], [("line and field splitting of the stream", BR + " BristolReader::read"), ("wire number to signal table", BR + " BristolReader::gate_of_wire")],
  ["the loaded circuit: evaluation, input/output counts, equality with the undisturbed load", "calls made on the stream"])

p("L02", "A stream failure while loading is reported and contained",
  "If the stream fails with anything but an interruption before the document's last gate line has been delivered, the load returns an I/O error of that kind: it never reports success, another kind of error, or panics, even when a later read would succeed. A load that fails, or is abandoned because the stream panics, registers no output, and every signal and output the circuit had before keeps evaluating to the same value.",
  ["inputs", "fault_sequences", "crash_points"],
  "every well-formed document, every byte position at which the stream fails, one-shot and permanent failures of every kind, panics of the stream, and circuits with any earlier content",
  "No test uses a stream that fails; error paths of the loader are never executed by the test suite.",
  [BR, BC], [("error propagation from each line read", BR + " BristolReader::read"), ("outputs are registered only after the last line", BR + " BristolReader::read")],
  ["result of the load", "evaluation and counts of the target circuit afterwards"])

p("L03", "A torn or damaged document never loads as a different circuit",
  "Loading any prefix of a well-formed document returns either an error or a circuit that computes the full document's function (except that a cut inside the letters EQW leaves an EQ line, which means another thing); loading never panics, and a failed load registers no output. When bytes of the document were altered the load still returns normally: a document that cannot be read (a line that is not text, a missing or non-numeric field, an unknown gate, an undefined wire) is refused, and one that is itself well formed loads as exactly the function it denotes.",
  ["inputs", "crash_points", "fault_sequences"],
  "every prefix of every well-formed document (a crash of the producer at any byte), and any alteration of its bytes that leaves the declared sizes bounded",
  "Every document the tests read is complete and undamaged.",
  [BR], [("checks of tokens, wires and outputs", BR + " BristolReader::read")],
  ["result of the load (success, error, panic)", "evaluation of the loaded circuit"])

p("L04", "Earlier loads never influence later loads, and loads only append",
  "One loader used for any sequence of loads, successful, failed or abandoned, into the same or different circuits, behaves in each load as a fresh loader would: same success or failure, same resulting function. A successful load into a circuit that already has content appends the document's inputs after the existing inputs and its outputs after the existing outputs, and leaves all earlier signals and outputs computing what they did.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of loads through one loader, with documents that are valid, torn, damaged or refer to wires they never define, and stream failures at any point of any of them",
  "Every test builds a new loader, performs one successful load into an empty circuit and discards both.",
  [BR], [("per-load wire table", BR + " BristolReader::gate_of_wire"), ("appending inputs and outputs to the target circuit", BR + " BristolReader::read")],
  ["result of each load compared with a fresh loader", "evaluation of the target circuits"],
  state=[("gate_of_wire", "signal of each wire of the document being loaded; kept in the loader object", BR)])

p("W01", "A written document denotes the circuit, however the sink takes the bytes",
  "Writing any circuit built from inputs, constants, not/xor/and/or gates and nested modules (with unused gates, constants anywhere, outputs that repeat, feed other gates, or are plain inputs or constants) and flushing the sink succeeds and leaves exactly one well-formed document with exact gate and wire counts, whose two input groups are the requested first size and the rest; with the returned constant values on its trailing inputs it computes the circuit's outputs, in order, for every input. The bytes are the same whatever buffer size, short writes and interruptions the sink presents, and loading them back gives the same function. An empty wire table passed to the write comes back with every input's and output's wire, each carrying that signal's value.",
  ["programs", "inputs", "schedules", "fault_sequences"],
  "every circuit, every requested size of the first input group, every buffer size and every pattern of short and interrupted writes",
  "The tests write four one-gate circuits and one module without constants to a memory buffer, and check only that they can be read back.",
  [BR, BC], [("flattening of modules into gate lines", BR + " BristolNXAOWriter::write_single_gate"), ("wire numbering with outputs last and constants as trailing inputs", BR + " BristolNXAOWriter::write, write_all_gates")],
  ["bytes received by the sink", "returned constant values"],
  state=[("num_wire, last_const_wire", "next free wire and next constant wire of the document being written", BR)])

p("W02", "A failing sink is always reported and never left with a misleading document",
  "If the sink fails or accepts no bytes while a document is being written or flushed, the write or the flush returns an I/O error: they never both report success and never panic. Whatever the sink received by then is a prefix of the document an undisturbed sink would have received, so a reader either rejects it or loads the same function.",
  ["programs", "fault_sequences", "crash_points"],
  "every circuit, every byte position and every sink call at which the sink fails (one-shot or permanently, by error or by accepting zero bytes), every buffer size",
  "No test uses a sink that fails.",
  [BR], [("error propagation from each sink call", BR + " BristolNXAOWriter::write, update_wire")],
  ["results of write and flush", "bytes received by the sink"])

p("W03", "Writing is repeatable and leaves the circuit and the writer usable",
  "After any sequence of writes through one writer, successful, failed or abandoned because the sink panicked, the circuit is unchanged, and the same writer given a healthy sink writes the same document and returns the same constants as a fresh writer would.",
  ["histories", "fault_sequences", "crash_points", "programs"],
  "every circuit, every sequence of write attempts with a sink failure or panic at any byte, and growth of the circuit between attempts",
  "Every test writes once with a fresh writer; the writer's state after a failure or a second write is never exercised.",
  [BR], [("per-write state is reset or restored", BR + " BristolNXAOWriter::write, write_single_gate (Module)")],
  ["bytes and constants of each attempt compared with a fresh writer", "evaluation and counts of the circuit"],
  state=[("c_ref", "circuit the writer is positioned on; switched while descending into a module", BR), ("num_wire", "next free wire", BR)])

p("E01", "Circuits survive chains of exports and imports over crash-prone storage",
  "A client that exports a circuit to storage, retries failed attempts, trusts an export only once its write and flush were acknowledged, and imports it again after crashes that lose every byte not yet acknowledged, obtains after any number of generations a circuit that computes the original outputs. What an unacknowledged export left in storage is either rejected by the import or computes that same function (unless the cut falls inside the letters EQW, leaving an EQ line), and once faults stop one attempt succeeds.",
  ["histories", "fault_sequences", "crash_points", "programs"],
  "every circuit, every chain of generations, and every sequence of storage faults: short, interrupted, failed, zero-length and torn writes, crashes, short, interrupted and failed reads",
  "No test goes through export and import more than once, and none through storage that fails.",
  [BR, EV, BC], [("exporter", BR + " BristolNXAOWriter"), ("importer", BR + " BristolReader"), ("evaluation", EV)],
  ["function of each imported generation", "results of every export and import attempt"])

p("S01", "Interleaved clients of one circuit never disturb each other",
  "Several clients add inputs, constants, gates, modules and outputs to shared circuits through their own handles in any interleaving; every signal handed to a client is new and computes, from then on, exactly what that client defined. Inputs and outputs are numbered in order of registration, reported numbers of inputs, outputs, constants and gates grow by exactly what was added, copies of a circuit are independent of the original, and a rejected request or a client that goes away changes nothing.",
  ["schedules", "histories", "programs"],
  "every set of client programs and every interleaving of their requests, including rejected requests, copies of the circuit and clients dropped at any point",
  "The tests build one tiny circuit each from a single handle in straight-line code and look only at the number of inputs and outputs.",
  [BC, "src/gates.rs"], [("shared handle", BC + " BoolCircuitRef"), ("signal numbering", BC + " NXAOBoolCircuit::add_gate"), ("input and output tables", BC + " input, output"), ("size counters", BC + " num_gate, num_const, num_wire")],
  ["signal ids, counts and errors returned by each request", "evaluation of every signal at the end"],
  state=[("gate_index", "next signal id", BC), ("input_map, output_map", "registration order", BC)])

p("S02", "Evaluation reflects exactly the current circuit at any point of a history",
  "At any point of any history of building and evaluating, through an evaluator made at any earlier time, evaluating returns every registered output's value for the given inputs, also when an output is a plain input or constant, is registered several times, or feeds other gates. Evaluation changes nothing observable, gives the same answer when repeated, and reports an input vector whose length does not match the circuit's current inputs as an error.",
  ["histories", "schedules", "inputs"],
  "every history of building, output registration and evaluation by several clients, and every input vector, including vectors prepared before another client added inputs",
  "Tests evaluate finished circuits whose outputs feed nothing, once each, from a fresh evaluator.",
  [EV, BC], [("memoised evaluation that discards values once all dependents were served", EV + " eval_single_gate"), ("dependence counts", BC + " gate_dependence_map"), ("input length check", EV + " eval_output")],
  ["result of each evaluation", "circuit equality before and after"],
  state=[("num_depend_map", "dependents of a value still to be served", EV)])

p("S03", "Modules used by many clients behave as independent copies",
  "Clients define sub-circuits, register them as modules in the same or separate stores, and instantiate them in any interleaving and nesting; each instance computes the module's function of its own arguments, whichever of its outputs are used, and module ids are never reused within a store. Instantiating a module whose outputs are its inputs or constants works like any other, the instantiating circuit's reported sizes grow by the module's, an unknown module is rejected without effect, and circuits that share no module never influence each other.",
  ["schedules", "histories", "programs"],
  "every interleaving of definitions, registrations and instantiations by several clients, module nesting, repeated arguments, and modules of every shape",
  "One test instantiates one one-gate module once, with one output.",
  [BC, EV, BR], [("module store shared between circuits", BC + " ModuleStorageRef, ModuleStorage"), ("instances", BC + " NXAOBoolCircuit::module"), ("evaluation and flattening of instances", EV + " eval_single_gate (Module); " + BR + " write_single_gate (Module)")],
  ["ids and errors returned", "evaluation of instances and, through export, the flattened document"],
  state=[("module_map, num_module", "modules by id, next id", BC)])

p("S04", "Integer clients sharing a circuit each get their own arithmetic",
  "Clients doing fixed-width integer arithmetic in a shared circuit, in any interleaving with each other and with other clients, each get the two's-complement result of their own operands modulo 2^width for addition, subtraction, multiplication, negation, left and sign-preserving right shift by any amount, the exact double-width product from the extended multiplier, and exact equality and inequality. Less, less-or-equal, larger and larger-or-equal compare as signed numbers for all operands, and every constant that fits the width is represented exactly.",
  ["schedules", "inputs", "programs"],
  "every interleaving of several clients' operation sequences (also inside modules), every width, and all operand values",
  "Tests sample one random algebraic identity at one width, from one client in an empty circuit.",
  [INT, BC], [("gadget modules shared through the configuration", INT + " AllocIntConfig, build_*_circuit"), ("operators", INT + " impl Add/Sub/Mul/Neg for AllocInt, shift_left, shift_right")],
  ["evaluation of each client's results against machine arithmetic"])

p("S05", "Bit-vector clients sharing a circuit each get their own results",
  "Clients doing bit-vector operations in a shared circuit, in any interleaving with each other and with other clients, each get the bitwise not, and, or and xor of their own operands, exact equality and inequality, and a selection that yields the second vector where the select bit is true and the first where it is false; shorter vectors are padded with zeros at the top.",
  ["schedules", "inputs", "programs"],
  "every interleaving of several clients' operation sequences, every width, and all operand values",
  "Tests run each operator once at one width in an empty circuit; selection, equality, inequality, padding and in-place operators are never tested.",
  [LOG, BC], [("gadget modules shared through the configuration", LOG + " AllocBitsConfig, build_*_circuit"), ("operators", LOG + " impl Not/BitAnd/BitOr/BitXor and assigning forms, mux")],
  ["evaluation of each client's results"])

p("S06", "Prime-field clients sharing a circuit each get their own field results",
  "Clients doing prime-field arithmetic in a shared circuit, in any interleaving with each other and with other clients, each get from reduced operands (width at least two bits more than the modulus for sums, two bits more than twice the Montgomery radius for products) the reduced sum, difference, negation and product modulo the prime, and exact equality and inequality; the constant a configuration prepares for reductions is the negated inverse of the prime modulo its radius.",
  ["schedules", "inputs", "programs"],
  "every interleaving of several clients' operation sequences, every odd prime that fits, and all reduced operands",
  "The only test compares two expressions that are both always zero, because products are constantly zero today, and never compares a result with field arithmetic.",
  [FP, INT], [("field modules", FP + " AllocFpConfig::build_add_circuit, build_sub_circuit, build_mul_circuit, build_mont_red"), ("operators", FP + " impl Add/Sub/Mul/Neg for AllocFp")],
  ["evaluation of each client's results against modular arithmetic"])

p("S07", "Shipped circuits work unchanged inside any shared circuit",
  "Adding a shipped circuit (64-bit add, subtract, negate, multiply, signed and unsigned divide, AES-128) to a circuit with any content, between any other clients' requests and any number of times, appends its inputs and outputs after the existing ones and computes the named function of those inputs: wrapping machine arithmetic for non-zero divisors, and FIPS-197 encryption in the document's bit order. Everything already in the circuit keeps computing what it did.",
  ["histories", "schedules", "inputs"],
  "every history into which the shipped circuits are added, every interleaving with other clients, and all operands, keys and messages",
  "Tests evaluate only add, negate and multiply with all-zero or all-one operands and check symmetry; AES is only checked not to fail; subtract and divide are never run.",
  ["src/circuits/arithmetic/mod.rs", "src/circuits/cryptography/mod.rs", "src/circuits/mod.rs", BR], [("documents embedded in the library", "src/circuits/mod.rs build_circuit_from_bristol"), ("loader", BR + " BristolReader::read")],
  ["evaluation of the appended outputs against machine arithmetic and an independent AES"])

p("S08", "Streams may use the circuit while a load or write is waiting in them",
  "While a load or a write is waiting in a stream call, other clients may read, extend, evaluate, load into and write the same circuit, and none of these requests is refused or panics. The load still denotes its document, the finished write denotes the circuit as it was when the write was requested, and everything the other clients did meanwhile holds.",
  ["schedules", "histories", "crash_points"],
  "every placement of other clients' requests inside the stream calls of a load or write, including nested loads and writes, with and without stream faults",
  "No test's stream does anything but copy bytes.",
  [BR, BC], [("no exclusive access is held across stream calls", BR + " BristolReader::read, BristolNXAOWriter::write"), ("shared handle", BC + " BoolCircuitRef")],
  ["results of the nested requests", "evaluation and documents afterwards"])

p("H01", "Results do not depend on the process's random hash seed",
  "The same sequence of requests (building, modules, loads, writes, evaluations, failures included) gives the same signal and module ids, counts, errors, evaluation results and document bytes in every process, whatever random seed the process's hash tables use.",
  ["schedules", "histories", "configurations"],
  "every history of requests and every pair of hash seeds",
  "Each test runs under whatever seed the process drew, and none compares two runs.",
  [BC, EV, BR], [("tables are only looked up, never walked in hash order", BC + ", " + EV + ", " + BR + " HashMap fields")],
  ["event log of the whole history under two or more hash seeds"])

p("D01", "Circuits of any depth work on a thread with an ordinary stack",
  "A circuit may be any number of gates deep: chains of gates, chains of module instances and loaded documents are built, loaded, copied, evaluated and written on a thread with an ordinary stack, or a small one of a few hundred kilobytes, without exhausting it, and with the same results as on a large stack. (The depth to which modules contain modules may be limited by the stack.)",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every depth, every order of building, loading, copying, evaluating and writing, every stack size down to 256 KB, with stream faults in loads and writes",
  "The tests run on small circuits; only the shipped multiplier and AES are deep, and they are run on whatever stack the test thread has.",
  [EV, BR, BC, "src/gates.rs"], [("gates below an output are evaluated from an explicit stack", EV + " NXAOBoolEvaluator::eval_single_gate"), ("gates below an output are written from an explicit stack", BR + " BristolNXAOWriter::write_single_gate")],
  ["whether the process survives", "evaluation, documents and counts afterwards"])

p("R01", "Requests that name what does not exist are refused and change nothing",
  "A gate or output over signals the circuit does not have, an instance of an unknown module or with another number of arguments than the module takes, and a look-up of an input, output, gate or module that does not exist are each answered with an error, at any point of any history and through any handle. The circuit, the store and all other clients are as they were before the request, and later requests get the signals and numbers they would have got without it.",
  ["histories", "schedules", "inputs"],
  "every history of several clients, every placement of unacceptable requests in it (also while a load or write waits in a stream), every unknown number, and every kind of request",
  "No test makes a request the library should refuse.",
  [BC, "src/gates.rs"], [("signals are looked up before a gate is added", BC + " NXAOBoolCircuit::not, and, xor, or, output"), ("modules are looked up and their inputs counted", BC + " NXAOBoolCircuit::module"), ("look-ups by number", BC + " get_input_gate_id, get_output_gate_id, get_gate, ModuleStorageRef::get_module")],
  ["result of each request", "counts, circuit equality and evaluation afterwards"])

p("V01", "Values handed from client to client as bytes or hexadecimal keep their bits",
  "A client that packs signal values into bytes (either bit order; bits that do not fill the last byte are completed with zeros) or hexadecimal text and stores them, and another that reads and unpacks them, agree on every bit, in the stated order, and a circuit evaluated on the unpacked bits gives what it gives on the originals. Text cut by a crash unpacks to a prefix of the bytes or is rejected, text that is not hexadecimal is rejected, and neither direction panics.",
  ["inputs", "histories", "fault_sequences", "crash_points"],
  "every bit string, byte string and text, both bit orders, every short, interrupted, failed and torn transfer between the two clients, and every circuit the values come from or go to",
  "Tests try one random 4-byte string per conversion and never a number of bits that is not a multiple of eight, or text that is damaged.",
  ["src/utils.rs", EV], [("conversions", "src/utils.rs bits2bytes_*, bytes2bits_*, bytes2hex, hex2bytes")],
  ["bytes and text produced, bits recovered", "evaluation on the recovered bits"])

p("Q01", "A circuit reads back gate by gate as it was built",
  "At any point of any history, reading a circuit gate by gate gives what was built: every signal's gate is of the requested kind over the requested signals, an instance names its module, arguments and position among the module's outputs, constants are listed in the order they were made, and a signal's listed dependents are the gates that use it, once for each place it takes in them. Registered modules read back as the circuits registered, copies of a circuit are equal while they get the same requests and unequal once one of them has got an input, constant, gate or output more, or another one, and reading changes nothing.",
  ["histories", "schedules", "programs"],
  "every set of client programs, every interleaving with readers at any point (also while a load or write waits in a stream), with loads that fail, rejected requests, copies and clients that vanish",
  "No test reads a gate, a dependent, a constant listing or a module back, or compares circuits.",
  [BC, "src/gates.rs"], [("gates and their dependents", BC + " NXAOBoolCircuit::add_gate, add_dependence, get_gate, get_depended_gates"), ("constants", BC + " NXAOBoolCircuit::constant, get_const_gates"), ("modules", BC + " NXAOBoolCircuit::module, get_module, ModuleStorage"), ("equality", BC + " PartialEq for NXAOBoolCircuit")],
  ["gates, dependents, constants and modules as read", "equality of copies", "counts afterwards"])

p("Z01", "Large circuits work like small ones",
  "No size in reach of memory makes a difference: circuits with hundreds of thousands of inputs, outputs, constants, gates, gates over one signal or module instances, stores with as many modules, modules and documents with as many inputs, outputs, input or output groups and gates are built, numbered, read back, loaded, written, handed on and evaluated as small ones are. Every input, output, signal and module keeps its own number, and every output its own function.",
  ["inputs", "histories", "fault_sequences"],
  "every size (below and beyond 2^8, 2^15, 2^16 and 2^17) of each kind of thing and every order of requests, with stream faults in loads and writes",
  "The tests' circuits have a few hundred inputs and outputs and a handful of modules; only the shipped AES has tens of thousands of gates.",
  [BC, EV, BR, "src/gates.rs"], [("numbers of inputs, outputs, signals and modules", BC + " NXAOBoolCircuit::input, output, add_gate, ModuleStorage::register_module"), ("values by number", EV + " NXAOBoolEvaluator"), ("wire numbers", BR + " BristolReader::read, BristolNXAOWriter::write")],
  ["ids, counts and look-ups", "documents written and what they denote", "evaluation results"])

p("G01", "Loader, shipped circuits and front ends work over any circuit implementation",
  "The loader, the shipped circuits and the integer, bit-vector and field front ends work over any implementation of the circuit interface, whatever identifiers it gives to signals and modules, and build there what they build in the library's own circuit. If the implementation refuses a request, the operation that made it reports exactly that error: it never reports success, and never panics unless it is an operator or made of operators (field configurations), and a load that ends so registers no output unless the refused request was itself an output. Requests made before and afterwards, by the same and other clients, keep their meaning.",
  ["inputs", "histories", "fault_sequences"],
  "every implementation (choice of identifiers, own or the library's module store), every request refused, once or from then on, with any error or with a panic, and every order of requests, with stream faults in loads",
  "Every test uses the one implementation of the repository, which numbers signals consecutively and refuses no request of a test.",
  [BC, BR, "src/circuits/"], [("requests of the loader", BR + " BristolReader::read"), ("handle", BC + " BoolCircuitRef"), ("front ends", "src/circuits/arithmetic/int.rs, src/circuits/logic/mod.rs, src/circuits/finite_field/mod.rs"), ("module store", BC + " ModuleStorageRef")],
  ["errors and results of operations", "signals built in the other implementation", "answers of the handle"])

p("M01", "Requests hold on to no memory and take it in proportion to the circuit",
  "Evaluating, writing and loading allocate memory (counting what is given back on the way) at most in proportion to the size of the circuit, modules counted as often as they are instantiated, or of the document, however gates share operands and modules nest. Evaluating, writing, loading into a circuit that is dropped, copying and asking, whether successful, refused, failed or abandoned in a stream's panic, leave no memory behind once their results are dropped, however often they are repeated.",
  ["inputs", "histories", "fault_sequences"],
  "every circuit, every repetition of requests through own or kept evaluators, readers and writers, every piece size and every point at which a stream interrupts, fails or panics",
  "No test repeats a request or looks at memory.",
  [EV, BR, BC], [("evaluation", EV + " NXAOBoolEvaluator::eval_output, eval_gate"), ("loading", BR + " BristolReader::read"), ("writing", BR + " BristolNXAOWriter::write"), ("handles and stores", BC + " BoolCircuitRef, ModuleStorageRef")],
  ["bytes allocated during a request", "bytes held between repetitions"])

p("U02", "The extended Euclid helper returns Bezout coefficients of the gcd",
  "For every pair of integers the helper returns x, y, d with a*x + b*y = d, where d divides both numbers and is the greatest common divisor up to sign.",
  ["inputs"], "every pair of integers of any size and sign",
  "One pair of small positive integers is tested.",
  ["src/utils.rs"], [("recursion", "src/utils.rs ext_gcd")], ["return values"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
