SC = "spec/mem/concurrent.md"; SB = "spec/mem/basic.md"; SM = "spec/lang/machine.md"
SUMM = "The 471 tests run a few hundred fixed programs"
P("P01", "Every memory access is live, in bounds, aligned and by provenance",
  "A load, store or dereferenceability assertion succeeds if and only if it has size zero, or its pointer's provenance names a live allocation that contains the whole accessed range; loads and stores additionally need a sufficiently aligned address. "
  "A successful store replaces exactly the addressed bytes, a load changes nothing, and an allocation can be freed only once, at its start, with its own kind, size and alignment.",
  ["programs", "inputs"], "every memory state, pointer (address and provenance), length, alignment and contents reachable in any program",
  SUMM + " with concrete addresses; each hits one combination of provenance, offset, size and liveness, not every one.",
  [SB], [("check_ptr", "spec/mem/basic.md: BasicMemory::check_ptr"), ("load/store/deallocate", "spec/mem/basic.md: impl Memory for BasicMemory")])
P("P02", "Fresh allocations are disjoint, aligned, in range and uninitialized",
  "Every allocation gets a new identity and an address range that is non-null, aligned, inside the address space and disjoint from all live allocations (zero-sized ones excepted from overlapping only), with uninitialized contents. "
  "Conversely every address meeting these conditions can be chosen.",
  ["programs", "schedules"], "every heap state, requested size and alignment, and every nondeterministic choice of the address",
  "Tests sample one random base address per allocation and cannot show that a forbidden address is never chosen nor that an allowed one may be.",
  [SB], [("allocate", "spec/mem/basic.md: BasicMemory::allocate")])
P("P03", "A program stops normally only if no heap memory leaked",
  "When a program exits, it is reported as leaking if and only if some heap allocation is still live (other kinds of allocation never count). A normal stop is reported on no other route than a successful exit check.",
  ["programs", "histories"], "every history of allocations and deallocations of every kind followed by exit",
  "Tests check a handful of leaking and non-leaking programs.",
  [SB, "spec/lang/step/intrinsics.md"], [("leak check", "spec/mem/basic.md: leak_check"), ("exit", "spec/lang/step/intrinsics.md: Machine::exit")])
P("P04", "Conflicting unsynchronized accesses in adjacent steps are a data race",
  "Two consecutive steps are reported as a data race if and only if the second step's thread was not synchronized by the first step and some access of each overlap in memory, at least one being a store and at least one being non-atomic. "
  "Every load and store a step performs is recorded with its own address, length, kind and atomicity, and exactly the atomic operations access memory atomically.",
  ["schedules", "programs"], "every pair of adjacent steps of every interleaving of every program",
  "Tests look for races in random schedules of ~10 programs; they neither cover all access pairs nor show race-free programs are never accused.",
  [SC, "spec/lang/step/intrinsics.md", "spec/lang/step/expressions.md"], [("check_data_races", SC + ": ConcurrentMemory::check_data_races"), ("recording", SC + ": ConcurrentMemory::{load,store}")])
P("P05", "Synchronization excuses a race only for the very next step",
  "Accesses are compared with exactly those of the immediately preceding step, and a thread is exempt only if that preceding step itself spawned it, handed it a lock, released it from a join, or was executed by that same thread. "
  "No earlier synchronization exempts a later step.",
  ["schedules", "histories"], "every interleaving, including threads synchronized arbitrarily long ago",
  "A stale exemption only hides races: tests that find some racy order still pass (this is in fact broken, see known-findings.txt).",
  [SM, SC], [("reset_data_race_tracking", SM), ("step", SM)])
P("P06", "Only enabled threads run; deadlock iff none; joiners wake exactly on exit",
  "Each step runs a thread chosen among exactly the enabled ones, executing the instruction at that thread's program counter, and a deadlock is reported if and only if no thread is enabled. "
  "New threads start enabled at a given function, joining blocks until (and only until) the joined thread terminates, and a terminating thread wakes exactly the threads waiting for it and synchronizes with exactly those. The main thread may not terminate by returning.",
  ["schedules", "histories"], "every thread state vector and every scheduling decision",
  "Random schedules of a dozen programs do not cover the thread-state combinations.",
  [SM, "spec/lang/step/terminators.md", "spec/lang/step/intrinsics.md"], [("step", SM + ": Machine::step"), ("terminate", "spec/lang/step/terminators.md: terminate_active_thread"), ("join", "spec/lang/step/intrinsics.md: join")])
P("P07", "Locks: exclusive ownership, owner-only release, hand-over to one waiter",
  "A lock is held by at most the one thread that acquired it; acquiring a held lock blocks the acquirer, and only the holder may release it. Releasing hands the lock to exactly one thread, chosen among exactly those waiting for this lock, which becomes enabled and synchronized; with no waiters the lock becomes free.",
  ["schedules", "histories"], "every lock/thread state and every choice of the next owner",
  "Tests exercise two threads on one lock under random schedules.",
  ["spec/lang/step/locks.md"], [("lock operations", "spec/lang/step/locks.md: lock_acquire, lock_release")])

TBM = "spec/mem/tree_borrows/"
P("P08", "Tree Borrows permissions follow the published state machine exactly",
  "Every access moves a node's permission, given its state, protector, whether it was accessed before, and whether the access is local or foreign, read or write, to exactly the state the Tree Borrows tables prescribe, or is undefined behaviour exactly where they say so. "
  "Likewise for the permissions new pointers start with, the effect of releasing a protector, and the vetoes of protected deallocation.",
  ["programs", "histories"], "every permission, protector, access kind and node relation",
  "Tests reach only some table entries, and a wrong entry that merely permits more is invisible to them.",
  [TBM + "state_machine.md"], [("transitions", TBM + "state_machine.md: Permission::transition")])
P("P09", "Every access visits every node of the borrow tree with its true relation",
  "A load, store, deallocation or reborrow performs its access on every node of the allocation's tree exactly once per byte, as local for the accessed node and its ancestors and foreign for all others, before memory changes. "
  "Deallocation is refused while any strongly protected node was accessed.",
  ["programs", "histories"], "every tree shape, accessed node, byte range and memory operation",
  "Tests build trees of a few nodes; relations between distant nodes and bytes are not sampled.",
  [TBM + "tree.md", TBM + "memory.md"], [("tree access", TBM + "tree.md: Node::access"), ("memory operations", TBM + "memory.md")])
TBT = "decision tables over the specification's MIR (step-wise path summaries: result, state left behind, steps taken, refusals)"
ST = "spec/lang/step/"
P("P10", "A retag gives exactly the permissions its type asks for, on exactly its bytes",
  "Retagging a reference or Box (other than a mutable reference to a type that is not Unpin) checks that its pointee is dereferenceable and then gives the pointer a fresh child of its tag; every other pointer is returned unchanged, and so is a zero-sized one without provenance. "
  "Each byte gets the permission and protector prescribed for its kind of pointer, for function entry, and for whether the byte lies inside an UnsafeCell, bytes outside the pointee those of the whole pointee's freeze status; the bytes whose permission asks for it are read. No pointer that passes the check crashes the interpreter.",
  ["programs", "histories"], "every pointer, pointer type, pointee layout (including unsized ones), unsafe-cell pattern and function-entry flag",
  SUMM + "; wrong permissions that only permit more are invisible to them, and UnsafeCell patterns are barely sampled.",
  [TBM + "memory.md", TBM + "reborrow_settings.md"], [("reborrow", TBM + "memory.md: TreeBorrowsMemory::reborrow"), ("settings", TBM + "reborrow_settings.md: ReborrowSettings::new")], tech=TBT)
P("P11", "Protectors last for exactly one call; their end performs the right accesses",
  "Every protected retag is recorded with the call it happened in, and when that call ends each of its protectors is released exactly once if the allocation is still live. "
  "Releasing it stops the protection of that very node and performs, on each byte the node accessed, the read or write its permission prescribes on all other nodes, except on the node's children.",
  ["programs", "histories"], "every call, set of protectors and tree at the time of return",
  "Tests return from a few functions with one or two references each.",
  [TBM + "memory.md", TBM + "tree.md"], [("end_call", TBM + "memory.md: end_call, release_protector"), ("release", TBM + "tree.md: Node::release_protector")], tech=TBT)
P("P12", "A call checks its ABI and passes every argument by value or in place, or is UB",
  "A call succeeds if and only if the callee's address is that of a function, the calling conventions and the number of arguments agree, every argument and the return type are ABI-compatible, and every operand evaluates; function and vtable pointers are resolved by address alone. "
  "The new frame has its arguments stored (retagged) in fresh locals, its return place and next/unwind blocks as given; places passed in place are made inaccessible to the caller.",
  ["programs"], "every caller, callee, argument list, pair of types and pointer value",
  SUMM + "; each wrong combination of ABI, argument count or types needs its own test.",
  [ST + "terminators.md"], [("call", ST + "terminators.md: eval_call, create_frame, check_abi_compatibility")], tech=TBT)
P("P13", "The machine starts with every global in place and the start function running",
  "A new machine exists only for a well-formed program. Every global has an allocation of its own of the declared size and alignment holding its bytes (with None as uninitialized) and, at the offset of each relocation, the pointer to the named global plus the offset; every function and vtable has an address of its own; "
  "no lock exists, nothing is exposed, and there is exactly one thread: enabled, at the start of the start function, with no arguments.",
  ["programs"], "every program: any set of globals with any bytes and relocations, functions and vtables",
  "Tests use a few globals with at most one relocation each.",
  [SM], [("initial state", SM + ": Machine::new, new_thread")], tech=TBT)
P("P14", "A value is accepted at a type exactly if it is valid there",
  "A value of every kind is accepted at a type if and only if it has the shape of that type, its integers are in range, its discriminants exist, its fields are valid, and its pointers are valid for their pointer type: safe pointers have a dereferenceable, aligned, inhabited pointee of their own size, function and vtable pointers point to a function or to a vtable of the right trait, and the metadata is of the right kind and within bounds.",
  ["programs", "inputs"], "every value, type, pointer type, memory state and vtable",
  SUMM + "; validity has one requirement per type former and pointer kind and any one of them could silently be dropped.",
  ["spec/lang/representation.md", "spec/lang/machine.md"], [("validity", "spec/lang/representation.md: Machine::check_value, check_ptr")], tech=TBT)
P("P15", "Values and bytes are converted exactly as the type's representation says",
  "For every type, decoding takes the bytes of each part from that part's position only and fails exactly on uninitialized, out-of-range or mixed contents; encoding puts each part at its position and leaves all other bytes uninitialized. Discriminators and taggers are followed exactly. "
  "A typed store writes the encoding of a value that was checked to be valid; a typed load is undefined behaviour exactly if the bytes decode to nothing or to an invalid value; a transmute requires equal sizes and goes through the bytes.",
  ["programs", "inputs"], "every type and every byte list or value of it",
  "Tests convert a few values of a few types; padding, provenance and partially initialized bytes are hardly sampled.",
  ["spec/lang/representation.md"], [("representation", "spec/lang/representation.md: Type::{encode, decode}"), ("typed accesses", "spec/lang/representation.md: typed_load, typed_store")], tech=TBT,
  note="The byte order of integers (encode/decode of Endianness) lies outside this repository, in libspecr; the laws the specification states about encode and decode together (round trips, monotonicity) are P48.")
P("P16", "The definedness order relates exactly the values it is documented to relate",
  "A byte, pointer, value or list is less defined than another exactly if it arises from the other by forgetting initializedness or provenance of bytes and provenance of pointers, in any of its parts, and None is less defined than anything.",
  ["inputs"], "every pair of bytes, pointers, values and lists of them",
  "No test uses the relation; it is the yardstick for transformations of programs and for the laws of representations.",
  ["spec/lang/representation.md"], [("order", "spec/lang/representation.md: DefinedRelation")], tech=TBT)
P("P17", "Operators compute the documented result or are UB exactly where documented",
  "Every unary, binary, relational, pointer and cast operator yields, for operands of the kinds it accepts, the mathematically exact result brought into the range of its type, and is undefined behaviour exactly for division by zero, overflow of division, of exact and of unchecked arithmetic, out-of-range shifts, and pointer arithmetic that leaves its allocation or is mismatched. "
  "Comparisons of pointers order by address, then metadata.",
  ["inputs"], "every operator, operand value, integer type and pointer",
  "Tests compute a few values per operator; boundary cases of each width and signedness are not enumerated.",
  [ST + "operators.md"], [("operators", ST + "operators.md: eval_un_op, eval_bin_op, eval_int_bin_op, eval_cast_op")], tech=TBT)
P("P18", "Expressions evaluate their parts once, in order, with all checks, and no others",
  "Evaluating any value or place expression evaluates exactly its subexpressions, left to right, and combines them as its kind says: loads require a valid aligned place and check and retag what they read; field, index and downcast projections move by exactly the declared offset and stay in bounds; address-of retags according to the target pointer type; constants denote the value or address they name; a dereference takes the pointer's own address and metadata.",
  ["programs"], "every expression over every machine state",
  SUMM + "; a dropped check only shows on a program that violates it.",
  [ST + "expressions.md"], [("expressions", ST + "expressions.md: eval_value, eval_place")], tech=TBT)
P("P19", "Statements change exactly what they say, and storage has stack discipline",
  "An assignment evaluates its place, then its value, and stores exactly there; setting a discriminant, validating, deinitializing and exposing do exactly what they are documented to. Storage-live frees an earlier storage of the local, if any, and gives it fresh memory of its type's size and alignment; storage-dead frees it, if it is live.",
  ["programs"], "every statement over every machine state and frame",
  SUMM + ".",
  [ST + "statements.md"], [("statements", ST + "statements.md: eval_statement, storage_live, storage_dead")], tech=TBT)
P("P20", "Control goes to exactly the block the terminator names; unwinding is disciplined",
  "Every terminator goes to the one block it selects, in a frame of which everything else stays as it is, and is undefined behaviour exactly if there is none. Return checks and copies out the return value, ends the call for the borrow tracker, frees all live locals and continues in the caller. "
  "Starting, catching and resuming an unwind keep the stack of payloads in step and never unwind out of the bottom of a stack.",
  ["programs", "histories"], "every terminator over every stack, switch value and stack of payloads",
  SUMM + "; few of them unwind through more than one frame.",
  [ST + "terminators.md", SM], [("terminators", ST + "terminators.md: eval_terminator"), ("jump", SM + ": jump_to_block")], tech=TBT)
P("P21", "Every name a well-formed program uses is declared",
  "In a program that is accepted, every name of a block, local, function, global, vtable, trait or trait method that any of its constants, expressions, statements, terminators, functions, vtables or relocations uses is declared, in the function or program it is looked up in. An undeclared name makes the program ill-formed; it never crashes the interpreter.",
  ["programs"], "every use of a name in every program",
  "There are thirty kinds of uses; the tests try an undeclared name at some of them (two are in fact unchecked, see known-findings.txt).",
  ["spec/lang/well-formed.md", "spec/lang/syntax.md"], [("checks", "spec/lang/well-formed.md: check_wf"), ("names", "spec/lang/syntax.md")], tech="dataflow query: every name-typed field of the syntax types must be looked up on every accepted path of its check (from the type definitions and MIR path summaries)")
P("P22", "Every intrinsic has its documented effect and rejects every other use",
  "Each intrinsic accepts exactly the argument count and types documented for it, is undefined behaviour on all others, and has exactly its documented effect and result: allocation and deallocation, printing and exit, spawning and joining threads, the atomic operations (which require a size the target supports), locks, pointer exposure and raw equality.",
  ["programs"], "every intrinsic with every list of arguments and return type",
  SUMM + "; argument-type errors have one test for some of the intrinsics.",
  [ST + "intrinsics.md"], [("intrinsics", ST + "intrinsics.md: eval_intrinsic")], tech=TBT)
P("P23", "Only well-formed types, layouts and discriminators are accepted",
  "A type is accepted exactly if every requirement documented for its kind holds: sizes are valid for the target and multiples of the alignment, fields lie inside, in order and without overlap (unions excepted), array lengths and enum discriminants are in range, discriminators read inside the type and name existing variants, taggers write inside, and pointee information is consistent.",
  ["programs", "inputs"], "every type, nested to any depth",
  "About twenty ill-formed types are tested, of an unbounded number of ways for a type to be wrong.",
  ["spec/lang/well-formed.md"], [("types", "spec/lang/well-formed.md: Type::check_wf")], tech=TBT)
P("P24", "Only well-formed functions and programs are accepted",
  "A program runs only if each of its functions, globals, vtables and its start function satisfies every documented requirement: places and values have the types their use demands, block names exist and have the kind their use demands (regular, cleanup, catch, terminate), storage statements leave arguments and return local alone, relocations fit inside their global, and vtables implement exactly the methods of their trait.",
  ["programs"], "every statement, terminator, function and program",
  "About a hundred ill-formed programs are tested; each requirement could be dropped for one kind of statement or terminator without any of them noticing.",
  ["spec/lang/well-formed.md"], [("program", "spec/lang/well-formed.md: Program::check_wf, Function::check_wf, Statement::check_wf, Terminator::check_wf")], tech=TBT,
  note="The table states what the code requires; requirements that the code as it stands does not make (for instance on the methods a vtable lists, see DESIGN.md) are not part of the property.")
P("P25", "Sizes, alignments and metadata of types are computed exactly",
  "The size, alignment, layout strategy and pointer metadata kind of every type follow from its parts as documented: arrays multiply, tuples and unions keep their declared layout, slices and trait objects take length and vtable into account, an unsized tail is placed at the next aligned offset (capped by packing), and the size of the whole is rounded up to its alignment. The target's pointer size, endianness and maximal alignments are those of x86_64.",
  ["programs", "inputs"], "every type and every metadata value",
  "Tests compute a handful of layouts; unsized tails with every combination of packing and alignment are not among them.",
  ["spec/lang/types.md", "spec/prelude/target.md", "spec/mem/pointer.md"], [("layout", "spec/lang/types.md: Type::layout"), ("unsized", "spec/mem/pointer.md: LayoutStrategy::compute_size_and_align")], tech=TBT)
P("P26", "Exposed provenance is only what was exposed; memory wrappers add nothing else",
  "An integer cast to a pointer gets no provenance or one that was exposed before, chosen among all of those; exposing adds exactly the provenance of the pointer. The concurrent memory forwards every operation to the underlying memory exactly once with the same arguments (recording loads and stores), deinitialization is a store of uninitialized bytes, a negative-size dereferenceability check covers the bytes before the pointer, and the basic memory ignores everything about retags and calls.",
  ["programs", "schedules"], "every pointer, set of exposed provenances and memory operation",
  "Tests cast a few pointers; every choice of provenance at each cast is not explored.",
  ["spec/mem/intptrcast.md", SC, SB, "spec/mem/interface.md"], [("int2ptr", "spec/mem/intptrcast.md: IntPtrCast"), ("wrapper", SC + ": ConcurrentMemory")], tech=TBT)
P("P27", "Only well-typed expressions are accepted, and each has exactly one type",
  "Every constant, value, place and argument expression is accepted exactly if its parts are and have the types its kind demands, fields, variants and local names exist, offsets and indices use the required integer types, and loads and address-of use types of known size or matching metadata; the type it is given is the one its parts determine.",
  ["programs"], "every expression, nested to any depth",
  "Some twenty ill-typed expressions are tested.",
  ["spec/lang/well-formed.md"], [("expressions", "spec/lang/well-formed.md: ValueExpr::check_wf, PlaceExpr::check_wf, Constant::check_wf")], tech=TBT)
P("P28", "Every part of an accepted program is itself accepted",
  "Well-formedness is hereditary: every type, layout, constant, expression, statement, terminator, block, function, vtable and relocation that is part of an accepted one was checked itself and accepted, and no type is laid out before it has been checked. An ill-formed part makes the program ill-formed; it never crashes the check.",
  ["programs"], "every part of every program, nested to any depth",
  "A part can be nested in another in some sixty ways; the tests put an ill-formed part in a few of these places (seven places are in fact wrong, see known-findings.txt).",
  ["spec/lang/well-formed.md", "spec/lang/syntax.md"], [("checks", "spec/lang/well-formed.md: check_wf"), ("parts", "spec/lang/syntax.md")], tech="dataflow query: every part found in the syntax type definitions must be passed to its own check, and pass, on every accepted path (from the type definitions and MIR path summaries)")
P("P29", "The nondeterminism of a run is resolved without excluding any allowed outcome",
  "Every choice the specification offers (addresses, provenance, scheduling, lock hand-over) is reachable in some run of the interpreter, and repeated runs eventually show every behaviour.",
  ["schedules"], "every choice point of every run",
  "A finite number of random runs cannot show that an outcome is possible with positive probability.",
  ["spec/prelude/main.md", SB], [("choices", SB + ": allocate"), ("choices", SM + ": step")],
  na="How choices are resolved (pick and its random distribution) is implemented in libspecr, outside this repository; the repository only states the sets to choose from, which P02, P06, P07 and P26 decide.")
MU = "tooling/miniutil/src/"; MZ = "tooling/minimize/src/"
P("P30", "miniutil's expression constructors build the operation they are named after",
  "Every free constructor function of miniutil::build for value expressions, place expressions, statements, terminators and types returns exactly the language node its name says, with every argument in its own position and the same kinds, sizes, alignments, signedness and in-bounds/non-negativity/overflow flags for every input. "
  "Inputs it does not support are refused by a panic.",
  ["inputs"], "every constructor and every value of its arguments",
  "Tests use most constructors, with operands for which swapped arguments or a wrong flag often give the same behaviour.",
  [MU + "build/expr.rs", MU + "build/statement.rs", MU + "build/terminator.rs", MU + "build/ty.rs"], [("constructors", MU + "build/")])
P("P31", "Builders assemble exactly what was declared, under fresh names",
  "The program, function, vtable and trait builders append exactly the declared statement to the current block, end it with exactly the declared terminator, open the declared successor with the right block kind, and hand out names (functions, blocks, locals, globals, traits, vtables) never used before in that program or function. "
  "Finishing yields exactly the collected parts; misuse (unfinished blocks, a missing return value, declaring twice) panics.",
  ["inputs", "histories"], "every sequence of builder calls, in every builder state",
  "Tests build a few hundred fixed programs; mixed-up blocks or reused names only show in unusual call sequences.",
  [MU + "build/function.rs", MU + "build/mod.rs"], [("function builder", MU + "build/function.rs: FunctionBuilder"), ("program builder", MU + "build/mod.rs: ProgramBuilder")])
P("P32", "minimize translates every rvalue, operand and place to its MiniRust meaning",
  "Each Rust MIR rvalue (operators, checked arithmetic, casts, references, raw borrows, aggregates, lengths, discriminants, repeats, unsizing), operand and place projection that minimize accepts becomes the MiniRust expression with the same meaning: the same operator with operands in the same order, the same types, mutability, field, index and variant. "
  "What it cannot express is refused with a panic, never translated to something else.",
  ["programs", "inputs"], "every rvalue, operand and place of every Rust program",
  "The example programs use a small part of the operator, cast and projection combinations, and often with operands that hide a mistake.",
  [MZ + "rvalue.rs"], [("rvalue", MZ + "rvalue.rs: FnCtxt::translate_rvalue_smir"), ("place", MZ + "rvalue.rs: FnCtxt::translate_place_smir"), ("operand", MZ + "rvalue.rs: FnCtxt::translate_operand_smir")])
P("P33", "minimize translates every statement, terminator and unwind action faithfully",
  "Each MIR statement (assignment, storage markers, discriminant writes, retags, place mentions, provenance-exposing casts, assume), terminator (goto, switch, assert, drop, return, resume, unreachable) and unwind action becomes the MiniRust statement or terminator with the same operands, targets and cases. "
  "Failing assertions panic (or abort, by panic strategy) through the right unwind target, drops call the drop glue of the dropped type, and auxiliary blocks get the right kind.",
  ["programs", "inputs"], "every statement, terminator and unwind action of every Rust program",
  "Example programs rarely unwind, and swapped targets or missing cleanup are invisible unless the failing path runs.",
  [MZ + "bb.rs"], [("statement", MZ + "bb.rs: FnCtxt::translate_stmt"), ("terminator", MZ + "bb.rs: FnCtxt::translate_terminator"), ("unwinding", MZ + "bb.rs: FnCtxt::translate_unwind_action, translate_panic")])
P("P34", "minimize translates calls: callee, ABI, argument passing and dispatch",
  "Every MIR call becomes a call of exactly the resolved callee (function pointer, direct function, drop shim, or virtual method looked up in the receiver's vtable) with that callee's calling convention, the arguments in order (moves passed in place, all others by value), and the same destination, continuation and unwind target. "
  "Calls of the panic entry points panic, calls of MiniRust intrinsics become exactly that intrinsic, and calls to other foreign functions are refused.",
  ["programs", "inputs"], "every call terminator of every Rust program",
  "Example programs exercise each kind of call in one or two shapes.",
  [MZ + "bb.rs"], [("calls", MZ + "bb.rs: FnCtxt::translate_call"), ("calling convention", MZ + "bb.rs: translate_calling_convention")])
P("P35", "minimize gives each supported Rust intrinsic its documented meaning",
  "Each compiler intrinsic minimize accepts (assert_inhabited and its siblings, raw_eq, arith_offset, ptr_offset_from(_unsigned), ctpop, exact_div, size_of_val, align_of_val, cold_path, catch_unwind, abort) is translated to MiniRust code with that intrinsic's meaning, including its undefined behaviour. "
  "Every other intrinsic is refused.",
  ["programs", "inputs"], "every call of a compiler intrinsic in every Rust program",
  "Tests call each intrinsic with a few benign operands; missing undefined behaviour or a dropped edge case does not show.",
  [MZ + "bb.rs"], [("intrinsics", MZ + "bb.rs: FnCtxt::translate_rs_intrinsic, translate_catch_unwind")])
P("P36", "minimize gives each Rust type its layout, validity and aliasing information",
  "Every Rust type is translated to the MiniRust type with the same size, alignment, signedness, field offsets and types, element counts and pointer kind. "
  "Pointee information records the pointee's layout, whether it is inhabited, frozen and unpin, and exactly the byte ranges inside UnsafeCells; unsupported types are refused.",
  ["programs", "inputs"], "every type of every Rust program",
  "Tests use few types; a cell range or flag that is wrong in one corner changes only which programs are undefined behaviour.",
  [MZ + "ty.rs"], [("types", MZ + "ty.rs: Ctxt::translate_ty"), ("pointee information", MZ + "ty.rs: Ctxt::pointee_info_of"), ("cells", MZ + "ty.rs: Ctxt::cells_in_sized_ty")])
P("P37", "A union's chunks are exactly the bytes that some field uses",
  "The chunks of a translated union cover exactly the bytes occupied by data of some field, recursively through tuples, arrays, enums (tags and discriminators included), nested unions and wide pointers, and no padding. "
  "They are maximal, disjoint and in increasing order.",
  ["programs", "inputs"], "every union type of every Rust program",
  "Tests contain a handful of unions; a lost or extra byte shows only when exactly that byte matters.",
  [MZ + "chunks.rs"], [("chunks", MZ + "chunks.rs: calc_chunks, mark_used_bytes, mark_size, mark_discriminator")])
P("P38", "minimize encodes every Rust enum the way rustc does",
  "Each variant of a translated enum has its rustc discriminant, field layout and tag: direct tags hold the discriminant, niche tags the niche value wrapped into the tag type, and the untagged or an uninhabited variant writes none. "
  "The discriminator maps every tag of an inhabited tagged variant to its discriminant, values outside the tag's valid range to invalid, and all others to the untagged variant; size, alignment and discriminant type are rustc's.",
  ["programs", "inputs"], "every enum type of every Rust program",
  "Tests contain a few enums; an off-by-one in a niche or a wrapped tag shows only for one layout rustc may choose.",
  [MZ + "enums.rs"], [("enum translation", MZ + "enums.rs: Ctxt::translate_enum, int_from_bits"), ("discriminants", MZ + "enums.rs: Ctxt::discriminant_for_variant, discriminant_for_variant_smir")])
P("P39", "Constants and the statics they point to become exactly the same MiniRust data",
  "Every constant is translated to the value const evaluation gave it: integers with their sign, pointers as address or as global plus offset, wide pointers with their length, and tuples, arrays and enum variants field by field. "
  "Each referenced allocation becomes one global (the same for every reference, cycles included) with its bytes, its uninitialized bytes, its relocations at their offsets and its alignment; unsupported constants are refused.",
  ["programs", "inputs"], "every constant and static of every Rust program",
  "Tests use few statics; shared, self-referential or partly uninitialized allocations and interior pointers are rare there.",
  [MZ + "constant.rs"], [("constants", MZ + "constant.rs: FnCtxt::translate_const, translate_const_val"), ("allocations", MZ + "constant.rs: FnCtxt::translate_alloc_id, translate_const_allocation, fresh_global_name")])
P("P40", "Every reachable function is translated exactly once; the program calls main",
  "The MiniRust program contains exactly the monomorphic functions that main reaches, each translated once under its own name, plus a start function that calls main, exits when it returns and aborts when it unwinds. "
  "In each function, every MIR local has its own name and type, the arguments arrive in the locals MIR expects (a spread tuple argument field by field), execution starts in a block that makes the always-live locals live, "
  "and every MIR block becomes a chain of blocks with its statements in order, split only at nondeterministic operations, cleanup blocks staying cleanup blocks.",
  ["programs", "inputs"], "every Rust program, function, local and basic block",
  "Tests run whole programs; names that collide, a function left out, or a misplaced split only matter for particular bodies (spread arguments, many casts in one block, recursion).",
  [MZ + "program.rs", MZ + "function.rs", MZ + "bb.rs"], [("program", MZ + "program.rs: Ctxt::translate, get_fn_name, mk_start_fn"), ("functions", MZ + "function.rs: FnCtxt::new, translate, fresh_bb_name, fresh_local_name"), ("blocks", MZ + "bb.rs: FnCtxt::translate_bb")])
P("P41", "A trait object type's method set is exactly what its vtables provide",
  "Every pair of a concrete type and a trait object type gets one vtable, with the type's size, alignment and interior-mutable cells (in order), and one slot for every method rustc puts in that vtable - supertrait methods included - plus the drop slot; "
  "the method set of the trait object type consists of exactly those slots, also for trait objects without a principal trait, and each slot holds the function rustc resolves for it.",
  ["programs", "inputs"], "every type and trait object type of every Rust program",
  "Tests use a single small trait; supertraits, several methods, auto-trait-only objects and types with cells are not sampled.",
  [MZ + "vtable.rs"], [("vtables", MZ + "vtable.rs: Ctxt::get_vtable, generate_vtable"), ("method sets", MZ + "vtable.rs: Ctxt::get_trait_name, generate_trait")])
P("P42", "minimize and minirun obey their options and report how the program ended",
  "Exactly the documented --minimize- and --minirust- options are accepted (dump=json|pretty at most once, check-json-roundtrip, tree-borrows), each selects what its name says, and any other such option is an error; every other argument reaches rustc unchanged and in order, "
  "after the flags translation relies on. The sysroot is built and passed on except where turned off or for pure queries. The translated program is either dumped in the chosen format or run, after the round-trip check when asked. "
  "minirun reads its one file or standard input. A program that exits normally ends silently; UB, leaks, deadlock, abort and ill-formedness each print their own message to standard error and exit with code 101.",
  ["inputs"], "every command line and environment, every way a program can end",
  "Tests drive the binaries with two or three fixed command lines and check the output of a few endings; combinations and orders of options are not sampled.",
  [MZ + "main.rs", MU + "cli.rs", "tooling/minirun/src/main.rs"], [("options", MZ + "main.rs: main, parse_args, be_rustc; tooling/minirun/src/main.rs: main"), ("endings", MU + "cli.rs: run_prog_and_print_errors, show_error")])

P("P43", "A Rust type used in the builder stands for the MiniRust type of the same shape",
  "For every Rust type the program builder converts (each fixed-width integer, usize, isize, bool, (), arrays, slices, shared and mutable references, raw pointers) get_type gives the MiniRust type with the same size, signedness, element type and count, mutability and "
  "pointer metadata; references record their pointee's layout, that it is inhabited, free of interior mutability where the Rust type is, and its Unpin-ness. get_layout, get_size and get_align are those of that very type. "
  "A pointer-sized global made for a type has the size and alignment of a pointer to it.",
  ["inputs"], "every convertible Rust type, at every type parameter",
  "Tests build programs from a few convenient types; a wrong size, signedness or metadata for one of the others shows only in programs nobody wrote.",
  [MU + "build/ty_conv.rs", MU + "build/ty.rs", MU + "build/global.rs"], [("conversions", MU + "build/ty_conv.rs: impl TypeConv"), ("markers", MU + "build/ty.rs: ref_ty_default_markers_for, ref_mut_ty_default_markers_for"), ("global", MU + "build/global.rs: global_ptr")])
P("P44", "The pretty printer shows every construct with all its parts, unambiguously",
  "fmt_program prints every function, block, statement, terminator, expression, constant, type, layout, global, trait and vtable of the program: each kind of construct in a notation of its own, with every component at its place, brackets balanced and a sub-expression that is not atomic parenthesised; "
  "the start function and start block are marked; functions, blocks, locals, globals, traits and vtables come in the order of their names; every tuple, union and enum type met is given one number, printed under that number wherever it occurs, and defined exactly once. dump_program prints that text.",
  ["inputs"], "every program",
  "No test looks at the printed text at all, so an operator printed as another one, a dropped argument or two swapped blocks would mislead readers of the dump without any test failing.",
  [MU + "pretty/mod.rs", MU + "pretty/expr.rs", MU + "pretty/function.rs", MU + "pretty/global.rs", MU + "pretty/ty.rs", MU + "pretty/vtables.rs"],
  [("expressions", MU + "pretty/expr.rs: fmt_value_expr, fmt_place_expr, fmt_constant"), ("functions", MU + "pretty/function.rs: fmt_function, fmt_statement, fmt_terminator, fmt_call"), ("types", MU + "pretty/ty.rs: fmt_type, get_comptype_index, fmt_comptypes")])
P("P45", "A run steps until the machine stops; output and programs pass through unchanged",
  "run starts the machine on the given program with the given writers and executes one step after another, dropping after every step what is not reachable from the machine, until a step ends the execution; how it ended is the result, unaltered. run_program forwards both streams to the host; "
  "get_stdout returns the lines written to standard output if and only if the machine stopped normally, otherwise the way it ended. The captured writer keeps all bytes in order, and a clone shares the buffer. Programs are written to JSON and read back as they are; assert_roundtrip fails unless reading back gives an equal program.",
  ["inputs", "histories"], "every program, every sequence of steps and writes",
  "The tests see the outcome of fixed programs; that garbage collection runs on the right roots after every step, or that every way of ending passes through, is not visible in them.",
  [MU + "run.rs", MU + "mock_write.rs", MU + "json.rs"], [("run", MU + "run.rs: run, run_program, get_stdout"), ("writer", MU + "mock_write.rs: MockWrite"), ("json", MU + "json.rs: load_program, dump_program, assert_roundtrip")])
P("P46", "minimize starts only if rustc's target and MiniRust's agree, from empty tables",
  "Before anything is translated, rustc's pointer size, pointer alignment, byte order and the alignment of every integer size from 8 to 128 bits are checked to equal those of MiniRust's default target; a mismatch stops minimize. The translation starts from empty tables of functions, traits, vtables, globals and types. "
  "Layouts are those rustc gives the very type asked about in the fully monomorphized environment, and a layout or ABI rustc cannot compute is a fatal error.",
  ["inputs"], "every target, every type",
  "All tests run on one target, on which every one of these checks succeeds; a check that is lost or compares the wrong quantity goes unnoticed.",
  [MZ + "program.rs", MZ + "ty.rs"], [("start", MZ + "program.rs: Ctxt::new"), ("queries", MZ + "program.rs: rs_layout_of, typing_env, data_layout; " + MZ + "ty.rs: translate_ty_smir, pointee_info_of_smir")])
P("P47", "minimize builds its standard library from the right sources for the right target",
  "The sysroot goes where MINIRUST_SYSROOT says, else to the user's cache directory. It is built from rustc's rust-src component, which must exist and be the `library` directory, for the target given by --target, else the host; with std (panic-unwind, backtrace), in check mode, "
  "with minimize itself acting as rustc in a nested build that does not build a sysroot again. Anything missing is reported as an error and ends minimize.",
  ["inputs"], "every environment, command line and installation",
  "The tests build one sysroot for the host in one environment.",
  [MZ + "sysroot.rs"], [("sysroot", MZ + "sysroot.rs: setup_sysroot, get_sysroot_dir")])
P("P48", "Encoding and decoding satisfy the specification's round-trip laws",
  "For every well-formed type, decode(encode(v)) = v for valid values v, decode and encode are monotone in the definedness order, encode(decode(b)) is at most as defined as b, and they are defined only on byte lists of the type's size.",
  ["inputs"], "every type nested to any depth, every valid value and every byte list",
  "The laws quantify over unboundedly nested types and all byte lists; tests sample a few.",
  ["spec/lang/representation.md"], [("laws", "spec/lang/representation.md: laws of encode and decode")],
  na="The laws relate two recursive functions over arbitrarily nested types and integer byte codecs that live outside this repository (libspecr); they need a proof by induction (or running the code), which no dataflow or table argument provides. P15 decides each function's own clauses instead.")
P("P49", "Natively run intrinsics do what their MiniRust counterparts do",
  "Run by rustc instead of minimize, the functions of the intrinsics crate mean the same: print and eprint write the value and a newline to their stream; exit ends the process successfully; allocate and deallocate use the given size and alignment and memory outside the program's own allocator; "
  "spawn runs the function on the data in a new thread and returns the number under which join waits for it; locks start open, acquire returns only by taking an open lock, release opens it and wakes the waiting threads; the atomic operations are one sequentially consistent operation each, and compare_exchange returns the value that was there, whether or not it was exchanged, and never fails spuriously.",
  ["inputs", "schedules"], "every call, every argument and every state of the tables",
  "The tests replace these bodies by MiniRust intrinsics, so that nothing in the test-suite runs them; a weaker memory order or a spurious failure would in any case show up only in rare schedules.",
  ["tooling/minimize/intrinsics/src/lib.rs"], [("functions", "tooling/minimize/intrinsics/src/lib.rs: every function")])
P("P50", "Natively run intrinsics neither deadlock on their tables nor lose a wakeup",
  "Native spawn, join, create_lock, acquire and release share tables guarded by mutexes. No mutex is locked by a thread that holds it; nothing that waits for another thread is done while one is held; the mutexes are nested in one order. A thread that finds a lock taken is in the queue before it lets go of the mutex under which it saw that, and looks again after waking up; "
  "a lock is marked taken in the critical section that saw it open; whoever opens a lock afterwards unparks every queued thread. A number that is returned is that of the entry added in the same critical section.",
  ["schedules"], "every interleaving of any number of threads",
  "Deadlocks and lost wakeups need one particular interleaving; nothing in the test-suite runs these functions, let alone concurrently.",
  ["tooling/minimize/intrinsics/src/lib.rs"], [("threads", "tooling/minimize/intrinsics/src/lib.rs: spawn, join"), ("locks", "tooling/minimize/intrinsics/src/lib.rs: create_lock, acquire, release")])
