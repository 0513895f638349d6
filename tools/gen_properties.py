#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
MF = "mockall_derive/src/mock_function.rs"
RT = "mockall/src/lib.rs"
MS = "mockall_derive/src/mock_item_struct.rs"
MI = "mockall_derive/src/mock_item.rs"
MT = "mockall_derive/src/mock_trait.rs"
DL = "mockall_derive/src/lib.rs"
AM = "mockall_derive/src/automock.rs"
MB = "mockall_derive/src/mockable_struct.rs"
MBI = "mockall_derive/src/mockable_item.rs"
DD = "mockall_double/src/lib.rs"

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A call is served by the first matching expectation that is not yet exhausted",
  "For every mocked method, function or generic instantiation, a call is answered by the earliest-created expectation whose matcher accepts the arguments and which has not yet been called its maximum number of times; later expectations are left untouched. If no such expectation exists the call panics (with a \"No matching expectation\" diagnostic, or, when the only expectation there is matches but is exhausted, with a too-many-calls diagnostic) and never returns a value. This holds for every order of creating expectations and interleaving them with calls, checkpoints and calls to other methods.",
  ["histories", "configurations", "programs"],
  "All bounded lists of expectations (matcher x call bound), all bounded histories of expect/call/checkpoint over them, for every kind of mockable function (trait, struct, generic, static, module, foreign; by-value, & and &mut returning).",
  "Tests fix two or three expectations and one call order each for a handful of method kinds; three separately generated dispatch routines (value, &, &mut) exist and most are exercised by a single happy-path test.",
  [MF], [("Expectations::call / call_mut: find first match that is not done", MF + ": StaticExpectations, RefExpectations, RefMutExpectations"),
         ("no-match panic", MF + ": MockFunction::call"), ("per-instantiation lists", MF + ": StaticGenericExpectations")],
  ["return value of the mocked call", "panic or not, and its message"],
  [("Expectations.0", "FIFO list of expectations of one function instantiation", MF)])

p("C02", "No expectation answers more calls than its upper bound allows",
  "For every form of call-count bound (an integer, a half-open or inclusive range, an open-ended range, once, never, the wildcard, or none), an expectation answers exactly as many calls as its upper bound permits and the call that would exceed it does not get a value from it. Empty ranges are rejected when the bound is set, and no accepted bound makes a call or the end-of-life verification misbehave. The last bound set on an expectation before it is called is the one that counts.",
  ["histories", "inputs", "configurations"],
  "All times() argument forms with bounds 0..K including the extreme values of the count type, all numbers of calls up to beyond the bound, all method kinds, alone or next to other expectations.",
  "times.rs tests a few concrete bounds on one method; boundary forms such as an empty open-start range or a bound at the top of the integer type are never tried.",
  [RT, MF], [("conversion of every range type", RT + ": impl From<..> for TimesRange"), ("Times::call / is_done", RT)],
  ["panic when the bound is set", "panic on the excess call and its message"],
  [("Times.count / Times.range", "calls so far and the permitted half-open range", RT)])

p("C03", "Unmet minimum call counts are always reported, met ones never are",
  "When a mock object is dropped outside of a panic, the drop panics if and only if some live expectation has been called fewer times than its lower bound (or, if the test caught the panic of an excess call, more often than its upper bound), and the panic names the method, the expectation's matcher, the actual count and the violated bound. Expectations whose bound is met (including bounds with lower limit zero and expectations never called) are never reported. This holds however many calls were made, whichever expectations served them, and wherever the mock lived (stack, box, moved to another thread; a mock that owns single-threaded closures has to be dropped on their own thread).",
  ["histories", "configurations", "programs"],
  "All bounded expectation lists with all bound forms, all call histories up to a depth, all method kinds, object dropped at every point of every history.",
  "Existing tests check one or two counts for one method each; that every list position, method kind, trait implementation and bound form is verified at drop is a for-all statement.",
  [MF, RT, MS], [("Drop for Common", MF), ("Times::is_satisfied", RT)],
  ["panic (and message) of dropping the mock"])

p("C04", "Calls in a sequence succeed only in the order the sequence was built",
  "Expectations added to one sequence, possibly on different methods, objects and static functions, can only be called in the order they were added, each its exact number of times before the next one becomes callable; the first call that is out of order panics with a sequence violation and every in-order call succeeds. Expectations outside the sequence, and other sequences, never influence or are influenced by it. Adding an expectation without an exact call count is rejected with a panic.",
  ["histories", "configurations"],
  "All sequences up to N expectations (exact counts 0..2) spread over methods, objects and static functions, with up to two sequences, and all call orders up to the total length; all orders of the builder calls.",
  "sequence.rs tries a handful of fixed call orders of two or three one-call expectations.",
  [RT, MF], [("SeqHandle/SeqInner satisfy and verify", RT), ("Common::call order of times/verify/satisfy", MF), ("exactness check", MF + ": Common::in_sequence")],
  ["panic or value of each call"], [("SeqInner.satisfaction_level", "number of expectations of the sequence already satisfied", RT)])

p("C05", "A checkpoint verifies and clears exactly its own object's expectations",
  "Checkpointing a mock object panics if and only if one of its non-static methods, inherent or from any of its trait implementations or generic instantiations, has an expectation whose count is outside of its bounds (an unmet minimum, or an excess call whose panic was caught); if it does not panic, all those expectations are gone, so that calls made before it do not count afterwards and every method behaves as freshly created. Checkpointing a module mock does the same for all functions of the module, and checkpointing a context for that one function. Expectations of static methods, other objects, other contexts and other modules are untouched.",
  ["histories", "configurations", "programs"],
  "All bounded histories of expect/call/checkpoint/drop over objects with several methods and trait impls, static methods, contexts and modules.",
  "Existing checkpoint tests use one method (and one satisfied / unsatisfied case) per mock kind.",
  [MS, MT, MI, MF], [("checkpoint() generation", MS), ("trait part checkpoint", MT), ("module checkpoint", MI), ("Context::checkpoint", MF + ": Context")],
  ["panic of checkpoint", "behaviour of later calls and drops"])

p("C06", "Static expectations live exactly as long as their context, even across panics",
  "Expectations on a static method, free function or foreign function set through a context take effect immediately, are verified and removed when the context is checkpointed or dropped, and after the context is gone the function behaves as if no expectation had ever been set, whatever happened before: unmet or exceeded expectations, unmatched calls, panicking closures, panics caught by the test, or dropping the context during unwinding. Dropping during unwinding never panics; dropping otherwise panics if and only if some expectation's count is outside of its bounds. A context created afterwards, for example by the next test, starts from a blank slate.",
  ["histories", "fault_sequences", "programs"],
  "All bounded histories of create-context/expect/call/checkpoint/drop-context with a panic (unmatched call, excess call, panicking closure, unmet minimum, test panic) injected at every point, for static methods, generic static methods and functions, module functions and foreign functions.",
  "clear_expectations_on_panic.rs tries one scenario on two functions; the interplay of caught panics, lock poisoning and context lifetime is a history property.",
  [MF, MI], [("Context::drop / do_checkpoint", MF + ": Context"), ("get_expectations lock handling", MF)],
  ["result of later calls", "panic of Context drop/checkpoint"],
  [("static EXPECTATIONS mutex", "expectations of one static function", MF)])

p("C07", "Return values come from the configured source, in call order, every time",
  "Each successful call returns what its expectation was configured with: a constant is returned unchanged on every call (converted to the declared return type where needed), a closure is invoked exactly once per call with that call's arguments and keeps its state between calls, a one-shot closure runs for the first call only and later calls panic instead of returning or rerunning it, and for mutable-reference returns the caller's writes persist in the variable across calls while closure-backed returns are recomputed. The most recently configured return action wins. An expectation with no return action panics when called, it never invents a value.",
  ["histories", "configurations", "programs"],
  "All return actions x all return-type shapes (values, String, &T, &mut T, &str, slices, Path, boxed and dyn traits, impl Trait, futures) x all call counts up to a bound x reconfiguration.",
  "Each return action is sampled with one type and one or two calls.",
  [MF, DL], [("StaticRfunc/RefRfunc/RefMutRfunc", MF), ("destrify/dedynify/ownify", MF), ("deimplify", DL)],
  ["returned values and references", "number of closure invocations and drops"])

p("C08", "Single-threaded closures only ever run on the thread that supplied them",
  "A matcher, return closure, one-shot closure or constant supplied through a single-threaded (_st) method is only evaluated on the thread that supplied it; a call from any other thread that would need it panics without running, corrupting or losing it, and without disturbing other expectations. On the owning thread the _st variants behave exactly like their thread-safe counterparts.",
  ["histories", "configurations", "schedules"],
  "All _st methods x all method kinds x all assignments of up to N calls to two threads.",
  "One test per _st method calls it from the owning thread; cross-thread use is sampled twice.",
  [MF], [("Fragile wrappers", MF + ": Matcher::FuncSt, Rfunc::MutSt, Rfunc::OnceSt")],
  ["thread id seen by closures", "panic of the foreign call"])

p("C09", "Arguments reach matchers and return closures intact, in order, exactly once",
  "Every argument of a mocked call, whatever its type or position, is seen by the matcher of each consulted expectation and by the selected return closure with exactly the value, identity (for references) and position the caller passed, mutations through &mut arguments are visible to the caller afterwards, and by-value arguments are moved, not duplicated. Each by-value argument is dropped exactly once whether the call succeeds, panics for lack of a match, or its closure panics.",
  ["inputs", "programs", "histories"],
  "All argument type shapes mockall supports (values, references, mutable references, slices, str, trait objects, closures, generics, concretized generics, self receivers, pattern arguments) at every position up to arity 4, over success and failure paths.",
  "Tests exercise each argument shape alone in one position; swaps between same-typed arguments or lost arguments in rarely used shapes are not observed.",
  [MF, DL], [("call_exprs/argnames/predexprs plumbing", MF), ("declosurefy/concretize_args", DL)],
  ["values observed inside matchers and closures", "drop counts"])

p("C10", "An expectation matches exactly the calls its matcher accepts",
  "An expectation without a matcher accepts every call; with per-argument predicates it accepts a call if and only if every predicate accepts its own argument; with a matching function it accepts if and only if the function returns true for the full argument list. The most recently set matcher replaces earlier ones. Evaluating matchers never consumes or changes arguments, expectation counts or other expectations.",
  ["inputs", "configurations", "programs"],
  "All matchers over a small value domain (every subset of it per argument) x all argument tuples, arity 0..4, all method kinds and all ways of setting and resetting a matcher.",
  "matches/with tests use one accepting and one rejecting example on one- or two-argument methods.",
  [MF], [("Matcher::matches", MF + ": Matcher"), ("with/withf/withf_st", MF + ": Common")],
  ["which expectation answers each argument tuple"])

p("C11", "Expectations never leak between methods, objects, traits, types or contexts",
  "Expectations, counts and matchers set on one method affect no other method, including same-named methods of different traits, of different instantiations of a generic trait, or of an inherent and a trait implementation; expectations on one object affect no other object; and expectations on a generic method or function for one choice of type parameters affect no other choice. The same holds for verification: each unmet expectation is reported by its own owner only.",
  ["histories", "configurations", "programs"],
  "All bounded histories over pairs of owners (methods, traits, trait instantiations, objects, type parameters, static functions, modules) of expect/call/checkpoint/drop.",
  "Isolation is tested for a few pairs with one call each.",
  [MF, MT, MS, RT], [("Key by TypeId", RT), ("per-trait expectation substructs", MT), ("per-method fields", MS)],
  ["which calls succeed", "which drops panic"])

p("C12", "Concurrent calls on one mock object behave as if executed one at a time",
  "When several threads call methods of one mock object, every outcome (values returned, panics, and the verification at drop) equals the outcome of some sequential order of the same calls: bounds are neither exceeded nor left unfilled, no call fails that would have succeeded in every sequential order, stateful closures lose no updates and one-shot closures run once. No interleaving deadlocks.",
  ["schedules", "histories"],
  "All interleavings at the granularity of lock and atomic operations, up to a stated preemption bound, of 2-3 threads with 1-2 calls each over small expectation lists.",
  "No test makes two threads race on one mock object; the check-then-count step between finding an expectation and counting the call is only wrong under particular interleavings.",
  [MF, RT], [("find + Times::call", MF), ("AtomicUsize count", RT), ("Mutex<Rfunc>", MF)],
  ["results of concurrent calls"], [("Times.count", "shared call counter", RT)], "none: ::std is replaced by an instrumented std in the checked build")

p("C13", "Sequences stay correct when their members are called from several threads",
  "When expectations of a sequence are called from different threads, each call that is started only after all earlier members have been fully satisfied succeeds, a call started before that panics with a sequence violation or takes effect in order, and a fully exact, in-order execution never reports a violation in any interleaving. Calls of the same sequence member racing with one another are all accepted up to its exact count.",
  ["schedules", "histories"],
  "All interleavings (preemption-bounded) of 2-3 threads calling members of 1-2 sequences with exact counts 1..3.",
  "No test calls sequence members concurrently.",
  [RT, MF], [("satisfaction level", RT + ": SeqInner"), ("Common::call", MF)],
  ["results of concurrent calls"], None, "none: ::std is replaced by an instrumented std in the checked build")

p("C14", "Static function mocks are safe under concurrent expectation setup and calls",
  "Setting an expectation on a static method or function through a context is atomic with respect to calls of that function on other threads: a call sees the expectation either not at all or completely configured as of the end of the builder statement. Concurrent calls, checkpoints and context drops behave as if executed one at a time (a checkpoint of a whole module is one such step per function), never deadlock, and once the context has been dropped no trace is left behind. Matchers and return closures that themselves call the same static function are excluded.",
  ["schedules", "histories"],
  "All interleavings (preemption-bounded) of 2-3 threads performing expect-statements, calls, checkpoints and context drops on concrete and generic static functions, including panicking calls.",
  "static tests serialise everything behind a test-level mutex, so no interleaving is ever exercised.",
  [MF], [("ExpectationGuard holds the lock during configuration", MF), ("lock held across the call", MF + ": MockFunction::call")],
  ["results of concurrent operations"], [("static EXPECTATIONS mutex", "expectations of one static function", MF)], "none: ::std is replaced by an instrumented std in the checked build")

p("C15", "A failing mock fails as one catchable panic, never as an abort or a hang",
  "Every mock failure (unmatched call, excess call, sequence violation, missing return value, unmet minimum, wrong thread, bad configuration) surfaces as an ordinary panic that unwinds and can be caught, and any number of mock objects and contexts, with any number of unmet expectations in any state, can be dropped during that unwinding or after catching it without a second panic during unwinding, an abort or a deadlock. Failures elsewhere in the test are never masked or replaced by a mock's own verification.",
  ["fault_sequences", "histories", "programs"],
  "All bounded populations of mocks and contexts with unmet/met/exceeded expectations, with a failure of every kind injected at every step, followed by unwinding through or catching before the drops.",
  "Tests check single should_panic cases; double panics need several unmet expectations in combination with an unwinding drop.",
  [MF, MS], [("thread::panicking() guards", MF + ": Drop for Common, Drop for Context")],
  ["process survival", "payload of the panic that reaches the test"])

p("C16", "Macro expansion is a deterministic function of its input",
  "Expanding the same invocation of any of the macros any number of times, in any process and after any other expansions, produces the identical token stream. In particular it does not depend on hash iteration order, on other macro invocations in the crate, or on the environment.",
  ["programs", "schedules"],
  "A corpus covering all item kinds, attributes and generics, expanded under all controlled hash seeds/orders and all pairwise orders of invocation.",
  "No test expands anything twice; code generation uses hash sets and a thread-local/hashed naming scheme.",
  [DL, MT, MS, MF], [("lifetime sets", MF + ": Builder::build"), ("trait name hashing", MT), ("hash collections", DL)],
  ["expanded token stream"])

p("C17", "#[double] swaps exactly the named items, and only in test builds",
  "In test builds an import or type alias annotated with #[double] refers to the mock counterpart of exactly the items named (types get the Mock prefix, modules and functions the mock_ prefix) while the local names by which the rest of the code refers to them, the visibility and the other attributes stay the same; in non-test builds the item is exactly as written. This holds for every supported nesting of paths, groups and renames, and unsupported forms are rejected at compile time instead of being silently mis-imported.",
  ["programs", "configurations"],
  "All use-trees up to a depth and width bound over types, functions and modules with and without renames, visibility and attributes, plus all type-alias forms, in both build configurations.",
  "mockall_double's own tests cover about ten hand-picked trees as token comparisons.",
  [DD], [("swap_mock/mock_itemize", DD)], ["which item a name resolves to in each configuration"])

p("C18", "A mock implements every supported signature with the type the trait demands",
  "For every supported combination of receiver, argument types, return type, generics, lifetimes, where clauses, associated types and consts, asyncness, qualifiers and visibility, the generated mock compiles, implements the trait or mirrors the struct with the same signatures (so generic code written against the original works with the mock), and each of its methods can be expected, called and verified. Associated types resolve to what the user specified, impl-trait and async returns behave like the original's, and mocks of thread-safe traits remain thread-safe.",
  ["programs"],
  "All combinations from a grammar of signature features, pairwise and exhaustive per dimension, each compiled and driven through expect/call/verify.",
  "About 150 hand-written integration tests each cover one feature; features interact (a generic method with a lifetime, a where clause and a reference return, in a generic trait impl).",
  [DL, MF, MS, MT, MI, AM, MB, MBI], [("signature transformations", DL), ("mock struct and trait generation", MS + ", " + MT)],
  ["compilation of the mock", "values through the original trait"])

p("C19", "Conditional compilation attributes apply to every part of the mock alike",
  "When methods, trait impls, functions or modules given to the macros carry cfg attributes, then for every configuration the mock offers exactly the enabled items, with their expectation setters, contexts, checkpoint and verification behaviour, and compiles as if the disabled items had not been written. Other attributes and documentation on the items never change the mock's behaviour.",
  ["configurations", "programs"],
  "All subsets of enabled/disabled items for each item kind, for automock and mock!, each compiled and driven.",
  "mock_cfg tests use one always-on and one always-off predicate.",
  [DL, MF, MS, MT, MI, AM], [("AttrFormatter", DL), ("cfg forwarding", MS + ", " + MT + ", " + MI)],
  ["compilation", "availability and verification of the enabled items"])

p("C20", "Failure messages truthfully name the call, arguments, expectation and counts",
  "Every panic raised by a mock names the mocked function (qualified by its struct where it has one), and, as applicable: the Debug representation of each argument in order (a question mark for arguments without Debug), the matcher of the offending expectation in its displayed form, the number of calls made and the bound violated. The numbers printed always equal the actual history and the named expectation is one that really is violated.",
  ["histories", "programs", "inputs"],
  "All failure kinds x method kinds x argument shapes x bounded histories, message compared with the one computed from the model.",
  "Messages are pinned for a few single cases; that counts, matchers and arguments in them are right in every history is not.",
  [MF, RT], [("desc()", MF), ("ArgPrinter", RT), ("Drop for Common message", MF), ("Times::call message", RT)],
  ["panic payload"])

p("C21", "Default return values exist only on nightly and only for Default types",
  "With the nightly feature, an expectation without a return action returns the Default value of its return type on every call if the type implements Default, and otherwise panics; without the feature it always panics. An explicitly configured return action always takes precedence, and for reference returns the default is stored per expectation and obeys the same reference semantics as a configured value.",
  ["configurations", "histories"],
  "All return-type shapes (Default and not, value, &, &mut) x feature on/off x all call histories and (re)configurations up to a bound.",
  "Default returns are sampled by a few nightly-only tests; absence without the feature by one should_panic test.",
  [RT, MF], [("ReturnDefault specialisation", RT), ("Rfunc::Default", MF)], ["returned value or panic"])

p("C22", "Builder calls on an expectation commute and the last one of each kind wins",
  "Configuring an expectation gives the same behaviour for every order of its builder calls (matcher, call count, sequence, return action), for configuration in one chained statement or in several statements, and for repeated calls of one kind, of which only the last is effective, except that an exact call count must be in place when the expectation is added to a sequence. Context-based expectations for static functions accept the same builders with the same meaning.",
  ["configurations", "histories", "programs"],
  "All permutations with repetition of builder calls up to length 5, for instance methods and static functions, each followed by all probing histories up to a bound.",
  "Tests always write builders in the conventional order.",
  [MF], [("Expectation builder methods", MF + ": CommonExpectationMethods"), ("ExpectationGuard forwarding methods", MF)],
  ["behaviour under the probing history"])

p("C23", "A user panic inside a mock propagates and leaves the mock usable",
  "If a user-supplied return closure or matcher panics, the caller of the mocked method sees exactly that panic, the call counts as made (closure) or not made (matcher), and the mock keeps working: later calls, checkpoints and the drop behave as if the panicking invocation had simply not returned. The user's own panic is never replaced by an internal error on this or any later operation.",
  ["fault_sequences", "histories"],
  "All bounded histories with a panic injected at each matcher/closure invocation, for every method kind, followed by all continuations up to a bound.",
  "Only one test lets a closure panic, and it does not continue to use the mock.",
  [MF], [("Mutex<Matcher>, Mutex<Rfunc>, static expectations mutex and their unwrap()s", MF)],
  ["panic payloads", "results of later operations"])

p("C24", "The names a user chooses never change what a mock does",
  "A mock behaves the same whatever its user's own names are: arguments, methods, functions, modules, traits, structs, type parameters, lifetimes and associated types can have any name, including names of generated setters and of the mocks' own local variables, fields and helper types, and so can unrelated types, traits, functions, constants, modules and macros that are in scope where the mock is defined. Values, matching, counts and messages are never affected by such a name, and the mock still compiles. Only names of Rust's prelude, of built-in macros and attributes, names with the prefixes __ and mockall, and the names of a mock's own interface (new, default on inherent impls, checkpoint) are reserved.",
  ["programs"],
  "All programs of about 50 kinds (role of the name x kind of method, host or item) for every name of a set that contains all identifiers of the macros' own expansions.",
  "The tests use a handful of ordinary names.",
  [MF, MS, RT], [("local variables and imports of the generated functions", MF + ": call(), RefMutExpectation, priv_module()"), ("__mockall_ prefixes", MF), ("generated constructor", MS + ": new_method()")],
  ["compiles or not", "values seen by matcher and closure", "panic messages"])

p("C25", "automock leaves the item it is applied to as it is",
  "#[automock] only adds a mock: the trait, impl or module it is applied to keeps its meaning. Its methods, functions, default bodies, constants, types, statics, imports, visibilities and its attributes (must_use, deprecated, track_caller, cfg, docs, lint levels) are those the user wrote, an implementor of the trait or a user of the original sees no difference, and an item that compiles without #[automock] also compiles with it (within the documented limitations). Only mockall's own attributes (concretize) disappear.",
  ["programs"],
  "All items with any two of 44 features on each of 15 kinds of traits, impls and modules, with and without #[automock].",
  "The tests almost always use only the mock, never the original next to it.",
  ["mockall_derive/src/lib.rs", "mockall_derive/src/automock.rs"], [("output of the original item", "mockall_derive/src/lib.rs: mock_it(), do_automock()"), ("attribute filtering", "mockall_derive/src/lib.rs: AttrFormatter")],
  ["compiles or not", "values, effects and default bodies of the original", "lints that fire"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
