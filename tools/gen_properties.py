import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
F="mockall_derive/src/mock_function.rs"; L="mockall/src/lib.rs"; D="mockall_derive/src/lib.rs"
S="mockall_derive/src/mock_item_struct.rs"; I="mockall_derive/src/mock_item.rs"; T="mockall_derive/src/mock_trait.rs"
MS="mockall_derive/src/mockable_struct.rs"; MI="mockall_derive/src/mockable_item.rs"; A="mockall_derive/src/automock.rs"
DB="mockall_double/src/lib.rs"
p("C01","Earliest eligible expectation serves each call",
 "When a mocked method or function is called, expectations are considered in the order they were created, and the call is served by the first one whose matcher accepts the arguments and whose call-count limit is not yet used up. A sole expectation whose matcher accepts is selected even when its limit is used up, so that overuse is reported. At most one expectation is consumed per call, for every kind of return value (owned, shared reference, mutable reference), for instance, static, module and generic functions.",
 ["histories","inputs","programs"],"all numbers and orders of expectations, all matcher outcomes, all earlier call counts, all mocked function shapes",
 "Tests try two or three expectations on a few shapes; the rule is emitted by three separate code templates, crossed with static and generic storage, and must hold for every list length and every count.",
 [F,L],[("first-match search over the expectation list",F+" RefExpectations/RefMutExpectations/StaticExpectations"),("saturation test",L+" Times::is_done")],
 [("expectation list","expectations of one function in creation order",F+" Expectations"),("call counter","calls so far",L+" Times")],["mocked method call"])
p("C02","A call that no expectation accepts panics and consumes nothing",
 "If no expectation accepts a call, the call panics instead of returning, and no expectation's call count changes and no user-supplied return function runs. Conversely, a call that an eligible expectation accepts never panics with a missing-expectation report.",
 ["histories","inputs","programs"],"all expectation lists (including empty), all arguments, all mocked function shapes",
 "Tests assert one panic message on a handful of shapes; whether every template ends in a panic and leaves counts alone for all lists is not sampled.",
 [F],[("no-match result is turned into a panic",F+" MockFunction::call")],None,["mocked method call"])
p("C03","Call-count maximum: an excess call panics before the return function runs",
 "A call beyond an expectation's maximum number of calls panics without running the user-supplied return function or returning a value, and a call within the maximum (and in sequence, if any) does run it. This also holds when calls are made concurrently: the return function never runs more often than the maximum, whatever the interleaving.",
 ["histories","schedules","inputs","programs"],"all limits, all previous counts, all interleavings of calls on one expectation, all shapes",
 "Tests exceed small limits sequentially on owned-return methods; the count check must dominate the user function in each return-kind template and must be decided from one atomic step.",
 [F,L],[("atomic count-and-check",L+" Times::call"),("count before return function",F+" Common::call, Expectation::call")],
 [("call counter","calls so far",L+" Times")],["mocked method call"])
p("C04","Unmet call-count minimum is always reported when an expectation is discarded",
 "Whenever an expectation is discarded (its mock is dropped, a checkpoint runs, or a static context ends) while its thread is not already panicking, the discard panics if and only if the number of calls lies outside the configured bounds. (A single-threaded matcher or return action must be discarded on the thread that set it; elsewhere the discard may panic for that reason.)",
 ["histories","inputs","programs"],"all bounds, all counts, all ways of discarding, all shapes",
 "Tests cover a few counts around small bounds; equality at each bound for all counts and all shapes is not covered.",
 [F,L],[("verification in the destructor",F+" Common Drop"),("bounds test",L+" Times::is_satisfied")],None,["drop of mock","checkpoint"])
p("C05","Each call-count form admits exactly the documented set of counts",
 "Specifying n, a..b, a.., .., a..=b, ..b, ..=b, once or never makes exactly the call counts of that set (with never = 0 calls, default = any number) acceptable: calls are accepted while the maximum has not been reached, and the final count is acceptable exactly when it is in the set. Empty ranges (backwards or with nothing in them) are rejected when they are specified, and the most recent specification wins.",
 ["inputs"],"all n, a, b below the maximum representable count (which stands for infinity), and all numbers of calls",
 "Tests sample a few literals; off-by-one errors at an unsampled bound or form survive them.",
 [L,F],[("range conversions",L+" impl From<..> for TimesRange"),("count queries",L+" Times"),("setters",F+" Expectation::{times,once,never}")],None,["Expectation::times","Expectation::never","Expectation::once"])
p("C06","Sequenced expectations run only in sequence order",
 "An expectation placed in a sequence runs its return function only when every expectation placed in that sequence before it has received exactly its required number of calls and it has not yet received all of its own; any other call to it panics. Sequence positions follow the order in which expectations were added, completing an expectation's required calls moves the sequence on by exactly one position, and only expectations with an exact call count can be added.",
 ["histories","inputs","programs"],"all sequences, all required counts, all call orders on one thread, all shapes",
 "Tests use two or three single-call expectations; multi-call members, long sequences and each return-kind template are not covered.",
 [L,F],[("order check before return function",F+" Common::call/verify_sequence"),("advance on completion",F+" Common::satisfy_sequence; "+L+" SeqInner"),("position allocation",L+" Sequence::next_handle")],
 [("satisfaction level","how many members are complete",L+" SeqInner")],["mocked method call","in_sequence"])
p("C07","A mock's checkpoint verifies and discards every instance expectation",
 "Calling checkpoint on a mock object verifies and discards all expectations of all its instance methods: inherent methods and the methods of every trait it implements, generic or not, with any return kind. Expectations of static methods are neither verified nor discarded by it, and after it returns the object behaves like a fresh one.",
 ["histories","programs"],"all mock types (any mix of inherent and trait methods, generic parameters, attributes), all expectation lists",
 "Tests checkpoint mocks with one or two methods; completeness over every method of every generated type is a coverage property of generated code.",
 [S,F],[("per-method checkpoint calls",S+" MockItemStruct/MockItemTraitImpl"),("draining",F+" Expectations::checkpoint, GenericExpectations::checkpoint")],None,["MockX::checkpoint"])
p("C08","Ending a static context verifies and clears, or clears quietly on panic",
 "When the context object of a static method, module function or foreign function is dropped, all expectations of that function are discarded, so later users start clean: they are verified if the thread is not panicking; if it is panicking they are cleared without a second panic and the store is usable again even though the panic happened during a call. A context's checkpoint verifies and clears, and expectations created through a context are appended to the function's list.",
 ["histories","fault_sequences","programs"],"all expectation lists, both panicking and normal exits, all static shapes (plain, generic struct, generic method, module, foreign)",
 "One test exercises the panic path for one shape; the generic store and each shape have their own generated code.",
 [F],[("context destructor",F+" Context"),("poison clearing",F+" Context Drop")],[("global store","expectations per static function",F+" get_expectations")],["Context drop","Context::checkpoint"])
p("C09","Expectations for different generic arguments are independent",
 "For a generic mocked method or generic static function, expectations set with one choice of type arguments are used for calls with exactly that choice and never for any other choice, whichever of several type parameters differ; setting and calling agree on the choice for all return kinds.",
 ["programs","inputs","histories"],"all numbers of type parameters on the method and its type, all type arguments",
 "Tests use one or two parameters with distinct types; a key that ignores or confuses one parameter position is not sampled.",
 [F,D,L],[("storage key",D+" gen_keyid; "+L+" Key"),("lookup and insertion",F+" StaticGenericExpectations, GenericExpectationGuard")],None,["expect_x::<T>","x::<T>"])
p("C10","Matchers and return functions receive exactly the caller's arguments in order",
 "Every argument of a mocked call reaches the matcher by reference and the return function by value, unaltered, in its declared position, once each; the receiver is never among them. This holds for any number of arguments, reference and mutable-reference arguments, closure arguments (passed boxed), concretized generic arguments (passed as trait objects) and for any names the arguments have.",
 ["programs","inputs"],"all signatures, argument counts and names, all argument values",
 "Tests use few arguments, often equal or of distinct types; a permutation, duplication or name capture at some arity or return kind goes unnoticed.",
 [F,D],[("argument forwarding",F+" MockFunction::call, Expectations::call, Expectation::call, Rfunc::call"),("argument conversion",D+" concretize_args, declosurefy")],None,["matcher closure","return closure"])
p("C11","The mocked call returns exactly what the configured return action yields",
 "A served call returns the value produced by the most recently configured return action: the function's result, an unmodified clone of (or reference to) the configured constant, or a reference to the stored variable, which keeps caller modifications between calls. A return-once action runs at most once and a further served call panics; the single-threaded variants behave the same on their own thread.",
 ["histories","inputs","programs"],"all return values, all sequences of configuration and calls, all return kinds",
 "Tests check a few constants per shape; each return kind and each setter has its own template.",
 [F],[("return actions",F+" Rfunc variants and Expectation::return_*")],None,["mocked method call"])
p("C12","A matcher accepts exactly when all of its predicates do; the latest wins",
 "An expectation with one predicate per argument accepts a call if and only if every predicate accepts its own argument; with a matching function, if and only if that function returns true; with no matcher it accepts every call. Setting a matcher again replaces the previous one.",
 ["inputs","programs","histories"],"all predicates, all arguments, all argument counts",
 "Tests use one to three arguments; a predicate dropped or applied to another argument at some arity is not sampled.",
 [F],[("matcher evaluation",F+" Matcher::matches"),("setters",F+" Common::{with,withf,withf_st}")],None,["with","withf","withf_st"])
p("C13","Static expectation handles configure exactly the expectation they created",
 "Every configuration method available on the handle returned by a static context's expect has the same effect as the same method on the underlying expectation, and affects only the expectation created by that expect call, for plain and generic functions.",
 ["programs","histories"],"all configuration methods, all arguments, all static shapes and list lengths",
 "Tests use two or three of the twelve forwarding methods and a single expectation.",
 [F],[("forwarding methods",F+" ExpectationGuardCommonMethods"),("index of the new expectation",F+" ExpectationGuard::new")],None,["Context::expect"])
p("C14","Mock objects are Send; non-Send values enter only through checked setters",
 "Every generated mock object is Send (and Sync for shapes where it is documented or inferable today) regardless of the argument and return types of its methods. A matcher or return value or function that is not Send is rejected at compile time by the ordinary setters and accepted only by the single-threaded (_st) setters. (Methods returning references hold the referent, so their mocks are Send when the referent is.)",
 ["programs"],"all argument and return types, all setters, all shapes",
 "A passing test cannot show that an unsound program is rejected, nor that Send holds for every generated type.",
 [F,L],[("bounds on setters",F+" Expectation setters"),("runtime thread check",F+" Fragile wrappers")],None,["type checking"])
p("C15","A mock has the same callable interface as what it mocks",
 "The mock of a trait implements that trait, and the mock of a struct, module or foreign block offers every mocked function with the original signature: receiver kind, argument and return types, generics, lifetimes, unsafety, asyncness, ABI, associated types and constants. (Mocked foreign functions keep their symbol names and use the unwinding form of their ABI, so that a failed expectation can be reported; `impl Trait` returns are boxed in the mock.)",
 ["programs"],"all supported trait, struct, module and foreign declarations",
 "The tests instantiate some 130 declarations; combinations of features are not enumerated.",
 [F,S,T,I,MS],[("signature emission",F+" MockFunction::call"),("trait implementation",T+" MockTrait::trait_impl")],None,["type checking"])
p("C16","Generated items are visible exactly where the original is",
 "A mocked method or function, its expect or context method, and the expectation type it returns are usable from exactly the places from which the original function is usable: not hidden from any of them and not callable from elsewhere.",
 ["programs"],"all visibility qualifiers, module nestings and item kinds",
 "A passing test cannot show inaccessibility; qualifiers like pub(in path) at several nesting levels are barely tested.",
 [D,F],[("visibility computation",D+" expectation_visibility")],None,["name resolution"])
p("C17","Attributes on mocked items carry over consistently",
 "Conditional-compilation attributes on a mocked method, function or trait implementation apply to everything generated for it, so the mock compiles whether the condition holds or not and the mocked item exists exactly when the condition holds. Attributes meant only for the original (inlining and diagnostic hints, instrumentation, link names, derives) never reach the mock and lint expectations become allowances, while must-use, deprecation, documentation, lint levels and other attributes remain effective on the mocked function (through the trait, for trait methods).",
 ["programs","configurations"],"all supported attributes on all item kinds, both truth values of each condition",
 "A test build fixes one configuration; each condition needs both values on each item kind.",
 [D,F,S],[("attribute filter",D+" AttrFormatter")],None,["compilation"])
p("C18","Macro expansion is a deterministic function of its input",
 "Expanding the same input always yields the same output: expansion depends on no randomized hashing order, clock, environment, file, thread or other ambient state (the documented debug-print variable only prints).",
 ["programs","configurations"],"all inputs, all processes and runs",
 "Two runs that agree prove nothing about hash-seed dependence on other inputs.",
 [D,A,S,F,T],[("deterministic hash aliases",D+" HashMap/HashSet aliases"),("no ambient reads",D+" mock_it")],None,["macro output"])
p("C19","Type references keep their meaning inside generated code",
 "Wherever a supported type appears in a mocked signature (nested in references, slices, arrays, tuples, pointers, function pointers, trait objects, generic, associated-type or function-trait arguments, or qualified paths), Self, super-relative paths, associated types, anonymous lifetimes and named lifetimes in it denote in the mock what they denote in the original (a lifetime inside an owned return type may be 'static in the setters).",
 ["programs"],"all supported types at all positions and nesting depths",
 "Each rewriting pass is a recursive traversal over some fifteen type forms; tests reach a few forms per pass.",
 [D,A,MS],[("rewriting passes",D+" supersuperfy, deselfify, deanonymize, find_lifetimes; "+A+" substitute_type; "+MS+" add_lifetime_parameters")],None,["type checking"])
p("C20","Unsupported declarations are rejected, never silently mis-mocked",
 "Input that the macros do not support is rejected with a compile-time diagnostic, with and without the nightly feature; no part of a mocked declaration is silently dropped so that a method, argument or item is missing from the mock. (Inherent impl blocks and extern crate items inside a mocked module belong to the original and are left there.)",
 ["programs","configurations"],"all inputs accepted by the Rust parser",
 "Accepting what should be rejected produces no failing test; only a few rejections are unit-tested.",
 [D,MS,I,F,A,S,T,DB],[("diagnostics",D+" compile_error and its callers")],None,["macro expansion"])
p("C21","Discarding expectations never panics during unwinding",
 "While a thread is already panicking, destroying mocks, expectations, sequences or static contexts raises no further panic, so a failing test is reported instead of aborting the process. This includes panics raised because a single-threaded matcher or return action was used on another thread.",
 ["fault_sequences","histories","programs"],"all states of all expectations at the moment of the first panic, all shapes",
 "An abort kills the test harness, so tests cannot sample it broadly; every destructor path must be guarded.",
 [F],[("guarded verification",F+" Common Drop, Context Drop")],None,["drop during unwinding"])
p("C22","Generated locking is free of self-deadlock and of lock-order cycles",
 "No generated or library operation acquires a lock that it already holds, any two locks are always acquired in the same order, and every lock is released when the operation that took it returns or panics; verification failures and missing-expectation panics are raised with no lock of a static function held, so they do not poison it. A return function of a method taking the mock by shared reference that calls back into the same mock, and is served by another expectation, does not block.",
 ["schedules","histories","programs"],"all interleavings of operations on one mock or static function, all shapes (excluding re-entrant calls made by user-supplied functions)",
 "Deadlocks depend on schedules; tests are single-threaded.",
 [F],[("matcher, return-function and static-store locks",F+" Common, StaticExpectation, Context")],None,["lock acquisition"])
p("C23","Failure reports identify the function, its arguments and the true counts",
 "The panic for an unmatched call names the mocked function and shows every argument in order, using Debug where the type has it and a question mark otherwise; count-violation panics name the function, describe the matcher, and report the actual number of calls and the actual configured bound.",
 ["inputs","programs","histories"],"all argument types and values, all bounds and counts, all shapes",
 "Tests match a few literal messages; each shape formats its own.",
 [F,L],[("call description",F+" MockFunction::desc"),("argument printing",L+" ArgPrinter/ViaDebug/ViaNothing"),("count messages",L+" Times::call; "+F+" Common Drop")],None,["panic message"])
p("C24","The double attribute swaps in mocks in test builds and nothing else otherwise",
 "In a non-test build the annotated import or type alias is emitted unchanged; in a test build every imported name resolves to its mock counterpart (MockX for types, mock_x for modules) under the name the user asked for, at any nesting of paths, groups and renames, with attributes and visibility kept. Imports that cannot be doubled are rejected.",
 ["programs","configurations"],"all use trees and type aliases, both build modes",
 "Unit tests compare token strings for six small inputs in one mode.",
 [DB],[("use-tree rewriting",DB+" mock_usetree"),("mode selection",DB+" do_double")],None,["name resolution"])
p("C25","Neither the library nor generated code contains unsafe code of its own",
 "The library and the code it generates contain no unsafe blocks, unsafe implementations, mutable statics or raw-pointer dereferences of their own; unsafety appears only where the mocked declaration itself is unsafe. So a mock cannot cause undefined behaviour or bypass the compiler's thread-safety checks.",
 ["programs"],"all generated code, all library functions",
 "Undefined behaviour need not fail a test.",
 [L,F,T,I],[("safe templates",F)],None,["compiler's unsafety information"])
p("C26","Default return values: only with the nightly feature and only Default types",
 "When an expectation has no return action, a served call panics, except that with the nightly feature it returns the default value of the return type exactly when that type implements Default; a return value is never invented otherwise.",
 ["programs","configurations","inputs"],"all return types, both feature configurations, all return kinds",
 "Each configuration is built separately and tests cover a couple of types.",
 [L,F],[("default returner",L+" ReturnDefault"),("default action",F+" Rfunc::Default")],None,["mocked method call"])
p("C27","Mocked modules and foreign blocks cover every function",
 "The mock of a module contains a mock for every function in it, including functions of foreign blocks (under the same symbol name, for ABIs other than Rust), keeps its other supported items (imports, type aliases, constants, statics), and its module-level checkpoint verifies and clears the expectations of every one of those functions.",
 ["programs","histories"],"all modules with any number and mix of items",
 "Tests checkpoint modules with one function.",
 [I,MI,F],[("module content",I+" MockItemModule"),("module checkpoint",F+" MockFunction::checkpoint")],None,["module checkpoint"])
p("C28","Fresh mocks have no expectations, and construction keeps the user's API",
 "A mock created by new or default has no expectations for any method. new is generated unless the mocked declaration has its own (a trait's included), default is always available, and Debug is generated for automocked items and for manual mocks exactly when requested, without requiring anything of the mocked types.",
 ["programs"],"all declarations, with and without own constructors, generic parameters and derives",
 "Tests construct particular mocks; presence and absence over shapes is a type-level fact.",
 [S],[("constructor generation",S+" new_method, debug_impl")],None,["type checking"])
p("C29","Reference-returning methods store and lend owned values",
 "For a method returning a non-static reference the return value is configured as an owned value of the referent type (String for str, Vec for slices, PathBuf, OsString and CString for their borrowed forms, a box for trait objects) and the mock lends a reference into the expectation, with the original signature; static references are configured and returned as they are.",
 ["programs"],"all referent types, shared and mutable references, methods with any arguments",
 "Tests cover each special type once, with one reference kind.",
 [F],[("owned form selection",F+" destrify, dedynify, ownify")],None,["type checking","mocked method call"])
p("C30","Mocking clean code adds no compiler warnings",
 "Code that mocks a declaration which itself compiles without warnings (lint levels and attributes on any part of it included) also compiles without warnings under the compiler's default lints and under the documentation lint, on the project's stable toolchain.",
 ["programs"],"all supported declarations",
 "Only the shapes in the test-suite are compiled with warnings denied.",
 [F,S,D],[("lint allowances",F+" and "+S+" emitted allow attributes")],None,["compiler diagnostics"])
p("C32","Concurrent in-order calls on a sequenced expectation are all served",
 "When several threads call one sequenced expectation at the same time, within its required number of calls, with every earlier member of the sequence complete and no other matching expectation of that method, every call is served and none panics, whatever the interleaving. The sequence moves on exactly once, and only when the call counted last has reached the required number.",
 ["schedules"],"all interleavings of any number of threads calling one sequenced expectation of any shape",
 "Depends on the schedule between counting a call, the order check and the advance of the sequence; a test fixes one interleaving.",
 [L,F],[("count of a call",L+" Times::call"),("order check and advance",F+" Common::call; "+L+" SeqInner")],[("sequence level","position reached in the sequence",L+" SeqInner")],["mocked method call"])
p("C34","The predicates mockall offers are the predicates crate's own",
 "Every predicate function, the Predicate trait and the predicate extension traits offered under mockall's name are the very items of that name of the predicates crate: none is replaced, confused with another or missing, so predicates mean what that crate documents and predicates written for it are accepted.",
 ["programs"],"all predicate functions and traits, all programs using them",
 "Tests use three of the twenty functions on a few values.",
 [L],[("re-exports",L+" pub use predicates")],None,["name resolution"])
# not applicable
p("C31","Predicate functions accept exactly the documented values",
 "The predicate functions themselves (eq, in_iter, str, float, function and so on) accept exactly the values the documentation of the predicates crate says.",
 ["inputs"],"all predicates and values",
 "Value-level semantics of another crate.",
 [L],[("re-exports",L+" pub use predicates")])
p("C33","Expansion terminates quickly and the generated code compiles in reasonable time",
 "Macro expansion time and the compile time of its output grow no worse than linearly with the number of methods and arguments mocked.",
 ["programs"],"all input sizes",
 "Timing over unbounded inputs.",
 [D],[("expansion",D+" mock_it")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
