#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","A seeded run repeats exactly, whatever happened before in the process",
 "Checking a property twice with the same seed and parameters executes the same test cases, in the same order, with the same generated values, and ends with the same verdict, counts, tag distribution, counterexample and reproduce information. This holds for every generator the library provides and whatever the process did before or around the run: other checks that passed, failed, gave up or were torn down by an exception, checks nested inside test cases, and generators or shrink trees that are still alive or were abandoned half way.",
 ["histories","fault_sequences","inputs"],
 "all seeds, parameters, generator compositions and all histories of earlier, nested, aborted or interleaved work in the process",
 "tests run each property in one fixed history and never compare two runs of the same seed separated by failures, aborted generations or nested checks; a hidden static, a cached random state or a stale handler stays invisible until a particular history precedes the run",
 ["src/detail/Testing.cpp","src/Random.cpp","src/detail/ImplicitParam.cpp","include/rapidcheck/gen","include/rapidcheck/shrinkable","include/rapidcheck/gen/detail/ExecRaw.hpp"],
 [("all randomness flows from TestParams::seed through Random::split","src/detail/Testing.cpp searchProperty; src/Random.cpp"),
  ("ambient state is bound through ImplicitParam/ImplicitScope stacks that unwind with the C++ stack","include/rapidcheck/detail/ImplicitParam.hpp"),
  ("generators and shrinkables are immutable values","include/rapidcheck/Gen.hpp; include/rapidcheck/Shrinkable.hpp")],
 [("ImplicitParam stacks","current generation handler and property context","include/rapidcheck/detail/ImplicitParam.hpp")],
 ["rc::detail::checkTestable","TestListener events","generated values seen by the test body"])

p("C02","A printed reproduce string replays exactly the reported failures",
 "When properties fail, the reproduce configuration printed at process exit, given as the configuration of a new process, makes every failing property that has an id run again as exactly the reported minimal test case, ending in a failure with the same counterexample and description, while every other property is skipped as a success of zero tests. This holds for any ids and descriptions (any bytes, repeated ids keep the first failure), any number of failing properties, any seed, size and shrink path, and any other settings put in the same configuration string; with shrinking disabled the original unshrunk failing case is reproduced instead. If the recorded case no longer fails or no longer exists the property reports an error, never a success or another counterexample.",
 ["histories","crash_points","inputs","configurations"],
 "all histories of failing and passing properties before the process ends, all ids, and all later processes started from the printed string",
 "the tests check serialisation of single values and one reproduce at a time; nobody runs a sequence of failing properties, lets the process end, and restarts from the printed text",
 ["src/detail/ReproduceListener.cpp","src/detail/StringSerialization.cpp","src/detail/Serialization.cpp","src/detail/Base64.cpp","src/detail/Configuration.cpp","src/detail/MapParser.cpp","src/Check.cpp","src/detail/Testing.cpp","src/Random.cpp","include/rapidcheck/shrinkable/Operations.hpp"],
 [("failures are collected per id and printed when the listener is destroyed","src/detail/ReproduceListener.cpp"),
  ("Reproduce = random state + size + shrink path, compact serialised, base64 text","src/detail/StringSerialization.cpp"),
  ("reproduce mode walks the shrink path","src/detail/Testing.cpp reproduceProperty; src/Check.cpp")],
 [("reproduce map","property id to (random, size, shrink path)","src/detail/ReproduceListener.h")],
 ["text written by the reproduce listener","rc::detail::configFromString","rc::detail::checkProperty result"])

p("C03","Damaged configuration or reproduce text is rejected cleanly or decoded fully",
 "Loading configuration or reproduce text that was truncated, spliced, reordered or had bytes changed either throws the documented configuration/parse error or yields a complete configuration that survives being written out and read back unchanged. It never crashes, hangs, reads outside the text, attempts an absurd allocation or throws anything else, and undamaged text always loads to exactly the configuration it was written from.",
 ["fault_sequences","inputs","crash_points"],
 "all texts obtained from valid ones by storage and transport faults (truncation at any byte, bit flips, duplication, loss and swaps of ranges, forged lengths with valid encoding), and arbitrary bytes",
 "the tests try a few malformed strings; the decoder is a chain of length-prefixed fields where only particular truncation points and forged lengths go wrong",
 ["src/detail/Configuration.cpp","src/detail/MapParser.cpp","src/detail/StringSerialization.cpp","src/detail/Serialization.cpp","src/detail/Base64.cpp","src/Random.cpp","include/rapidcheck/detail/Serialization.hpp"],
 [("SerializationException and ParseException are mapped to ConfigurationException","src/detail/Configuration.cpp; src/detail/StringSerialization.cpp")],
 [], ["rc::detail::configFromString","rc::detail::stringToReproduceMap","rc::detail::configToString"])

p("C04","The verdict, counts and listener events account for every executed test case",
 "A check succeeds only after exactly the configured number of successful cases, fails at the first failing case, and gives up as soon as the number of discarded cases exceeds the discard ratio times the configured number of successes; cases are generated with sizes that start at 0 and sweep up to the configured maximum (growing further only after runs of discards). Every executed search case is announced to every listener exactly once, in execution order and with its own result and tags, followed by every shrink attempt and exactly one final result; no new case is generated once the verdict is known. The reported success count and tag distribution count exactly the successful cases, for any parameters including the largest legal ones.",
 ["histories","fault_sequences","configurations"],
 "all sequences of case outcomes (success, failure, discard, exceptions of any type, flaky cases) and all legal parameter values",
 "tests drive fixed outcome patterns with small parameters; boundary discard counts, mixtures of outcomes, tags on discarded cases and extreme parameters are combinations nobody enumerates",
 ["src/detail/Testing.cpp","src/Check.cpp","src/detail/MulticastTestListener.cpp","src/detail/LogTestListener.cpp","src/detail/DefaultTestListener.cpp","include/rapidcheck/detail/Property.hpp","src/detail/Property.cpp"],
 [("search loop with success/discard counters and size schedule","src/detail/Testing.cpp searchProperty"),
  ("fan-out of events to listeners","src/detail/MulticastTestListener.cpp")],
 [("numSuccess/numDiscarded/recentDiscards","progress of the search","src/detail/Testing.cpp")],
 ["TestResult","TestListener events","test body invocations"])

p("C05","A reported counterexample is a real failure, locally minimal and truthful",
 "When a check fails, the reported counterexample shows, in order, exactly the values (arguments and picks, with their names) that the reported test case received, and that test case did fail. With shrinking enabled and a deterministic test body, no direct shrink of it fails, every accepted step was the first failing shrink of the previous case, and the reported number of shrinks and shrink path lead from the original failing case to it; so for a body failing exactly when some values cross thresholds, the thresholds themselves are reported, and no run of elements of a reported container can be dropped, and no element lowered to zero or by one, with the test still failing. With a flaky body or throwing generators shrinking still terminates, accepts only attempts that failed, and never turns a found failure into another verdict.",
 ["fault_sequences","histories","inputs"],
 "all properties, argument and pick structures (including picks that depend on earlier ones), failure predicates, and transient misbehaviour of the body or of generators during shrinking",
 "unit tests check shrinking of a handful of shapes with perfect bodies; interactions between dependent picks, discards and exceptions during shrinking and path bookkeeping only show on particular trees and fault positions",
 ["src/detail/Testing.cpp","src/gen/detail/Recipe.cpp","src/gen/detail/ExecHandler.cpp","include/rapidcheck/gen/detail/ExecRaw.hpp","src/detail/Property.cpp","src/Show.cpp","include/rapidcheck/Show.hpp","include/rapidcheck/shrink","include/rapidcheck/gen"],
 [("greedy shrink loop with path","src/detail/Testing.cpp shrinkTestCase"),
  ("recipes replay picks while one ingredient is shrunk","src/gen/detail/Recipe.cpp"),
  ("example values are taken from the recipe of the executed case","src/detail/Property.cpp mapToCaseDescription")],
 [("Recipe","recorded picks of one execution and which of them are fixed","include/rapidcheck/gen/detail/Recipe.h")],
 ["FailureResult","values seen by the test body","TestListener::onShrinkTried"])

p("C06","Tags, logs, results and generation context never leak between test cases",
 "Tags, log output, reported results and the random/recipe context of one test case affect only that case: they never show up in another case, in an enclosing or nested check, or outside of checks, however the case ends (return, assertion, discard, exception of any type, thrown at any point of the body, of a generator callback or of a nested check). After any check or abandoned generation the process is back in the state it was in before: using picks or tagging outside a check behaves as if no check ever ran, and an enclosing test case continues with its own random stream, recipe, tags and log.",
 ["histories","fault_sequences"],
 "all nestings of checks, sub-generations and context scopes, and all points at which a case may be left by an exception",
 "tests leave scopes normally or through one kind of exception at one depth; leaks only appear after particular unwinding histories",
 ["include/rapidcheck/detail/ImplicitParam.hpp","src/detail/ImplicitParam.cpp","include/rapidcheck/detail/Property.hpp","src/detail/Property.cpp","src/detail/PropertyContext.cpp","src/gen/detail/ExecHandler.cpp","src/gen/detail/GenerationHandler.cpp","src/Classify.cpp","src/Log.cpp"],
 [("RAII binding of implicit parameters, scopes hide outer bindings","include/rapidcheck/detail/ImplicitParam.hpp"),
  ("fresh AdapterContext per executed case","include/rapidcheck/detail/Property.hpp")],
 [("ImplicitParam<P>::m_stack","bindings of the innermost scope","include/rapidcheck/detail/ImplicitParam.hpp")],
 ["TaggedResult/CaseDescription","SuccessResult::distribution","failure description","picked values"])

p("C07","Lazy sequences keep list semantics under any interleaving of use and faults",
 "A lazy sequence, however it is composed from the library's sequence combinators, yields exactly the elements the equivalent list operations yield, whatever the order in which it and its copies are advanced, copied, assigned, moved, compared or dropped: a copy continues from the point where it was taken, independently of the original. It computes elements only on demand, asking its sources for no element and calling no callback beyond what the elements asked for so far require, so infinite sequences can be used, and stays ended once it has ended. If computing an element throws, that sequence ends at that point without affecting copies, the elements already delivered, or the process.",
 ["schedules","fault_sequences","programs"],
 "all compositions of sequence combinators, all interleavings of operations on several handles, and element computations that throw at any point",
 "unit tests exercise each combinator alone, consumed front to back; state shared by accident between copies, or a combinator that loses elements when a copy is taken mid way or a callback throws, needs an interleaving of several consumers",
 ["include/rapidcheck/Seq.hpp","include/rapidcheck/seq/Create.hpp","include/rapidcheck/seq/Operations.hpp","include/rapidcheck/seq/Transform.hpp","include/rapidcheck/seq/SeqIterator.hpp"],
 [("deep copy of the implementation object","include/rapidcheck/Seq.hpp"),
  ("next() is noexcept: exceptions become end of sequence","include/rapidcheck/Seq.hpp")],
 [("SeqImpl","iteration state of one handle","include/rapidcheck/Seq.hpp")],
 ["Seq<T>::next","rc::seq operations"])

p("C08","Generators and shrink trees can be shared between threads",
 "Copies of one generator or of one shrink tree node may be copied, called, walked, assigned and destroyed concurrently from different threads without any other synchronisation, each thread using its own copies and its own Random, and with generator callbacks that are themselves pure; generators that read the process-wide implicit generation context (gen::exec and operator* inside it) are outside this. Every thread sees exactly the values it would see alone, the shared data is destroyed exactly once, after its last user is done with it, and no data race occurs.",
 ["schedules"],
 "all interleavings of the memory accesses of several threads that hold copies of the same generators and shrink trees",
 "the test suite is single threaded; a lost reference count update or an unsynchronised cache needs a preemption between two particular instructions",
 ["include/rapidcheck/Gen.hpp","include/rapidcheck/Shrinkable.hpp","include/rapidcheck/gen","include/rapidcheck/shrinkable","src/Random.cpp"],
 [("atomic intrusive reference counts","include/rapidcheck/Gen.hpp; include/rapidcheck/Shrinkable.hpp"),
  ("implementation objects are immutable after construction","include/rapidcheck/Gen.hpp; include/rapidcheck/Shrinkable.hpp")],
 [("m_count","number of handles on the shared implementation object","include/rapidcheck/Shrinkable.hpp")],
 ["values seen per thread","construction and destruction of payload objects"])

p("C09","Stateful tests only ever run valid command sequences, in order, on the model",
 "A generated command sequence, and every sequence on any shrink path from it, is valid: each command's precondition holds in the model state reached from the initial state by applying the commands before it; running it visits each command exactly once in order, checks its precondition, runs it with exactly that model state and then applies it, and stops at the first command that fails. Commands whose construction or precondition discards never appear in a generated sequence, and if no valid command can be found within a bounded number of tries generation fails and the test case is discarded. Shrinking never lengthens a sequence and ends in a failing sequence from which no contiguous run of commands can be removed leaving a valid sequence that still fails.",
 ["histories","fault_sequences","inputs"],
 "all models, command sets, histories of commands, shrink paths, and faults (discards and exceptions) in command constructors, preconditions, application and execution",
 "tests use one or two command types on a small model; which sequences become invalid when a command is removed or shrunk depends on the whole history",
 ["include/rapidcheck/state/State.hpp","include/rapidcheck/state/Command.hpp","include/rapidcheck/state/Commands.hpp","include/rapidcheck/state/gen/Commands.hpp","include/rapidcheck/state/gen/ExecCommands.hpp"],
 [("commands are generated against the model state reached so far","include/rapidcheck/state/gen/Commands.hpp"),
  ("sequences are re-validated after each shrink","include/rapidcheck/state/gen/Commands.hpp"),
  ("runAll","include/rapidcheck/state/Commands.hpp")],
 [("CommandEntry","command, its shrink tree node and its random","include/rapidcheck/state/gen/Commands.hpp")],
 ["calls of checkPreconditions/run/apply/show on the user's commands","state passed to run"])

p("C10","Generator contracts hold for every value and every shrink, even with bad inners",
 "Every value a generator yields and every value reachable by any chain of shrinks satisfies the generator's documented contract (ranges, element sets, predicates, requested container sizes, uniqueness of elements and keys, non-emptiness, constraints inherited from inner generators), at any size. A combinator whose inner generator or predicate rejects or repeats values tries a bounded number of times for each value (so it is not given up on while its inner offers a usable one again and again) and then reports a generation failure, and one whose inner generator or callback throws ends by that exception or a generation failure; it never loops forever, never delivers a value that breaks the contract, and shrink chains are finite.",
 ["fault_sequences","histories","inputs"],
 "all compositions of the library's generators, sizes, randoms, shrink paths, and misbehaviour (rejection, exhaustion, repeated values, exceptions) of inner generators and predicates at any point",
 "tests check single generators with well behaved inners and mostly look at root values or one shrink path; contracts are lost in deep shrinks of compositions and in retry paths that healthy inners never reach",
 ["include/rapidcheck/gen","include/rapidcheck/shrink","src/gen/Numeric.cpp","src/gen/Text.cpp","src/gen/detail/ScaleInteger.cpp"],
 [("filtering of shrinks by the same predicate","include/rapidcheck/gen/Predicate.hpp"),
  ("uniqueness kept while shrinking","include/rapidcheck/gen/Container.hpp"),
  ("bounded retries then GenerationFailure","include/rapidcheck/gen/Container.hpp; include/rapidcheck/gen/Predicate.hpp")],
 [],["values and shrinks of Gen<T>"])

p("C11","Every shrink tree node is self-contained and stable",
 "Every node of a shrink tree, and every partially consumed list of its shrinks, can be used at any later time, any number of times and in any order relative to other nodes, and always yields the same value and the same shrinks, also after the generator, the callables given to it, the parent, the siblings and the tree's root have been destroyed, moved from or are half consumed. Copying, assigning, moving or abandoning any of them never changes what another one yields, and nothing is leaked or used after being destroyed.",
 ["schedules","histories","fault_sequences"],
 "all orders of creating, copying, reading, advancing, moving and destroying generators, nodes and shrink sequences, for all compositions of the library's generators and shrink combinators",
 "tests keep the root and the generator alive for the whole traversal and walk depth first; a node that secretly borrows from its parent or generator only breaks under a different lifetime order",
 ["include/rapidcheck/Shrinkable.hpp","include/rapidcheck/Gen.hpp","include/rapidcheck/Seq.hpp","include/rapidcheck/shrinkable","include/rapidcheck/gen","include/rapidcheck/seq"],
 [("shared immutable implementation objects with reference counts","include/rapidcheck/Shrinkable.hpp"),
  ("closures capture by value","include/rapidcheck/gen; include/rapidcheck/shrinkable")],
 [],["Shrinkable<T>::value/shrinks under ASan, live-object counts of user types"])

p("C12","Any exception in user code ends as the documented outcome of that test case",
 "Whatever a test body, an argument generator or any generator callback does — return, report, or throw an object of any type at any invocation, during search or shrinking — the check returns normally with the documented classification: assertions, unknown exceptions and returned false or non-empty strings are failures carrying their message, preconditions, discards and exhausted generators are discards, everything else is a success; a discard overrides other results and a failure overrides successes. An exception never escapes from a check, terminates the process, is attributed to another test case, or makes an already found failure disappear, and the assertion macros evaluate their operands exactly once.",
 ["fault_sequences","histories"],
 "all positions and types of exceptions in user callbacks over the whole life of a check, and all combinations of reported and thrown results in one case",
 "tests throw from one place at a time, mostly from the body; the interplay with argument generation, shrinking and the generators' retry loops is not exercised",
 ["include/rapidcheck/detail/Property.hpp","src/detail/Property.cpp","src/detail/Testing.cpp","include/rapidcheck/Gen.hpp","include/rapidcheck/Assertions.h","include/rapidcheck/Assertions.hpp","src/detail/Assertions.cpp","include/rapidcheck/gen/detail/ExecRaw.hpp"],
 [("property adapter maps thrown objects to results","include/rapidcheck/detail/Property.hpp"),
  ("generator calls are noexcept and defer exceptions to the value","include/rapidcheck/Gen.hpp")],
 [("AdapterContext","accumulated result of one case","include/rapidcheck/detail/Property.hpp")],
 ["TestResult","CaseDescription delivered to listeners"])

p("C13","A random generator state can be forked, saved and restored at any point",
 "At any point of any history of draws, splits and seeds, a copy, or a state written out and read back in another process, continues with exactly the same draws and splits as the original, and drawing from one never changes what the others yield. Equality and ordering of states are consistent with that: a faithful copy is equal, a state that has advanced is not, and ordering is a strict total order consistent with equality. States reached by splitting are distinct from each other and from their parent, and two states split off at different points, neither descending from the other, yield different streams.",
 ["histories","crash_points"],
 "all histories of draw/split/copy/save/restore operations over several states, with save and restore at every point, including exactly at the internal block boundaries",
 "tests sample a few states with random numbers of draws; block refill, counter overflow and path-bit bookkeeping only misbehave at particular positions in the history",
 ["src/Random.cpp","include/rapidcheck/Random.h","include/rapidcheck/Random.hpp","include/rapidcheck/detail/Serialization.hpp"],
 [("tree-hashed key, block cipher and counter","src/Random.cpp")],
 [("m_key/m_block/m_bits/m_bitsi/m_counter/m_blocki","position in the random tree","include/rapidcheck/Random.h")],
 ["Random::next/split","serialize/deserialize of Random"])

p("C14","Test framework fixtures and results stay paired with each test case",
 "In the Google Test, Google Mock, Boost Test, Catch and doctest integrations a fixture is freshly constructed for each executed test case, set up before its body, and torn down and destroyed after it, however the body ends; no two test cases share or overlap a fixture. A property's verdict becomes exactly one framework verdict carrying the report, and non-fatal framework failures raised inside a test case, such as failed mock expectations, count as failures of that case only, so that it is shrunk, when the Google Mock listener is installed, while those raised outside of properties reach the framework untouched.",
 ["histories","fault_sequences"],
 "all sequences of cases inside and outside properties, ended by success, failure, discard, exception or non-fatal framework failure, during search and shrinking",
 "the integration tests use fixtures whose body always succeeds; tear-down after a failing, discarded or throwing case and the attribution of framework failures are never observed",
 ["extras/gtest/include/rapidcheck/gtest.h","extras/gmock/include/rapidcheck/gmock.h","extras/boost_test/include/rapidcheck/boost_test.h","extras/catch/include/rapidcheck/catch.h","extras/doctest/include/rapidcheck/doctest.h","include/rapidcheck/detail/ExecFixture.h"],
 [("ExecFixture instantiates the fixture per case","include/rapidcheck/detail/ExecFixture.h"),
  ("gmock listener reports into the current property context","extras/gmock/include/rapidcheck/gmock.h")],
 [],["constructor, SetUp, body, TearDown, destructor events","framework test results"])

p("C15","Values are destroyed exactly once even when copies or constructors throw",
 "The library's value holders (optional, variant and type-erased values, generators, shrink trees and sequences of user objects) construct, copy, move, assign and destroy every user object exactly once, for any history of operations on several holders, including when a user object's constructor or copy throws in the middle of an operation. After such an exception every holder involved is still usable and destructible, a copy assignment that failed on a variant has left the old value in place, and no user object is leaked, destroyed twice or used after its destruction.",
 ["histories","fault_sequences"],
 "all histories of construction, copy, move, assignment, reset and destruction over several holders with exceptions injected at any copy or construction",
 "tests use non-throwing payloads and fixed operation sequences; a leak or double destruction needs a throw between two steps of one operation",
 ["include/rapidcheck/Maybe.hpp","include/rapidcheck/detail/Variant.hpp","include/rapidcheck/detail/Any.hpp","src/detail/Any.cpp","include/rapidcheck/Seq.hpp","include/rapidcheck/Shrinkable.hpp","include/rapidcheck/Gen.hpp"],
 [("placement construction with explicit engaged flag/type index","include/rapidcheck/Maybe.hpp; include/rapidcheck/detail/Variant.hpp"),
  ("copy into a temporary before destroying the old value","include/rapidcheck/detail/Variant.hpp")],
 [("m_storage/m_typeIndex/m_initialized","live object in raw storage","include/rapidcheck/Maybe.h; include/rapidcheck/detail/Variant.h")],
 ["instance registry of instrumented payload types","ASan/LSan"])

p("C16","Values are displayed in the documented textual form",
 "Every displayable value is printed by the documented rules: user output operators are used when present, strings are quoted and escaped, containers, pairs, tuples, pointers and optionals print their contents recursively, and types without an output operator print a placeholder.",
 ["inputs"],"all values of all displayable types",
 "tests print a few values per type",
 ["src/Show.cpp","include/rapidcheck/Show.hpp","include/rapidcheck/detail/ShowType.hpp"],
 [("showValue overloads","include/rapidcheck/Show.hpp")],[],["rc::show, rc::toString"])

p("C17","Weighted and sized choices follow the requested distribution",
 "Over many draws each alternative of a weighted choice is selected in proportion to its weight, and ranges, booleans and characters cover their whole domain without systematic gaps or bias beyond the documented size dependence.",
 ["inputs"],"all weights, ranges and seeds in the limit of many draws",
 "tests compare a sample mean against a tolerance for a few weights",
 ["include/rapidcheck/gen/Select.hpp","include/rapidcheck/gen/Numeric.hpp","src/detail/FrequencyMap.cpp"],
 [("frequency map lookup","include/rapidcheck/gen/Select.hpp")],[],["generated values"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,x["id"]
