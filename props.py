"""Per-property configuration of the simulations."""
PROPS = {}
NOT_APPLICABLE = {
    "C16": "displaying a value apart from a check (in counterexamples: C05) is a pure function of that value: no scheduling, time, I/O, fault or second party for a simulation to control, so only input generation would be left",
    "C17": "the distribution of a generator is a statistical statement over independent pure draws; no schedule or fault can change it, and deciding it needs hypothesis testing, not simulated executions",
}
def prop(pid, **kw):
    kw.setdefault("stub", ["user callbacks and code under test are simulator-owned", "randomness: explicit seeds/Random states drawn by the simulator"])
    kw.setdefault("note", "Seeded search, not exhaustive: holds on every simulated run. Trusts the reference model in sim/ and clang's ASan/UBSan; user code, schedules and faults are the simulator's.")
    kw.setdefault("distinct", "order-sensitive 64-bit signature of the operations, faults and outcomes of a run")
    PROPS[pid] = kw

prop("C07", sources=["c07_seq.cpp", "payload.cpp", "memory.cpp"], quick=700000, thorough=12000000, batch=200,
     rule="a run draws a composition of sequence combinators over instrumented elements, then a schedule of next/copy/assign/move/swap/drop/operation steps over up to 6 handles, with pure throwing callbacks, transient throws at a drawn callback ordinal and failing allocations; non-trivial: at least one fault fired or the laziness bound was measured",
     real=["rc::Seq and all rc::seq combinators and operations"])

prop("C13", sources=["c13_random.cpp"], quick=500000, thorough=9000000, batch=200,
     rule="a run draws a history of draw/split/fork/save-crash-restore/assign/swap/reseed steps over up to 7 generator states (or a split tree, or a fast-forwarded counter); non-trivial: a fork, torn save, crash-restore or fast-forward happened",
     real=["rc::Random (split, next, ==, <, hash, serialize, deserialize)", "rc::detail::BitStream", "rc::detail serialization of integers"])

prop("C03", sources=["c03_config.cpp"], quick=350000, thorough=6000000, batch=200,
     rule="a run writes a drawn configuration / reproduce map / binary record, then damages the stored text with 1-3 storage faults per reload (truncated, flipped, lost, duplicated, spliced, rotated, torn, inserted, forged length fields) up to 6 times, or starts a real process with the damaged text in its environment; non-trivial: at least one storage fault applied",
     real=["configFromString/configToString/configToMinimalString", "configuration() of a process of its own", "parseMap/mapToString", "base64", "stringToReproduceMap/reproduceMapToString", "all deserialize functions used by Reproduce"])

ZOO = ["zoo.cpp", "zoo_a.cpp", "zoo_b.cpp", "zoo_c.cpp", "payload.cpp"]
GENS_REAL = ["every rc::gen generator and combinator (and extras/boost) used by the drawn composition", "rc::Gen, rc::Shrinkable, rc::Seq, rc::shrink, rc::shrinkable", "rc::Random"]
prop("C11", sources=["c11_shrinktree.cpp", "memory.cpp"] + ZOO, quick=150000, thorough=2600000, batch=100,
     rule="a run draws a composition of generators, a size and a seed, then a schedule of value/shrinks/next/copy/assign/move/drop/regenerate steps over up to 8 nodes, 6 partially consumed shrink lists and the generators, with pure and transient throws in callbacks and failing allocations; non-trivial: something shared was dropped, replaced or assigned, or a fault fired",
     real=GENS_REAL)

prop("C10", sources=["c10_contracts.cpp"] + ZOO, quick=240000, thorough=4000000, batch=100,
     rule="a run draws a composition of generators with rejecting, repeating and throwing inners, a size and seeds, then a chain of shrinks (random hops, then always the first shrink until the end) whose every visited value is checked against the composition's contract; non-trivial: an inner can reject or a callback throws, or a transient fault fired",
     real=GENS_REAL)

CHECK_REAL = ["testProperty/checkProperty/searchProperty/shrinkTestCase/reproduceProperty", "toProperty, PropertyAdapter, AdapterContext, execRaw, ExecHandler, Recipe, ImplicitParam/ImplicitScope", "assertion, log, tag and classify macros"] + GENS_REAL
PROG = ["prog.cpp", "memory.cpp"] + ["prog_r%d.cpp" % i for i in range(4)] + ZOO
prop("C12", sources=["c12_classify.cpp"] + PROG, quick=75000, thorough=1400000, batch=50,
     rule="a run draws up to 3 test bodies (picks, logs, tags, every assertion macro, throws of nine kinds, non-throwing reports, nested checks) over throwing/rejecting argument generators, runs them as checks with drawn parameters and a transient throw at a drawn callback ordinal, and compares every announced case with what the body really did; non-trivial: something threw",
     real=CHECK_REAL)

prop("C06", sources=["c06_isolation.cpp"] + PROG, quick=35000, thorough=600000, batch=50,
     rule="a run draws test bodies with nested checks (left normally, by throws, or torn down by a throwing listener), generator callbacks that themselves log, tag, report, pick and run checks, and transient throws; every description, tag and displayed value is compared with unique tokens of the case that produced it, and enclosing cases with their execution alone; non-trivial: a nested check, callback intrusion or throw happened",
     real=CHECK_REAL)

prop("C04", sources=["c04_verdict.cpp"] + PROG, quick=20000, thorough=2000000, batch=100,
     rule="a run draws check parameters (up to INT_MAX) and a script saying how the n-th executed case ends (or a simulated program), runs the check with up to three listeners plus the progress log behind a multicast listener, and replays the script on a reference loop; non-trivial: a case was discarded or failed, parameters were huge, or something threw",
     real=CHECK_REAL + ["MulticastTestListener, LogTestListener"])

prop("C01", sources=["c01_repeat.cpp"] + PROG, quick=30000, thorough=2000000, batch=100,
     rule="a run draws a program (or a generator) with its parameters, runs it, and runs it again up to four times after and inside drawn disturbances (other checks, torn-down checks, transient faults, trees of the same property kept, used and abandoned, direct generator use, other memory contents, enclosing test cases, generator callbacks and gen::exec), comparing every executed case, event and the verdict; non-trivial: a disturbance fault was applied",
     real=CHECK_REAL + GENS_REAL + ["state.h command generation"])
prop("C05", sources=["c05_counterexample.cpp", "c05_display.cpp"] + PROG, quick=30000, thorough=2000000, batch=100,
     rule="a run draws a program and checks it; a failing report is verified against an independent walk of the failing case's shrink tree (first failing shrink at every step, nothing fails below), against the recorded inputs of the case executed last, and in its printed form; or the program is flaky or interrupted by faults while shrinking; or its smallest failing input is known beforehand, or values of any kind are to be shown as the body received them; non-trivial: a case failed or a fault was injected",
     real=CHECK_REAL + GENS_REAL)
prop("C02", sources=["c02_reproduce.cpp"] + PROG, quick=25000, thorough=2000000, batch=100,
     rule="a run draws up to five properties with arbitrary ids, checks them under the default listener, ends the simulated process, loads the printed configuration (mixed with other settings) into the next one and runs the properties again in another order, some of them edited; or replays a drawn, possibly stale path; or does it with two real forked processes joined by the environment variable; non-trivial: a process was restarted with recorded failures",
     real=CHECK_REAL + ["DefaultTestListener, ReproduceListener, Configuration, rc::check and the global listener (process scenario)"])
prop("C15", sources=["c15_holders.cpp", "payload.cpp", "memory.cpp"], quick=200000, thorough=6000000, batch=200,
     rule="a run draws a history of construct/copy/move/assign/reset/swap/destroy steps over several optional, variant, type-erased, generator, shrink tree and sequence handles of registered user objects (or sends such objects through generators, shrink trees and whole checks) with a throw injected at a drawn construction, copy, move, assignment or callback, or a failing allocation; non-trivial: a fault fired or a check failed",
     real=["rc::Maybe, rc::detail::Variant, rc::detail::Any", "rc::Gen, rc::Shrinkable, rc::Seq handles", "checkTestable with registered objects as inputs"])
prop("C09", sources=["c09_commands.cpp", "payload.cpp"], quick=18000, thorough=2000000, batch=50,
     rule="a run draws a state machine (states, partial preconditions, resources, discarding constructions and applications, failure patterns) and one of six command generators, then walks the shrink tree of a generated sequence, runs a whole stateful check with every callback recorded, calls the sequence functions on arbitrary sequences, or leaves no valid command; throws are injected at drawn callbacks; a pure model decides validity, outcome and minimality; non-trivial: partial preconditions, a failure or a fault occurred",
     real=["rc::state (commands generator, execOneOf, runAll, applyAll, isValidSequence, check)", "testProperty, gen::exec, shrink trees"])

_X = ["-I/repo/extras/gtest/include", "-I/repo/extras/gmock/include", "-I/repo/extras/boost_test/include", "-I/repo/extras/catch/include", "-I/repo/extras/doctest/include", "-isystem/opt/vp/cmake/include"]
prop("C14", sources=["c14_frameworks.cpp", ("c14_gtest.cpp", None, _X), ("c14_boost.cpp", None, _X), ("c14_catch.cpp", None, _X), ("c14_doctest.cpp", None, _X + ["-std=c++20"])],
     quick=100000, thorough=2000000, batch=50, flavour="plain", libs=["-lgmock", "-lgtest", "-lCatch2"],
     rule="a run draws a script for up to four tests (properties with and without fixtures, ordinary tests) of a Google Test/Mock, Boost Test, Catch or doctest program, runs the program under the real framework in a process of its own and judges the recorded fixture lives, verdicts, reports and delegated failures; or drives the fixture adaptor in process; throws are injected at drawn fixture constructions, set-ups, bodies and tear-downs; non-trivial: a case failed or was discarded",
     real=["extras/gtest, extras/gmock, extras/boost_test, extras/catch, extras/doctest headers", "ExecFixture, checkTestable, configuration, default listener", "the real Google Test, Google Mock, Boost Test, Catch2 and doctest"])

prop("C08", sources=["c08_threads.cpp", ("simsched.cpp", "sched", [])] + ZOO, quick=200000, thorough=2500000, batch=1, again=0, flavour="sched", libs=["-rdynamic", "-ldl"],
     rule="a run draws generator compositions and a program of up to 14 copy/assign/move/drop/generate/value/shrinks/next/walk/post/take/transform steps for each of 2-4 simulated threads, and a preemption style; every memory access and atomic operation of the library and the callbacks is a point where the drawn schedule may switch threads; non-trivial: a thread was preempted",
     real=GENS_REAL, note="Seeded search over simulated schedules, not exhaustive. Interleavings are sequentially consistent; weaker orders are judged by the happens-before detector from the memory order of each operation. Accesses made inside libstdc++.so, and memory of thrown exceptions, are not seen.")
