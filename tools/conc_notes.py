SMC = "stateless model checking: all thread interleavings of the real (bytecode-instrumented) code up to a preemption bound, each outcome compared with that of the call alone"
LIB = " Scheduling points: every field and array access of repository classes and instrumented java.util collections, locks, class initialisation, calls on shared library objects (a call into the ANTLR run time, vavr or Caffeine is one step, except for its callbacks). Sequential consistency only."
CONC = {
"C23": (SMC, "Two and three threads over one shared parser and its evaluators, all pairs of ~70 calls covering every construct, warm and as first use of the process; 1 preemption (first use of one call: 2) quick, 2 thorough." + LIB),
"C24": (SMC, "Constructors and first uses of the process (class initialisation included, a fresh class loader per execution) against constructors and evaluations in other threads; 1-2 preemptions quick, 2 thorough." + LIB),
"C25": (SMC, "Two and three threads over one shared caching parser, equal and colliding keys, cache sizes 0, 1, 2, 100, evicting at once or not at all; 2 preemptions quick, 3 thorough." + LIB),
}
