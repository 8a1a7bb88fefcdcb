# Text of every property: the single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.
import os, re
S = "HeuristicFlow/src/"
def line(where):  # "file@regex" -> "file:line"
    f, rx = where.split("@")
    for n, l in enumerate(open(os.environ.get("HEU_REPO", "/repo") + "/" + S + f), 1):
        if re.search(rx, l): return "%s%s:%d" % (S, f, n)
    raise SystemExit("no anchor for " + where)
P = {}
def prop(id, title, statement, over, qtext, why, files, mech, design, note, tech="property-based testing"):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=[S + f for f in files],
                 mech=[dict(name=n, where=line(w)) for n, w in mech], design=design, note=note, tech=tech)

prop("C01", "Random draws stay in their interval, cover it, and follow the promised law",
 "A random index lies in the half-open interval asked for and every index of that interval is equally likely; a random real lies in the closed interval asked for and is uniform on it; a normal draw follows the mean and standard deviation asked for. The array forms fill every requested cell, and no other memory, with such draws.",
 ["inputs", "histories"], "every integer type, size and pair of bounds the type can hold; every pair of real bounds, mean and deviation; any number and mix of previous draws",
 "No test inspects a drawn value; the algorithms only sample a few ranges, where an end point that is never (or wrongly) drawn does not show.",
 ["Global/Randoms.hpp"],
 [("uniform real, uniform index and normal draws over one process-wide engine", "Global/Randoms.hpp@std::mt19937& global_mt19937")],
 "Type, bounds and width are generated (any pair of bounds the integer type holds, small widths biased, mixed-magnitude real bounds, equal bounds). Hundreds of draws per value are judged by range, full support and 8-sigma frequency tests; array forms are drawn into guarded buffers under AddressSanitizer. Oracle: the definition of the law.",
 "Statistical thresholds of 8 sigma on deterministic seeds; bias smaller than the sample resolves (about 1/50 of a bin) is not seen. Widths beyond 2^49 are judged by range and halves only.")
prop("C02", "Numbers pass through the compile-time encodings unchanged",
 "Encoding a floating-point number as an integer code and decoding it returns the identical value, and the code is the number's IEEE representation. Fraction codes give back the numerator, the denominator and their quotient; power codes give back the decimal number they were built from; the named constants equal the mathematical constants they name.",
 ["inputs"], "all 2^32 float and 2^64 double patterns except NaN payloads; all 32-bit numerator/denominator pairs; all coefficients of up to 16 digits with powers within +-255",
 "TestEncoder prints a handful of values; failures sit at rounding boundaries such as the number just below a power of two.",
 ["Global/ConvertDoubleAndBinCode.hpp", "Global/TemplateFloat.hpp"],
 [("floating point <-> integer code", "Global/ConvertDoubleAndBinCode.hpp@constexpr binCode64 encode"), ("fraction and power codes and named constants", "Global/TemplateFloat.hpp@^struct DivEncode")],
 "Bit patterns biased to boundary mantissas and exponents, short decimals and neighbours, with the bit pattern itself as oracle. For template-only codes the seed generates tables of 400 fractions and 400 powers at compile time and the decoded constants are compared with 128-bit / long double arithmetic.",
 "Template tables are resampled per seed, not per case. Power codes are compared to 1e-12 relative.")
prop("C03", "Factorials, combinations, extrema and the chaotic sequence are exact",
 "Factorials and binomial coefficients are exact whenever the result is representable; minimum, maximum, sign and square return the mathematically right value for every argument list, at run time and at compile time. The logistic sequence follows x -> 4x(1-x) identically in its single-step, bulk and array forms and stays in [0,1].",
 ["inputs", "histories"], "every integer type and argument with a representable result; every argument list; every start value and sequence of calls",
 "MinMaxCompileTime checks one list; overflow of intermediate products and ties need chosen arguments.",
 ["Global/HeuMaths.hpp", "Global/LogisticChaos.hpp"],
 [("factorial, NchooseK, min/max, sign, square, Gaussian curve", "Global/HeuMaths.hpp@inline num_t NchooseK"), ("logistic sequence", "Global/LogisticChaos.hpp@^class LogisticChaos")],
 "Arguments are generated per integer type and compared with a 128-bit Pascal triangle, std::min/max_element and a reference logistic map; compile-time extrema use a seed-generated table of 270 packs.",
 "C(N,K) is required exact where N*C(N,K) fits the type, which the multiplicative method needs.")
prop("C04", "A packed bit array behaves like a sequence of N-bit unsigned integers",
 "Under any sequence of appends, writes, reads, element copies, resizes, reservations, clears, copies and moves, the packed array holds exactly the values an ordinary sequence of N-bit integers would hold. Writing one element changes no other element, values are taken modulo 2^N, and iteration visits the elements in order.",
 ["histories", "configurations"], "every element width and block type, every operation history, arrays up to tens of millions of bits",
 "The test pushes and prints one fixed configuration; boundary-straddling elements, other block types, copies and large sizes are never compared with a model.",
 ["SimpleMatrix/MultiBitSet.hpp"],
 [("packed storage with element proxies", "SimpleMatrix/MultiBitSet.hpp@^class multiBitSet")],
 "Model-based: random histories of up to 40 operations over 20+ (width, block type) configurations against std::vector, whole content compared after every step, under ASan/UBSan with filled heap memory; a second test uses arrays of 2^24..2^26 bits.",
 "Histories of at most 40 operations (120 thorough).")
prop("C05", "Simple matrices behave like column-major arrays through every copy and resize",
 "Fixed-size, dynamic and mapped matrices keep exactly the elements written at each (row, column), in column-major order, through fills, copies, moves, self-assignments and assignments between the kinds. Copies are independent, a map aliases its storage, storage asked for with reserve() is kept and reused without disturbing the elements in it, and element objects are constructed and destroyed exactly once.",
 ["histories", "configurations"], "every element type (trivial or with lifetime), shape and operation history",
 "The test builds one matrix of each kind with ints; object lifetime, reallocation and cross-kind assignment are never exercised.",
 ["SimpleMatrix/MatrixBase.hpp", "SimpleMatrix/MatrixDynamicSize.hpp", "SimpleMatrix/MatrixFixedSize.hpp", "SimpleMatrix/MatrixMap.hpp"],
 [("dynamic matrix storage management", "SimpleMatrix/MatrixDynamicSize.hpp@void reserve"), ("mapped and fixed matrices", "SimpleMatrix/MatrixMap.hpp@^class MatrixMap")],
 "Model-based: random histories of up to 30 operations over several live matrices of all kinds against a plain model, with a lifetime-tracking element type, strings, and AddressSanitizer.",
 "Histories of bounded length; shapes up to 6x6.")
prop("C06", "Box initialisation and clamping always yield the nearest point inside the box",
 "Initialising a decision variable from a box gives a point of the box's shape with every coordinate inside its bounds, spread over the whole box. Clamping any point gives the nearest point of the box, coordinate by coordinate, and leaves points already inside untouched; unbounded Gaussian boxes follow their mean and deviation.",
 ["inputs", "configurations"], "every container, scalar type, square/rectangular/compile-time box, dimension and bounds, including bounds at the limits of the type",
 "The Boxes test only instantiates types and prints a few values.",
 ["EAGlobal/BoxConstraint.hpp", "EAGlobal/SizeBody4BoxConstraint.hpp"],
 [("discrete, boolean, continuous and Gaussian boxes", "EAGlobal/BoxConstraint.hpp@void applyConstraint"), ("run-time dimensions", "EAGlobal/SizeBody4BoxConstraint.hpp@setDimensions")],
 "Over 40 box instantiations (std and Eigen, fixed and dynamic, int/char/bool/float/double, square/rectangle/compile-time range); generated bounds and points; oracle = nearest-point clamping, bounds, coverage of both ends and 8-sigma evenness.",
 "Boxes whose bounds the scalar type can hold.")
prop("C07", "A local step moves one coordinate by at most the step size, inside the box",
 "Taking one local step from any point of a box changes a single coordinate, by at most the box's step size (by exactly one unit for integers, by a flip for booleans), and the result is still inside the box. Every coordinate and both directions are reachable.",
 ["inputs", "histories", "configurations"], "every box kind, container, bounds, step size and start point, and walks of any length",
 "No test checks a step; wrap-around at the limits of a type and ignored step sizes need special bounds.",
 ["EAGlobal/BoxConstraint.hpp"],
 [("applyDelta of each box kind", "EAGlobal/BoxConstraint.hpp@void applyDelta")],
 "The C06 generator plus start points on and between the bounds; 30n+60 steps as a walk or from one point; built twice (C++17 and C++20, which select different code).",
 "Walks of bounded length.")
prop("C08", "Pareto dominance is exactly the textbook strict partial order",
 "One objective vector dominates another exactly when it is no worse in every objective and better in at least one, for minimisation and maximisation alike. The relation is irreflexive, asymmetric and transitive, and does not depend on whether the number of objectives is known at compile time.",
 ["inputs", "configurations"], "every pair of objective vectors of every length, ties, signed zeros and infinities included",
 "No test calls the comparison directly; ties decide between weak and strict dominance and rarely arise in sampled populations.",
 ["EAGlobal/Pareto.hpp"],
 [("isStrongDominate", "EAGlobal/Pareto.hpp@bool isStrongDominate")],
 "Pairs and triples on small grids, extreme values and uniform values with forced ties; definition, order laws and metamorphic relations (negation reverses, permuting objectives changes nothing).",
 "2..9 objectives.")
prop("C09", "Single-objective test functions compute their published formulas",
 "Each single-objective benchmark function returns the value of its published formula at every point, for every supported container, with or without an argument object. At the published minimum it attains the published value and no point of the search range is lower.",
 ["inputs", "configurations"], "every point of the search range, every dimension, every container type",
 "testFunctions evaluates each function at one point and compares nothing.",
 ["EAGlobal/SOFunctions.hpp", "EAGlobal/TestFunctions.hpp", "EAGlobal/testFunctionsCommon.hpp"],
 [("single-objective formulas", "EAGlobal/SOFunctions.hpp@ackley")],
 "Differential: 20 functions x 7 container types against independent long double implementations of the published formulas, with a rounding allowance from the size of the terms; metamorphic symmetry; minimum tests around the published optima.",
 "Tolerance of 1e-12 (double) / 1e-5 (float) of the size of the intermediate terms.")
prop("C10", "Multi-objective test functions compute their published formulas",
 "Each multi-objective benchmark function returns the objective vector of its published formula at every point of its range, for every number of objectives and every supported container. It sizes a dynamic objective vector correctly and never reads or writes outside its arguments.",
 ["inputs", "configurations"], "every point, dimension, objective count and combination of variable and fitness containers",
 "Tests instantiate the functions at one point for Eigen containers and compare nothing.",
 ["EAGlobal/MOFunctions.hpp", "EAGlobal/testFunctionsCommon.hpp"],
 [("multi-objective formulas and fitness sizing", "EAGlobal/MOFunctions.hpp@static void")],
 "Differential against long double references for 8 classical functions and DTLZ1-9 over 16 container combinations and objective counts 2..6, under ASan; three builds run in parallel.",
 "Tolerance from the size of the intermediate terms.")
prop("C11", "Ready-made crossover, mutation and initialisation operators follow their law",
 "The ready-made genetic operators do what their documentation says for every container: arithmetic crossover gives each child the stated weighted mean of its parents, exchange crossovers give every coordinate of a child from one of the two parents (a single cut point, or an independent pick per coordinate with the stated probability), initialisation is uniform over the range or box, and mutation takes one local step or gives one coordinate another value. Parents are left untouched and children have the parents' shape.",
 ["inputs", "configurations"], "every supported container, scalar type, size, ratio, probability and pair of parents, with or without an argument object",
 "The GA tests use one or two operators on one container and look only at the final result, which a biased cut point or an unused ratio barely changes.",
 ["Genetic/Miscellaneous4GA.hpp"],
 [("default initialisation, crossover and mutation functions", "Genetic/Miscellaneous4GA.hpp@void iFunNd")],
 "Four tests: arithmetic crossovers against the formula, discrete crossovers against cut-point and pick laws (deterministic membership plus 8-sigma frequencies), range initialisation, box operators. Built as C++17 and C++20 because the ratio parameters differ.",
 "Frequencies resolved to a few percent.")
prop("C12", "Every selection method keeps the population size and favours the fit as stated",
 "After selection the population has exactly the requested size and holds only individuals that were there before, each no more often than it was present (except for the methods that draw with replacement). Truncation keeps exactly the best; elitist and tournament methods keep their guaranteed individuals; the survival chances of every probabilistic method follow its documented law.",
 ["inputs", "histories", "configurations"], "every selection method, its parameters, population size, direction and fitness landscape, ties and all-equal fitness included",
 "SOGA tests run one method to a printed result; losing or duplicating an individual, or a wrong selection pressure, still converges.",
 ["Genetic/SOGASelecters.hpp", "Genetic/SOGA.hpp"],
 [("ten selection methods, compile-time or run-time chosen", "Genetic/SOGASelecters.hpp@void __impl___impl_select"), ("selection in the solver", "Genetic/SOGA.hpp@void __impl_select")],
 "Instrumented genes carry identities, so every selection of a random run is observed from outside: size, membership, multiplicity and each method's deterministic guarantees. A second test repeats one selection 8000 times and compares survival frequencies with closed-form laws (8 sigma). A third does the same for up to 200 individuals, with fitness over 30 decades and penalties as great as a double can be, against a Gumbel-key reference sampler, block of ranks by block of ranks.",
 "Fitness is finite; eliteNum and tournamentSize within the population size, as the documentation asks.")
prop("C13", "The reported best of a genetic run is truly the best of its population",
 "After any number of generations the best gene, best fitness and result a single-objective solver reports belong to a member of its population that no other member beats, and the record holds the best fitness of each generation. With elitist selection the best fitness never gets worse, within a run and from one run to the next.",
 ["histories", "configurations"], "every selection method, direction, option set, landscape and sequence of runs",
 "Tests print the result and compare it with nothing; reporting a stale or second-best individual goes unnoticed.",
 ["Genetic/SOGA.hpp", "Genetic/GABase.hpp"],
 [("tracking of the elite", "Genetic/SOGA.hpp@void updateFailTimesAndBestGene"), ("fitness record", "Genetic/GABase.hpp@_record[.](push|emplace)_back|_record.reserve")],
 "Random histories of up to four runs, between which options, population size, parameters and method may change and the population may be initialised again, over the instantiations of C12; the reported best and the record are compared with the population photographed at every generation.",
 "Up to 25 generations, 40 individuals.")
prop("C14", "Genetic runs stop by their options and count generations, failures and records",
 "A genetic run ends exactly when the generation limit is reached or, if a failure limit is set, when the best fitness has not improved for more than that many generations. Generation count, failure count and record length agree with the generations that really took place, in single- and multi-objective solvers alike, also when a solver is run or initialised again; for multi-objective solvers the reported best is the ideal point of the survivors.",
 ["histories", "configurations"], "every solver kind, option set and sequence of initialisations and runs",
 "Tests run each solver once and never read the counters.",
 ["Genetic/GABase.hpp", "Genetic/SOGA.hpp", "Genetic/MOGABase.hpp"],
 [("generation loop and stopping rule", "Genetic/GABase.hpp@void __impl_run"), ("records", "Genetic/GABase.hpp@_record[.](push|emplace)_back|_record.reserve"), ("ideal point", "Genetic/MOGAAbstract.hpp@Fitness_t bestFitness")],
 "Model of the two stopping rules replayed over random histories of several runs with changing options for SOGA, NSGA2 and NSGA3; the generations that took place are counted from the fitness evaluations.",
 "The failure limit of multi-objective solvers has no effect in this code base and is modelled so.")
prop("C15", "Individuals are evaluated once, with their own gene, and bred at given rates",
 "Every individual that takes part in a selection has the fitness of its own gene, computed exactly once, whatever the number of threads. Each generation only adds children produced by the given crossover and mutation functions from surviving individuals, which stay unchanged; each survivor mates at most once per generation, and crossover and mutation happen at the requested probabilities, independently of rank.",
 ["histories", "schedules", "configurations"], "every solver kind, thread count, population size, probability and history, with and without threading support compiled in",
 "A stale, missing or misplaced fitness still lets the tests finish; no test counts evaluations or offspring.",
 ["Genetic/GABase.hpp", "Genetic/NSGABase.hpp", "Genetic/GAAbstract.hpp"],
 [("parallel fitness computation", "Genetic/GABase.hpp@void __impl_computeAllFitness"), ("crossover and mutation of a generation", "Genetic/GABase.hpp@void __impl_crossover")],
 "Instrumented fitness, crossover and mutation functions log every call with gene identities under 1..16 threads; each history of several runs (changed options, new initialisation) is checked against the log, and rates against binomial bounds. SOGA with and without threads, NSGA2, NSGA3.",
 "Thread interleavings are those the machine produces; 8-sigma statistics for the rates.")
prop("C16", "NSGA2 keeps whole fronts and then the least crowded of the split front",
 "After each NSGA2 selection the population has the requested size; nobody survives whose dominance layer is worse than that of somebody eliminated, and inside the one layer that is split the survivors are those with the greatest crowding distance, computed per objective from the neighbours in sorted order with boundary individuals infinitely distant.",
 ["histories", "configurations"], "every number of objectives, direction, population size and landscape, ties and degenerate objectives included",
 "The NSGA2 tests print a front; dropping a boundary individual or crowding on the wrong objective still yields a plausible one.",
 ["Genetic/NSGA2.hpp", "Genetic/NSGABase.hpp"],
 [("crowding selection", "Genetic/NSGA2.hpp@void __impl_select"), ("layering by domination count", "Genetic/NSGABase.hpp@void calculateDominatedNum")],
 "Every selection of random runs is observed from outside and compared with a brute-force recomputation of layers and crowding distances (as the code documents them: a layer is a common number of dominators).",
 "Ties in crowding distance may be broken either way.")
prop("C17", "The reported Pareto front is exactly the non-dominated part of the population",
 "After a run a multi-objective solver reports as Pareto front exactly the non-dominated members of its final population: genes, fitness values and the combined form agree with each other, nobody dominated is in it and nobody non-dominated is missing. As long as the front fits into the population, nothing ever evaluated dominates a member of it. A solver that has not run reports an empty front.",
 ["histories", "configurations"], "every solver, number of objectives, direction, population size, landscape and sequence of initialisations and runs",
 "The tests only print the front.",
 ["Genetic/MOGAAbstract.hpp", "Genetic/MOGABase.hpp", "Genetic/NSGABase.hpp"],
 [("Pareto front accessors", "Genetic/MOGAAbstract.hpp@void paretoFront"), ("front update after selection", "Genetic/NSGABase.hpp@void updatePF")],
 "All three accessors against a brute-force front of the photographed final population, and against every fitness vector evaluated so far.",
 "2..6 objectives, up to 40 individuals.")
prop("C18", "NSGA3 reference points are the complete simplex lattice of the precision",
 "Initialising an NSGA3 solver creates every point of the simplex lattice of the requested precision exactly once: coordinates are non-negative and sum to one, and the number of points is the binomial coefficient. With a double layer an outer lattice and a smaller inner lattice parallel to it are created. Initialising again replaces the old points.",
 ["inputs", "configurations"], "every number of objectives, precision (pair) and sequence of initialisations",
 "NSGA3_DTLZ7 uses one precision and never inspects the points.",
 ["Genetic/NSGA3Abstract.hpp", "Genetic/NSGA3Base.hpp"],
 [("lattice generation", "Genetic/NSGA3Base.hpp@void makeReferencePoses")],
 "Generated objective counts and precisions up to thousands of points; each column is matched with an independently enumerated lattice.",
 "2..8 objectives.")
prop("C19", "NSGA3 fills the split front from the least occupied reference directions",
 "After each NSGA3 selection the population has the requested size and nobody survives whose dominance layer is worse than that of somebody eliminated. In the layer that is split, objectives are normalised by the ideal point and the intercepts, individuals are associated with the nearest reference direction, and places go to the least occupied directions, the nearest individual first when a direction is empty; remaining choices are even.",
 ["histories", "configurations"], "every number of objectives, reference precision, population size and landscape, including badly scaled and constant objectives",
 "The single NSGA3 test prints a front; a wrong normalisation or niche count still produces one.",
 ["Genetic/NSGA3Base.hpp", "Genetic/NSGA3.hpp", "Genetic/NSGA3Abstract.hpp"],
 [("normalisation and association", "Genetic/NSGA3Abstract.hpp@void associate"), ("niche preservation", "Genetic/NSGA3Abstract.hpp@void __impl_select")],
 "A reference model of normalisation, association and niching decides each observed selection wherever rounding and ties leave it unambiguous; repeated selections compare survival frequencies with the model's (8 sigma).",
 "Ambiguous associations (ties within rounding) are skipped and counted.")
prop("C20", "PSO particles obey the motion law and never leave box or velocity limit",
 "From initialisation to the end of any run every particle is inside the box and no velocity component exceeds its limit. In each generation the new velocity is inertia times the old one plus two random factors in [0,1] times the learning factors times the ways to the particle's own best and to the global best, cut to the limit; the new position is the old one plus the new velocity, cut to the box. The initial swarm is spread evenly over the box or is what the given initialisation function made.",
 ["histories", "configurations"], "every container, scalar type, dimension, box shape, option set, thread count and landscape",
 "PSO tests print the final optimum; a particle outside the box or a swapped factor only slows convergence.",
 ["PSO/PSO4std.hpp", "PSO/PSO4Eigen.hpp", "PSO/BoxWithVelocity.hpp", "PSO/PSOAbstrcat.hpp", "PSO/PSO.hpp"],
 [("position and velocity update for std containers", "PSO/PSO4std.hpp@void __impl_updatePopulation"), ("the same for Eigen", "PSO/PSO4Eigen.hpp@void __impl_updatePopulation"), ("ranges of position and velocity", "PSO/BoxWithVelocity.hpp@void applyConstraint4Position")],
 "The swarm is photographed through public accessors at the start of each evaluation round of 18 instantiations; each move must be explained by one pair of random factors for all coordinates (polygon clipping), and the recovered factors must be uniform and independent (8 sigma).",
 "Arithmetic tolerance 1e-11 (double) or 4e-6 (float) relative.")
prop("C21", "PSO personal and global bests are the best positions really visited",
 "Each particle's personal best is the best position it has visited, with that position's own fitness; the global best is the best of all personal bests, never gets worse during a run, and is what the solver reports as its best fitness and records for each generation.",
 ["histories", "schedules", "configurations"], "every container, direction, option set, thread count, landscape (ties, noise) and sequence of runs",
 "Tests print one optimum; a best that is overwritten, mismatched or lost is not noticed.",
 ["PSO/PSOAbstrcat.hpp", "PSO/PSO.hpp", "PSO/PSO4std.hpp", "PSO/PSO4Eigen.hpp"],
 [("personal and global best update", "PSO/PSO4Eigen.hpp@void __impl_updatePGBest"), ("record", "PSO/PSOAbstrcat.hpp@_record[.](push|emplace)_back|_record.reserve")],
 "Bests are recomputed from every position photographed so far with a pure fitness function.",
 "Up to 25 particles and 20 generations (60/50 thorough).")
prop("C22", "A PSO run evaluates each particle once per generation and stops as configured",
 "Each generation evaluates exactly the current position of every particle once, whatever the number of threads. A run ends exactly when the generation limit is reached or, if a failure limit is set, when the global best has not improved for more than that many generations; generation count, failure count and record length agree with what took place, also when the solver is run or initialised again.",
 ["histories", "schedules", "configurations"], "every container, option set, swarm size (also smaller than the number of threads), landscape and sequence of runs, with and without threading support",
 "No test reads the counters or uses fewer particles than threads.",
 ["PSO/PSOAbstrcat.hpp", "PSO/PSOOption.hpp"],
 [("evaluation and generation loop", "PSO/PSOAbstrcat.hpp@void __impl_computeAllFitness")],
 "Model of the stopping rules and a log of all evaluations over random histories, built with and without threads.",
 "Thread interleavings are those the machine produces.")
prop("C23", "AOS electrons stay in the box and move by photon law or bounded step",
 "From initialisation to the end of any run every electron of an AOS solver is inside its box (or finite, in an unbounded one). Each surviving electron has one offspring per generation: with probability photonRate a random step of at most delta per coordinate, otherwise the photon move towards the best and away from the mean of its layer (if it is better than the layer's mean energy) or of the atom, the latter divided by the layer's number; both are cut to the box. The initial electrons are spread evenly over the box or are what the given initialisation function made.",
 ["histories", "configurations"], "every container, scalar type, dimension, kind of box, option set and landscape",
 "AOS_Rastrigin prints one energy from one fixed-size box; most containers and boxes never even compile in the tests.",
 ["AOS/AOS4EigenAndStd.hpp", "AOS/AOSBase.hpp", "AOS/AOSBoxed.hpp", "EAGlobal/BoxConstraint.hpp"],
 [("photon and random moves", "AOS/AOS4EigenAndStd.hpp@__impl2_applyPhotonEffect"), ("offspring of each generation", "AOS/AOSBase.hpp@void __impl_updateElectrons")],
 "The atom is photographed at the start of each evaluation round of 21 instantiations; a perfect matching of offspring to electrons must exist in which each offspring lies in the reachable interval of one of the two moves; share and spread of random steps are tested at 8 sigma, and over hundreds of generations the sums of offspring coordinates, squares and products must agree with an independent simulation of the law from the photographed parents, layers and means.",
 "Factors of a photon move cannot be recovered one by one; their law is decided by moments (8 sigma), their range exactly.")
prop("C24", "AOS keeps the best electrons and layers them with true means and bests",
 "After each generation an AOS atom consists of exactly the electronNum best of the old electrons and their offspring. They are divided, in order of energy, into at most maxLayerNum non-empty layers whose sizes follow the Gaussian density of a random layer number; every electron is in exactly one layer. Binding state and energy of atom and layers are the means over their electrons, and the best of the atom and of each layer is really the best.",
 ["histories", "configurations"], "every container, direction, option set and landscape, ties included",
 "The only AOS test prints the final energy; layers and means are never inspected.",
 ["AOS/AOS.hpp", "AOS/AOS4EigenAndStd.hpp"],
 [("selection and layering", "AOS/AOS.hpp@void __impl_selectAndMakeLayers"), ("binding states, energies and bests", "AOS/AOS4EigenAndStd.hpp@void __impl_computeAtomBSBELE")],
 "A reference model replays each generation of random histories: pool, survivors, means, bests, partition and order; layer sizes are compared with the density for every admissible layer number, and over 240 generations each number up to maxLayerNum must be drawn as often as the others; options, electronNum included, change between runs.",
 "Which of several tied electrons survives is left open.")
prop("C25", "AOS evaluates each electron once, reports the best ever seen, stops as set",
 "Each electron of an AOS run is evaluated exactly once, whatever the number of threads. The best electron is the best ever evaluated since initialisation, with its own energy, and the record holds the best energy of each generation. A run ends exactly when the generation limit is reached or the best energy has stayed the same for maxEarlyStop generations; the counters agree with what took place, also when the solver is run or initialised again.",
 ["histories", "schedules", "configurations"], "every container, direction, option set, atom size (also smaller than the number of threads), landscape and sequence of runs, with and without threading support",
 "The test reads nothing but the final energy of one run.",
 ["AOS/AOSBase.hpp", "AOS/AOSBoxed.hpp", "AOS/AOS4EigenAndStd.hpp"],
 [("evaluation of new electrons", "AOS/AOSBoxed.hpp@void __impl_computeFitness"), ("generation loop and stopping rule", "AOS/AOSBase.hpp@void __impl_run"), ("early stop counter", "AOS/AOSBase.hpp@bool __impl_shouldTerminate")],
 "Model of the stopping rule and log of all evaluations over random histories, built with and without threads. maxEarlyStop is at least 1; generation() continues over several runs until the next initialisation, as the code does.",
 "Thread interleavings are those the machine produces.")
prop("C26", "Neither threads nor the way functions are supplied change a run's outcome",
 "For every solver (SOGA with every selection method but Tournament, NSGA2, NSGA3, PSO and AOS) and user functions that are pure apart from drawing numbers with the library's generators, the outcome of a run - populations, positions, velocities, electrons, fitness, bests, reported fronts, counters - is determined by the state of the random engine, the options and those functions. Neither the number of threads nor the order in which they finish changes it, nor does it matter whether a function is given as template argument or at run time, whether it takes an argument object, whether fitness is recorded, whether the selection method is chosen at compile time or at run time, or whether the solver was run with other options before it was initialised again.",
 ["schedules", "configurations", "inputs"], "every solver, selection method, container, option set, seed, number of threads and way of supplying the functions",
 "The tests never fix the random engine and compare nothing between two runs.",
 ["Genetic/GABase.hpp", "Genetic/NSGABase.hpp", "PSO/PSOAbstrcat.hpp", "PSO/PSO4Eigen.hpp", "PSO/PSO4std.hpp", "AOS/AOSBoxed.hpp", "Global/FunBody.hpp"],
 [("parallel evaluation", "Genetic/GABase.hpp@void __impl_computeAllFitness"), ("parallel domination counts", "Genetic/NSGABase.hpp@void calculateDominatedNum"), ("parallel motion", "PSO/PSO4Eigen.hpp@void __impl_updatePopulation"), ("functions at compile time or run time", "Global/FunBody.hpp@class funBodyCT")],
 "Differential test: every generated configuration is run six to eight times from one and the same state of the engine, with one thread, with 2..12 threads and random delays in the fitness function, with the functions supplied in each possible way, and with a solver that has been run before with other options; complete traces of one or two runs must be equal bit for bit.",
 "SOGA with tournament selection is left out (copies of winners are put into the population in the order of a hash of addresses), and tied individuals are avoided by continuous objectives, since std::sort and NSGA3's sets may order ties by address. Thread interleavings are those the machine produces.")
