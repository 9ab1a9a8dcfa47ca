# Which sources make up each check.
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
LIBS = {
    "eoutils": ["eo/src/eoPersistent.cpp", "eo/src/eoPrintable.cpp", "eo/src/eoFunctorStore.cpp", "eo/src/eoScalarFitnessAssembled.cpp",
                "eo/src/eoSIGContinue.cpp", "eo/src/eoCtrlCContinue.cpp", "eo/src/utils/*.cpp"],
    "cma": ["eo/src/es/CMAParams.cpp", "eo/src/es/CMAState.cpp", "eo/src/es/eig.cpp"],
    "moeo": ["moeo/src/core/moeoObjectiveVectorTraits.cpp"],
    "smp": ["smp/src/notifier.cpp"] + ["smp/src/topology/%s.cpp" % t for t in ("complete", "star", "ring", "hypercubic", "mesh", "customBooleanTopology", "customStochasticTopology")],
    "dtlz": ["problems/DTLZ/src/*.cpp"],
}
EO = ["eo/src"]
MO = ["eo/src", "mo/src", "problems"]
SMP = ["eo/src", "smp/src"]
MOEO = ["eo/src", "mo/src", "moeo/src", "problems"]
CHECKS = {}
def check(id, sources, rule, libs=("eoutils",), include=EO, **kw):
    CHECKS[id] = dict(sources=sources, rule=rule, libs=list(libs), include=list(include), **kw)

NOT_APPLICABLE = {}

check("M02", ["M02_*.cpp"], "a case is a generated history of single and population insertions into one archive; it is non-trivial when an offered vector was dominated, duplicated, or the archive overflowed", libs=["eoutils", "moeo"], include=MOEO,
 note="1 to 4 objectives in any min/max mix on integer grids (ties are frequent), histories of up to about 150 offers, capacities 1 to 10; archives: unbounded, improving-only bounded, fitness/diversity bounded, SPEA2, 2D hypervolume, epsilon hyperbox",
 design="""Histories of insertions are replayed on the archive and on a model that keeps every offered vector. Oracle: unbounded archives hold exactly the brute-force Pareto front of the history, with the newest (replace) or oldest representative of each vector, and the boolean answers, `contains`, `dominates`, `equals` agree with it; bounded archives obey their capacity, follow the exact insertion model (improving-only), drop only the least preferred (fitness/diversity, with identity-based fitness so that the preference is known), keep extreme points (2D hypervolume); no archive ever holds a solution that was not offered or holds one twice.""")

check("M01", ["M01_*.cpp"], "a case is three objective vectors (or two scored solutions) under one direction mask; non-trivial when some objective ties or some pair is dominated", libs=["eoutils", "moeo"], include=MOEO,
 note="1 to 6 objectives, all direction masks, grid values with ties, perturbations far below the tolerance 1e-10; epsilon factors 0.5 to 2; differences close to the tolerance itself are not generated",
 design="""Each comparator is called on all nine pairs of three generated vectors. Oracle: an independent component-wise classification (better, equal up to tolerance, worse in the objective's direction) gives the answer of the Pareto, strict, weak, epsilon, g-dominance and lexicographic comparators and of the vector's operators; irreflexivity, asymmetry and transitivity are asserted on the triple. Scalar comparators are compared with their formula, and the validity flags of a solution with a model under random sequences of setters, invalidations and copies.""")

check("M03", ["M03_*.cpp"], "a case assigns fitness to one to three populations with one object; non-trivial when some individual dominates another (dominance-based) or the population has at least two members (others)", libs=["eoutils", "moeo"], include=MOEO,
 note="populations of 1 to 14 with archives up to 6, 1 to 5 objectives, all direction masks, duplicates and constant objectives; values on grids; added vectors stay inside the normalisation bounds",
 design="""Oracle: fronts by naive peeling, dominators and dominated counted pair by pair (with the documented treatment of copies), the exponential sum computed from an independent implementation of both indicators, weighted sums by hand. The same assignment object is applied to several populations in turn, and random sequences of single removals and additions are checked against the sum over what remains.""")
check("M04", ["M04_*.cpp"], "a case assigns diversity to two populations with one object, or measures a pair of vectors; non-trivial when the group has at least three members, some pair shares a niche, or the vectors differ", libs=["eoutils", "moeo"], include=MOEO,
 note="populations of 0 to 14, 1 to 5 objectives; where ties leave the neighbours of a point undefined its crowding is only required to be one that some ordering of the ties gives",
 design="""Oracle: crowding recomputed from the sorted values of each objective (exact without ties, an interval with ties, extremes required to be maximal), niche counts and k-th neighbour distances by double loop, distances and normalisers by formula.""")
check("M06", ["M06_*.cpp"], "a case computes an indicator on generated sets or vectors with one metric object used several times; non-trivial when the sets have several points and a non-zero value, or the vectors differ", libs=["eoutils", "moeo"], include=MOEO,
 note="sets of 1 to 7 points, 2 to 4 objectives for the volumes and up to 5 elsewhere; points are at least as good as the reference point; the entropy metric is not covered",
 design="""Oracle: the volume of a union of boxes by coordinate compression; epsilon indicators by the max-min-max formula; the pairwise hypervolume indicator from box and intersection volumes; the contribution from counts of dominating, unrelated and common members. Metamorphic: shuffling, duplicating or adding a dominated point leaves the hypervolume, a set compared with itself gives the neutral value, and metric objects are reused on other sets.""")
check("M05", ["M05_*.cpp"], "a case is one population (with archive) and selector drawn from 3000 times, or one parent/offspring pair and a replacement; non-trivial when there is more than one equivalence class, or something has to be left out", libs=["eoutils", "moeo"], include=MOEO,
 note="populations of 0 to 9; frequencies compared with exact class probabilities at about seven standard deviations under fixed seeds; environmental replacement is compared step by step only where no tie for the worst occurs",
 design="""Selectors: the probability of each class of equivalent members follows from the tournament size, rate, ratio or fitness share; 3000 draws per case are compared with it, and every selected reference must point into the population or archive. Replacements run with table-driven assignments so that a model computes the survivors: the best keys for the elitist one, one removal and update at a time for the environmental one; identity tracking shows invented or duplicated members. Dominated solutions kept while their dominator is dropped are searched for with the real front assignment.""")
check("M07", ["M07_*.cpp"], "a case runs one algorithm on a generated table problem, every generation inspected; non-trivial when there are several individuals and generations", libs=["eoutils", "moeo"], include=MOEO,
 note="genotypes of 1 to 4 bits with a random objective table, populations of 1 to 8, 1 to 4 generations, 1 to 3 objectives; fitness and diversity values are recomputed with the library's own assignments, which M03 and M04 judge; fuzzy variants are not covered",
 design="""Individuals carry a small genotype whose objective vector is looked up in a generated table. A continuator and logging evaluators record parents, offspring and survivors of every generation for each constructor form of NSGA, NSGA-II, MOGA, IBEA, SPEA2, SEEA, ASEEA and the generic loop: size, evaluation consistency, number of evaluations, one continuator call per generation, survivors equal to the best ranked of parents and offspring, no dominated survivor while its dominator is dropped, archives equal to the front of everything evaluated. Mating selection frequencies are compared with a binary tournament.""")
check("M08", ["M08_*.cpp"], "a case explores selected members of a population, or runs a local search to its end, on a generated neighbour graph; non-trivial when several neighbours are produced or the search iterates", libs=["eoutils", "moeo"], include=MOEO,
 note="neighbour graphs over 2 to 16 genotypes with 0 to 6 ordered neighbours and 1 to 3 objectives; local searches only where each solution has a neighbour (a solution without any is never marked visited), run to their own end only with archives that keep the first of equal vectors (plateaus may cycle otherwise)",
 design="""The neighbourhood is an explicit ordered list per genotype, so the explored solutions, their order, objective vectors and the visited flags are predicted exactly for each explorer. Searches end with a front that covers the start and, with exhaustive exploration, every neighbour of each visited member; the operator and updater hybrids are run repeatedly on one object.""")
check("M09", ["M09_*.cpp"], "a case assigns scalarised fitness to generated populations, feeds an indexed archive or asks a weight strategy repeatedly; non-trivial when several solutions are judged, a member is displaced or several weights are asked", libs=["eoutils", "moeo"], include=MOEO,
 note="1 to 4 objectives of any direction, weights and references on a grid; the indexed archive with two objectives and its ordered index; the quad tree, the anytime strategy and the algorithms of the scalar module are disabled in the library's own header and not covered",
 design="""Each scalarised fitness is recomputed from its formula, with every constructor form (normaliser, evaluator for missing objective vectors) and with reference and weights changed between calls. The indexed archive is compared with the front of everything offered after each offer, and its answer with whether the offer belongs there. Weight strategies must give non-negative weights with sum one in their documented order; the hypervolume continuator is compared with an independent computation of the area.""")
check("E02", ["E02_*.cpp"], "a case applies one operator once or several times to generated strings, or 4000 times to estimate a distribution; non-trivial when the string (or common part) has more than one locus", libs=["eoutils"], include=EO,
 note="strings of 1 to 300 loci as vectors of bool and of int; distributions on 2 to 9 loci with 4000 draws at about seven standard deviations; eoNormalBitMutation is left out (a negative draw is converted to unsigned)",
 design="""Each operator is applied to generated strings, parents complementary (every exchange visible), equal or random. The oracle counts flipped loci against the operator's exact bounds, parity or successor, verifies locus by locus that the pair of alleles is kept up to a swap, and counts cut points or exchanged genes. Frequencies of flip counts, loci, cut positions and exchanges are compared with the formulas (binomial, conditional, shifted, uniform, power-law, bucket). An object already used on another length must behave like a fresh one.""")
check("E03", ["E03_*.cpp"], "a case applies operators or moves to generated permutations; non-trivial when the permutation has more than two elements (or parents differ)", libs=["eoutils"], include=MO,
 note="sizes 1 to 200, values starting at 0 or an offset (0 only for the partially mapped crossover, which indexes by value); exact offspring for sizes up to 9, closure beyond; frequencies with 3000 to 4800 draws at about seven standard deviations",
 design="""The offspring is compared with the set of results the operator may give: all segment pairs for order and partially mapped crossover, one rotated or reversed segment, at most k transpositions with the right parity. Long chains check closure on larger sizes; positions, cuts and initial permutations must be uniformly distributed. Local-search moves are applied and taken back.""")
check("E05", ["E05_*.cpp"], "a case applies one operator to individuals of generated sizes and limits; non-trivial when it may change something (several genes, room left)", libs=["eoutils"], include=EO,
 note="0 to 9 uniquely labelled genes, limits at, near and away from the parents' sizes, including infeasible ones; frequencies with 1500 to 4000 draws at about seven standard deviations",
 design="""Genes carry unique labels, so every gene of parents and offspring can be followed. Sizes, gene multisets and returned flags are compared with the limits; where no result within the limits exists the operator must report no change and leave the parents alone, and where a trial succeeds easily it must not give up. Exchange with a scripted mask has a single admissible result; positions, sizes and gene destinations must follow the configured probabilities.""")
check("E04", ["E04_*.cpp"], "a case applies an operator, initialiser or bound query to generated vectors and bounds; non-trivial when several variables, distinct parents or an outside value are involved", libs=["eoutils"], include=EO,
 note="1 to 6 variables; unbounded, half-bounded, finite and null-range bounds, some beyond 1e9; crossovers within rounding error of their interval; step sizes, change rates and covariances by 3000 to 6000 draws at about seven standard deviations",
 design="""Bounds are compared with their definition (reflection, truncation, queries, text form, copies). Operators are applied to points on, near and inside the bounds: results stay in bounds, within the parental interval widened by alpha, keep sums where they must, change only what their probability allows and move no further than their step. The mean and variance of the steps, the covariance of correlated ES mutation and the position of children between parents are estimated and compared with the configured values; the one-fifth rule is followed with an exact model.""")
check("E06", ["E06_*.cpp"], "a case selects from one generated population; non-trivial when it holds several individuals", libs=["eoutils"], include=EO,
 note="populations of 1 to 9 individuals with ties, equal and zero fitness, maximising and minimising; random selectors by 3000 picks against exact probabilities at about seven standard deviations; sharing and proportional selection with non-negative maximised fitness",
 design="""The probability of every individual under each selector is computed exactly (tournaments and inverse tournaments by enumeration, roulette and worth-based selectors by their formula) and compared with the frequencies of 3000 picks; deterministic selectors and batch sizes are compared with a sorted copy. Objects are reused on a second population after setup. eoHowMany is compared with its four documented modes, through copies, negation, printing and reassignment.""")
check("E07", ["E07_*.cpp"], "a case assigns worths to one to four generated populations with the same object; non-trivial when a population was ranked or sorted", libs=["eoutils"], include=EO,
 note="populations of 1 to 9 individuals with ties; sharing with non-negative maximised fitness; crowding penalties with distinct objective values (their order is free among equal ones)",
 design="""Each worth is recomputed from its published formula: linear and exponential ranking, scaling by pressure, fitness over niche count, and front number plus normalised niche penalty (fronts by repeated removal of the non-dominated individuals). The same object is applied to several populations of changing size, so caches are exercised; sort_pop and resize are followed by individual identity.""")
check("E08", ["E08_*.cpp"], "a case reduces, splits, merges or replaces generated populations, replacements over up to three generations; non-trivial when several individuals compete", libs=["eoutils"], include=EO,
 note="1 to 9 parents and 0 to 11 offspring with ties and duplicates, maximising and minimising; random removals by 3000 trials against exact probabilities at about seven standard deviations",
 design="""Individuals carry an identity, so survivors are checked to be unchanged parents or offspring, each at most once. Deterministic schemes (truncation, elitism, plus, comma, replace-worst, reduce-merge-reduce with strong or weak elitism, survive-and-die, G3) are compared with a model on sorted fitness values; random ones by size, membership, elite and exact removal probabilities.""")
check("E09", ["E09_*.cpp"], "a case breeds from a generated population through a generated tree of sequential and proportional operators; non-trivial when several offspring go through a combination", libs=["eoutils"], include=EO,
 note="1 to 7 parents, up to 12 offspring, operator trees of depth 3 over unary, binary, quadratic and three-offspring operators with rates 0 and 1 compared exactly, intermediate rates by 4000 trials; the first operator of a sequence has rate one",
 design="""Individuals carry the text of everything done to them, so every offspring is compared with a list-and-cursor model of the operator tree, including which offspring are invalidated; parents are compared with a copy. Intermediate probabilities are checked by frequencies. A sequence none of whose operators fires produces no individual at all, so sequences start with an operator of rate one.""")
check("E01", ["E01_*.cpp"], "a case applies one operator up to three times, or a generated combination of operators in a breeder or transform, to evaluated parents; non-trivial when a genotype was changed or an offspring invalidated", libs=["eoutils"], include=EO,
 note="bit, real, ES, permutation, integer, variable-length and tree operators on parents of up to 12 genes (equal parents included); nested containers up to depth 3",
 design="""The fitness is a function of the whole genotype, so a stale fitness is visible as a difference from re-evaluation. For single operators the returned flag is compared with the actual change of every argument; for combinations every offspring must be invalid or carry the fitness of its own genotype, and parents must be untouched.""")
check("E12", ["E12_*.cpp"], "a case presents a generated history of populations to one continuator; non-trivial when it answers no at least once (or asks for a non-trivial period, signal or time limit)",
 note="histories of up to 18 populations, limits 0 to 30, maximising and minimising fitness with ties, external counters starting anywhere, changes of limits in the middle of a history; time limits only zero and very large (no wall-clock oracle)",
 design="""Each continuator is asked along a generated history and every answer is compared with a naive model that keeps the generation, evaluation count, best fitness and last improvement; limits are changed (reset) and generation counters saved and restored in the middle of histories. Combinations are made of scripted members, whose calls are counted, and of real ones, where the stop must come at the earliest limit. Signal-driven continuators receive real signals raised in the process.""")
check("E10", ["E10_*.cpp"], "a case runs one loop object on one to three generated populations with instrumented components; non-trivial when there are several individuals and generations (or restarts) and something was varied",
 note="bit strings of length 1 to 6, populations of 1 to 8, 1 to 5 generations, offspring counts 1 to 12, all eight constructors of eoEasyEA; rates 0, 1 and one value between; cellular EA on a ring with a quadratic crossover",
 design="""All components are wrapped by recorders: breeding, selection, replacement and local selection check that everyone they are given carries the fitness of its genotype, the continuator checks size, evaluation and (elitist replacements) monotone best, and the evaluator counts. Oracle: one question to the continuator per generation, exactly as many generations as it allows, the returned population is the last one it saw, as many evaluations as unevaluated or modified individuals, exact operator counts at rates 0 and 1, an exception when a replacement changes the size. Loop objects are reused on populations of another size.""")
check("E11", ["E11_*.cpp"], "a case applies wrappers to a generated sequence of evaluated and unevaluated individuals; non-trivial when an evaluated one was among them, a limit was reached, the best improved, or something was printed",
 note="bit strings of length 0 to 5, sequences of up to 14, limits 0 to 6, wrappers nested; commands are short shell lines and files live in a private temporary directory; time limits only zero and very large; MPI population evaluation is not built here",
 design="""Oracle: a model counts unevaluated individuals, keeps the first best and the number of evaluations let through; after every call the genotype must be untouched, a known fitness kept, an unknown one equal to a reference function. Exceptions are required exactly at the limit, for non-finite values, for failing commands and unwritable files; dumps are read back from disk.""")
check("E19", ["E19_*.cpp"], "a case is a history of additions, changes and constructions on one forge container, or one to three runs of an algorithm assembled from a foundry; non-trivial when a constructor was changed or there was a choice of operators",
 note="up to 14 operations, four constructor signatures (none, one, two arguments, a reference), caching on and off; foundries with 1 to 3 candidates per slot; indices in range (eoEvalFoundryFastGA does not compile and is not covered)",
 design="""Model-based: the model keeps, per slot, the class and arguments last given and the cached instance; every construction must report them, share or renew state as the cache flag says, and all instances must be destroyed with the container. Assembled algorithms are made of operators that write their own index in a journal: only the selected ones may appear, as often as the rates and generation limits imply.""")
check("E13", ["E13_*.cpp"], "a case presents generated populations to one checkpoint, statistic or monitor; non-trivial when a stop or several observers occur, the population has several members, or several rows are written",
 note="0 to 3 observers of each kind in any registration order, populations of 1 to 9, maximising and minimising; values with few digits in files; snapshots and monitor files in a private temporary directory; gnuplot output is not covered; a standard deviation needs two individuals",
 design="""A trace of every call made by a checkpoint is checked against the expected order and counts, including the sorted view handed to sorted statistics and the last calls on a stop, also when driven by a signal. Every statistic is recomputed naively from the population, and the same object is used on several populations. Monitor output is read back and compared cell by cell with the watched parameters.""")
check("E14", ["E14_*.cpp"], "a case saves generated objects and loads them into others; non-trivial when more than two objects are registered, numbers were drawn, or several files are written",
 note="up to 11 objects of 5 class names: populations of bit strings and real vectors with unevaluated members, vectors, generator at any position with or without a pending normal deviate, counter, multi-line objects, and objects without class name, which are identified by their position objects; either values with few digits or a stream precision of 17; loading the JSON format is not covered; empty states are not saved",
 design="""A first state over generated objects is saved to a file or stream and loaded by a second state over other objects, registered in another order. The objects must be equal, the generators must produce the same 700 next numbers, and saving again must give the same text. Partial registrations, missing files, foreign text, counted savers and the parser section are covered by their own generators. Files are written in a private temporary directory.""")
check("E15", ["E15_*.cpp"], "a case prints generated objects and reads them over fresh or used objects; non-trivial when several members or genes are printed",
 ["eoutils","moeo"], MOEO,
 note="genotypes of 0 to 9 genes, populations of 0 to 4, unevaluated members, plain, minimising, dual and assembled fitness; either numbers with few digits at the default precision or any number at precision 17; dual fitnesses with a known feasibility; individuals with infinite or undefined fitness are not covered",
 design="""Generated individuals of every representation and fitness kind, populations of them, multi-objective vectors, bounds, counts-or-rates and parameter values are printed, read back over fresh or already used objects, compared field by field and printed again. Several objects are also read from one stream, so that a reader that takes too much or too little is noticed.""")
check("E16", ["E16_*.cpp"], "a case declares parameters and parses a generated command line and file; non-trivial when several arguments are given",
 note="1 to 6 parameters of six scalar types plus structured ones, one form of name per parameter on a command line, values without blanks; a parameter file gives by short name only parameters that the command line does not give by long name, see the known finding; an explicitly empty value keeps the default and is not generated",
 design="""A set of declarations, a command line and a parameter file are generated together with the value each parameter must take: command line, else file, else default. The parser's values, presence flags, help request, help text and look-ups are compared, then the parser is written to a file and read by two other parsers, one declaring its parameters before and one after reading.""")
check("E17", ["E17_*.cpp"], "a case draws from generators at generated seeds and parameters, or runs an algorithm twice; non-trivial when the state is regenerated, a distribution is sampled, or the run moved",
 ["eoutils","moeo"], MOEO,
 note="4000 draws per sampled distribution with a seven sigma tolerance; algorithms on small problems, each run twice in one process from the same seed with other uses of randomness in between; reseeding keeps a pending normal deviate unless it is cleared, as documented; networks, threads and clocks are out of the scope of reproducibility",
 design="""The sequence is compared with MT19937 written from its published recurrence and the generator's own seeding. Ranges are asserted on every draw, distributions by binned frequencies against their cumulative functions, generators against the documented draw. Each algorithm family is run twice from the same seed with fresh objects, after disturbing the C library generator and the allocator, and must give the same final solutions.""")
check("E18", ["E18_*.cpp"], "a case compares two fitness values, builds a population with ties and asks every view of it, or applies operations to a dual or assembled fitness; non-trivial when the values differ, the population is not uniform or feasibilities are mixed",
 ["eoutils"], EO,
 note="populations of up to 9 individuals, values on small grids so that ties are frequent; NaN excluded; dual fitness whose feasibility was never told is refused by an assertion and left out",
 design="""Each fitness is drawn as a value, a feasibility and a direction, kept beside the library's object, and every comparison, view and operation is checked against that plain description. Individuals carry an identity, so lost, duplicated or altered ones are seen. All views of one population are asked in turn and the population must be the same afterwards.""")
check("E20", ["E20_*.cpp"], "a case builds a component from a generated command line and runs it beside the same component assembled by hand, or resumes a run from a saved state; non-trivial when the run changes something",
 ["eoutils"], EO,
 note="populations of up to 9 individuals (20 by default) of up to 9 genes, 1 to 9 generations; every named selection, replacement, reducer, stopping criterion and operator of the bit string, real and evolution strategy builders; result directories only inside a scratch directory, with a stand-in for the shell that knows test -d, mkdir and rm; plots, timed savers, Ctrl-C handling and GP are left out",
 design="""Command lines are generated with every parameter present or absent, in any order, with valid and invalid values. What the builder returns is run from the same random state as the components the command line names, assembled by hand, and must give the same individuals; invalid values must be refused. Checkpoints are driven over generated populations and the files they leave are compared with the generations seen; every saved state is loaded again and must lead to the same end as the uninterrupted run.""")
check("P01", ["P01_*.cpp"], "a case applies a velocity, flight, topology history, weight updater or a whole swarm run to generated particles; non-trivial when there is a dimension to move, a neighbourhood best changes, or a swarm is run",
 ["eoutils"], EO,
 note="up to 7 particles of up to 7 dimensions, up to 12 moves or 6 generations; maximising and minimising fitness; seven velocities, three topologies, real and binary flights; printing a particle is not a round trip and is left out",
 design="""Stub topologies with given bests make each velocity solvable: the first dimensions give its random coefficients, which must lie in range, and every other dimension must be the documented combination, clamped. Topologies are followed over histories of moves against neighbourhoods written from their definition. Whole runs are watched each generation: fitness is the evaluation of the position, bests are the best seen, positions and velocities stay in bounds, the global best never gets worse.""")
check("G01", ["G01_*.cpp"], "a case builds trees over a generated function set and applies initialisers, operators or structural changes; non-trivial when the depth allows functions, several steps are applied, or several types exist",
 ["eoutils"], EO,
 note="function sets of 2 to 7 nodes of arity 0 to 5 with at least one terminal and one function (of each type), depths up to 5, trees up to about 60 nodes, chains of up to 6 changes; the typed operators do not prune, as documented; a tree that was never built and swapping inner subtrees are left out",
 design="""Every node carries a value that tells it from all others, so that the prefix list of nodes is an exact model of a tree. After each change the real tree is walked: number of children, parent links, sizes, depths, iterations, selection by size, value, printed form and reading back must agree with the model. For an operator the model enumerates all results the operator may give (each point, each subtree, then pruning) and the real result must be one of them; frequencies tell that every point is picked evenly.""")
check("L01", ["L01_*.cpp"], "a case follows a sequence of evaluated and applied moves on a generated instance; non-trivial when at least one move is applied",
 ["eoutils"], MO,
 note="bit strings of 1 to 9 bits, permutations of 2 to 7, up to 8 moves; instances generated in memory or written to a private temporary file in each format read by the library; clauses with repeated or opposite literals included; integer overflow of the objective is not covered",
 design="""A random instance and solution are generated, then a sequence of moves. Each candidate neighbour is evaluated by the incremental evaluator (or by the generic evaluators by copy and by modification) and compared with the library's own full evaluation of a moved copy, itself checked against its definition by B01. The solution and its fitness must not change; some moves are applied and the fitness carried along the whole sequence must remain the true one.""")
check("L02", ["L02_*.cpp"], "a case enumerates a neighbourhood, possibly several times, or applies and undoes a move; non-trivial when there is more than one neighbour",
 ["eoutils"], MO, cpu_limit=5,
 note="bit strings of up to 9 bits (13 for the counts), permutations of 2 to 8, partitions of up to 7 atoms; an index neighbourhood is as large as the user says, so completeness means every index; shift moves have n(n-1) indices of which n-1 repeat an adjacent exchange",
 design="""Each neighbourhood is iterated through its own init, cont and next, again after being abandoned half way or resized, and the set of neighbours visited is compared with the set written from the definition. Moves are applied, from the neighbour or from a copy of it, compared with the expected solution, then undone. Frequencies over thousands of draws tell that random neighbourhoods draw evenly.""")
check("L03", ["L03_*.cpp"], "a case runs a local search on a generated landscape up to three times and checks each step; non-trivial when a run has several steps",
 ["eoutils"], MO,
 note="bit strings of up to 7 bits and permutations of up to 5; landscapes with few levels, so plateaus and ties are frequent; hill climbers run on complete enumerations of the index range, ordered or random without replacement",
 design="""A continuator records the solution after every step. For each step all neighbours of the previous solution are evaluated by the landscape itself, which tells whether the search had to move, which targets were allowed and whether it was entitled to stop. The same object is run again from other starts, and frequencies tell that ties and neutral neighbours are chosen evenly.""")
check("L04", ["L04_*.cpp"], "a case runs tabu search, checking each step against a reference memory, or drives one memory with a sequence of operations; non-trivial when a worsening move was made or something was tabu",
 ["eoutils"], MO,
 note="bit strings of up to 6 bits and permutations of up to 4; up to 14 steps and two runs of the same object; the constructors that take a time have their continuator replaced, since no oracle reads the clock; the solution made by an intensification or a diversification is not itself a candidate for the best one",
 design="""A reference memory (a queue of the last additions with their remaining time) says which moves are tabu. At each recorded step every neighbour is evaluated by the landscape, the allowed ones are found from the reference memory and the aspiration rule, and the step must go to a best allowed one, the first such one when the neighbourhood is ordered. The returned solution must be the first best among the start and the solutions moved to.""")
check("L05", ["L05_*.cpp"], "a case runs one of the searches up to three times and replays each step against its rule, or estimates acceptance frequencies over 3000 steps; non-trivial when several steps are made or moves can be refused",
 ["eoutils"], MO,
 note="bit strings of up to 6 bits and permutations of up to 4; Metropolis-Hastings on non-negative fitness only; the simulated annealing constructor without a cooling schedule is left out (its temperature is zero, so it stops at once)",
 design="""One step of simulated annealing or Metropolis-Hastings is repeated 3000 times from the same solution and the frequency of every neighbour is compared with the acceptance rule. Temperatures and the number of steps are followed by a model of each cooling schedule. Iterated and variable neighbourhood search are replayed: perturbations and shakes are logged by instrumented operators that leave a stale fitness behind, the local search is recomputed by a reference climb, and acceptance, selection of the neighbourhood and the returned solution follow from the declared rules.""")
check("L06", ["L06_*.cpp"], "a case feeds a random history of runs, steps and evaluations to a criterion, a checkpoint or all statistics, or runs a random walk under a checkpoint; non-trivial when several steps are made",
 ["eoutils"], MO,
 note="bit strings of up to 5 bits and permutations of up to 4; an interval of zero is a precondition violation; time limits are judged with starts hundreds of seconds away",
 design="""Random histories of init, step and evaluation calls are replayed on each criterion and on a model of its condition. Logging members show what a checkpoint or combination calls at each step, in which order, and at which multiples of the interval. Every statistic is recomputed from the enumerated neighbourhood or from the trajectory, and monitors are compared with the values and files they should hold.""")
check("L07", ["L07_*.cpp"], "a case runs one of the samplings up to three times, or computes the statistics of a generated sample; non-trivial when more than two values are recorded",
 ["eoutils"], MO,
 note="bit strings of up to 5 bits and permutations of up to 4, samples of 2 to 9 solutions; climbs on an ordered neighbourhood and walks on a random one without replacement; autocorrelations of non-constant series longer than the largest lag",
 design="""The initialiser logs the solutions it makes and a solution statistic added to the sampling gives the walk, so every recorded column is recomputed: fitness, distance, best or random neighbour, neutral degree, length and evaluations of a reference climb, neighbourhood figures. Walks must move as declared and stop when they should; exports are compared line by line. Averages, distance matrices, autocorrelations and partial autocorrelations (Yule-Walker) are computed directly.""")
check("B01", ["B01_*.cpp"], "a case evaluates one to four solutions of one generated instance (saved and reloaded where possible), or applies a benchmark operator 30 times; non-trivial when the instance has more than one variable, block, clause or objective to compute",
 ["eoutils", "moeo", "dtlz"], MOEO + ["problems/DTLZ/src"],
 note="bit strings of up to 14 bits (long k-paths up to 11 with k up to 4), NK landscapes up to 7 variables and 4 links, 8 clauses, quadratic instances of 5 variables, 8 queens, DTLZ with 2 to 5 objectives and up to 5 distance variables; laws with 4000 draws; the IOH wrapper needs a library that is not installed",
 design="""Each evaluator is compared with a direct computation from the published definition: blocks and targets counted, the long k-path built explicitly by its recursive construction, clauses read and satisfied by hand, double sums over generated matrices written to instance files, the DTLZ formulas. Generated landscapes must have the declared structure (distinct links including the variable itself, contributions in range, zero or quantised as asked, frequencies of zeros, levels and links); saved instances are reloaded by method and constructor and must evaluate identically. Polynomial mutation and SBX are held to bounds, to their rates and, by frequencies, to their published distribution.""")
EDO = ["eo/src", "mo/src", "edo/src"]
check("D01", ["D01_*.cpp"], "a case estimates distributions from one to three populations, draws 3000 samples of one distribution, repairs one vector or re-centres distributions; non-trivial when there is more than one point or variable",
 ["eoutils"], EDO, flags=["-DWITH_EIGEN", "-I/usr/include/eigen3"],
 note="up to 8 points of up to 5 variables, far from the origin at times, repeated points; covariances G.Gt of up to 4 variables, full rank or degenerate; samples tested by mean, covariance and quartiles at 7 standard deviations; only the Eigen variant (the uBLAS variant of the library does not compile)",
 design="""Ranges, means, variances, covariances and frequencies are computed directly from the generated population and compared with each estimator, used again on other populations. Samples drawn from generated distributions are held to their dimension, support, mean, covariance and quartiles; degenerate covariances must give finite samples. Bounders and repairers are compared variable by variable with the expected value, the dispatcher with the composition of the dispatched repairs, and re-centred distributions with the shifted parameters. Combined estimators are given logging estimators to see that each starts from the former estimate.""")
check("D02", ["D02_*.cpp"], "a case runs one estimation-of-distribution loop, one to eight covariance updates, or decomposes one matrix; non-trivial when it has more than one iteration (or variable)",
 ["eoutils", "cma"], EDO + ["eo/src/es"], flags=["-DWITH_EIGEN", "-I/usr/include/eigen3"],
 note="populations of up to 12, up to 5 variables, 1 to 90 parents, up to 8 updates on a quadratic function (flat at times); updates stop being compared when the covariance is nearly singular; the EDASA hybrid is not claimed",
 design="""The loop is run with parts that log what they are given, and the log compared with the run written out by the check: first estimate, selection, estimate of the selected, distribution criterion, one sample per individual, evaluation, replacement, population criterion. Both covariance adaptations are compared, update by update, with the published equations; EO's state is private, so the map from normal deviates to samples is recovered by sampling it and a standard state with the same seed, which gives its mean and covariance. Covariances must be symmetric with non-negative eigenvalues, axes orthonormal, weights positive, decreasing, summing to one and following the documented scheme; the eigensolver must return an orthonormal decomposition.""")
check("S01", ["S01_*.cpp"], "a case processes one to three populations with one scheduler, or runs an algorithm in parallel and sequentially; non-trivial when there are several workers and more individuals than workers",
 ["eoutils", "smp"], SMP, workers=3, schedules=60, wall_limit=25,
 note="1 to 13 workers, populations of 0 to 200, 1 to 3 uses of one object; timings are produced by the processed function (none, uneven, yields, some individuals waiting for all others), the operating system chooses the rest; functions that throw are not claimed",
 design="""The function given to the workers records, for each individual, how often, by which thread and whether concurrently it was processed, and takes a generated time: nothing, uneven delays, yields, or waiting (for at most 2 ms) until the others are through, which yields the extreme schedules. When the call returns every individual must have been processed exactly once and nothing be in progress; linear loads may differ by one. Algorithms are compared with the sequential run from the same seed: populations, fitness, evaluation and continuator counts, random numbers drawn.""")
check("S02", ["S02_*.cpp"], "a case builds topologies of one kind, reads one from a file, or runs an island model once or twice with every group of migrants tracked; non-trivial when there are more than two nodes, or an island with several neighbours sends",
 ["eoutils", "smp"], SMP, workers=3, schedules=60, wall_limit=25,
 note="topologies of 1 to 30 nodes (hypercubes up to 32), models of 1 to 5 islands and 1 or 2 runs with up to 8 migrations each, groups of 0 to 3; only operators that share no state (the library's generator is not made for several threads); SharedFitContinue is a known finding",
 design="""Neighbour lists are compared with the definition of each topology, for every node, after isolating nodes and after building again with another size. Islands run an algorithm of the check that sends planned groups of uniquely numbered migrants with generated delays and stays until all are expected to have arrived; the groups integrated by each island must be exactly those of the islands it neighbours, with the fitness this island gives them, for real and custom topologies, other individual types, second runs, and topologies changed between or during runs. Stopped islands must be isolated, once, before the others send. Evolutionary islands keep size, evaluation, number of generations and best.""")
