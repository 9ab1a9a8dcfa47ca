#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- EO
prop("E01", "Variation operators never leave a stale fitness behind",
 "Whenever a shipped mutation or crossover (bit string, real vector, self-adaptive ES, permutation, integer, variable length, tree) alters a genotype it reports that it did, so an operator that returns false has left every argument it may modify untouched. Consequently any individual produced by an operator container, a transform or a breeder either carries no fitness or carries exactly the fitness its current genotype evaluates to.",
 ["inputs", "configurations", "programs"], "every operator, every operator combination with any rates, every parent content and size including equal parents, every RNG seed",
 "tests run each operator on one or two hand-written parents and never compare the returned flag with the actual genotype change, nor nested combinations of operators",
 ["eo/src/eoOp.h", "eo/src/eoGenOp.h", "eo/src/eoOpContainer.h", "eo/src/eoProportionalCombinedOp.h", "eo/src/eoSGATransform.h", "eo/src/eoTransform.h", "eo/src/ga/eoBitOp.h", "eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/eoOrderXover.h"],
 [("operator return value drives invalidate()", "eo/src/eoGenOp.h eoMonGenOp/eoBinGenOp/eoQuadGenOp::apply"), ("EO::invalidate / EO::fitness", "eo/src/EO.h")],
 ["return value of operator()", "EO::invalid()", "EO::fitness() versus re-evaluation"])
prop("E02", "Bit-string operators change exactly what they promise",
 "Deterministic and probability-driven bit mutations flip exactly the number or kind of positions they are configured for (a fixed k, one, none at rate 0, all at rate 1, only what a bit-flip may touch) and never alter the length. Every bit crossover (one-point, n-point, uniform, subset exchange) leaves, at each locus, the pair of parental alleles unchanged up to a swap, with no more cut points than configured. Where the operator is probabilistic, each bit flips, and each exchange happens, with the configured probability (by default one over the length of the chromosome it is applied to).",
 ["inputs", "configurations"], "every string length from 1 to hundreds, every rate, number of bits or cut points, every pair of parents and RNG seed",
 "the existing tests print the result of one application on a fixed string and check nothing about the number of flips or the allele pairs",
 ["eo/src/ga/eoBitOp.h", "eo/src/ga/eoStandardBitMutation.h", "eo/src/ga/eoBit.h"],
 [("bit mutation operators", "eo/src/ga/eoBitOp.h, eo/src/ga/eoStandardBitMutation.h"), ("bit crossovers", "eo/src/ga/eoBitOp.h")],
 ["genotype before/after operator()"])
prop("E03", "Permutation operators map permutations to permutations",
 "Initialising a permutation, and applying any of the shipped permutation operators (swap, shift, 2-opt, order and partially-mapped crossover, and the local-search swap/shift moves) to permutations of size two or more, always yields a permutation of the same elements and size. A swap mutation with k swaps moves at most 2k positions, a shift rotates one contiguous segment by one position and a 2-opt reverses one contiguous segment. An order crossover child is a segment of one parent followed by the remaining elements in the cyclic order of the other, a partially mapped one exchanges a single segment and repairs the rest through the induced mapping; segments are drawn over all positions and initial permutations uniformly.",
 ["inputs", "configurations"], "every permutation size from 2 up, every parent pair, every RNG seed and chain of operators",
 "the tests verify a handful of random applications on one size; boundary sizes, identical parents and long chains are not explored",
 ["eo/src/eoInt.h", "eo/src/eoSwapMutation.h", "eo/src/eoShiftMutation.h", "eo/src/eoTwoOptMutation.h", "eo/src/eoOrderXover.h", "eo/src/eoPartiallyMappedXover.h", "eo/src/eoInit.h"],
 [("permutation operators", "eo/src/eoSwapMutation.h, eo/src/eoShiftMutation.h, eo/src/eoTwoOptMutation.h, eo/src/eoOrderXover.h, eo/src/eoPartiallyMappedXover.h"), ("eoInitPermutation", "eo/src/eoInit.h")],
 ["genotype after operator()"])
prop("E04", "Real-valued and ES operators respect bounds and parental intervals",
 "With bounds given, every real-vector and ES initialiser, mutation and crossover returns variables inside their bounds, keeps the vector length, and leaves each standard deviation strictly positive and each rotation angle within plus or minus pi. Arithmetic and segment crossovers stay within the parental interval widened by their alpha and preserve the sum of the two parents when nothing is clipped, discrete and uniform crossovers only exchange parental values; folding and truncating map any finite value into the bounds and leave an inside value alone. Mutation steps have the configured size (times the range of a bounded variable), per-variable change probability and, for correlated ES mutation, the covariance given by the rotation angles, self-adaptive step sizes and angles change with their documented learning rates; the one-fifth rule divides the step by its factor when the success rate over its window exceeds the threshold and multiplies it otherwise.",
 ["inputs", "configurations"], "every dimension, finite/half-open/degenerate bounds, every rate and step size, every in-bounds parent and RNG seed",
 "tests only print a few mutated vectors for visual inspection",
 ["eo/src/es/eoRealOp.h", "eo/src/es/eoNormalMutation.h", "eo/src/es/eoRealAtomXover.h", "eo/src/es/eoEsMutate.h", "eo/src/es/eoEsGlobalXover.h", "eo/src/es/eoEsStandardXover.h", "eo/src/es/eoEsChromInit.h", "eo/src/utils/eoRealBounds.h", "eo/src/utils/eoRealVectorBounds.h", "eo/src/utils/eoIntBounds.h"],
 [("foldsInBounds / truncate / isInBounds", "eo/src/utils/eoRealBounds.h, eo/src/utils/eoIntBounds.h"), ("real and ES operators", "eo/src/es/*.h")],
 ["genotype, stdev and correlations after operator()", "bounds query functions"])
prop("E05", "Variable-length operators respect size limits and conserve genes",
 "For variable-length individuals, insertion and deletion change the size by at most one within the configured limits, exchange crossovers never produce an offspring outside the configured minimum and maximum, and gene by gene the two offspring of a crossover contain exactly the multiset of their parents' genes. Gene-wise mutation keeps the size and the initialiser draws sizes within its range.",
 ["inputs", "configurations"], "every pair of sizes and limits, every RNG seed, every chain of operators",
 "no test compares the gene multisets or boundary sizes",
 ["eo/src/eoVariableLengthMutation.h", "eo/src/eoVariableLengthCrossover.h", "eo/src/eoInit.h"],
 [("variable length operators", "eo/src/eoVariableLengthMutation.h, eo/src/eoVariableLengthCrossover.h")],
 ["offspring size and content"])
prop("E06", "Selection favours the fit exactly as configured",
 "Every single-individual selector returns a member of the given population, whatever mixture of maximising or minimising fitness, ties and population size one or more, and every batch selector returns exactly the requested number. Deterministic selectors are exact (best, elitist, sequential in fitness order, truncation above a threshold, universal sampling within one of its expected count, no individual of zero worth in proportional selection) and random ones (uniform, deterministic and stochastic tournaments, roulette, ranking) pick with their documented probabilities.",
 ["inputs", "configurations", "histories"], "every population content, size, selector parameter, number of successive picks and RNG seed",
 "tests print selection frequencies without asserting them",
 ["eo/src/eoDetTournamentSelect.h", "eo/src/eoStochTournamentSelect.h", "eo/src/eoProportionalSelect.h", "eo/src/eoStochasticUniversalSelect.h", "eo/src/eoSequentialSelect.h", "eo/src/eoTruncatedSelectOne.h", "eo/src/eoRankingSelect.h", "eo/src/eoRandomSelect.h", "eo/src/eoSelectMany.h", "eo/src/eoSelectNumber.h", "eo/src/eoSelectPerc.h", "eo/src/utils/selectors.h", "eo/src/utils/eoHowMany.h", "eo/src/eoDetSelect.h", "eo/src/eoTruncSelect.h", "eo/src/eoFitnessScalingSelect.h", "eo/src/eoSharingSelect.h"],
 [("selectors", "eo/src/utils/selectors.h"), ("selection functors", "eo/src/eo*Select*.h"), ("eoHowMany", "eo/src/utils/eoHowMany.h")],
 ["selected individuals, their counts and frequencies"])
prop("E07", "Worth assignments equal their defining formulas",
 "Ranking, linear fitness scaling, sharing (of non-negative maximised fitness) and non-dominated sorting give every individual a finite, non-negative worth that is a function of the population contents alone, equal to the published formula and never larger for a less fit individual than for a fitter one (sharing: fitness divided by niche count). Worths stay attached to the right individual when the population is resized or sorted together with them.",
 ["inputs", "configurations"], "every population size from 2, ties, equal fitness values, pressure and exponent settings",
 "tests only print the worths for one population",
 ["eo/src/eoRanking.h", "eo/src/eoLinearFitScaling.h", "eo/src/eoSharing.h", "eo/src/eoNDSorting.h", "eo/src/eoPerf2Worth.h"],
 [("perf2worth", "eo/src/eoPerf2Worth.h, eo/src/eoRanking.h, eo/src/eoLinearFitScaling.h, eo/src/eoSharing.h, eo/src/eoNDSorting.h")],
 ["value() of the perf2worth"])
prop("E08", "Replacement keeps the size, only survivors, and the promised elite",
 "Every replacement leaves a population of the prescribed size made only of individuals that were parents or offspring, never more copies of an individual than existed before. Elitist and truncating schemes (plus, comma, truncation and its splits, replace-worst, reduce-merge-reduce with strong or weak elitism, survive-and-die, MGG, G3, elitism) keep exactly the best they promise, so the best fitness never decreases where elitism is declared. Random, EP and tournament truncations remove each individual with its exact probability, and impossible sizes are refused with an exception.",
 ["inputs", "configurations", "histories"], "every parent and offspring size, ties and duplicates, maximising and minimising fitness, tournament sizes and rates, RNG seeds",
 "tests print the populations for one or two settings and assert nothing on survivors",
 ["eo/src/eoReplacement.h", "eo/src/eoReduce.h", "eo/src/eoReduceSplit.h", "eo/src/eoMerge.h", "eo/src/eoMergeReduce.h", "eo/src/eoReduceMerge.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoSurviveAndDie.h", "eo/src/eoMGGReplacement.h"],
 [("reduce/merge/replacement functors", "eo/src/eoReduce.h, eo/src/eoMerge.h, eo/src/eoReplacement.h, eo/src/eoReduceMergeReduce.h")],
 ["population after the call (tracked by individual identity)"])
prop("E09", "Breeding yields the requested offspring and leaves parents alone",
 "A breeder fills the offspring population with exactly the number asked for (absolute, rate of the parents, or negative count) and leaves the parent population identical. With operators applied at probability zero every offspring is an exact evaluated copy of a parent; with probability one each is produced by the operators, and sequential or proportional operator combinations apply exactly the operators drawn, in order.",
 ["inputs", "configurations"], "every population size, rate, operator tree and RNG seed",
 "tests run one configuration and only print",
 ["eo/src/eoGeneralBreeder.h", "eo/src/eoBreed.h", "eo/src/eoTransform.h", "eo/src/eoSGATransform.h", "eo/src/eoSGAGenOp.h", "eo/src/eoOpContainer.h", "eo/src/eoPopulator.h", "eo/src/utils/eoHowMany.h", "eo/src/eoCloneOps.h", "eo/src/eoProportionalCombinedOp.h"],
 [("populator and general breeder", "eo/src/eoPopulator.h, eo/src/eoGeneralBreeder.h"), ("operator containers", "eo/src/eoOpContainer.h")],
 ["offspring and parent populations after breeding"])
prop("E10", "Evolution loops keep the population size, evaluate everyone, stop on time",
 "Each evolutionary loop (eoEasyEA in all its constructions, eoSGA, eoFastGA, cellular, and the restarting wrapper) asks its continuator once per generation with a fully evaluated population of the initial size, in which every fitness equals the evaluation of that genotype, and returns as soon as the answer is negative. Exactly the new or modified individuals are evaluated, operators run as often as their rates say, and with an elitist replacement the best fitness is monotone over generations.",
 ["inputs", "configurations", "histories"], "every population size, operator, selection and replacement combination, number of generations and RNG seed",
 "tests run a few fixed algorithms to the end and look at nothing but termination",
 ["eo/src/eoEasyEA.h", "eo/src/eoSGA.h", "eo/src/eoReduceMerge.h", "eo/src/eoPopEvalFunc.h", "eo/src/eoAlgo.h", "eo/src/eoReduceMergeReduce.h", "eo/src/eoCellularEasyEA.h"],
 [("main loops", "eo/src/eoEasyEA.h, eo/src/eoSGA.h")],
 ["population seen by the continuator at each generation", "evaluator call log"])
prop("E11", "Evaluation wrappers count, cap and remember exactly",
 "A counting evaluator evaluates only individuals without a fitness and its count equals the number of such evaluations; the limiting variant raises at the evaluation that reaches its limit (after performing it) and at each later one, and the not-a-number guard raises exactly for non-finite fitness. The best-keeping, printing, dumping, command and file based variants give the wrapped fitness and remember, write or send the right individual. Population evaluation leaves every offspring evaluated (parents too in the time-varying variant) and never changes a genotype.",
 ["inputs", "histories", "configurations"], "every sequence of evaluations of valid and invalid individuals, every limit, nesting of wrappers",
 "tests do one fixed sequence without repeated or already evaluated individuals",
 ["eo/src/eoEvalFuncCounter.h", "eo/src/eoEvalCounterThrowException.h", "eo/src/eoEvalKeepBest.h", "eo/src/eoEvalDump.h", "eo/src/eoPopEvalFunc.h", "eo/src/eoEvalFuncPtr.h"],
 [("counting and limiting evaluators", "eo/src/eoEvalFuncCounter.h, eo/src/eoEvalCounterThrowException.h, eo/src/eoEvalFuncCounterBounder.h"), ("best keeper", "eo/src/eoEvalKeepBest.h")],
 ["count value, exceptions, fitness values"])
prop("E12", "Stopping criteria fire exactly when their condition first holds",
 "The generation, evaluation-count, target-fitness, steady-state and combined continuators answer true as long as, and false from the moment, their stated condition is met for the sequence of populations presented (maximising or minimising), and resetting them restores the initial behaviour. A combination stops when and only when one of its members would, and asks its members in order until one stops.",
 ["inputs", "histories", "configurations"], "every sequence of populations, every parameter including zero, every order of combination, repeated runs with a reset",
 "tests only use the criteria inside one run and never check the exact call at which they stop",
 ["eo/src/eoGenContinue.h", "eo/src/eoEvalContinue.h", "eo/src/eoFitContinue.h", "eo/src/eoSteadyFitContinue.h", "eo/src/eoCombinedContinue.h", "eo/src/eoPeriodicContinue.h"],
 [("continuators", "eo/src/eo*Continue.h")],
 ["bool returned for each population of a generated history"])
prop("E13", "Checkpoints call every observer and statistics equal their definitions",
 "At every generation a checkpoint computes each registered statistic, then runs each updater and monitor exactly once in registration order, ANDs all continuators (each is called), and triggers the last-call hooks exactly once when stopping. Reported statistics (best, average, standard deviation, n-th element, diversity, distances, counters) equal a direct recomputation from the population, and a file monitor writes one line per generation holding exactly the watched values.",
 ["inputs", "histories", "configurations"], "every number and kind of observers, every sequence of populations, maximising or minimising fitness",
 "tests print to the console; nothing checks call counts, order or numeric values",
 ["eo/src/utils/eoCheckPoint.h", "eo/src/utils/eoStat.h", "eo/src/utils/eoUpdater.h", "eo/src/utils/eoMonitor.h", "eo/src/utils/eoFileMonitor.cpp", "eo/src/utils/eoPopStat.h", "eo/src/utils/eoDistance.h", "eo/src/utils/eoMOFitnessStat.h"],
 [("checkpoint dispatch", "eo/src/utils/eoCheckPoint.h"), ("statistics", "eo/src/utils/eoStat.h"), ("file monitor", "eo/src/utils/eoFileMonitor.cpp")],
 ["observer call log", "statistic values", "file contents"])
prop("E14", "Saving a run's state and loading it restores every registered object",
 "Saving a state and loading it into freshly registered objects of the same names restores every registered object (populations with genotypes and fitness, random generator, parameters, counters), whatever the order of registration, and saving again produces the same text. Objects absent from the file keep their values, unknown sections are ignored, and a random generator saved in the middle of a run continues with exactly the same numbers after loading.",
 ["inputs", "histories", "configurations"], "every set of registered objects, population content including invalid individuals, generator position",
 "the only test saves a state and never checks that what is loaded equals what was saved",
 ["eo/src/utils/eoState.cpp", "eo/src/utils/eoState.h", "eo/src/utils/eoRNG.h", "eo/src/eoPop.h", "eo/src/utils/eoParam.h", "eo/src/utils/eoUpdater.cpp"],
 [("section writer/reader", "eo/src/utils/eoState.cpp"), ("generator persistence", "eo/src/utils/eoRNG.h")],
 ["objects after load", "saved text"])
prop("E15", "Printing then reading back reproduces individuals, populations, settings",
 "For bit strings, real, integer and permutation vectors, evolution-strategy individuals with one, many or correlated step sizes, multi-objective vectors, and populations of them, reading what was printed (over a fresh or a used object) yields the same genotype and the same fitness status and value, up to the printed precision, whether the fitness is plain, minimising, dual or assembled from terms. Bounds, vectors of bounds, counts-or-rates and parameter values likewise read back to an equal object, and a reader consumes exactly the text of its object.",
 ["inputs"], "every size including boundary values, evaluated and unevaluated individuals, positive and negative values",
 "tests print objects but rarely read them back, and never over generated contents",
 ["eo/src/EO.h", "eo/src/eoVector.h", "eo/src/ga/eoBit.h", "eo/src/es/eoEsSimple.h", "eo/src/es/eoEsStdev.h", "eo/src/es/eoEsFull.h", "eo/src/eoPop.h", "eo/src/utils/eoParam.h", "eo/src/utils/eoRealVectorBounds.h", "eo/src/utils/eoRealBounds.cpp", "eo/src/eoDualFitness.h", "eo/src/eoScalarFitnessAssembled.h", "moeo/src/core/MOEO.h", "moeo/src/core/moeoBitVector.h", "eo/src/utils/eoHowMany.h"],
 [("printOn/readFrom pairs", "EO.h, eoVector.h, eoBit.h, eoPop.h, eoParam.h, MOEO.h")],
 ["object after readFrom(printOn(x))"])
prop("E16", "Program parameters take the value the user gave, or the default",
 "Each declared parameter ends up with the value given on the command line by long or short name, else the value in a parameter file, else its default; the user's value is parsed with its type, and a required parameter that is missing, or an unknown parameter, is reported. A file written from a parser and read back by another gives the same values.",
 ["inputs", "configurations"], "every set of declared parameters and types, every command line and parameter file mixing names, forms and order",
 "the tests use one fixed command line",
 ["eo/src/utils/eoParser.cpp", "eo/src/utils/eoParser.h", "eo/src/utils/eoParam.h"],
 [("argument and file scanning", "eo/src/utils/eoParser.cpp"), ("typed parsing", "eo/src/utils/eoParam.h")],
 ["parameter values after parsing", "errors and unknown-parameter reports", "parameter file written"])
prop("E17", "Random draws stay in range and runs are reproducible from the seed",
 "The generator gives the Mersenne Twister sequence of its seed, its draws lie in their documented ranges (integers below the bound, reals in the half-open interval, flips certain at probability 0 and 1, weighted draws only on positive weights, shuffles are permutations) with the documented distribution, and reseeding or restoring it replays the same sequence. Evolutionary algorithms and strategies, particle swarms, the local searches of mo and the multi-objective algorithms of moeo, run again from the same seed and settings, give identical results whatever ran in between and whatever the clock says.",
 ["inputs", "configurations", "histories"], "every seed, bound, distribution parameter, saved position, and every shipped algorithm family and initialiser",
 "tests only check moments for one seed, and nothing compares two runs of an algorithm",
 ["eo/src/utils/eoRNG.h", "eo/src/utils/eoRndGenerators.h", "eo/src/utils/rnd_generators.h", "eo/src/eoPop.h", "eo/src/eoInit.h", "mo/src/neighborhood/moRndVectorVNSelection.h", "moeo/src/selection"],
 [("generator", "eo/src/utils/eoRNG.h"), ("users of randomness", "eo, mo, moeo, edo")],
 ["drawn values", "final populations of repeated runs"])
prop("E18", "Fitness order drives best, worst, sorting and comparison consistently",
 "For maximising, minimising, dual (feasible first) and assembled fitness, comparison of individuals is the strict weak order of their fitness, feasible before infeasible for dual fitness, and using an unset fitness is refused. Best, worst, sorted and shuffled views, and the n-th best of a population all agree with that order and never lose, duplicate or alter individuals. Arithmetic on dual fitness combines values and keeps feasibility only when both are feasible, splitting a population by feasibility keeps every individual in order, and the terms and descriptions of an assembled fitness follow what was set.",
 ["inputs", "configurations"], "every fitness type, population content including ties, single and empty populations where allowed",
 "tests check a few fixed comparisons only",
 ["eo/src/EO.h", "eo/src/eoPop.h", "eo/src/eoScalarFitness.h", "eo/src/eoDualFitness.h", "eo/src/eoScalarFitnessAssembled.h", "eo/src/utils/eoFuncPtrStat.h"],
 [("fitness comparison", "eo/src/eoScalarFitness.h, eo/src/eoDualFitness.h, eo/src/eoScalarFitnessAssembled.h"), ("population views", "eo/src/eoPop.h")],
 ["comparison results", "population after sort/shuffle/best/worst/nth"])
prop("E19", "Forges and foundries build exactly the operators and algorithms asked for",
 "A forge container (by index or by name) returns an instance of the class last stored under that key, built from the stored arguments (references stay references): a new one on each request, or the same one when caching is enabled, through references and shared pointers alike. An algorithm assembled by a foundry uses the selected operator of each slot and no other, with the selected rates and offspring number, and never exceeds the generation or evaluation limits of the foundry.",
 ["inputs", "configurations", "histories"], "every sequence of additions, changes and constructions, every selection of operators and parameters, repeated selections on one foundry",
 "tests build a few fixed encodings and look at whether they run",
 ["eo/src/eoForge.h", "eo/src/eoAlgoFoundry.h", "eo/src/eoAlgoFoundryEA.h", "eo/src/eoAlgoFoundryFastGA.h", "eo/src/eoEvalFoundryEA.h"],
 [("deferred constructors", "eo/src/eoForge.h"), ("assembled algorithms", "eo/src/eoAlgoFoundryEA.h, eo/src/eoAlgoFoundryFastGA.h")],
 ["class, arguments and state of built instances", "which operators run, and how often"])
prop("E20", "Command-line builders assemble what is asked for, and restarts resume exactly",
 "The do_make builders for populations, stopping criteria, scalar algorithms, general replacements, checkpoints, and bit-string, real and evolution-strategy genotypes and operators return components that behave exactly as the named components with the given parameters (documented defaults when absent), whatever the order of the arguments, and refuse unknown names and out-of-range rates. A checkpoint writes only in its result directory, one statistics line per generation and one state file per requested generation plus the last one. A population is drawn from the seed, or loaded from a saved state (keeping the best if there are too many, drawing the missing ones), and a run restarted from a saved state ends as the uninterrupted run.",
 ["inputs", "configurations", "histories", "crash_points"], "every command line over the builders' parameters, every population size and seed, every saved generation to restart from",
 "tests run one default command line for some builders and look at nothing but the exit code",
 ["eo/src/do/make_pop.h", "eo/src/do/make_continue.h", "eo/src/do/make_algo_scalar.h", "eo/src/do/make_general_replacement.h", "eo/src/do/make_checkpoint.h", "eo/src/do/make_run.h", "eo/src/ga/make_op.h", "eo/src/ga/make_genotype_ga.h", "eo/src/es/make_op_real.h", "eo/src/es/make_op_es.h", "eo/src/es/make_genotype_real.h", "eo/src/utils/make_help.cpp"],
 [("components named by parameters", "eo/src/do/make_algo_scalar.h, eo/src/ga/make_op.h, eo/src/es/make_op_real.h, eo/src/es/make_op_es.h"), ("saving and restarting", "eo/src/do/make_checkpoint.h, eo/src/do/make_pop.h")],
 ["populations produced by built and by hand-assembled components", "files left in the result directory"])
prop("P01", "Particle swarms: bests are true maxima, moves stay within bounds",
 "After every iteration a particle's personal best is the best position and fitness it has ever had, the best of its neighbourhood (linear, ring or star) is the best position seen among the members of that neighbourhood, and the global best is the best of all. Velocities and positions are updated from inertia, personal and social attraction with coefficients between zero and their weights, clipped to the given (or modified) bounds; a moved particle is never left with an old fitness, and each particle is moved and evaluated once per iteration. Weights and bounds follow their documented schedules.",
 ["inputs", "configurations", "histories"], "every swarm size, neighbourhood size, dimension, bounds, coefficients, fitness direction, number of iterations and RNG seed",
 "tests run the swarm and print it",
 ["eo/src/PO.h", "eo/src/eoVectorParticle.h", "eo/src/eoLinearTopology.h", "eo/src/eoRingTopology.h", "eo/src/eoStarTopology.h", "eo/src/eoStandardVelocity.h", "eo/src/eoExtendedVelocity.h", "eo/src/eoStandardFlight.h", "eo/src/eoVelocityInit.h", "eo/src/eoSyncEasyPSO.h", "eo/src/eoEasyPSO.h", "eo/src/eoSocialNeighborhood.h", "eo/src/eoParticleBestInit.h"],
 [("topologies", "eo/src/eo*Topology.h"), ("velocity and flight", "eo/src/eo*Velocity*.h, eo/src/eoStandardFlight.h")],
 ["particles and neighbourhood bests after each iteration"])
prop("G01", "Tree operators and initialisers yield well-formed trees within limits",
 "Every tree built by the initialisers (grow, full, ramped, strongly typed) or changed by the tree operators has, at every node, exactly as many children as its function requires, reports its true size and depth, respects the configured maximum depth or size and the types, and evaluates, prints and reads back as the same tree. Point mutation changes one node and keeps the shape, hoisting returns a subtree, branch, expansion and collapse mutations replace one subtree, crossover exchanges exactly one subtree of each parent, each point being picked evenly; a too large offspring is pruned to its first child until it fits. A tree that is initialised again has no fitness.",
 ["inputs", "configurations"], "every function set, arity, depth and size limit, every parent tree and RNG seed, chains of operators",
 "the symbolic-regression tests only run an algorithm to the end",
 ["eo/src/gp/eoParseTree.h", "eo/src/gp/eoParseTreeDepthInit.h", "eo/src/gp/eoParseTreeOp.h", "eo/src/gp/parse_tree.h", "eo/src/gp/node_pool.h"],
 [("tree structure", "eo/src/gp/parse_tree.h"), ("initialisers and operators", "eo/src/gp/eoParseTreeDepthInit.h, eo/src/gp/eoParseTreeOp.h")],
 ["node arities, size, depth, evaluation and print/read of the trees"])
# ---------------------------------------------------------------- MO
prop("L01", "Incremental evaluation of a move equals full evaluation after the move",
 "For every shipped problem with an incremental evaluator, and for the generic full-evaluation-of-a-neighbour strategies, the fitness computed for a neighbour equals the full evaluation of the solution after applying that move, and computing it leaves the solution unchanged. This holds for every solution, every move and after any sequence of applied moves.",
 ["inputs", "histories", "configurations"], "every instance, solution, neighbour and sequence of moves",
 "tests compare one or two moves on a fixed instance",
 ["problems/eval", "mo/src/problems/eval", "mo/src/eval", "mo/src/problems/bitString"],
 [("incremental evaluators", "mo/src/problems/eval/*.h"), ("full evaluation by copy or modification", "mo/src/eval/*.h")],
 ["neighbour fitness versus full evaluation"])
prop("L02", "Neighbourhoods enumerate each neighbour once and moves can be undone",
 "An ordered or random-without-replacement neighbourhood (indexed, several-bit, swap, two-opt or partition exchange) visits every neighbour of a solution exactly once and then stops, every time it is started; one with a configured number of neighbours visits exactly that many valid ones, drawn evenly. A move (one or several bit flips, swap, shift, two-opt, partition exchange) changes the solution exactly as its type and index say, undoing it restores the original, and neither leaves the old fitness on the solution. Copies of neighbours, and neighbours or partitions printed and read back, are the same neighbours with the same fitness.",
 ["inputs", "configurations"], "every solution size, neighbourhood size and ordering, every neighbour index and RNG seed",
 "tests check a few indices of one small neighbourhood",
 ["mo/src/neighborhood", "mo/src/problems/bitString", "mo/src/problems/permutation", "mo/src/problems/partition"],
 [("neighbourhood iteration", "mo/src/neighborhood/*.h"), ("moves", "mo/src/problems/*/*.h")],
 ["sequence of visited keys/solutions", "solution after move and move-back"])
prop("L03", "Hill climbers only improve, end in local optima, neutral walks stay level",
 "Every hill climber moves at each step to an allowed neighbour (best-improvement to a best one, first-improvement to the first improving one, neutral ones to a best one at least as good) with its right fitness, returns a solution never worse than the start and, when it stopped by itself, a local optimum. A neutral walk stays at its fitness as long as there is a neutral neighbour and steps are left, a random walk and a random search take exactly the requested number of steps, and random choices are even. Every local search evaluates the start only if needed and stops when its continuator says so, each time the same object is run.",
 ["inputs", "configurations", "histories"], "every landscape (plateaus, ties, minimisation and maximisation), start solution, neighbourhood and RNG seed",
 "tests run each algorithm once on a unimodal problem",
 ["mo/src/algo/moSimpleHC.h", "mo/src/algo/moFirstImprHC.h", "mo/src/algo/moRandomBestHC.h", "mo/src/algo/moNeutralHC.h", "mo/src/algo/moRandomNeutralWalk.h", "mo/src/algo/moRandomWalk.h", "mo/src/algo/moRandomSearch.h", "mo/src/algo/moLocalSearch.h", "mo/src/algo/moMetropolisHasting.h", "mo/src/explorer"],
 [("local search loop", "mo/src/algo/moLocalSearch.h"), ("explorers", "mo/src/explorer/*.h")],
 ["trajectory of solutions and final solution"])
prop("L04", "Tabu search avoids tabu moves and returns the best solution it visited",
 "At every step tabu search moves to a best neighbour among those that are not tabu or satisfy the aspiration criterion, even when it is worse, and stays when there is none; the solution returned is the first best among the start and those it moved to. The tabu memories forbid exactly the last solutions or moves added, within their size and their fixed or random tenure, and starting again or clearing forgets everything. Intensification and diversification are called at each step, memories are told of each move, and a diversified solution is evaluated again.",
 ["inputs", "configurations", "histories"], "every landscape, tabu tenure, list type, aspiration, number of iterations and RNG seed",
 "tests check short fixed scenarios of each component",
 ["mo/src/algo/moTS.h", "mo/src/explorer/moTSexplorer.h", "mo/src/memory"],
 [("tabu explorer", "mo/src/explorer/moTSexplorer.h"), ("memories", "mo/src/memory/*.h")],
 ["trajectory, tabu status, returned solution"])
prop("L05", "Annealing, Metropolis, iterated and variable searches accept by their rule",
 "Each step of simulated annealing draws a random neighbour, always accepts an improving one and another one with probability exp(-|difference|/temperature), the temperature following the simple or dynamic-span cooling schedule up to its end; Metropolis-Hastings accepts a non-improving neighbour with the ratio of the two (non-negative) fitnesses for the given number of steps. Iterated local search runs the search from the start, then from the perturbed current solution (operator applied the given number of times, next neighbour, or restart after the threshold of iterations without move), takes the result when the acceptance criterion says so, tells the memories, and returns the last accepted solution. Variable neighbourhood search applies shake and search of the neighbourhood selected (forward, backward or random order, cycling or ending at the last), returns to the first after an accepted move, and returns the best solution found; every solution handed on carries its own fitness, also when objects are used again.",
 ["inputs", "configurations", "histories"], "every landscape, temperature, schedule, acceptance and perturbation, neighbourhood sequence and RNG seed",
 "tests run a few iterations on one landscape",
 ["mo/src/algo/moSA.h", "mo/src/algo/moILS.h", "mo/src/algo/moVNS.h", "mo/src/explorer/moSAexplorer.h", "mo/src/explorer/moMetropolisHastingExplorer.h", "mo/src/explorer/moILSexplorer.h", "mo/src/explorer/moVNSexplorer.h", "mo/src/coolingSchedule", "mo/src/acceptCrit", "mo/src/perturb", "mo/src/neighborhood"],
 [("explorers", "mo/src/explorer/*.h"), ("cooling schedules", "mo/src/coolingSchedule/*.h"), ("perturbations", "mo/src/perturb/*.h"), ("neighbourhood selection", "mo/src/neighborhood/mo*VNSelection.h")],
 ["accepted moves, temperatures, trajectory, returned solution"])
prop("L06", "Local-search stopping criteria, checkpoints and statistics are exact",
 "Every local-search continuator stops at exactly the step its condition (iterations, fitness level, full or neighbour evaluations or both, steps without improving the best, value of a parameter, time) is met, starts afresh for each run unless told otherwise, and combinations call every member and stop when one does. A checkpoint calls, in order, every statistic (at multiples of its interval), updater, monitor and continuator, and monitors record and export exactly the values shown to them. Each statistic (fitness, solution, best so far, counters, distance, values, size, mean, deviation, extremes, quartiles and better/equal/worse counts of the neighbourhood) equals a direct recomputation at the start and after each step.",
 ["inputs", "histories", "configurations"], "every trajectory, limit, sampling interval, combination and repeated runs",
 "tests feed two or three values to each component",
 ["mo/src/continuator"],
 [("continuators, checkpoint and statistics", "mo/src/continuator/*.h")],
 ["returned booleans, call log, statistic values"])
prop("L07", "Landscape sampling records what happened and its statistics are exact",
 "A landscape sampling (density of states, fitness distance, autocorrelation, random and Metropolis fitness clouds, neutral degree, adaptive and hill-climbing walks, neutral walks, or any search with any statistics) records exactly one value per observed solution and statistic, in order and afresh in each run, equal to the statistic of that solution; the search moves and ends as declared and gets its continuator back. Exported files hold the same values, whole or by column, appended or not. Basic statistics, distance matrices, autocorrelations and partial autocorrelations equal a direct computation.",
 ["inputs", "configurations", "histories"], "every landscape, sample size, walk length, interval and RNG seed",
 "tests check sizes of one sample at most",
 ["mo/src/sampling", "mo/src/continuator/moVectorMonitor.h", "mo/src/continuator/moNeighborhoodStat.h"],
 [("sampling", "mo/src/sampling/*.h"), ("recorded values", "mo/src/continuator/moVectorMonitor.h")],
 ["recorded vectors and files", "statistics"])
# ---------------------------------------------------------------- MOEO
prop("M01", "Dominance relations are what they claim for any min/max objectives",
 "For any number of objectives each minimised or maximised, Pareto, weak, strict, epsilon and goal dominance between objective vectors hold exactly when their definition does, so Pareto and strict dominance are irreflexive, asymmetric and transitive and no pair dominates mutually. The lexicographic and per-objective comparators order by plain value, the scalar comparators (fitness, fitness then diversity and the reverse, aggregative) by those values, and a solution's objective vector, fitness and diversity are readable exactly while valid.",
 ["inputs", "configurations"], "every number of objectives and direction mask, every pair and triple of vectors including ties and differences below the tolerance",
 "tests check two or three vectors of two objectives",
 ["moeo/src/comparator", "moeo/src/core/moeoRealObjectiveVector.h", "moeo/src/core/moeoObjectiveVectorTraits.h"],
 [("comparators", "moeo/src/comparator/*.h")],
 ["comparator results"])
prop("M02", "An archive is always the Pareto front of everything ever offered to it",
 "After any sequence of insertions, one by one or by population, an unbounded archive contains exactly one representative of each objective vector that no offered vector dominates, nothing else, and reports an insertion as successful exactly when the solution entered. Bounded archives (fitness-diversity, hypervolume, epsilon, SPEA2, fixed size) never exceed their capacity, hold only offered solutions, and those that promise it hold no dominated one.",
 ["inputs", "histories", "configurations"], "every sequence of solutions and populations, direction mask, number of objectives, duplicates, capacity and replacement option",
 "tests insert four or five fixed vectors",
 ["moeo/src/archive"],
 [("archives", "moeo/src/archive/*.h")],
 ["archive contents and return values after each operation"])
prop("M03", "Multi-objective fitness assignments equal their definitions",
 "Non-dominated sorting gives every individual its true front rank for any number of objectives and directions, duplicates included; dominance rank, count and count-ranking equal the numbers of dominating or dominated individuals they stand for; scalarisation is the weighted sum. Indicator-based fitness equals the exponential sum over the population for its indicator, and updating it after removal or addition of an individual equals assigning it from scratch; reusing an assignment object never changes results.",
 ["inputs", "configurations", "histories"], "every population, objective count and direction mask, ties and duplicates, archive content, repeated use of the same object",
 "tests check one four-element population",
 ["moeo/src/fitness", "moeo/src/utils/moeoDominanceMatrix.h", "moeo/src/metric/moeoNormalizedSolutionVsSolutionBinaryMetric.h", "moeo/src/scalarStuffs/fitness"],
 [("fitness assignments", "moeo/src/fitness/*.h"), ("dominance matrix", "moeo/src/utils/moeoDominanceMatrix.h")],
 ["fitness of each individual"])
prop("M04", "Diversity assignments equal their definitions and stay finite where due",
 "Crowding gives extreme points of a front the greatest value and every other the normalised sum of its neighbours' gaps, front by front where so declared; sharing and front-by-front sharing equal the niche count formula and nearest-neighbour diversity uses the k-th distance. No diversity is ever NaN, whatever duplicates or constant objectives, and objective distances are the plain or normalised Euclidean and Manhattan distances.",
 ["inputs", "configurations"], "every population size, objective count and direction mask, ties, duplicates, constant objectives, niche size and k",
 "tests check one four-element population",
 ["moeo/src/diversity", "moeo/src/distance", "moeo/src/utils/moeoObjectiveVectorNormalizer.h"],
 [("diversity assignments", "moeo/src/diversity/*.h"), ("distances and normaliser", "moeo/src/distance/*.h, moeo/src/utils/moeoObjectiveVectorNormalizer.h")],
 ["diversity of each individual, distance values"])
prop("M05", "Multi-objective selection and replacement keep the preferred solutions",
 "Elitist replacement keeps exactly the best of parents and offspring by (fitness, diversity), environmental replacement removes one worst individual at a time with fitness updated in between, and generational replacement takes all offspring; sizes are kept and nothing is invented or duplicated. Tournament, stochastic tournament, roulette, random and population-or-archive selections return members with the probabilities that the comparator, tournament size, rate, fitness shares or ratio imply; archive selection respects its minimum and maximum and takes members evenly, and the unvisited selectors return only distinct unvisited members up to their number.",
 ["inputs", "configurations"], "every parent/offspring population, tie pattern, parameters and RNG seed",
 "tests run one tiny example",
 ["moeo/src/replacement", "moeo/src/selection"],
 [("replacements", "moeo/src/replacement/*.h"), ("selections", "moeo/src/selection/*.h")],
 ["population after replacement", "selected individuals or indices"])
prop("M06", "Quality indicators equal their mathematical definition",
 "The hypervolume of a set with respect to a reference point is the measure of the region it dominates, invariant under order, duplicates and dominated points, for two or more objectives in any directions; the hypervolume difference, the epsilon indicators between vectors or sets, and the hypervolume binary indicator equal their definitions with the same normalisation and are never NaN. The contribution of two sets lies in [0,1] with the two directions summing to one, and the best and average objective vectors and between-generation metrics reported by statistics are those of the population.",
 ["inputs", "configurations"], "every set size, objective count, direction mask, ties, degenerate ranges, reference point",
 "tests check one or two hand-computed two-objective examples",
 ["moeo/src/metric"],
 [("indicators", "moeo/src/metric/*.h")],
 ["indicator values versus brute-force oracle"])
prop("M07", "Multi-objective EAs keep size and consistent, correctly ranked solutions",
 "NSGA, NSGA-II, IBEA, MOGA, SPEA2, SEEA and the generic multi-objective loop keep the population at its initial size (ASEEA works on its archive alone), hold only individuals whose objective vector equals the evaluation of their genotype, call the continuator once per generation, and evaluate each new individual once. NSGA, NSGA-II and MOGA keep the best of parents and offspring by their fitness and diversity, none of the elitist ones drops a solution while keeping one it dominates, mating is by binary tournament, and the archives of SPEA2, SEEA and ASEEA cover everything evaluated.",
 ["inputs", "configurations", "histories"], "every bi/multi-objective problem with ties, population size, direction mask, operators, generations and RNG seed",
 "tests only run each algorithm without looking at the populations",
 ["moeo/src/algo"],
 [("algorithms", "moeo/src/algo/*.h")],
 ["population at each continuator call", "evaluation log"])
prop("M08", "Pareto local search explores as declared and its archive stays a front",
 "Each neighbourhood explorer (exhaustive, simple sub-neighbourhood, first improving, no worsening) adds exactly the neighbours it promises with objective vectors equal to a full evaluation, marks a solution visited only when its neighbourhood was completely seen, and leaves the source genotype unchanged. Dominance-based local search (alone, as an operator or as a periodic updater) ends with an archive of mutually non-dominated, correctly evaluated solutions that covers its start, each visited when it stopped by itself and, with exhaustive exploration, with no neighbour better than the archive.",
 ["inputs", "configurations", "histories"], "every bi-objective landscape, start population, selection and exploration parameters, RNG seed",
 "tests check one example neighbourhood",
 ["moeo/src/explorer", "moeo/src/algo/moeoUnifiedDominanceBasedLS.h", "moeo/src/algo/moeoPLS1.h", "moeo/src/algo/moeoPLS2.h"],
 [("explorers", "moeo/src/explorer/*.h"), ("local search loop", "moeo/src/algo/moeoUnifiedDominanceBasedLS.h")],
 ["explored solutions, visited flags, archive"])
# ---------------------------------------------------------------- EDO
prop("M09", "Scalarised fitness, indexed archive and weights follow their definitions",
 "The weighted and augmented Chebychev and the plain and augmented achievement fitness assignments give minus their formula of the normalised distance to the reference point under the current weights, evaluating solutions without objectives first; the achievement assignment gives the least weighted gap plus a small share of the sum. A two-objective indexed archive holds exactly the first of each non-dominated vector ever offered and says whether the offer entered. Weight strategies give non-negative weights of sum one, and the hypervolume continuator stops exactly when the archive covers the optimal front.",
 ["inputs", "histories", "configurations"], "every objective count and direction, weights, reference points and normalisers, histories of offers to the archive, of changed weights and of calls",
 "one test per metric fixes one vector; the tests of the index are disabled",
 ["moeo/src/scalarStuffs", "moeo/src/fitness/moeoSingleObjectivization.h", "moeo/src/metric/moeoDistanceMetric.h", "moeo/src/continue/moeoHypContinue.h"],
 [("scalarised fitness", "moeo/src/scalarStuffs/fitness/*.h, moeo/src/scalarStuffs/distance/*.h"), ("indexed archive", "moeo/src/scalarStuffs/archive/moeoIndexedArchive.h, moeoQuickUnboundedArchiveIndex.h"), ("weights and stop", "moeo/src/scalarStuffs/weighting/*.h, moeo/src/continue/moeoHypContinue.h")],
 ["fitness of each individual, archive members and answers, weights, continuation flag"])
prop("D01", "Estimated distributions, samples and repairs match the data and bounds",
 "Estimating uniform, normal (independent or full covariance) and binomial distributions from a population gives its componentwise range, mean, (co)variance and frequencies, and sampling such a distribution produces vectors of its dimension with these parameters. Bounders and repairers return every variable inside its bounds or exactly transformed (floor, ceiling, rounding, modulo, only the dispatched variables), and re-centring moves a distribution to the given point without changing its spread. Samplers always apply their repairer, combined estimators run their parts in order, and the transforms convert populations there and back.",
 ["inputs", "configurations"], "every population, dimension, covariance (correlated, degenerate), bound and RNG seed",
 "tests compare means of large samples within a loose distance for one setting",
 ["edo/src/edoEstimatorUniform.h", "edo/src/edoEstimatorNormalMono.h", "edo/src/edoEstimatorNormalMulti.h", "edo/src/edoEstimatorBinomial.h", "edo/src/edoEstimatorBinomialMulti.h", "edo/src/edoEstimatorCombined.h", "edo/src/edoSamplerNormalMulti.h", "edo/src/edoSamplerUniform.h", "edo/src/edoSamplerNormalMono.h", "edo/src/edoSamplerBinomial.h", "edo/src/edoBounderBound.h", "edo/src/edoRepairerDispatcher.h", "edo/src/edoRepairerRound.h", "edo/src/edoUniformCenter.h", "edo/src/edoNormalMonoCenter.h", "edo/src/edoNormalMultiCenter.h"],
 [("estimators and samplers", "edo/src/edoEstimator*.h, edo/src/edoSampler*.h"), ("bounders and repairers", "edo/src/edoBounder*.h, edo/src/edoRepairer*.h")],
 ["distribution parameters, sampled and repaired vectors"])
prop("D02", "Distribution-based algorithms sample, evaluate and update consistently",
 "Estimation-of-distribution loops estimate from the initial population, then repeatedly select, estimate from the selected individuals, ask the distribution criterion (which stops before sampling), sample one individual per member of the population, evaluate, replace and ask the population criterion. Covariance-matrix adaptation (EDO's and EO's) follows the published update of mean, evolution paths, covariance and step size: the covariance stays symmetric positive semi-definite with scales and axes consistent with it, the step size positive and finite, the recombination weights positive, decreasing (never increasing), summing to one and following the configured scheme. Distribution criteria, checkpoints, resets and edits do what they are named after, and the eigensolver returns an orthonormal decomposition.",
 ["inputs", "configurations", "histories"], "every dimension, population and parent size, objective function, number of iterations and RNG seed",
 "tests run one configuration to the end",
 ["edo/src/edoAlgoAdaptive.h", "edo/src/edoAlgoStateless.h", "edo/src/edoEstimatorNormalAdaptive.h", "edo/src/edoSamplerNormalAdaptive.h", "edo/src/edoContAdaptiveIllCovar.h", "edo/src/edoContAdaptiveFinite.h", "eo/src/es/CMAState.cpp", "eo/src/es/CMAParams.cpp", "eo/src/es/eig.cpp"],
 [("EDA loop", "edo/src/edoAlgoAdaptive.h"), ("CMA updates", "edo/src/edoEstimatorNormalAdaptive.h, eo/src/es/CMAState.cpp")],
 ["populations and distribution parameters at each iteration"])
# ---------------------------------------------------------------- SMP
prop("S01", "Parallel evaluation treats every individual exactly once, on any schedule",
 "Applying a function to, or evaluating, a population with the multithreaded master-worker model processes every individual exactly once, for either scheduling policy, any number of workers and any timing of the workers, and gives the same population as the sequential loop, nothing being still at work when it returns. Wrapped algorithms keep the sequential contract: population size, full evaluation, one continuator call per generation.",
 ["schedules", "inputs", "configurations"], "every population size (empty, smaller or larger than the number of workers), worker count, policy, repeated use, and relative speed of workers",
 "tests use one population size, one worker count and whatever schedule happens",
 ["smp/src/scheduler.cpp", "smp/src/MWModel.cpp", "smp/src/MWAlgo"],
 [("work distribution", "smp/src/scheduler.cpp")],
 ["per-individual call counts", "final population"])
prop("S02", "Island topologies and migration deliver every migrant to every neighbour",
 "Each topology (complete, ring, star, mesh whose height is the divisor with the ratio closest to the one asked for, hypercube, custom boolean or stochastic file) yields exactly the neighbours of its definition for any valid number of islands, isolating a node removes it from all lists until the topology is built again, and malformed files are refused. In an island model every group selected when a migration criterion asks for it is integrated exactly once by each current neighbour of its island and by nobody else, unaltered (through the conversions of islands of another type) but with a fitness freshly computed by the receiving island, including groups on their way when the islands stop, in later runs, and after the topology was changed between or during runs; stopped islands are isolated, and islands keep their algorithm's population size, evaluation and number of generations. A shared target criterion lets islands go on until the target is reached by one of them, and stops them then.",
 ["schedules", "inputs", "configurations"], "every topology and number of nodes, migration policy, island count and schedule, topology change between runs",
 "tests use one size of each topology and never track migrants",
 ["smp/src/topology", "smp/src/islandModel.cpp", "smp/src/island.cpp", "smp/src/sharedFitContinue.cpp"],
 [("topology builders", "smp/src/topology/*.cpp"), ("migration", "smp/src/islandModel.cpp, smp/src/island.cpp")],
 ["neighbour lists", "populations received by recording islands", "final populations"])
# ---------------------------------------------------------------- problems
prop("B01", "Benchmark problems compute their published functions",
 "The shipped evaluators (one-max, royal road and its building-block variant, long k-path, NK/NKp/NKq landscapes, MAX-SAT, unconstrained binary quadratic, quadratic assignment, queens, DTLZ1 to DTLZ7) return the value of their published definition for every solution and never modify its variables; DTLZ evaluators leave solutions that already have objectives alone. Generated instances have the declared structure and frequencies, and instances saved and loaded (NK family, MAX-SAT, also into an object already used) are the same instance; files of another kind are refused. Polynomial mutation and SBX keep variables in bounds, respect their rates and follow their published distribution.",
 ["inputs", "configurations"], "every instance size and parameter, every solution, saved and reloaded instances",
 "tests evaluate a couple of solutions on one instance, some problems have no test at all",
 ["problems/eval", "problems/DTLZ/src"],
 [("evaluators", "problems/eval/*.h, problems/DTLZ/src/*.cpp"), ("benchmark operators", "problems/DTLZ/src/SBXCrossover.h, problems/DTLZ/src/PolynomialMutation.h")],
 ["fitness/objective vector versus reference formula", "reloaded instance"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
