"""The properties: one dict per property, turned into properties.jsonl,
MANIFEST.json and the table of DESIGN.md by tools/gen_meta.py."""

I, H, C, S, F, P = ("inputs", "histories", "configurations", "schedules",
                    "fault_sequences", "programs")


def p(id, title, statement, over, text, why, files, mech, how, observe):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, how=how, observe=observe)


PROPS = [
p("C01", "The reported best individual is the best ever evaluated",
  "When a single-objective run ends, or a generation of it is published, the "
  "individual the run reports as best has a fitness at least as good as "
  "every individual evaluated so far, in the configured direction and with "
  "parsimony pressure taken into account. It keeps the genome and the score "
  "it was evaluated with, whatever later generations do to the population, "
  "and executing the run's result means executing that individual.",
  [I, H, C], "all score sequences (orders and ties) of a run, generations, "
  "population sizes, directions, elitism, executors",
  "Tests run a few seeded evolutions and compare the best fitness with a "
  "constant; a best that is lost or overwritten in place only under certain "
  "score orders does not show.",
  ["eckity/algorithms/simple_evolution.py", "eckity/algorithms/algorithm.py",
   "eckity/evaluators/simple_population_evaluator.py",
   "eckity/fitness/fitness.py"],
  [("update of the best of run", "SimpleEvolution.generation_iteration"),
   ("best of a generation", "SimplePopulationEvaluator._evaluate")],
  "whole runs of the real SimpleEvolution with a fresh real-valued symbol as "
  "the score of every distinct genome; after each generation the negation of "
  "'best_of_run_ is at least as good as every score handed out' is given to "
  "z3, and the genome of the best is compared with the one scored",
  ["Algorithm.best_of_run_", "after_generation events", "execute()"]),
p("C02", "Evaluating a population gives every individual its own score",
  "After a population is evaluated, every individual carries exactly the "
  "score the evaluator computed for its own genome, whatever order or number "
  "of workers the evaluations are finished in and however they were "
  "submitted, and the individual returned is a best one. Every individual is "
  "evaluated exactly once per evaluation of the population. If an evaluation "
  "raises, the error reaches the caller.",
  [I, S, F, C], "all completion orders of the workers, all scores, each "
  "executor and submission method, a failure at any individual",
  "Tests evaluate with one deterministic thread schedule and constant "
  "fitness; a mix-up between individuals needs a particular completion "
  "order and distinct scores.",
  ["eckity/evaluators/simple_population_evaluator.py",
   "eckity/evaluators/simple_individual_evaluator.py"],
  [("pairing of results and individuals",
    "SimplePopulationEvaluator._evaluate")],
  "the executor is a stub that runs the tasks in an order chosen symbolically"
  " (every permutation) and hands process workers copies; scores are symbols",
  ["fitness of every individual", "returned best individual"]),
p("C03", "Breeding keeps the population size and aliases nobody",
  "A breeding step leaves a population of exactly the configured size whose "
  "members are distinct objects that share no genome, fitness or record with "
  "each other or with any individual of the previous generation. The "
  "previous generation's individuals, where somebody still holds them, are "
  "not modified by breeding, and every member of the new generation was "
  "derived from members of the old one.",
  [I, C, H], "all random choices of selection and operators, population "
  "sizes, elite counts, operator sequences and arities",
  "Tests check the length of one bred population; sharing between an elite "
  "or best-of-run individual and a later offspring needs a particular draw.",
  ["eckity/breeders/simple_breeder.py", "eckity/breeders/breeder.py",
   "eckity/genetic_operators/selections/tournament_selection.py",
   "eckity/genetic_operators/selections/elitism_selection.py",
   "eckity/individual.py"],
  [("breeding", "SimpleBreeder.apply_breed"),
   ("cloning of selected individuals", "Individual.clone")],
  "the real breeder, selections and operators with every draw a symbolic "
  "choice; sizes, identities and genomes of old and new populations are "
  "asserted on every path", ["population before and after breeding"]),
p("C04", "Elites survive breeding unchanged, and only the best are elites",
  "With k elites configured, after breeding the population contains k "
  "individuals that are unchanged copies of k best individuals of the "
  "previous generation (any choice among ties), score included. Therefore "
  "with at least one elite the best fitness never gets worse from "
  "one generation to the next. The number of elites is the elitism rate "
  "times the population size, to the nearest integer.",
  [I, C, H], "all scores (orders and ties), elite counts and rates, "
  "directions, parsimony weights, operators",
  "Tests use one score list; which individuals survive depends on the order "
  "and ties of the scores and on operators touching the elites.",
  ["eckity/genetic_operators/selections/elitism_selection.py",
   "eckity/breeders/simple_breeder.py", "eckity/subpopulation.py"],
  [("choice of elites", "ElitismSelection.select"),
   ("elites are put aside", "SimpleBreeder.apply_breed"),
   ("number of elites", "Subpopulation.__init__")],
  "breeding and whole runs with symbolic scores; the negation of 'some k best"
  " individuals are present with their genome and score' goes to z3",
  ["population after breeding", "best fitness per generation"]),
p("C05", "Every tournament is won by its best contestant",
  "Tournament selection fills the next generation to the size of the source "
  "population with clones of tournament winners: each winner is at least as "
  "good as every contestant of its tournament, in the configured direction "
  "and with parsimony pressure. Tournaments have the configured number of "
  "contestants, distinct ones when drawn without replacement. Without "
  "replacement a tournament larger than the population is refused, and the "
  "source population is left as it was.",
  [I, C], "all scores and ties, all draws, tournament sizes, directions, with "
  "and without replacement",
  "Tests count how often the best wins in one setting; a loser that wins on "
  "ties or at the end of a long tournament is not seen.",
  ["eckity/genetic_operators/selections/tournament_selection.py"],
  [("tournament", "TournamentSelection.select")],
  "the real selection with every draw explored and symbolic scores; the "
  "winner of every tournament is compared with all its contestants by z3",
  ["selected individuals"]),
p("C06", "Fitness proportionate selection is proportional to fitness",
  "Fitness proportionate selection draws every individual with a probability "
  "proportional to its fitness when higher is better, and to the inverse of "
  "its fitness (shifted by one when a fitness of zero is present) when lower "
  "is better; it draws uniformly when all weights are zero. It selects "
  "clones until the next generation is full. Negative fitness is refused.",
  [I, C], "all non-negative scores, ties and zeros, directions, numbers "
  "already selected",
  "Tests sample a few draws for one population; a distribution cannot be "
  "settled by samples.",
  ["eckity/genetic_operators/selections/fp_selection.py"],
  [("weights", "FitnessProportionateSelection.select")],
  "the weights the code hands to the random module are symbolic expressions "
  "of the scores; z3 decides that they are the stated proportions",
  ["weights of the draw", "selected individuals"]),
p("C07", "Individuals are compared by a consistent order of their scores",
  "Comparing individuals is a strict weak order: better-than is irreflexive, "
  "asymmetric and transitive, exactly one of better, equal and worse holds, "
  "and it follows the score in the configured direction, where a tree's "
  "score is adjusted by its parsimony weight times its size to its "
  "disadvantage. The best, worst and average of a sub-population and a "
  "population agree with this order. Comparing or reading an individual "
  "without a score is refused.",
  [I, C], "all scores (any double for plain fitness), parsimony weights, "
  "sizes, directions, 2-4 individuals",
  "Order axioms quantify over all triples; tests compare two pairs of "
  "constants.",
  ["eckity/fitness/fitness.py", "eckity/fitness/simple_fitness.py",
   "eckity/fitness/gp_fitness.py", "eckity/subpopulation.py",
   "eckity/population.py", "eckity/individual.py"],
  [("comparison", "Fitness.better_than / equal_to"),
   ("parsimony", "GPFitness.get_augmented_fitness"),
   ("extremes", "Subpopulation.get_best_individual")],
  "scores are IEEE-double or real symbols; the axioms and agreement with the "
  "documented order are asserted and decided by z3",
  ["comparison results", "best / worst / average"]),
p("C08", "Genetic operators follow one protocol",
  "Applying a genetic operator to its number of individuals either changes "
  "none of them (when its probability says so) or applies the operator, "
  "returns as many individuals, marks each as not evaluated and adds exactly "
  "one record of the operator to each (and, where asked, all operands as its parents). Probability 0 never and probability 1 "
  "always applies it; when it is not applied, genomes, scores and records "
  "stay as they were. Applying it to another number of individuals is "
  "refused before anything changes.",
  [I, C], "every library operator, every probability and draw, scored and "
  "unscored individuals",
  "A stale score after variation shows only when the operator fires on an "
  "evaluated individual and the individual is compared later.",
  ["eckity/genetic_operators/genetic_operator.py",
   "eckity/event_based_operator.py",
   "eckity/genetic_operators/failable_operator.py"],
  [("probability gate and reset", "GeneticOperator.apply_operator")],
  "every operator with symbolic probability, gate draw and genome; scores, "
  "records and genomes before and after are asserted",
  ["individuals before and after an operator"]),
p("C09", "A clone is an independent equal copy with its own identity",
  "A clone has the genome, bounds or functions, score and parsimony weight "
  "of its original, a fresh identity never used before, the original's "
  "identity in its record of what it was cloned from, and empty "
  "selection and operator records. Changing either of them afterwards never "
  "shows in the other. Individuals built without arguments share no mutable "
  "state.",
  [I, H], "all genomes and scores, every order of clonings and a later "
  "modification of either copy",
  "Aliasing shows only after a later in-place change of one copy; tests "
  "compare freshly made clones.",
  ["eckity/individual.py", "eckity/fitness/fitness.py",
   "eckity/genetic_encodings/ga/vector_individual.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("cloning", "Individual.clone"), ("identities", "Individual.update_id")],
  "sequences of clonings and one symbolic modification on the real classes; "
  "every observable part of both copies is asserted",
  ["clone and original"]),
p("C10", "Vectors are created and mutated within their bounds",
  "Created vectors have the configured length and every cell, under common "
  "or per-cell bounds, lies within its bounds and has the type of the "
  "encoding. Mutations keep length, type and bounds, and change only the "
  "number of cells they announce: a bit flip inverts exactly the chosen "
  "bits. Vectors whose shape contradicts their bounds or length are "
  "refused.",
  [I, C, H], "all bounds, contents, mutation points and random draws",
  "Tests mutate one vector a few times; an off-by-one bound is hit only by "
  "an extreme draw.",
  ["eckity/genetic_encodings/ga/vector_individual.py",
   "eckity/genetic_encodings/ga/int_vector.py",
   "eckity/genetic_encodings/ga/float_vector.py",
   "eckity/genetic_encodings/ga/bit_string_vector.py",
   "eckity/creators/ga_creators/simple_vector_creator.py",
   "eckity/genetic_operators/mutations/vector_random_mutation.py",
   "eckity/genetic_operators/mutations/vector_n_point_mutation.py"],
  [("draws in bounds", "Vector.get_random_number_in_bounds"),
   ("mutation", "VectorNPointMutation.attempt_operator")],
  "bounds, cells and draws are symbols constrained only by the random "
  "module's contract; membership of every cell is asserted",
  ["vectors after creation and mutation"]),
p("C11", "k-point crossover exchanges segments at exactly k cut points",
  "k-point crossover of two vectors swaps alternating segments between k "
  "distinct cut points: at every position the two offspring hold the two "
  "parents' genes, and along the vector the source changes exactly k times. "
  "Every set of k cut points between the first and last gene can "
  "occur, and more cut points than there are gaps are refused.",
  [I, C], "all genes, lengths, k and cut points, the operator used "
  "repeatedly",
  "Tests use one or two cut points with fixed draws.",
  ["eckity/genetic_operators/crossovers/vector_k_point_crossover.py",
   "eckity/genetic_encodings/ga/vector_individual.py"],
  [("crossover", "VectorKPointsCrossover.apply"),
   ("exchange", "Vector.replace_vector_part")],
  "genes are symbols and cut points every choice; the multiset of "
  "genes per position and the number of source changes are asserted",
  ["both offspring"]),
p("C12", "GP creators build well-formed, well-typed trees of the right depth",
  "Every created tree is one complete prefix expression over the given "
  "functions, terminals and ephemeral constants, and when types are given "
  "every node has the type its parent asks for. Full trees have all leaves "
  "at the maximum depth, grown trees have a depth between minimum and "
  "maximum, and ramped half-and-half splits each depth evenly between the "
  "two. Constants lie in the given range and have its type, and created "
  "trees share no nodes.",
  [I, C, P], "all random choices, depth ranges, function and terminal sets, "
  "types and constant ranges",
  "Tests create a handful of random trees and look at depth; a wrong "
  "terminal type or depth needs a particular draw.",
  ["eckity/creators/gp_creators/tree_creator.py",
   "eckity/creators/gp_creators/full.py",
   "eckity/creators/gp_creators/grow.py",
   "eckity/creators/gp_creators/half.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("growth", "GrowCreator.create_tree / FullCreator.create_tree"),
   ("typed choice", "Tree.random_function / random_terminal")],
  "the creators run with every draw explored; an independent parser and type "
  "checker judge each tree", ["created trees"]),
p("C13", "GP variation keeps trees well-formed, typed and disjoint",
  "Subtree crossover and mutation and constant mutation turn well-formed, "
  "well-typed trees into well-formed, well-typed trees. Crossover exchanges "
  "one subtree of each tree for one of the same type of the other and "
  "mutation replaces one subtree; the rest of each tree stays. Constant "
  "mutation changes exactly one constant by the Gaussian noise, and no two "
  "trees share nodes afterwards.",
  [I, P, C], "all trees within the size bound, all choices of subtrees, "
  "replacement trees and noise",
  "A corrupt tree needs a particular pair of subtrees; tests try a few.",
  ["eckity/genetic_operators/crossovers/subtree_crossover.py",
   "eckity/genetic_operators/mutations/subtree_mutation.py",
   "eckity/genetic_operators/mutations/erc_mutation.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("replacement", "Tree.replace_subtree"),
   ("subtree choice", "Tree.random_subtree")],
  "operators run on trees with symbolic constants and every choice of "
  "subtree; results are judged by the parser and by segment equality",
  ["trees before and after"]),
p("C14", "Executing a tree evaluates the expression it stands for",
  "Executing a tree gives the value of its prefix expression for the given "
  "inputs, whether the inputs come as named values or as the rows of a "
  "matrix whose columns follow the order of the variables; a constant tree "
  "gives its constant for every row. Missing or unknown inputs and malformed "
  "matrices are refused. Size, depth and textual form describe the same "
  "expression, and building a tree node by node accepts a node exactly when "
  "its parent still needs an argument of that type.",
  [I, P], "all trees within the size bound and all input values",
  "Tests execute two or three formulas at constant points.",
  ["eckity/genetic_encodings/gp/tree/tree_individual.py",
   "eckity/genetic_encodings/gp/tree/tree_node.py"],
  [("execution", "Tree.execute / _execute_tree"),
   ("construction", "Tree.add_tree")],
  "inputs and constants are symbols; z3 decides equality with an independent "
  "evaluation of the same nodes", ["execute()", "str()", "size(), depth()"]),
p("C15", "The library's GP functions compute what they document",
  "Every function of the base library returns, for scalars and element by "
  "element for arrays, the value its documentation gives: arithmetic, "
  "minimum and maximum, absolute value, negation, conditionals, logical "
  "connectives, and the protected division, logarithm, root and inverse with "
  "their documented fallback values near the singular points.",
  [I], "all real, integer and Boolean arguments, scalars and arrays",
  "Protected functions differ only in a tiny region around the threshold, "
  "which sampled tests miss.",
  ["eckity/base/untyped_functions.py", "eckity/base/typed_functions.py",
   "eckity/base/utils.py"],
  [("definitions", "eckity/base")],
  "arguments are symbols; z3 decides equality with the documented value",
  ["results of the functions"]),
p("C16", "Pareto dominance and the ranking into fronts are exact",
  "One individual dominates another iff it is no worse in every objective "
  "and better in at least one, each objective in its own direction. Ranking "
  "a population puts an individual into front 1 iff nobody dominates it, and "
  "into front r iff it is dominated within front r-1 and by nobody "
  "outside earlier fronts. Keeping m individuals keeps exactly m of them, "
  "whole fronts first.",
  [I, C], "all objective values, directions, numbers of objectives and "
  "individuals kept",
  "Ranking is decided by all pairwise comparisons; tests rank two fixed "
  "populations.",
  ["eckity/multi_objective_evolution/nsga2_front_sorting.py",
   "eckity/multi_objective_evolution/nsga2_fitness.py"],
  [("dominance", "NSGA2Fitness.dominate"),
   ("fronts", "NSGA2FrontSorting._pareto_front_finding")],
  "objectives are real symbols; ranks computed by the code are compared with "
  "the definition by z3", ["front rank", "kept individuals"]),
p("C17", "Crowding distance and the crowded comparison are exact",
  "Within a front the individuals with extreme objective values have "
  "infinite crowding distance and every other has the sum over the "
  "objectives of the gap between its two neighbours, divided by the front's "
  "range. When only part of a front is kept, the most spread out individuals "
  "are. Of two ranked individuals the one in the lower front is better, "
  "within a front the less crowded one, and selection follows this "
  "order.",
  [I, C], "all fronts of up to 5 individuals, all ranks and crowding values",
  "Neighbour gaps depend on the order of all values; tests check one front.",
  ["eckity/multi_objective_evolution/nsga2_front_sorting.py",
   "eckity/multi_objective_evolution/nsga2_fitness.py"],
  [("crowding", "NSGA2FrontSorting._calc_fronts_crowding"),
   ("comparison", "NSGA2Fitness.better_than")],
  "objective values are real symbols; distances are compared with the "
  "formula by z3", ["crowding", "comparisons", "survivors"]),
p("C18", "A multi-objective generation keeps the best of parents and offspring",
  "In each multi-objective generation every parent yields one offspring, "
  "parents and offspring compete together, and exactly the population size "
  "survives: nobody is discarded in favour of an individual of a worse "
  "front. Hence no survivor is dominated by a discarded individual, the first "
  "front reported for a generation is that of its survivors, and scores are "
  "those of the genomes.",
  [I, H, C], "all objective values of parents and offspring over 1-2 "
  "generations, directions, operator outcomes",
  "Loss of a non-dominated parent needs a particular arrangement of "
  "objectives.",
  ["eckity/multi_objective_evolution/nsga2_evolution.py",
   "eckity/multi_objective_evolution/nsga2_breeder.py",
   "eckity/multi_objective_evolution/nsga2_front_sorting.py"],
  [("parents and offspring", "NSGA2Breeder.apply_breed"),
   ("survival", "NSGA2FrontSorting.select_for_population")],
  "whole runs of the real multi-objective algorithm with symbolic objective "
  "values per genome", ["population after each generation",
                        "best_of_gen"]),
p("C19", "A run has the generations, stopping point and seeds it was given",
  "A run evaluates the initial population and then performs at most the "
  "configured number of generations, stopping exactly at the first "
  "generation at which a termination checker asks for it (checked once per "
  "generation, initial one included, with the current population, best and "
  "generation number). The generation reported at the end is the last one "
  "performed. Both random sources are seeded with the given seed before the "
  "population is created and with the next seed for each generation.",
  [H, C, I], "every sequence of checker verdicts, limits, seeds near and at "
  "the 32-bit boundary",
  "Tests stop at one generation with one checker; off-by-one at 0, at the "
  "limit and on the last generation is not distinguished.",
  ["eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py",
   "eckity/multi_objective_evolution/nsga2_evolution.py",
   "eckity/random/rng.py"],
  [("main loop", "Algorithm.evolve_main_loop"),
   ("seeds", "Algorithm.next_seed / set_generation_seed")],
  "verdicts, limits and seeds are symbols; the order of events of a run is "
  "compared with the specification",
  ["final generation", "published events", "seeds set"]),
p("C20", "Termination checkers stop exactly when their condition holds",
  "The target checker asks to stop iff the best fitness is within the "
  "threshold of the target. The stagnation checker asks to stop iff the best "
  "fitness of every sub-population has not changed for the configured number "
  "of generations. The crowding checker asks to stop iff every sub-"
  "population's largest finite crowding distance is below its threshold and "
  "not all are zero.",
  [I, H, C], "all fitness histories, targets, thresholds and limits",
  "Stopping depends on the whole history; tests feed one or two.",
  ["eckity/termination_checkers/threshold_from_target_termination_checker.py",
   "eckity/termination_checkers/"
   "best_fitness_stagnation_termination_checker.py",
   "eckity/multi_objective_evolution/crowding_termination_checker.py"],
  [("verdict", "TerminationChecker.should_terminate")],
  "histories are sequences of symbols; every verdict is compared with the "
  "condition by z3", ["should_terminate()", "end of a run"]),
p("C21", "The same seed gives the same run, and a run can be resumed",
  "Two runs with the same configuration and seed produce the same genomes, "
  "scores, best individual and seeds in every generation, whatever was drawn "
  "from the random modules before, whatever order sets iterate in, and "
  "whichever executor evaluates. Continuing from a stored population and "
  "generation seed gives the generations the uninterrupted run would have "
  "had.",
  [I, C, H, S], "all draws as functions of seed and position, all set "
  "orders, all representations and operators of the library",
  "A second source of randomness or an order that depends on memory "
  "addresses may agree by chance in one process.",
  ["eckity/random/rng.py", "eckity/algorithms/algorithm.py",
   "eckity/algorithms/simple_evolution.py",
   "eckity/multi_objective_evolution/nsga2_front_sorting.py"],
  [("reseeding", "Algorithm.set_generation_seed"),
   ("random sources", "RNG.set_seed")],
  "each draw is an uninterpreted value of (seed, position); two runs with "
  "different pasts and set orders must be equal in every model",
  ["genomes, scores and seeds per generation"]),
p("C22", "Events reach exactly the subscribers registered for them",
  "Publishing an event calls every current subscriber of that event exactly "
  "once, in order of registration, with the publisher and the state at that "
  "moment, and calls nobody else. Unregistering removes exactly that "
  "subscription; unknown events and subscriptions are refused. Operators "
  "publish before and after they act, and a run publishes its start, every "
  "generation and its end, in order.",
  [H, C], "every history of registrations, removals and publications",
  "Tests register one or two callbacks; identifiers reused after removal "
  "need a longer history.",
  ["eckity/before_after_publisher.py", "eckity/event_based_operator.py",
   "eckity/algorithms/algorithm.py"],
  [("subscriptions", "BeforeAfterPublisher.register / unregister / publish"),
   ("act", "Operator.act")],
  "operation sequences are symbolic choices, compared with a reference "
  "dictionary on every path", ["callback invocations"]),
p("C23", "Runs, populations and individuals survive serialization",
  "Pickling or deep-copying an individual, operator, population or run, "
  "before or after it ran, gives an independent object with the same genome, "
  "records, settings, seeds and best individual that behaves the same. "
  "Scores travel only when caching was asked for, otherwise the copy counts "
  "as not evaluated and the original keeps its score. A restored run has a "
  "working executor of the same kind.",
  [I, C, H], "all genomes and scores, every library operator, points in a "
  "run, both executors, repeated round trips",
  "No test pickles anything.",
  ["eckity/algorithms/algorithm.py", "eckity/fitness/fitness.py",
   "eckity/evaluators/population_evaluator.py", "eckity/individual.py"],
  [("state", "Algorithm.__getstate__ / __setstate__"),
   ("scores", "Fitness.__getstate__")],
  "objects holding symbols are pickled for real (symbols by reference) and "
  "compared by z3", ["the restored object"]),
p("C24", "Estimators fit on their data and predict with the best tree",
  "Fitting an estimator evolves trees whose fitness is the chosen metric "
  "between the targets and the trees' outputs on the given data, and "
  "predicting applies the best tree to new rows. A classifier's tree output "
  "is turned into one of the classes by equal steps of the logistic "
  "function, whichever way it is applied. Predicting before fitting and "
  "mismatching data are refused.",
  [I, C], "all data, targets, tree outputs and numbers of classes",
  "Tests fit one or two data sets and check the score is high.",
  ["eckity/sklearn_compatible/classification_evaluator.py",
   "eckity/sklearn_compatible/regression_evaluator.py",
   "eckity/sklearn_compatible/sk_classifier.py",
   "eckity/sklearn_compatible/sk_regressor.py",
   "eckity/sklearn_compatible/sklearn_wrapper.py"],
  [("classes", "ClassificationEvaluator.classify_individual"),
   ("fit", "SklearnWrapper.fit")],
  "data are real symbols; predictions and scores are compared with their "
  "definition by z3", ["fitness", "predict()"]),
p("C25", "A sub-population and a run are set up as configured",
  "Creation probabilities are accepted iff there is one per creator and they "
  "sum to one, and one creator of positive probability makes the whole "
  "initial population of the configured size and direction, unless "
  "individuals are given, which are then used as they are. Typed trees "
  "are accepted iff the result type is returned by some function and the "
  "argument types are exactly those of the terminals and constants. "
  "Arguments of the wrong kind are refused when the object is built.",
  [I, C], "all probabilities, numbers of creators, combinations of types, "
  "elitism rates and wrong arguments",
  "Rounding of probability sums depends on the numbers; tests pass one pair.",
  ["eckity/subpopulation.py", "eckity/population.py",
   "eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("validation", "Subpopulation.__init__"),
   ("types", "Tree._handle_input_types")],
  "probabilities and rates are symbols, structural options symbolic choices; "
  "acceptance is compared with the stated condition",
  ["constructor outcome", "created population"]),
p("C26", "Operators that may fail try as often as told and leave no trace",
  "An operator that may fail is attempted until the first success and at "
  "most the configured number of times; then exactly one of the success and "
  "failure handling happens and its result is returned. A failed vector "
  "mutation leaves the genomes as they were, a successful one shows exactly "
  "its last attempt, and a Gaussian mutation that never lands in bounds "
  "falls back to a uniform one. Fewer than one attempt is refused.",
  [I, F, C], "every sequence of attempt outcomes, attempts, arity, values "
  "drawn",
  "Failure needs several unlucky draws in a row; tests do not reach it.",
  ["eckity/genetic_operators/failable_operator.py",
   "eckity/genetic_operators/mutations/vector_n_point_mutation.py",
   "eckity/genetic_operators/mutations/vector_random_mutation.py"],
  [("attempts", "FailableOperator.apply"),
   ("revert", "VectorNPointMutation.attempt_operator")],
  "outcomes of attempts are symbolic Booleans and draws symbols; calls, "
  "genomes and results are asserted", ["attempts made", "genomes, result"]),
p("C27", "Statistics report the population of their generation",
  "After every generation each statistics object reports, per "
  "sub-population, the fitness of a best and of a worst individual, the "
  "average fitness and, for trees, the average size of exactly that "
  "generation, and leaves the population as it was. For two objectives it "
  "reports the number of fronts, the size and share of the first front, and "
  "the corner points of the first and last front.",
  [I, C, H], "all scores, parsimony weights, sizes, directions, generations",
  "Tests do not look at the numbers reported.",
  ["eckity/statistics/best_average_worst_statistics.py",
   "eckity/statistics/best_avg_worst_size_tree_statistics.py",
   "eckity/statistics/minimal_print_statistics.py",
   "eckity/multi_objective_evolution/moe_best_worst_statistics.py",
   "eckity/subpopulation.py"],
  [("report", "Statistics.write_statistics"),
   ("figures", "Subpopulation.get_average_fitness")],
  "scores are symbols, the format string keeps the numbers it is asked to "
  "print, and z3 compares them with the population", ["reported numbers"]),
p("C28", "Runs do not interfere with one another",
  "A run gives the same generations, scores and best individual whether it "
  "is made alone, after other runs (also ones that used the same operator, "
  "selection and creator objects), or with another run performed inside its "
  "init, after_generation or evolution_finished callbacks; callbacks "
  "subscribed to one run's parts, and its statistics, hear that run only; "
  "when a run ends its workers are released, and only its own.",
  [I, H, C], "seeds and all random draws of the run, order of the runs, "
  "callback in which another run is performed",
  "Each test makes one run; state kept between runs shows in the second.",
  ["eckity/algorithms/algorithm.py", "eckity/algorithms/simple_evolution.py",
   "eckity/multi_objective_evolution/nsga2_evolution.py",
   "eckity/evaluators/simple_population_evaluator.py",
   "eckity/breeders/simple_breeder.py", "eckity/random/rng.py"],
  [("parts", "SimpleEvolution.__init__"),
   ("NSGA2 parts", "NSGA2Evolution.__init__"),
   ("workers", "Algorithm.finish")],
  "the run is executed symbolically alone and again next to other runs; z3 "
  "compares genomes, scores and seeds of every generation for all draws, "
  "and executors and callbacks are recorded",
  ["traces of both runs", "who was called", "executors closed"]),
p("C29", "Editing a genome changes exactly what was asked for",
  "After any sequence of edits (set, add, empty, write a cell, replace a "
  "part at a given or random position, clone) a vector is what the same "
  "edits make of a plain list, and its length, size, parts and execution "
  "tell exactly that; random parts are contiguous windows and every window "
  "can occur. Choosing a random subtree or constant of a tree gives a "
  "complete subtree of the requested type (never the whole tree when "
  "typed) and changes nothing; replacing a subtree exchanges exactly its "
  "nodes.",
  [I, H], "history of edits, contents, positions, chosen parts and subtrees",
  "Tests make single edits on fixed vectors; slips show only at some "
  "position, length or order of edits.",
  ["eckity/genetic_encodings/ga/vector_individual.py",
   "eckity/genetic_encodings/ga/bit_string_vector.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py"],
  [("vector edits", "Vector.replace_vector_part"),
   ("windows", "Vector.random_vector_part"),
   ("subtrees", "Tree.random_subtree"),
   ("replacement", "Tree.replace_subtree")],
  "every history of edits with arbitrary cells is executed symbolically and "
  "z3 compares the individual with a list model",
  ["genome against the model after every history"]),
p("C30", "Random steps can produce every outcome they allow",
  "Random steps leave nothing out. Every value within the bounds of a cell "
  "(both ends of integer bounds included) can come up when it is created or "
  "mutated, every cell and every set of as many cells as a mutation changes "
  "can be the mutated one, Gaussian changes go both ways; every function, "
  "terminal, constant of the given range and depth of the given range can "
  "come up in a created tree; every pair of subtrees of one type can be "
  "exchanged, every subtree replaced and every constant changed; every "
  "individual that can win a tournament, and every one of positive fitness "
  "in proportionate selection, can be selected; every creator of positive "
  "probability can be chosen; an operator of a probability strictly between "
  "0 and 1 may be applied and may not.",
  [I, C], "all random draws, for each configuration",
  "A test sees a few draws of one seed; that some outcome can never happen "
  "shows in no run.",
  ["eckity/genetic_encodings/ga/vector_individual.py",
   "eckity/genetic_encodings/gp/tree/tree_individual.py",
   "eckity/creators/gp_creators/grow.py",
   "eckity/genetic_operators/mutations/vector_n_point_mutation.py",
   "eckity/genetic_operators/selections/tournament_selection.py",
   "eckity/genetic_operators/genetic_operator.py"],
  [("values", "Vector.get_random_number_in_bounds"),
   ("trees", "GrowCreator.create_tree"),
   ("tournaments", "TournamentSelection.select"),
   ("probability gate", "GeneticOperator.apply_operator")],
  "every path of the random step is executed symbolically; for each outcome "
  "z3 is asked whether some path and draw shows it, and an outcome no path "
  "shows is a violation, replayed by running every path natively",
  ["the set of outcomes that can occur"]),
]
