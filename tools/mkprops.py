#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

NT="The four stable tests exercise the index-list and double-vector helpers and one solve of one example file; "
p("C01","Transition and observation entries mean what the model file says",
  "After a model file is read, the transition and observation probability of every (action, state, next state / observation) is the one given by the last entry of the file that covers it, for single-value, row, matrix, uniform and identity forms and with '*' wildcards in any index position. Anything never mentioned is zero.",
  ["inputs","programs"],"all model files: every ordering and mix of T:/O: forms, wildcards, and all probability values",
  NT+"no test parses a file with overlapping entries, so neither the form/wildcard combinations nor the real-valued entries are quantified over.",
  ["src/mdp/parser.y","src/mdp/parser.c","src/mdp/scanner.l","src/mdp/sparse-matrix.c","src/mdp/mdp.c"],
  [("setMatrixContext / enterMatrix / enterUniformMatrix / enterIdentityMatrix","src/mdp/parser.y"),("transformIMatrix / getEntryMatrix","src/mdp/sparse-matrix.c"),("convertMatrices","src/mdp/mdp.c")],["readMDP","getEntryMatrix(P[a],..)","getEntryMatrix(R[a],..)"])
p("C02","Ill-formed probability data is rejected, well-formed data accepted",
  "A model file is accepted exactly when every transition row, every observation row and the start belief is a probability distribution (entries in [0,1] and sum within the parser's tolerance of one) and the discount is within [0,1]. Otherwise reading the file reports failure and no model is solved.",
  ["inputs"],"all real-valued entries of rows, start belief and discount",
  NT+"the only parsed files are valid ones, so neither side of the accept/reject boundary is decided.",
  ["src/mdp/parser.y","src/mdp/parser.c","src/mdp/mdp.c","src/mdp/parse_err.c"],
  [("verifyPreamble / checkProbs / checkMatrix","src/mdp/parser.y"),("readMDP","src/mdp/mdp.c")],["readMDP return value"])
p("C03","Rewards follow the last matching entry and enter the expected reward",
  "The reward of (action, state, next state, observation) is the value of the last reward entry of the file that covers it (single, row and matrix forms, with wildcards), zero if none does. The expected immediate reward of (action, state) used by every solver is the transition- and observation-weighted sum of these rewards, and with 'values: cost' the same file is optimised in the opposite direction.",
  ["inputs","programs"],"all reward values, probabilities, orders and wildcard patterns of R: entries",
  NT+"one file with constant rewards is solved; reward overrides and weights are not varied.",
  ["src/mdp/imm-reward.c","src/mdp/decision-tree.c","src/mdp/mdp.c","src/mdp/parser.y","src/mdp/parser.c","src/pomdp.c"],
  [("irAddToDecisionTree / getImmediateReward","src/mdp/imm-reward.c"),("dtAdd / dtGet","src/mdp/decision-tree.c"),("computeRewards","src/mdp/mdp.c"),("initializePomdp","src/pomdp.c")],["Q matrix after readMDP","getImmediateReward"])
p("C04","The starting belief is the one the file specifies",
  "The initial belief is the explicit distribution, the uniform distribution, the single named state, or the uniform distribution over an include list or over the complement of an exclude list, as written; with no start line it is uniform over all states.",
  ["inputs","programs"],"all start clauses over all state subsets and all probability vectors",
  NT+"only the default/uniform start of one file is read and it does not influence the tested output.",
  ["src/mdp/parser.y","src/mdp/parser.c","src/mdp/mdp.c"],
  [("setStartStateUniform / enterStartState / endStartStates","src/mdp/parser.y"),("gInitialBelief","src/mdp/mdp.c")],["gInitialBelief"])
p("C05","State, action and observation references resolve to the right index",
  "A name in a model file refers to the index at which that name was declared for that kind (state, action or observation), and a number refers to that index; undeclared names, out-of-range numbers and duplicate declarations are reported as errors and never resolved to some other index.",
  ["inputs","histories"],"all short names (including colliding ones), declaration orders and lookups",
  NT+"names are used only in distinct, non-colliding form.",
  ["src/mdp/parse_hash.c","src/mdp/parser.y","src/mdp/parse_err.c"],
  [("H_create/H_enter/H_lookup","src/mdp/parse_hash.c")],["H_lookup result","readMDP"])
p("C06","Sparse matrices return exactly the entries that were last stored",
  "A sparse matrix built from any sequence of entry and row writes holds, for each cell, the last value written (zero when none was written or the last value was zero), row sums equal the sum of the row, and per-row iteration visits each non-zero cell exactly once.",
  ["histories","inputs"],"all write sequences over all cells and values",
  NT+"the sparse representation is never tested directly.",
  ["src/mdp/sparse-matrix.c","src/mdp/sparse-matrix.h"],
  [("addEntryToIMatrix","src/mdp/sparse-matrix.c"),("transformIMatrix / getEntryMatrix / sumRowValues","src/mdp/sparse-matrix.c")],["getEntryMatrix"])
p("C07","Vector-file tools produce and report true results",
  "The pomdp-tools operations on files do what they say: sorting writes exactly the vectors of the file in lexicographic order; purging writes only vectors of the file, in order, and none that is needed for the maximal value at some belief is lost; comparing two files at beliefs and mapping beliefs to vectors report, for every belief of the file, exactly the vectors that attain the maximal value there, that value, the difference between the files, and which vectors are best where; comparing two vector files reports for each vector every match within the tolerance (or else the closest vector), nearest first; relinking a policy graph replaces each successor by the vector nearest to the one it named.",
  ["inputs"],"all vector and belief values and ties within the bounded file sizes",
  NT+"none of the tool operations is run.",
  ["src/utils.c","src/alpha.c","src/belief.c","src/parsimonious.c","src/pg.c","src/pomdp-tools-main.c"],
  [("UTIL_sortAlphaFile / UTIL_purgeAlphaFile / UTIL_compareAlphaFiles / UTIL_compareAlphaFilesUsingBeliefs / UTIL_mapBeliefList / UTIL_relinkPolicyGraph","src/utils.c"),("sortAlphaList / similarAlphaList","src/alpha.c"),("main","src/pomdp-tools-main.c")],["output file of the operation"])
p("C09","The belief tracker follows Bayes' rule line by line",
  "The interactive belief tracker prints the start belief of the model (uniform if the file has none), and after every line naming an action and an observation the Bayes posterior of the belief it printed before; an observation that is impossible is answered with zeros, a malformed or out-of-range line with an empty list and no change of the belief, and it stops at 'exit' or the end of the input, whatever the length of the lines.",
  ["inputs","histories"],"all start beliefs, model probabilities and line sequences within bounds",
  NT+"the tracker is never run.",
  ["src/utils.c","src/pomdp-tools-main.c","src/mdp/mdp.c"],
  [("UTIL_doBeliefUpdates","src/utils.c"),("transformBeliefState","src/mdp/mdp.c")],["tracker output"])
p("C10","A model written to a file is the model read back",
  "Writing the model in memory to a file (MDP or POMDP, rewards or costs) and reading that file gives the same states, actions, observations, discount, value type, transition and observation probabilities and immediate values, to the written precision, whatever the file held before; and loading a second model after releasing the first gives exactly the second model, with nothing left of the first.",
  ["inputs","histories"],"all models within bounds",
  NT+"nothing writes a model.",
  ["src/mdp/mdp.c","src/mdp/imm-reward.c"],
  [("writeMDP","src/mdp/mdp.c"),("readMDP","src/mdp/mdp.c"),("deallocateMDP","src/mdp/mdp.c")],["model file","model in memory"])
p("C08","Belief update is Bayes' rule",
  "For any belief, action and observation, the updated belief is the normalised Bayes posterior under the model; when the observation has zero probability this is signalled and no posterior is produced; the reported observation probability is the model's.",
  ["inputs"],"all beliefs and all model probabilities (incl. zeros) of the bounded models",
  NT+"no test updates a belief.",
  ["src/belief-state.c","src/belief.c","src/sim.c","src/mdp/mdp.c"],
  [("transformBeliefState","src/mdp/mdp.c"),("newBeliefState","src/mdp/mdp.c")],["result vector"])
p("C11","Choosing the best vector at a belief is maximal and order-independent",
  "Selecting the best value-function vector at a belief returns a vector whose value is maximal over the set, ties being broken toward the lexicographically larger vector, so the result does not depend on the order of the set; the reported value of a belief is that maximum.",
  ["inputs"],"all vector sets, beliefs and orders within bounds",
  NT+"ties and arbitrary real vectors are not generated.",
  ["src/alpha.c","src/common.c","src/global.c"],
  [("bestVector / bestVectorValue / isLexicographicallyBetter","src/alpha.c")],["bestVector"])
p("C12","Dominance pruning never changes the value function",
  "Removing pointwise-dominated vectors from a set leaves the upper envelope of the set unchanged at every belief, keeps at least one vector of a non-empty set, and leaves no vector that another survivor strictly exceeds in every state.",
  ["inputs"],"all vector sets within bounds (values symbolic), all beliefs",
  NT+"no test varies the set being pruned.",
  ["src/parsimonious.c","src/alpha.c"],
  [("dominationCheck","src/parsimonious.c"),("isDominatedVector / markDominatedAlphaList / removeDominatedAlphaList","src/alpha.c")],["list after dominationCheck"])
p("C13","LP pruning yields exactly the parsimonious set",
  "Reducing a vector set to its parsimonious representation leaves the upper envelope unchanged at every belief and keeps no vector that is nowhere strictly best (both up to the LP tolerance), whatever the order and values of the set and whichever initialisation options are used.",
  ["inputs","configurations"],"all vector sets within bounds, all beliefs, pruning options",
  NT+"only the sets arising from one file are pruned.",
  ["src/parsimonious.c","src/lp-interface.c","src/region.c","src/alpha.c"],
  [("prune / normalPrune","src/parsimonious.c"),("findRegionPoint","src/region.c"),("markBestAtSimplexVertices","src/parsimonious.c")],["list after prune"])
p("C14","Back-projected vectors are the discounted one-step look-ahead",
  "For every action, observation and next-stage vector, the projected vector equals the discounted, transition- and observation-weighted back-projection plus the action's expected reward divided by the number of observations, and records the action, the observation and the source vector.",
  ["inputs"],"all model parameters, discounts and vectors within bounds",
  NT+"intermediate projections are not observed by any test.",
  ["src/projection.c"],[("projectVector / projectList / makeAllProjections","src/projection.c")],["makeAllProjections"])
p("C15","Cross-sums contain every pairwise sum exactly once",
  "The cross-sum of two vector sets consists of exactly the pairwise sums of their vectors, each carrying the combined per-observation bookkeeping of its two sources.",
  ["inputs"],"all vector values and set sizes within bounds",
  NT+"intermediate cross-sums are not observed.",
  ["src/cross-sum.c","src/alpha.c"],[("crossSum","src/cross-sum.c"),("appendAlphaList / duplicateObsSourceArray","src/alpha.c")],["crossSum"])
p("C16","Every exact method computes the Bellman backup at every belief",
  "One dynamic-programming step of the enumeration, two-pass, witness and incremental-pruning methods produces a value function that at every belief equals the maximum over actions of immediate reward plus discounted expected next-stage value.",
  ["inputs","configurations"],"all model parameters and next-stage vectors within bounds, all beliefs, all exact methods",
  NT+"one model is solved by the default method and only the number of vectors is checked.",
  ["src/enumeration.c","src/two-pass.c","src/witness.c","src/inc-prune.c","src/projection.c","src/cross-sum.c","src/parsimonious.c","src/region.c","src/neighbor.c","src/value-function.c","src/pomdp-solve.c"],
  [("improveEnumeration","src/enumeration.c"),("improveTwoPass","src/two-pass.c"),("improveWitness","src/witness.c"),("improveIncPrune","src/inc-prune.c")],["improveV"])
p("C17","A run that stops by itself has reached the requested accuracy",
  "With an infinite horizon, a run that ends because its stopping criterion is met returns a value function that one more exact dynamic-programming step changes at no belief by more than the criterion allows (weak and bellman: stop_delta*(1-discount)/2; exact: nothing beyond the LP tolerance), for every method, value-iteration variation, reward or cost model and terminal values; and under the exact criterion the policy graph, executed for ever as a controller, achieves the reported values.",
  ["inputs","configurations"],"all models within bounds, all beliefs, all methods and stopping criteria",
  NT+"the tests compare the number of vectors of two solved models.",
  ["src/pomdp-solve.c","src/value-function.c","src/pg.c"],
  [("solvePomdp","src/pomdp-solve.c"),("meetStopCriteria","src/pomdp-solve.c")],["solution file","policy graph file"])
p("C18","The report and the result files of a run agree, and a failed run leaves results alone",
  "A run of the whole program reports the settings in force, its epochs in order with the number of vectors each produced, and the files it wrote; these numbers agree with the solution, policy graph, next-to-last and per-epoch files, which are well formed, exist exactly when asked for and replace older files entirely; statistics appear exactly when asked for. A run whose command line or model is bad ends with an error and leaves existing result files untouched.",
  ["inputs","configurations"],"all models within bounds, horizons, methods and reporting options; bad inputs of every listed kind",
  NT+"the regression run greps the number of vectors of one solution.",
  ["src/main.c","src/pomdp-solve.c","src/stats.c","src/cmd-line.c","src/params.c"],
  [("main","src/main.c"),("solvePomdp / endPomdpSolve / handleSaveAll / initPomdpSolve","src/pomdp-solve.c"),("reportEpochSummary / epochEndStats","src/stats.c"),("showPomdpSolveParams","src/params.c")],["report","result files","exit status"])
p("C19","The plan attached to each vector achieves that vector",
  "Every vector produced by a dynamic-programming step carries an action and one successor vector per observation such that taking the action and continuing with those successors yields exactly the vector's values.",
  ["inputs","configurations"],"all model parameters and next-stage vectors within bounds, all exact methods",
  NT+"the policy graph of a solve is never compared with its value function.",
  ["src/alpha.c","src/cross-sum.c","src/projection.c","src/enumeration.c","src/inc-prune.c","src/witness.c","src/two-pass.c"],
  [("relinkObsSources","src/common.c"),("crossSum","src/cross-sum.c")],["action and obs_source of result vectors"])
p("C20","Region search finds a belief where a vector is strictly best, iff one exists",
  "Given a vector and a set, the search for a belief at which the vector beats every vector of the set succeeds exactly when such a belief exists (beyond the configured precision), and the returned belief is a probability distribution at which the vector really is better.",
  ["inputs"],"all vectors and sets within bounds",
  NT+"the search is only reached indirectly for one model.",
  ["src/region.c","src/lp-interface.c"],[("findRegionPoint","src/region.c"),("LP_solveLP","src/lp-interface.c")],["findRegionPoint"])
p("C21","The LP solver returns feasible optimal solutions and correct status",
  "For every well-conditioned linear program the LP layer reports an optimum exactly when one exists (an infeasible or unbounded program is reported as having no solution), and the returned point then satisfies all constraints and no feasible point has a better objective.",
  ["inputs"],"all right-hand sides / objective coefficients of the bounded LP templates",
  NT+"LPs are only solved as a side effect of one run.",
  ["src/lp-solve/solve.c","src/lp-solve/lpkit.c","src/lp-interface.c"],[("solve","src/lp-solve/solve.c"),("LP_solveLP","src/lp-interface.c")],["LP_solveLP"])
p("C22","Stopping criteria fire exactly when the value change is below the bound",
  "Exact value iteration stops only when the selected criterion truly holds: the reported Bellman residual equals the largest difference over all beliefs between consecutive value functions in both directions, the weak measure is an upper bound on that difference, and the exact criterion compares the two sets of vectors.",
  ["inputs","configurations"],"all pairs of consecutive value functions within bounds, all discounts",
  NT+"only the weak/exact default on one file.",
  ["src/value-function.c","src/alpha.c","src/pomdp-solve.c"],
  [("bellmanError","src/common.c"),("weakBound / meetStopCriteria","src/pomdp-solve.c")],["error value and stop decision"])
p("C23","Value iteration runs the requested horizon from the requested terminal values",
  "A run performs at most the requested number of dynamic-programming steps, starts from the given terminal values (zero if none are given), uses the command-line discount in place of the file's when given, and its reported value function after h steps is the h-step optimal value function.",
  ["inputs","configurations"],"all horizons, discounts, terminal values and models within bounds",
  NT+"one infinite-horizon run of one file.",
  ["src/pomdp-solve.c","src/value-function.c","src/params.c","src/pomdp.c"],
  [("solvePomdp / endPomdpSolve","src/pomdp-solve.c")],["final alpha list"])
p("C24","Grid-based value iteration is a sound lower bound, exact at grid points",
  "Each step of the grid-based method never overestimates the true backed-up value at any belief and equals the exact Bellman backup at every grid belief; every grid belief it generates (initial, search, pairwise and simplex grids) is a probability distribution.",
  ["inputs"],"all models, previous value functions and grid beliefs within bounds",
  NT+"the grid method is not run by the stable tests.",
  ["src/finite-grid.c","src/belief.c","src/alpha.c"],[("improveFiniteGrid / initFiniteGrid","src/finite-grid.c"),("genAllBeliefStates / genInitialDerivedBeliefStates / searchAndAddBeliefStates","src/finite-grid.c")],["improveFiniteGrid"])
p("C25","The speed-up step never lowers the value function nor exceeds what is achievable",
  "The point-based speed-up applied (for infinite-horizon runs that keep witness points) between dynamic-programming steps yields a value function that nowhere drops below its input (up to its documented precision) and nowhere exceeds the optimum that further dynamic-programming steps can reach.",
  ["inputs"],"all models and value functions within bounds",
  NT+"the speed-up is off by default and untested.",
  ["src/zlz_speedup.c"],[("ZLZ_ViSpeedup / ZLZ_improve","src/zlz_speedup.c")],["ZLZ_ViSpeedup"])
p("C26","Interrupted or dying runs keep the completed epochs",
  "A run that is interrupted (SIGINT) at any moment finishes the current epoch and ends normally, and its solution and policy graph files are those of a run with that many epochs; with -save_all every completed epoch's value function is in its own file and no other, with -save_penultimate the one before the last is saved; while a run is computing epoch n the backup file holds the value function of epoch n-1, and a run that ends normally removes it.",
  ["inputs","crash points","schedules"],"all models within bounds and interrupts or crashes at any allocation",
  NT+"no test interrupts a run.",
  ["src/pomdp-solve.c","src/signal-handler.c","src/global.c"],
  [("solvePomdp","src/pomdp-solve.c"),("setUpCtrlC","src/signal-handler.c"),("handleSaveAll","src/pomdp-solve.c"),("endPomdpSolve","src/pomdp-solve.c")],["result files"])
p("C27","Alpha-vector files round-trip",
  "Writing a set of vectors to an alpha file and reading the file back gives the same number of vectors in the same order with the same actions and values (to the written precision), and truncated or non-numeric files are reported rather than silently accepted or looping.",
  ["inputs"],"all sets within bounds and all values",
  NT+"files are written but never read back.",
  ["src/alpha.c","src/belief.c"],[("saveAlphaList / writeAlphaList / readAlphaList","src/alpha.c"),("saveBeliefList / readBeliefList","src/belief.c")],["readAlphaList"])
p("C28","Policy-graph files round-trip and name the right successors",
  "The policy graph written for a value function lists, for each vector in file order, its number, action and per-observation successor numbers in the previous set ('X' for an observation that cannot occur, '-' where no successor is known), and reading such a file back yields the same graph.",
  ["inputs"],"all graphs within bounds including undefined successors",
  NT+"no test reads a policy graph.",
  ["src/pg.c","src/alpha.c","src/pomdp-solve.c"],[("PG_write / PG_read / PG_printf / PG_relink / PG_ConstructorFromAlphaList","src/pg.c"),("APG_writePolicyGraph","src/pg.c")],["PG_read"])
p("C29","Policy-graph evaluation solves the graph's value equations",
  "The value assigned to each node and state of a policy graph equals the expected reward of its action plus the discounted expected value of the successor node under the model's transitions and observations, up to the solver's residual; and the evaluation tool reports these values, the value of the model's start belief and a node that attains it.",
  ["inputs"],"all models, rewards, discounts and graphs within bounds",
  NT+"policy-graph evaluation is not run.",
  ["src/pg-eval.c","src/laspack-util.c"],[("PGE_evaluate","src/pg-eval.c"),("PGE_main","src/pg-eval.c")],["PGE_evaluate"])
p("C30","Vector-set operations preserve the set",
  "Copying, duplicating, sorting, normalising, comparing, unioning and purging vector sets preserve values, actions and bookkeeping: sorting is an order-correct permutation, comparison of equal sets (in any order) succeeds and of different sets fails, and length counts stay in step with the list.",
  ["inputs","histories"],"all sets within bounds",
  NT+"vector-set operations are not tested directly.",
  ["src/alpha.c"],[("sortAlphaList / duplicateAlphaList / sameAlphaList / similarAlphaList / unionTwoAlphaLists","src/alpha.c")],["resulting lists"])
p("C31","Random draws follow the requested distribution and seed",
  "A draw from a probability distribution returns an index whose cumulative interval contains the underlying uniform variate (so only positive-probability outcomes occur with the right measure), bounded integer and real draws stay in range, random beliefs are probability distributions, simulated observations and states follow the model, and a given seed reproduces the same draws.",
  ["inputs","schedules"],"all uniform variates, distributions and ranges within bounds",
  NT+"the random layer is not tested.",
  ["src/random.c","src/sim.c","src/belief.c"],[("setRandomDistribution / getRandomDouble / getRandomInt / setRandomSeedFromString","src/random.c")],["draw results"])
p("C32","Options: explicit settings win, defaults otherwise, invalid ones are rejected",
  "Every option of pomdp-solve and pomdp-tools takes the value given on the command line, else the one from the configuration file, else its documented default; values outside an option's documented type, range or choices, unknown options, and an option repeated on the command line are reported as errors and prevent the run.",
  ["inputs","configurations"],"all option presence/absence combinations and argument strings within bounds",
  NT+"one fixed command line is run.",
  ["src/program-options.c","src/command-line.c","src/config-file.c","src/pomdp-solve-options.c","src/pomdp-tools-options.c","src/cmd-line.c"],
  [("PO_getIntegerOption / PO_getDoubleOption / PO_getEnumOption / PO_getStringOption","src/program-options.c"),("POMDP_SOLVE_OPTS_parse","src/pomdp-solve-options.c"),("POMDP_TOOLS_OPTS_parse","src/pomdp-tools-options.c")],["option record after parsing"])
p("C33","Configuration files and settings maps hold exactly what was stored",
  "A settings map returns for each key the value last stored for it (or 'absent') and refuses strings or entries beyond its capacity. A configuration file yields exactly its 'name = value' lines, comments and blank lines contribute nothing, malformed lines and repeated names are reported, and a file written from settings reads back to the same settings.",
  ["inputs","histories"],"all short keys/values, operation sequences and file contents within bounds",
  NT+"neither the map nor the file reader is tested.",
  ["src/associative-array.c","src/config-file.c"],[("AA_put / AA_get","src/associative-array.c"),("CF_fscanf / CF_fprintf","src/config-file.c")],["map contents"])
p("C35","Index lists and vector lists behave as sequences of their elements",
  "Index-list and vector helper operations (append, prepend, dequeue, union, clear, renumber, membership, equality, similarity, domination, copy) give the result of the corresponding operation on plain sequences, for any order and number of operations, and never read or write outside their storage.",
  ["histories","inputs"],"all operation sequences within bounds",
  "The stable tests cover one append sequence and a few fixed vectors; arbitrary histories and values are outside them.",
  ["src/index-list.c","src/double-vector.c"],[("IL_new / IL_append / IL_resize / IL_sizeOf","src/index-list.c"),("DV_appendList / DV_prependList / DV_dequeueNode / DV_unionTwoLists / DV_isSameList / DV_isSimilaraList / DV_isSame / DV_isDominated","src/double-vector.c")],["list contents"])
p("C34","Belief lists keep their beliefs and find them",
  "A list of beliefs holds copies of exactly the beliefs added to it, in the order given by adding at the front or the end; looking a belief up finds the first one that agrees with it in every state within the tolerance and nothing otherwise; neither adding nor looking up changes anything else, and the size is the number added.",
  ["inputs","histories"],"all short sequences of operations and all beliefs within bounds",
  NT+"belief lists are not tested.",
  ["src/belief.c"],[("prependBeliefList / appendBeliefList / findBeliefState / sizeBeliefList / sameBelief","src/belief.c")],["list contents"])
p("C38","Neighbour vectors differ from a vector in exactly one observation's choice",
  "The neighbours examined for a candidate vector are exactly the vectors obtained by replacing its successor for a single observation by another one, with values consistent with those choices.",
  ["inputs"],"all projection sets and vectors within bounds",
  NT+"neighbour generation is internal to the witness method and not observed.",
  ["src/neighbor.c","src/witness.c"],[("addAllNeighbors / addNeighbor","src/neighbor.c")],["neighbour lists"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
