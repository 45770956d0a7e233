#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the list of properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "A created model is exactly the model that was described",
 "createMC, createMDP, createCTMC, createPCTMC, createHMM and createGoHMM return the model whose states, labels, transition probabilities or rates, emissions and initial distribution are exactly those of the description, as seen through all its accessors (tau, a, b, l, e, lkl, expected_time, pi, mu, getLabel, getAlphabet, getActions), an initial distribution being carried for labelled models by one additional last state labelled 'init' (with the class constructors, the states labelled 'init' are equally likely initial states). The order of the description does not matter, and the arguments are neither changed by the call nor shared with the model. Descriptions whose outgoing, emission or initial probabilities do not sum to 1 (or 0), whose labelling has the wrong length, which use the reserved label 'init', or which have a negative deviation are refused with an exception. The accessors which take state ids (a, tau, l, e, lkl, expected_time, b, getLabel) refuse those of no state.",
 ["inputs"], "all model descriptions with consecutive state ids, any number of states, labels, actions, zero entries and absorbing states",
 "The tests build one hand-written model per kind and look at a few entries; they never vary sizes, sparsity, order or invalid descriptions.",
 ["jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/base/Base_MC.py", "jajapy/base/Base_HMM.py", "jajapy/base/Model.py"],
 [("create* constructors", "jajapy/*/*.py create*"), ("probability checks", "jajapy/base/tools.py checkProbabilities")],
 [dict(name="matrix/labelling/output", meaning="the model", where="jajapy/base/Model.py")],
 ["accessors of the returned model", "exceptions"])

prop("C02", "Random models are valid, have the requested shape and are reproducible",
 "MC_random, MDP_random, CTMC_random, HMM_random and GoHMM_random return, for every requested size, alphabet and option, a valid model of that size over that alphabet: every row of probabilities sums to 1, every label of the alphabet is used when there are enough states, CTMC exit rates are 1/k for an integer k within the requested bounds and have no self-loop when asked so, deterministic MDPs have at most one successor per action and label, GoHMM parameters lie within the requested bounds and without random initial state the model starts in state 0. With the same seed two calls return the same model.",
 ["inputs", "configurations"], "all sizes, alphabets, options and seeds",
 "The tests only check that one random MC has the right number of states; validity for every size, option and seed is not sampled.",
 ["jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/base/Base_MC.py", "jajapy/base/tools.py"],
 [("*_random", "jajapy/*/*.py"), ("labelsForRandomModel", "jajapy/base/Base_MC.py"), ("randomProbabilities", "jajapy/base/tools.py")])

prop("C03", "The loglikelihood of non-timed traces is the average log-probability",
 "For an MC, MDP, HMM, CTMC or instantiated PCTMC and a set of non-timed traces, logLikelihood returns the sum over the traces of multiplicity times the logarithm of the sum, over all state paths, of the probability that the model produces the trace (for CTMCs, the embedded chain, an absorbing state staying where it is), divided by the total multiplicity. The order of the traces, their common prefixes, different lengths, and splitting a multiplicity over copies of a trace do not matter. Traces the model cannot produce contribute nothing to the sum.",
 ["inputs", "configurations"], "all models, all sets of traces (any order, prefixes, lengths, multiplicities), computed with several processes or with one",
 "The tests compare the one-process and the several-process implementation on one trace and one model, where shared prefixes, multiplicities and zero rates do not occur.",
 ["jajapy/base/Model.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py"],
 [("forward algorithm on sorted traces with prefix reuse", "jajapy/base/Model.py _logLikelihood_oneproc, _updateAlphaMatrix; jajapy/mdp/MDP.py"), ("forward algorithm per trace", "jajapy/base/Model.py _logLikelihood_multiproc, _computeAlphas; jajapy/mdp/MDP.py")])

prop("C04", "The loglikelihood of timed traces is the average log-density",
 "For a CTMC or instantiated PCTMC and a set of timed traces (alternating labels and dwell times), logLikelihood returns the multiplicity-weighted average of the logarithm of the sum, over all state paths, of the product of rate(s,s')*exp(-exit_rate(s)*dwell time), the last label being only observed. Multiplying all rates by k and dividing all dwell times by k adds log k per dwell time, and the order of the traces does not matter.",
 ["inputs", "configurations"], "all CTMCs and PCTMCs, all sets of timed traces, one or several processes",
 "The tests evaluate two fixed traces on one CTMC and one PCTMC.",
 ["jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py"],
 [("_computeAlphas_timed", "jajapy/ctmc/CTMC.py, jajapy/pctmc/PCTMC.py")])

prop("C05", "GoHMM densities and loglikelihoods follow the Gaussian-observation HMM",
 "For every GoHMM, the density of an observation vector in a state is the product of the Gaussian densities of its components, and logLikelihood of a set of sequences of vectors is the multiplicity-weighted average of the logarithm of the density summed over all state paths. This holds for any number of distributions, sequence lengths, order of the sequences, and with one or several processes.",
 ["inputs", "configurations"], "all GoHMMs (any number of states and distributions), all sets of observation sequences",
 "The GoHMM tests do not even run on the pinned commit; at best they evaluate one model at a few points.",
 ["jajapy/gohmm/GoHMM.py", "jajapy/base/Model.py", "jajapy/base/Base_HMM.py"],
 [("b, b_n, tau", "jajapy/gohmm/GoHMM.py"), ("logLikelihood", "jajapy/base/Model.py")])

prop("C06", "Simulated traces are well-formed, possible, and counted exactly",
 "Every trace produced by run or generateSet of any model is one the model can produce (each step follows transitions and emissions of positive probability from a possible initial state), has the documented format and length (n steps give n+1 labels for labelled models, n observations for HMMs, n dwell times when timed, actions available in the current state for MDPs), also with geometric lengths of at least min_size+1 or a list of lengths. generateSet returns distinct traces with positive multiplicities adding up to the number of requested traces, and a set of the right type. A run which reaches a state of an MC or an MDP without any leaving transition before its end is refused with an exception.",
 ["inputs", "histories"], "all models, sizes, length distributions, schedulers and random draws",
 "The tests only check the type of two generated sets per model kind.",
 ["jajapy/base/Model.py", "jajapy/base/Parametric_Model.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/base/tools.py"],
 [("run/next/generateSet", "jajapy/*/*.py"), ("resolveRandom", "jajapy/base/tools.py")])

prop("C07", "Simulation follows the distribution of the model",
 "The empirical distribution of simulated data converges to the one of the model: initial states, successor states, emitted observations (Gaussian ones with the mean and deviation of the state), CTMC/PCTMC jump probabilities (rate over exit rate) and dwell times (exponential with the exit rate of the state, whatever the successor), MDP successors given the action, and lengths of geometric sets (expected length min_size+1/param). resolveRandom picks index i with probability proportional to its weight and never an index of weight zero.",
 ["inputs", "histories"], "all models with a statistical test whose false-alarm probability is below 1e-8",
 "Except for resolveRandom, whose tolerance is so wide that anything passes, no test looks at the distribution of simulated data.",
 ["jajapy/base/tools.py", "jajapy/base/Model.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/base/Base_HMM.py"],
 [("next", "jajapy/*/*.py"), ("resolveRandom", "jajapy/base/tools.py")])

prop("C08", "Schedulers choose the actions they define",
 "While simulating an MDP, a memoryless scheduler executes in each state the action defined for that state, a finite-memory scheduler starts each run in its state 0, chooses with positive probability only the actions of its current state, moves on every observation as its transition table says (staying put on unknown ones), and a uniform scheduler chooses all its actions equally often. getActions, getProbability and getSequenceStates of a finite-memory scheduler agree with its tables.",
 ["inputs", "histories"], "all schedulers, MDPs and histories of observations",
 "Only the uniform scheduler is exercised, with a tolerance of 3 on a frequency; the memoryless and finite-memory schedulers have no tests.",
 ["jajapy/mdp/Scheduler.py", "jajapy/mdp/MDP.py"],
 [("getAction/addObservation/reset", "jajapy/mdp/Scheduler.py"), ("run", "jajapy/mdp/MDP.py")])

EM = "One iteration of BW().fit on {m} sets {what} to the ratios of the expected counts of the training set under the previous hypothesis ({conv}), every trace weighted by its multiplicity; rows without expected visits are kept. Consequently the loglikelihood never decreases from one iteration to the next, the model stays valid, {zero}. This holds from any hypothesis able to produce at least one of the traces, the others being ignored."
prop("C09", "Baum-Welch for MCs is exact EM",
 EM.format(m="an MC", what="every transition probability", conv="the transition leaving the state of the last observation being unobserved", zero="and transitions of probability 0, the labels and the initial state are unchanged"),
 ["inputs", "histories"], "all initial MCs, training sets and numbers of iterations", "One fixed training set and one fixed initial model compared with a stored output.",
 ["jajapy/base/BW.py", "jajapy/mc/MC.py"], [("_processWork_MC, _update_MC, _computeAlphas, _computeBetas", "jajapy/base/BW.py")])
prop("C10", "Baum-Welch for HMMs is exact EM",
 EM.format(m="an HMM", what="every transition, emission and initial probability", conv="the transition leaving the state of the last observation being unobserved", zero="and probabilities of 0 stay 0"),
 ["inputs", "histories"], "all initial HMMs, training sets and numbers of iterations", "One fixed training set and one fixed initial model compared with a stored output.",
 ["jajapy/base/BW.py", "jajapy/hmm/HMM.py"], [("_processWork_HMM, _update_HMM", "jajapy/base/BW.py")])
prop("C11", "Baum-Welch for MDPs is exact EM per action",
 EM.format(m="an MDP", what="the successor probabilities of every state and action", conv="counting only the transitions of the trace executing that action", zero="unavailable actions stay unavailable, and transitions of probability 0, the labels and actions are unchanged"),
 ["inputs", "histories"], "all initial MDPs, training sets and numbers of iterations", "One fixed training set and one fixed initial model compared with a stored output.",
 ["jajapy/base/BW.py", "jajapy/mdp/MDP.py"], [("_processWork_MDP, _update_MDP, _computeAlphas_MDP, _computeBetas_MDP", "jajapy/base/BW.py")])
prop("C12", "Baum-Welch for CTMCs is exact EM on rates, fixed rates stay fixed",
 "One iteration of BW().fit on a CTMC with timed traces sets the rate s->s' to the expected number of such transitions divided by the expected time spent in s given the training set under the previous hypothesis, and with non-timed traces to the expected fraction of the visits of s followed by s'; traces are weighted by multiplicity and states without expected visits keep their rates. The loglikelihood never decreases (with timed traces, or when no rate is fixed), rates stay non-negative, rates 0 stay 0, and with timed or non-timed traces the rates marked in fixed_parameters keep their value exactly.",
 ["inputs", "histories", "configurations"], "all initial CTMCs, timed and non-timed training sets, sets of fixed rates, numbers of iterations",
 "Two fixed training sets without fixed parameters, compared through a likelihood of a stored output.",
 ["jajapy/base/BW.py", "jajapy/ctmc/CTMC.py"], [("_processWork_CTMC, _update_CTMC, _computeAlphas_timed, _computeBetas_timed", "jajapy/base/BW.py")])
prop("C13", "Baum-Welch for GoHMMs increases the likelihood with EM updates",
 "One iteration of BW().fit on a GoHMM sets transition and initial probabilities to the ratios of expected counts, the means to the posterior-weighted means of the observations, and the deviations to the square roots of the posterior-weighted mean squared distances to the mean, for any number of distributions and multiplicity-weighted sequences. The likelihood never decreases, the model stays valid, and states without expected visits keep their parameters.",
 ["inputs", "histories"], "all initial GoHMMs, training sets and numbers of iterations", "The GoHMM tests do not run on the pinned commit.",
 ["jajapy/base/BW.py", "jajapy/gohmm/GoHMM.py"], [("_processWork_GoHMM, _update_GoHMM", "jajapy/base/BW.py")])
prop("C14", "Fitting a PCTMC improves the likelihood and touches only what it may",
 "BW().fit on a PCTMC with monomial rates (a constant times powers of parameters), with timed or non-timed traces, never decreases the loglikelihood from one iteration to the next, keeps every rate non-negative and every rate expression unchanged up to its constants, does not change fixed parameters, nor constant rates when update_constant is False, and gives each parameter the EM estimate (where a rate has several free parameters, the one of the usual bound which separates them), with timed or non-timed traces. fit_parameters and fit_nonInstantiatedParameters change the listed (resp. not instantiated) parameters only, and return their values.",
 ["inputs", "histories", "configurations"], "all PCTMCs with monomial rates, written by hand, composed or loaded from Prism files (several transitions share a constant), parameters that become 0, all timed and non-timed training sets, choices of parameters to fit",
 "One tandem-queue example whose test fails on the pinned commit; no test calls fit on a PCTMC or fit_nonInstantiatedParameters.",
 ["jajapy/base/BW.py", "jajapy/pctmc/PCTMC.py", "jajapy/base/Parametric_Model.py"],
 [("_sortParameters, _processWork_PCTMC, _update_PCTMC, fit_parameters, fit_nonInstantiatedParameters", "jajapy/base/BW.py")])
prop("C15", "Learning depends only on the multiset of traces, and reports the truth",
 "For every model kind, BW().fit gives the same model whatever the order of the traces, whatever the BW object learned before, whether repeated traces are given as copies in a list or with a multiplicity in a Set, and whatever the number of processes. It performs at most max_it iterations, stops as soon as an iteration improves the loglikelihood by less than epsilon, and return_data reports that number of iterations and the training loglikelihood (sum over the traces) of the last evaluated hypothesis; with verbose=0 nothing is printed. The model saved to output_file is the returned one. Fitting an initial model given as a stormpy model is fitting its translation. A training set of another kind of traces than those of the initial model, or whose traces it all cannot produce, is refused with an exception.",
 ["inputs", "configurations"], "all model kinds, training sets, orders, process counts, max_it and epsilon",
 "The tests call fit with the default options on sets loaded from files only.",
 ["jajapy/base/BW.py", "jajapy/base/Set.py"], [("fit, _bw, _runProcesses, _getTrainingSet", "jajapy/base/BW.py")])
prop("C16", "Learning without an initial model yields a valid model of the requested size",
 "BW().fit with nb_states (and exit-time bounds for timed traces, nb_distributions for vectors) and no initial model returns a valid model of the kind the traces call for, with that many states plus the initial one, over the alphabet (and actions) of the training set, whose likelihood of the training set is at least as high after k+1 iterations as after k; sequences of labels in which 'init' does not occur are treated as starting with it. The options (random_initial_state, self_loop, exit-time bounds) shape the first hypothesis as documented, and a missing size or bound is refused.",
 ["inputs", "configurations"], "all training sets (Set, list of lists), sizes and options", "No test learns without an initial model.",
 ["jajapy/base/BW.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/gohmm/GoHMM.py"], [("_createInitialModel, _getTrainingSet", "jajapy/base/BW.py")])
prop("C17", "Saving and loading a model gives the same model back",
 "For every model of every kind, loading the file written by save gives a model of the same kind with exactly the same (bit for bit) matrix, labels, actions, emissions, initial distribution, name, and for PCTMCs parameters, values and rate expressions. Loading a file written for another kind of model raises an exception.",
 ["inputs"], "all models, written by hand, learned, composed, converted, random or loaded from Prism files, including tiny, huge and non-decimal probabilities, absorbing states, non-instantiated parameters, labels with spaces, commas, quotes",
 "The tests save one model per kind and compare the rounded string representation.",
 ["jajapy/base/Model.py", "jajapy/base/Base_MC.py", "jajapy/base/Base_HMM.py", "jajapy/base/Parametric_Model.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py"],
 [("_save / load*", "jajapy/*/*.py")])
prop("C18", "A Set is a multiset of traces",
 "Through any history of building (from a list with repetitions or with multiplicities), adding other Sets, sorting, converting to a list, saving and loading, a Set holds exactly the multiset of traces put into it: distinct traces with their total multiplicities, the same type, alphabet and actions. isEqual is true exactly for Sets of the same type holding the same multiset, and adding Sets of different types is refused.",
 ["histories", "inputs"], "all histories of operations on Sets of the four types",
 "The tests add two random sets and check the type and one save/load round trip.",
 ["jajapy/base/Set.py"], [("Set methods, loadSet", "jajapy/base/Set.py")])
prop("C19", "A Prism file written by savePrism describes the same model",
 "For every MC, MDP, CTMC and PCTMC with labels and actions that are identifiers, loadPrism on the file written by savePrism gives a model with the same behaviour: the same probability or density of every trace (with the same action names), and for PCTMCs the same rates for every parameter value, parameters without value staying without value when they had none.",
 ["inputs"], "all such models, any number of states and actions, actions unavailable in some states, absorbing states of CTMCs, tiny probabilities",
 "One model per kind, where all actions are available everywhere and the test overwrites the action names.",
 ["jajapy/with_stormpy/model_converter.py", "jajapy/base/Base_MC.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py"],
 [("savePrism, _savePrismMatrix", "jajapy/*/*.py"), ("loadPrism", "jajapy/with_stormpy/model_converter.py")])
prop("C20", "Storm sees the same model",
 "For every MC, MDP, CTMC and instantiated PCTMC, the Storm model returned by jajapyModeltoStormpy (toStormpy) has the same labels, actions and behaviour: reachability probabilities, bounded ones (steps or time) and minimal/maximal ones over the available actions computed by Storm agree with their definition on the jajapy model. stormpyModeltoJajapy on it, or on any Storm model of these kinds, gives a model with the same probability or density of every trace.",
 ["inputs"], "all such models, target labels and bounds",
 "The tests check two unbounded probabilities of one MC and the equality of rounded strings or likelihoods after the round trip, where two errors cancel out.",
 ["jajapy/with_stormpy/model_converter.py"], [("jajapyModeltoStormpy, stormpyModeltoJajapy, PCTMCtoCTMC", "jajapy/with_stormpy/model_converter.py")])
prop("C21", "Synchronous composition is the product chain",
 "synchronousCompositionCTMCs of two CTMCs and synchronousCompositionPCTMCs of two or more PCTMCs return the PCTMC of the product chain: modules move alone with their own rates, transitions with a common action fire together at the product of their rates and only when every module can take part, labels are joined by commas in the order of the modules, the initial distribution is the product, and states without incoming transition are removed. Parameters and parameter values of the modules are kept, the modules themselves are unchanged, and rates leading from and to the same states add up.",
 ["inputs", "configurations"], "all pairs and lists of modules, with self-loops, several synchronising transitions per action, parametric rates, any position of the initial state, many states",
 "One composition of two fixed traffic lights compared with a stored string.",
 ["jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py"], [("synchronousCompositionCTMCs", "jajapy/ctmc/CTMC.py"), ("synchronousCompositionPCTMCs", "jajapy/pctmc/PCTMC.py")])
prop("C22", "Instantiating a PCTMC evaluates its rate expressions",
 "Through any sequence of instantiations, every rate, exit rate, dwell-time density, jump probability and expected time of a PCTMC equals the value of its rate expression under the current parameter values, and PCTMCtoCTMC gives the CTMC with those rates. instantiate returns False and changes nothing when a rate would become negative; otherwise exactly the given parameters change. isInstantiated, parameterValue and involvedParameters agree with the values set so far, randomInstantiation sets the missing (or listed) parameters within the requested bounds, and quantities of states which are not instantiated are refused rather than guessed.",
 ["histories", "inputs"], "all PCTMCs (polynomial and rational rate expressions) and histories of instantiations",
 "One PCTMC with one parameter and a few values.",
 ["jajapy/base/Parametric_Model.py", "jajapy/pctmc/PCTMC.py", "jajapy/with_stormpy/model_converter.py"],
 [("instantiate, _checkRates, evaluateTransition, randomInstantiation", "jajapy/pctmc/PCTMC.py, jajapy/base/Parametric_Model.py")])
prop("C23", "Alergia merges exactly the compatible states of the prefix tree",
 "Alergia().fit returns the MC obtained from the frequency prefix tree of the training set by processing its states in breadth-first, label-sorted order and merging (folding the frequencies) each state into the first earlier kept state with the same label such that the Hoeffding test with parameter alpha accepts the frequencies of every pair of corresponding successors, and normalising the frequencies. The result is a valid deterministic MC which can produce every training trace and depends neither on the order of the traces nor on what the same object learned before; when everything is compatible it is the maximum-likelihood bigram model.",
 ["inputs", "configurations"], "all training sets and alpha", "One fixed training set and alpha, whose test fails at random.",
 ["jajapy/mc/Alergia.py", "jajapy/base/tools.py"], [("PTA, compatible, merge, fold, fit", "jajapy/mc/Alergia.py"), ("hoeffdingBound", "jajapy/base/tools.py")])
prop("C24", "IOAlergia merges exactly the compatible states of the IO prefix tree",
 "IOAlergia().fit returns the MDP obtained from the input/output frequency prefix tree of the training set by processing its states in lexicographic order and merging (folding the frequencies) each into the first kept state with the same observation such that the Hoeffding test accepts the frequencies of every common successor, recursively, and normalising the frequencies of every action. The result is a valid deterministic MDP, with the observed actions available where they were observed, which can produce every training trace and depends neither on the order of the traces nor on what the same object learned before; when everything is compatible it is the maximum-likelihood model of an observation given the previous one and the action.",
 ["inputs", "configurations"], "all sets of MDP traces starting with the same observation, and epsilon", "The only test checks that fit does not crash on one training set.",
 ["jajapy/mdp/IOAlergia.py"], [("_buildIOFPTA, compatible, hoeffding, merge, cleanMDP, fit", "jajapy/mdp/IOAlergia.py")])
prop("C25", "Active learning keeps a valid hypothesis fitted on all the traces it requested",
 "Active_BW_MDP().fit asks the system under learning for exactly nb_iterations*nb_sequences traces of the requested length, with the active scheduler with probability epsilon_greedy and the uniform one otherwise, and always terminates even if the system refuses some actions. The active scheduler chooses each action in proportion to how rarely it was expected to be taken so far in the state it believes to be in. The returned MDP is valid, over the same states, labels and actions; with lr=0 each iteration fits the hypothesis on all the traces so far, otherwise the hypothesis becomes lr (with 'dynamic', the share of the new traces among all the traces) times the model fitted on the new traces plus (1-lr) times the previous one; return_data reports the loglikelihood of all the traces under the returned model.",
 ["histories", "inputs", "configurations"], "all systems, initial hypotheses, learning rates, exploration rates and histories of the interaction",
 "The active learning test is not among the tests that pass; nothing checks the learning rate, the schedulers or termination.",
 ["jajapy/mdp/Active_BW_MDP.py", "jajapy/mdp/MDP.py", "jajapy/base/BW.py"], [("fit, _addTraces, _mergeModels, ActiveLearningScheduler", "jajapy/mdp/Active_BW_MDP.py")])
prop("C26", "The embedded chain of a CTMC agrees with the CTMC",
 "For every CTMC, toMC returns a valid MC over the same states and labels whose transition probabilities are the jump probabilities of the CTMC (absorbing states looping), leaves the CTMC unchanged, and gives every non-timed trace the same likelihood as the CTMC does. Multiplying all rates by a constant leaves it, and every non-timed likelihood, unchanged; the density of dwell times integrates to 1 with mean expected_time.",
 ["inputs"], "all CTMCs, including absorbing states and very different rates", "toMC has no test.",
 ["jajapy/ctmc/CTMC.py"], [("toMC, tau, e, lkl, expected_time", "jajapy/ctmc/CTMC.py")])
prop("C27", "Evaluating, simulating, saving or converting a model does not change it",
 "Through any sequence of evaluations (likelihoods, accessors), simulations, savings, exports, conversions and compositions, a model keeps answering exactly the same: its probabilities, rates, labels, initial distribution, parameters and name are those it had before, and repeating a deterministic operation gives the same answer. The sets of traces it was evaluated on still hold the same traces and multiplicities.",
 ["histories"], "all histories of read-only operations on models of every kind",
 "Every test performs one operation on a fresh model; no test repeats or interleaves operations and looks at the model afterwards.",
 ["jajapy/base/Model.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/with_stormpy/model_converter.py", "jajapy/base/Set.py"],
 [("matrix/initial_state shared by reference", "jajapy/base/Model.py"), ("conversions copy the matrix", "jajapy/with_stormpy/model_converter.py, jajapy/ctmc/CTMC.py")])

prop("C28", "loadPrism gives the model a Prism program describes",
 "For every Prism program of type dtmc, mdp or ctmc (several modules with bounded integer and Boolean variables, constants, guarded commands with updates, synchronisation on common actions, labels, undefined constants as rates), loadPrism returns the MC, MDP, CTMC or PCTMC of its reachable states: each state has the labels that hold in it, sorted and joined by underscores ('empty' if none, and a new initial state 'init' leading to the initial valuation if that one is labelled), the probabilities, available actions or rates are those of the enabled commands, synchronised ones multiplied, and every undefined constant used is a parameter whose instantiation gives the rates under that value. The file is not changed, and programs that are not representable are refused.",
 ["inputs"], "all programs of this fragment and all values of their undefined constants",
 "The tests load files written by jajapy itself or two fixed programs, and compare rounded strings.",
 ["jajapy/with_stormpy/model_converter.py"], [("loadPrism, stormpyModeltoJajapy, _choicesName, stormpySparse*", "jajapy/with_stormpy/model_converter.py")])

prop("C29", "Relabelling or renaming changes nothing but the labels or the name",
 "updateLabelling on an MC, MDP or CTMC, with one label per state of which at least one is 'init' (or with one label less, 'init' being appended), gives the same model with these labels: the initial state is the state labelled 'init' (with several of them, each is equally likely), the alphabet is the set of the labels, the transitions, actions and name are unchanged, and likelihoods, simulations and saved files are those of the relabelled model. A list of another length or without 'init' is refused and leaves the model unchanged. rename changes only the name of any model.",
 ["histories", "inputs"], "all models and histories of relabellings, including those moving the initial state", "updateLabelling and rename have no test.",
 ["jajapy/base/Base_MC.py", "jajapy/base/Model.py"], [("updateLabelling", "jajapy/base/Base_MC.py"), ("rename", "jajapy/base/Model.py")])
prop("C30", "The text of a model shows its states, labels, transitions and parameters",
 "For every model, str gives its name, its initial state or distribution, the values of its instantiated parameters, and for every state its label and every transition of probability above 0.0001 (CTMC: of its jump probability; PCTMC: every transition, with its expression and, if instantiated, its value), emission or distribution parameters, and expected waiting time, all with the right numbers up to the 4 or 5 decimals shown, and nothing else.",
 ["inputs"], "all models of the six kinds", "No test looks at the text of a model.",
 ["jajapy/base/Model.py", "jajapy/base/Parametric_Model.py", "jajapy/mc/MC.py", "jajapy/mdp/MDP.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py"],
 [("__str__, _stateToString", "jajapy/base/Model.py and every model class")])

prop("C31", "The numerical helpers compute what they document",
 "normalize returns each value divided by the sum of all, with the type of its argument, which it does not change; checkProbabilities accepts exactly the rows whose sum is 0 or 1 up to 0.0005; randomProbabilities returns the requested number of positive probabilities of sum 1 and refuses null, negative and non-integer sizes; hoeffdingBound tells whether two frequencies f1/n1 and f2/n2 differ by less than (1/sqrt(n1)+1/sqrt(n2))*sqrt(log(2/alpha)/2), symmetrically, and is true when one count is 0; normpdf is the mass that the normal distribution gives to the interval [x-variation, x+variation].",
 ["inputs"], "all rows, counts, confidence levels and parameters", "Only one value of randomProbabilities is looked at by the tests.",
 ["jajapy/base/tools.py"],
 [("normalize, checkProbabilities, randomProbabilities, hoeffdingBound, normpdf", "jajapy/base/tools.py")])

prop("C32", "A model is ordinary whatever operation it comes from",
 "A model produced by any operation of the library (creation, loading, Storm or Prism round trip, learning by BW from an initial model or from scratch, Alergia or IOAlergia, toMC, PCTMCtoCTMC, composition, relabelling, instantiation) is accepted by every other operation defined for its kind, in any order, and each of them gives what its definition says for the numbers of that model: the same behaviour for saving, loading, exporting and converting, the EM update for learning, the independent product for composition. At every step the likelihoods, simulations, alphabet and accessors of the model agree with each other.",
 ["histories", "inputs"], "all chains of operations starting from all models",
 "The tests apply every operation to a model created by hand; no test feeds the result of one part of the library to another one.",
 ["jajapy/base/Model.py", "jajapy/base/BW.py", "jajapy/base/Base_MC.py", "jajapy/mc/MC.py", "jajapy/mc/Alergia.py", "jajapy/mdp/MDP.py", "jajapy/mdp/IOAlergia.py", "jajapy/ctmc/CTMC.py", "jajapy/pctmc/PCTMC.py", "jajapy/hmm/HMM.py", "jajapy/gohmm/GoHMM.py", "jajapy/with_stormpy/model_converter.py"],
 [("fit, save, load*, toMC, PCTMCtoCTMC, synchronousCompositionCTMCs, jajapyModeltoStormpy, stormpyModeltoJajapy, loadPrism, updateLabelling, instantiate", "jajapy/*/*.py")],
 [dict(name="matrix, initial_state, labelling, alphabet, hval", meaning="the numbers of the model, of various dtypes and origins", where="jajapy/base/Model.py")],
 ["accessors, likelihoods and simulations after every operation"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
