TECH["C03"] = "property-based testing: generated models and trace sets against a forward-algorithm/path-enumeration reference, metamorphic (order, copies, processes)"
TECH["C04"] = "property-based testing: generated CTMCs/PCTMCs and timed traces against a density reference, metamorphic (order, copies, time scaling)"
TECH["C05"] = "property-based testing: generated GoHMMs and vector sequences against a Gaussian-HMM reference"

TECH["C01"] = "property-based testing: generated model descriptions, all accessors compared with the description; generated invalid descriptions must be refused"
TECH["C02"] = "property-based testing: generated sizes, alphabets, options and seeds, validity invariants and reproducibility (also across interpreters)"
TECH["C06"] = "property-based testing: generated models, lengths and schedulers; set propagation over the supports decides whether a trace is possible; exact accounting of types, lengths and multiplicities"
TECH["C07"] = "property-based testing with exact statistical oracles (binomial, Gamma, normal, chi2, negative binomial tails, threshold 1e-12) on generated models"
TECH["C08"] = "model-based property testing: generated finite-memory schedulers and histories against their tables, runs of generated MDPs against the scheduler (support and exact binomial tests)"
for _k, _m in (("C09", "MC"), ("C10", "HMM"), ("C11", "MDP"), ("C12", "CTMC"), ("C13", "GoHMM")):
    TECH[_k] = "property-based testing: generated %ss and training sets against a reference EM in plain Python; monotone likelihood and support invariants along the iterations" % _m
TECH["C14"] = "property-based testing: generated PCTMCs with monomial rates and training sets; monotone likelihood (reference), unchanged expressions and fixed values, closed-form EM estimates"
TECH["C15"] = "metamorphic property-based testing: generated models of every kind and training sets under permutation, repetition, representation and process count; stopping rule and reported likelihood against a reference EM"
TECH["C16"] = "property-based testing: generated training sets and options without initial model; validity, options, monotone likelihood by a reference"
TECH["C17"] = "round-trip property-based testing: generated models of every kind with arbitrary doubles, labels and names; exact comparison"
TECH["C18"] = "model-based property testing: generated histories of Set operations against multisets"
TECH["C19"] = "round-trip property-based testing: generated models exported and loaded, probabilities of generated traces against a reference"
TECH["C20"] = "differential property-based testing: Storm (stormpy) against a reference solver on generated models, generated Storm models against a reference, round trips"
TECH["C21"] = "property-based testing: generated modules against an explicit product chain under several valuations; modules unchanged; changed rates"
TECH["C22"] = "model-based property testing: generated PCTMCs and histories of instantiations against the evaluated expressions"
TECH["C23"] = "differential property-based testing: generated sets of traces and alpha against a reference implementation of the definition, bigram frequencies, metamorphic (order)"
TECH["C24"] = "differential property-based testing: generated sets of MDP traces and epsilon against a reference implementation of the definition, conditional frequencies, metamorphic (order)"
TECH["C25"] = "model-based property testing: generated systems recording the interaction, result compared with BW on the recorded traces, martingale tests of the schedulers' choices"
TECH["C26"] = "property-based testing: generated CTMCs, embedded chain and likelihoods against a reference, numerical integration of the densities, metamorphic (scaled rates)"
TECH["C27"] = "stateful property-based testing: generated histories of read-only operations, exact snapshots of models and sets after each operation"
TECH["C28"] = "differential property-based testing: generated Prism programs (grammar-based) against an interpreter of the programs in plain Python, under generated parameter values; ill-formed programs must be refused"
TECH["C29"] = "model-based property testing: generated models and histories of relabellings, renamings, evaluations and simulations against the expected snapshot of the model"
TECH["C30"] = "property-based testing: generated models of every kind, the parsed text compared with the description"
TECH["C31"] = "property-based testing: generated rows, counts and parameters against the formulas in plain Python"
TECH["C32"] = "stateful property-based testing: generated chains of operations, each applied to the model given by the previous one, against a reference model updated in parallel (EM, product, jump chain, round trips)"
