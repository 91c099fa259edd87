import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
                 "observe_at":observe or ["return value of compute(rule_id, profile, committeesize, ...)"],
                 "hook_needed":hook}})
R="abcvoting/abcrules.py";G="abcvoting/abcrules_gurobi.py";M="abcvoting/abcrules_mip.py";O="abcvoting/abcrules_ortools.py"
S="abcvoting/scores.py";PR="abcvoting/properties.py";PF="abcvoting/preferences.py";F="abcvoting/fileio.py";GE="abcvoting/generate.py";OU="abcvoting/output.py";MI="abcvoting/misc.py"

add("C01","Thiele optimisation rules return exactly the score-maximal committees",
 "For PAV, SLAV, CC, every geometric rule and lex-CC, and for every algorithm offered for them, the irresolute result is exactly the set of committees of the requested size with maximal (for lex-CC: lexicographically maximal at-least-1, at-least-2, ... ) weighted score; the resolute result is one of them. This holds for unit, integer and fractional voter weights, for empty ballots, unapproved candidates and all committee sizes from 1 to the number of candidates.",
 ["inputs","configurations"],"every approval profile (weights included), committee size, algorithm (brute-force, branch-and-bound, Gurobi, CBC, CP-SAT) and resolute/irresolute mode",
 "The tests compare algorithms with stored results on about twenty fixed profiles; missing optima, wrong pruning bounds, mis-stated ILP constraints or tie tolerance errors need other profiles, weights and ties.",
 [R,G,M,O,S],[("brute force / branch and bound search","%s _thiele_methods_bruteforce, _thiele_methods_branchandbound, _lexcc_bruteforce"%R),("ILP models and optimum enumeration","%s _gurobi_thiele_methods, _gurobi_lexcc; %s _mip_thiele_methods; %s _ortools_cc"%(G,M,O)),("score functions","%s get_marginal_scorefct"%S)])
add("C02","AV, SAV, minimax AV, lex-minimax AV and Monroe return exactly the optima",
 "For approval voting, satisfaction approval voting, minimax approval voting, lexicographic minimax approval voting and Monroe's rule, with every algorithm offered, the irresolute result is exactly the set of committees of the requested size that are optimal for the rule's published objective, and the resolute result is one of them. AV and SAV scores count voter weights; Monroe and lexicographic minimax AV reject non-unit weights.",
 ["inputs","configurations"],"every approval profile, committee size, algorithm and resolute/irresolute mode",
 "Tests use a fixed table of profiles and expected results; voters not divisible by the committee size, exact score ties between sums of unit fractions, unapproved candidates and weights are barely sampled.",
 [R,G,M,O,S],[("separable rules with cut-off and certain/possible candidates","%s _separable_rule_algorithm"%R),("minimax searches","%s _minimaxav_bruteforce, _lexminimaxav_bruteforce; %s _gurobi_minimaxav, _gurobi_lexminimaxav; %s; %s"%(R,G,M,O)),("Monroe assignment","%s _monroe_bruteforce; %s monroescore; ILP models"%(R,S))])
add("C03","Minimax- and leximax-Phragmén return exactly the load-optimal committees",
 "Minimax-Phragmén returns exactly the committees whose best possible load distribution has the smallest maximum voter load, leximax-Phragmén exactly those whose best load distribution is lexicographically smallest when the loads of the listed voters (load per unit of weight, one entry per listed voter) are sorted from largest to smallest, where each elected candidate's unit load is shared among its supporters. When fewer candidates are approved than seats exist, the committees are all approved candidates plus any unapproved ones, and the resolute mode (with lexicographic tie-breaking if requested: the first in sorted order) returns one of the winning committees.",
 ["inputs","configurations"],"every approval profile, committee size and solver, all tie-breaking modes",
 "The optimum is defined by a nested linear programme; tests hold a handful of expected results (and skip the CBC variant), so model or tolerance errors on other profiles are invisible.",
 [R,G,M],[("load ILPs","%s _gurobi_minimaxphragmen, _gurobi_leximaxphragmen; %s _mip_minimaxphragmen"%(G,M)),("lexicographic tie-breaking","%s compute_leximaxphragmen"%R)])
add("C04","Sequential and reverse sequential Thiele rules follow their greedy definition",
 "Sequential Thiele rules (PAV, SLAV, CC, geometric) repeatedly add a candidate of maximal marginal weighted score to the empty committee, reverse sequential ones repeatedly remove a candidate of minimal marginal contribution from the full one; irresolute results are exactly the committees reachable under some way of breaking ties in each step. Resolute results break each tie towards keeping the candidate with the smaller index.",
 ["inputs"],"every approval profile (weights included), committee size, score function, resolute and irresolute mode",
 "Parallel-universe tie-breaking explodes combinatorially and the stored expectations cover a few profiles; a universe that is dropped, duplicated or entered by a float-rounded tie shows only on profiles with particular ties.",
 [R,S],[("greedy loops","%s _seq_thiele_resolute, _seq_thiele_irresolute, _revseq_thiele_resolute, _revseq_thiele_irresolute"%R),("marginal scores","%s marginal_thiele_scores_add, marginal_thiele_scores_remove"%S)])
add("C05","Load/budget-based sequential rules follow their definition in exact arithmetic",
 "Sequential Phragmén, Phragmén-Eneström and the consensus rule select in every round a candidate that is optimal under the rule's published load or budget definition (weights included, unapproved candidates only after approved ones for Phragmén), for the exact and the float variant alike; the irresolute result is exactly the set of committees reachable over all tie-breaking decisions. The resolute result always takes the smallest-index tied candidate, and no candidate is ever chosen twice.",
 ["inputs","configurations"],"every approval profile, committee size, arithmetic backend (float, gmpy2, fractions), resolute and irresolute",
 "Loads depend on the whole history of rounds and ties are equalities of rationals; the fixed example profiles cannot show wrong load bookkeeping that only matters after several rounds or with weights.",
 [R],[("load bookkeeping","%s _seqphragmen_resolute, _seqphragmen_irresolute"%R),("budget bookkeeping","%s _phragmen_enestroem_algorithm, _consensus_rule_algorithm"%R)])
add("C06","Maximin support adds the candidate with the greatest exact support each round",
 "The maximin support method adds in every round a candidate maximising the support value of the enlarged committee, i.e. the largest s such that the voters' weights can be split among approved members giving every member at least s; the irresolute result is exactly the set of committees reachable over all ties, and the resolute result takes the smallest-index tied candidate. Every solver gives the same answer.",
 ["inputs","configurations"],"every approval profile (weights included), committee size, solver and mode",
 "Each step is an optimisation problem with floating-point solver output; tests store a few results and cannot show tolerance or model errors on other profiles.",
 [R,G,M],[("per-step LP","%s _gurobi_maximin_support_scorefct; %s _mip_maximin_support_scorefct"%(G,M)),("greedy loop","%s _maximin_support_resolute, _maximin_support_irresolute"%R)])
add("C07","Method of Equal Shares follows its definition with every completion",
 "Equal Shares gives every voter an equal budget per unit of weight totalling the committee size and repeatedly buys a candidate affordable at the smallest maximal per-weight payment until none is affordable, then stops, or completes by sequential Phragmén (started from the spent budgets), by approval scores, or by raising the budgets in integer steps of the virtual committee size until the committee is filled. Irresolute results are exactly the committees reachable over all ties, resolute ones take the smallest-index candidate in the purchasing phase, and exact and float arithmetic agree.",
 ["inputs","configurations"],"every approval profile (weights included), committee size, completion method, arithmetic backend and mode",
 "Budget exhaustion, cascades of poor voters and the hand-over to the completion phase depend on the exact profile; stored results exercise only a few of these paths.",
 [R],[("purchase price","%s _equal_shares_algorithm (min-q computation)"%R),("completions","%s phragmen/av phases, _equal_shares_algorithm_with_increment_completion"%R)])
add("C08","Greedy Monroe, E Pluribus Hugo, serial dictatorship, trivial rule are faithful",
 "Greedy Monroe, E Pluribus Hugo (all arithmetic variants) and the trivial rule return exactly what their published procedures prescribe, ties resolved as documented. Random serial dictatorship returns only committees that some order of the voters produces (whole ballots while they fit, then the smallest-index approved candidates, leftover seats filled from unchosen candidates), and over repeated runs every such committee can occur.",
 ["inputs","histories"],"every approval profile, committee size, mode, arithmetic backend and random state",
 "The stored results cover small profiles, and the randomised rule is only checked for running; elimination ties, district sizes and the support of the random outcome are not tested.",
 [R],[("greedy assignment","%s _greedy_monroe_algorithm"%R),("elimination loop","%s _eph_algorithm"%R),("random order","%s compute_rsd"%R)])
add("C09","All algorithms offered for a rule agree on the winning committees",
 "For every rule and every profile on which two of its algorithms apply, the algorithms return the same set of winning committees in irresolute mode, and in resolute mode each returns a member of that set. This includes profiles much larger than those that can be solved by enumeration in the unit tests.",
 ["inputs","configurations"],"every rule, every pair of its available algorithms, profiles up to dozens of voters and candidates",
 "Tests compare algorithms only through fixed expected results on tiny profiles; an ILP model that is wrong only for larger committees or particular overlaps agrees with all of them.",
 [R,G,M,O],[("algorithm dispatch","%s compute_* functions and Rule.algorithms"%R),("solver models","%s, %s, %s"%(G,M,O))])
add("C10","Results obey the size, type, order, uniqueness and max-number contract",
 "Every result is a sorted list of distinct candidate sets drawn from the profile's candidates, each of exactly the requested size (Equal Shares without completion may be smaller), non-empty as a list; resolute mode returns exactly one committee that the irresolute mode also returns. With a limit on the number of committees, exactly min(limit, number of winning committees) committees are returned and all of them are winning.",
 ["inputs","configurations"],"every rule, algorithm, profile, committee size, mode and committee limit",
 "Tests check this contract on one or two profiles per rule; the limit interacts with ties, duplicate universes and special cases such as too few approved candidates.",
 [R,G,M,O,MI],[("result normalisation","%s sorted_committees; %s enumeration loops and max_num_of_committees handling"%(MI,R))])
add("C11","Voter weights mean copies, and only relative weights matter",
 "For every rule and axiom checker that supports weights, a profile with integer weights gives the same winning committees (or verdict) as the profile with each voter repeated weight-many times, in any order, and as the profile obtained by merging equal ballots. Multiplying all weights by the same positive rational changes nothing.",
 ["inputs"],"every weighted profile, every rule with all its algorithms and every axiom checker",
 "The stored expectations use unit weights almost only; weight-dependent code paths need weighted/unweighted pairs of runs to be compared.",
 [R,G,M,O,S,PR,PF],[("weight handling in rules","every weighted sum in %s, %s, %s, %s, %s"%(R,G,M,O,S)),("conversion","%s convert_to_unit_weights, convert_to_weighted"%PF)])
add("C12","Rules and checkers treat voters and candidates symmetrically",
 "Permuting the voters of a profile never changes the irresolute result of a rule or the verdict of an axiom checker, and renaming candidates by any permutation renames the irresolute winning committees accordingly. Candidate names and the order in which ballots list candidates are irrelevant to both.",
 ["inputs"],"every profile, every permutation of voters and candidates, every rule, algorithm and checker (greedy Monroe and random serial dictatorship excepted for their order-dependent tie-breaking)",
 "The stored results fix one voter order and one candidate labelling; index- or hash-order-dependent behaviour shows only when permuted runs are compared, often only with ten or more candidates.",
 [R,G,M,O,PR,S],[("iteration over voters, candidates and ballots","all rule and checker implementations")])
add("C13","Computations are pure, repeatable and independent of history and environment",
 "Computing a rule, score or axiom check never changes the profile, its names, weights or the committee passed in, nor any returned earlier result; repeating a call at any later point of a session, with other computations in between, in another process, with a different hash seed, with assertions disabled, or without the optional exact-arithmetic library gives the same result (solver algorithms asked for one or a limited number of committees may give other winning ones). Only the explicitly random components depend on a random state.",
 ["histories","configurations"],"every sequence of calls on shared or distinct profiles, hash seeds, interpreter modes and optional-dependency configurations",
 "Each test runs one computation on a fresh profile in one configuration; stale caches, aliasing, mutable defaults and set-order dependence need interleaved histories and several processes.",
 [R,G,M,O,S,PR,MI,PF],[("no shared mutable state","profile objects, module globals, detailed info structures in %s"%R)])
add("C14","Invalid requests are rejected with the documented error, valid ones never crash",
 "Committee sizes below one or above the number of candidates, empty profiles, unknown rules, algorithms, properties or score functions, unsupported modes, non-positive limits or limits in resolute mode, unsupported weights and malformed ballots, weights or committees, and quotas where not applicable, are rejected with the documented exception before any result is produced. Every request within the documented domain, including one candidate, full-size committees, empty ballots and unapproved candidates, returns a result and never raises or hangs.",
 ["inputs","configurations"],"every combination of rule, algorithm, mode, limit, profile and malformed or boundary argument",
 "Tests try selected invalid arguments for some rules and mostly generic profiles; boundary cases are per rule and per algorithm.",
 [R,G,M,O,PR,PF,MI,S],[("parameter verification","%s Rule.verify_compute_parameters, compute_*"%R),("ballot validation","%s CandidateSet; %s Voter, Profile"%(MI,PF)),("checker validation","%s check"%PR)],
 ["exceptions raised by compute, Rule, Profile, Voter, CandidateSet, properties.check"])
add("C15","Representation and Pareto checkers decide exactly the defined axioms",
 "The checkers for JR, PJR, EJR, EJR+, FJR, core stability and Pareto optimality answer true exactly when no witness violating the axiom's definition exists, for every algorithm, for unit, integer and fractional weights, for the default (Hare) quota and for any custom quota. Brute-force and solver variants therefore always agree.",
 ["inputs","configurations"],"every profile, committee, quota and algorithm",
 "The tests hold a few positive and negative examples per axiom; the verdict quantifies over exponentially many voter groups and candidate sets, with thresholds where exact fractions matter.",
 [PR,MI],[("witness searches","%s _check_*_brute_force, _check_*_gurobi, _check_JR, _check_EJR_plus"%PR),("dominance","%s dominate"%MI)],["return value of properties.check / check_*"])
add("C16","Priceability and stable priceability are decided exactly",
 "The priceability checker answers true exactly when a budget and non-negative payments exist such that supporters pay one unit for each committee member and nothing else, nobody exceeds the (weight-proportional) budget and no unelected candidate's supporters have more than one unit left over; the stable variant uses the stronger no-deviation condition. If fewer candidates are approved than the committee has members, it answers true exactly when all approved candidates are elected.",
 ["inputs"],"every profile (weights included) and every committee",
 "Existence of a price system is a linear feasibility question; tests contain a handful of yes/no examples.",
 [PR],[("linear programme","%s _check_priceability_gurobi"%PR)],["return value of check_priceability / check_stable_priceability / check"])
add("C17","Checkers respect known implications and rules keep their axiomatic guarantees",
 "Verdicts never contradict the known implications (core implies FJR implies EJR implies PJR implies JR; EJR+ implies EJR; priceable full-size committees satisfy PJR; stable priceability implies the core), and the outputs of rules always pass the checkers for the axioms the rules are proven to satisfy (PAV and Equal Shares EJR and EJR+; sequential Phragmén, leximax-Phragmén and maximin support PJR; CC and sequential CC JR; Monroe and greedy Monroe JR, and PJR when the committee size divides the electorate; AV, SAV, PAV Pareto optimal). Sequential rules are committee monotone: enlarging the committee keeps earlier winners.",
 ["inputs"],"every profile, committee, committee size and rule/axiom pair listed, including instances too large for brute force",
 "These cross-module guarantees relate two independent implementations; tests check a rule/axiom matrix on few fixed profiles.",
 [R,PR,G],[("rules","%s"%R),("checkers","%s"%PR)],["compute() results fed to properties.check()"])
add("C18","Score functions equal their mathematical definitions",
 "Thiele scores and marginal scores (add and remove, PAV, SLAV, CC, AV, geometric with any rational base, at-least-l), Monroe scores by matching, flow and the generic function, minimax scores, distance counts and cumulative scores equal their mathematical definitions exactly for all profiles, weights and committees given in any container. Unknown score identifiers raise the documented error.",
 ["inputs"],"every profile, weight, committee and score identifier",
 "Unit tests assert a dozen values; Monroe scores depend on divisibility and on matching structure, marginal scores on membership and weights.",
 [S,MI],[("score functions","%s"%S),("Hamming distance","%s hamming"%MI)],["return values of scores.*"])
add("C19","Profiles behave as a list of weighted ballots under any operation sequence",
 "After any sequence of additions, item replacements, conversions between weighted and unit form, copies and rejected operations, a profile's length, iteration order, ballots, weights, total weight, approved candidates, unit-weight and party-list status, candidate names and textual forms are those of the corresponding list of weighted ballots. Copies (including deep copies) are equal and independent, every stored voter is a distinct object, a rejected ballot is never stored, and a rejected operation leaves the ballots stored before it unchanged.",
 ["histories","inputs"],"every sequence of profile operations with valid and invalid arguments",
 "Tests call each method once or twice on fixed profiles; aliasing, partial failure and interaction of conversions with names or weights need longer operation sequences.",
 [PF,MI],[("profile operations","%s Profile, Voter"%PF),("validated sets","%s CandidateSet"%MI)],["public attributes and methods of Profile and Voter"],
 [("voters","list of weighted ballots","%s Profile"%PF)])
add("C20","ABC YAML files round-trip instances without loss",
 "Writing an instance (profile with any ballots and weights, committee size, rule computations with parameters and expected results, description) to a YAML file and reading it back yields the same ballots in the same order, weights, number of candidates, committee size, computations and results, and the stored computations verify when re-run. An instance that cannot be represented is rejected without replacing an existing file; files without a profile, with unknown keys, with mismatching weights or with computations lacking a rule raise the documented error and any other malformed file some error, never a silently wrong instance.",
 ["inputs","fault_sequences"],"every instance and every malformed file",
 "Tests round-trip a few unit-weight profiles; empty ballots, fractional weights, missing committee size and error paths are not covered.",
 [F],[("YAML writer and reader","%s write_abcvoting_instance_to_yaml_file, read_abcvoting_yaml_file"%F)],["files written, values read back"])
add("C21","PrefLib files are read and written faithfully",
 "Reading a PrefLib file yields one voter per ballot and multiplicity (or one weighted voter per distinct ballot) approving exactly the candidates in the first requested ranks, or the fewest leading ranks that reach the requested set size (all candidates if the ranking is too short, none if it is empty); candidate names are kept in order. Writing a profile with integer weights as a categorical file and reading it back gives the same weighted collection of ballots and names, and directory reads return every matching file.",
 ["inputs"],"every ordinal or categorical PrefLib file, truncation parameter and integer-weight profile",
 "Tests use four sample files and fixed parameters; incomplete orders, ties, large multiplicities and truncation boundaries are not sampled.",
 [F],[("PrefLib reader","%s read_preflib_file"%F),("PrefLib writer","%s write_profile_to_preflib_cat_file"%F),("directory listing","%s get_file_names, read_preflib_files_from_dir"%F)],["profiles returned, files written"])
add("C22","Random generators produce valid profiles with the requested shape",
 "Every random generator returns a profile with exactly the requested numbers of voters and candidates and valid ballots; fixed-size models give every ballot exactly the requested size, threshold, radius and fixed-size Euclidean models approve exactly the candidates their geometric definition prescribes for the reported points, and extreme parameters give the degenerate profiles they define. The declarative interface dispatches to the same models and rejects unknown identifiers, and empirical approval frequencies match the stated parameters.",
 ["inputs","histories"],"every generator, parameter combination and random state",
 "Tests sample each generator with one or two parameter sets and check little beyond absence of errors.",
 [GE],[("generators","%s random_* functions"%GE),("dispatch","%s random_profile"%GE)],["profiles and points returned"])
add("C23","The rule registry dispatches faithfully and verifies expected results",
 "Every rule identifier, its rule object and its dedicated function compute the same result with the same defaults; advertised algorithms and modes are exactly those that work, 'fastest' is the first available one, and unknown identifiers are rejected. Passing an expected result succeeds exactly when the computed committees equal the expected ones as a set (resolute: the computed committee is among them).",
 ["inputs","configurations"],"every rule identifier, algorithm, mode and expected result (correct, missing, extra or reordered committees)",
 "Tests check a few identifiers and matching expectations; default parameters and mismatch detection per rule are not systematically exercised.",
 [R,MI],[("registry","%s Rule, get_rule, compute"%R),("expected results","%s verify_expected_committees_equals_actual_committees, compare_list_of_committees"%MI)],["Rule attributes, compute() results and exceptions"])
add("C24","Output obeys verbosity and logging settings and never affects results",
 "A message is printed exactly when its level is at least the current verbosity, wrapped to the line width without losing words, and every message reaches an attached logger with the matching level regardless of verbosity. Results, errors and the verbosity setting itself are the same at every verbosity level after any computation, analysis or failure, and no verbosity level makes a valid computation crash.",
 ["inputs","histories","configurations"],"every verbosity level, logger, message, rule, checker and failing call",
 "Tests check a few levels for fixed messages; the printing code of each rule at each level and mode and the restoration of settings after errors is not covered.",
 [OU,R,PR],[("level filter","%s Output"%OU),("temporary silencing","%s full_analysis"%PR)],["stdout, logger records, output.verbosity"])
add("C25","Candidate-set, formatting and comparison helpers are correct",
 "Candidate sets accept exactly duplicate-free collections of non-negative integers below the candidate count, and textual forms of sets and committees list exactly their members by name, with correct counts. Hamming distance, dominance, power sets, binomials, committee comparison and sorting return what set theory defines, for arguments given in any container.",
 ["inputs"],"every candidate collection, committee list, name list and profile",
 "Tests check a few literal values; containers, overlapping sets and boundary sizes are not explored.",
 [MI],[("helpers","%s"%MI)],["return values and exceptions of misc.*"])
add("C26","The reported computation log is a consistent execution of the rule",
 "The step-by-step log printed at the detailed level is consistent with the returned committees: reported scores, loads, budgets, prices, supports, tied candidates and assignments are those of the selection sequence shown, the sequence ends in the returned committee, total Phragmén load equals the number of seats filled, every Equal Shares purchase withdraws exactly one unit from supporters, and Monroe assignments are balanced partitions with unsatisfied voters marked. Messages of axiom checkers name witnesses that indeed violate the axiom.",
 ["inputs","histories"],"every rule and checker with detailed output, every profile and committee size",
 "The tests compare printed output for a few documentation examples only; nothing checks that the explanations given to users are true.",
 [R,PR,S],[("detailed output","%s output.details in compute_*; %s check_*"%(R,PR))],["text printed at verbosity DETAILS"])
add("C27","A failing solver leads to an error, never to a wrong result",
 "If an external solver stops early, reports an unexpected status, or raises at any of its invocations during a computation or axiom check, the call raises an error or still returns the correct result; it never returns non-optimal, missing or extra committees or a wrong verdict, and later computations are unaffected. Infeasibility after all optimal committees were found is the only status that ends an enumeration normally.",
 ["fault_sequences"],"every solver-based algorithm, every solver invocation index, each fault kind (time limit, solution limit, interruption, exception)",
 "Tests never make a solver fail; status handling is only exercised in the optimal and infeasible cases.",
 [G,M,O,PR],[("status checks","%s _optimize_rule_gurobi; %s _optimize_rule_mip; %s _optimize_rule_ortools; %s status handling"%(G,M,O,PR))],["results and exceptions under injected solver faults"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
