NA = {}
NOTES = ("No hooks are committed in /repo: the monitors wrap module functions, file-system calls and the z3 boundary "
         "from the driver process. Checks run the sources in /repo's working tree with Jython in scratch directories.")

prop("C01", "Virtual term substitution decides univariate systems correctly",
     "For every finite system of constraints p <= 0, p < 0, p = 0, p != 0 over univariate polynomials with integer "
     "(or, through the symbolic interface, rational) coefficients, the virtual term substitution procedure answers True "
     "exactly when some real number satisfies all constraints, and leaves the caller's lists unchanged." + SCOPE,
     [I], "all systems of polynomial constraints in one real variable, asked in any order in one process",
     "The tests fix a few dozen systems; the guarantee is over all polynomials, multiplicities, root coincidences "
     "and relation mixes, including zero and constant polynomials.",
     ["vts/uni_vts.py", "vts/isym.py"],
     [("candidate points: roots, right of roots, minus infinity", "vts/uni_vts.py internal_vts"),
      ("allowed signs per polynomial", "vts/uni_vts.py sign_conditions_lookup")],
     ["uni_vts.internal_vts", "isym.vts"],
     MON + "recorded decision events judged by an exact cell-decomposition oracle",
     NOTE + "Root isolations are recorded at the z3 boundary; a case with a wrong isolation is excluded and counted.")
prop("C02", "Term substitution decides univariate systems correctly",
     "For every finite system of constraints p <= 0, p < 0, p = 0, p != 0 over univariate polynomials with integer "
     "(or, through the symbolic interface, rational) coefficients, the direct term substitution procedure answers True "
     "exactly when some real number satisfies all constraints, and leaves the caller's lists unchanged. Scope: "
     "polynomials whose real roots the installed RCF back end isolates correctly.",
     [I], "all systems of polynomial constraints in one real variable, asked in any order in one process",
     "The tests sample a few systems; thin, isolated and unbounded solution sets need specific systems.",
     ["vts/uni_vts.py", "vts/isym.py"],
     [("roots, root + infinitesimal and minus infinity as test points", "vts/uni_vts.py internal_ts"),
      ("evaluation of a polynomial at a test point", "vts/uni_vts.py evaluate, evaluate_poly")],
     ["uni_vts.internal_ts", "isym.ts"],
     MON + "recorded decision events judged by an exact cell-decomposition oracle", NOTE)
prop("C03", "Tarski queries and Cauchy indices have their exact value",
     "For every nonzero polynomial p and every polynomial q with integer coefficients, the Tarski query is the number "
     "of distinct real roots of p where q is positive minus the number where q is negative, and the Cauchy index is the "
     "number of jumps of q/p from minus to plus infinity minus the number of opposite jumps. Arguments are not modified.",
     [I], "all pairs of integer polynomials, called directly or from inside a decision",
     "A wrong sign or a lost root shows only for particular degree gaps, common factors or leading signs.",
     ["vts/uni_vts.py"],
     [("sign changes of the remainder sequence at both infinities", "vts/uni_vts.py signed_remainder_cauchy_index"),
      ("query as Cauchy index of p'q/p", "vts/uni_vts.py tarski_query")],
     ["uni_vts.tarski_query", "uni_vts.signed_remainder_cauchy_index"],
     MON + "call events (direct and inside decisions) judged by exact root isolation", NOTE)
prop("C04", "Signed remainder sequences are signed and exact",
     "For all nonzero integer polynomials p and q, the remainder operation returns a positive multiple of the true "
     "remainder of p by q (the empty list when the division is exact), and the signed remainder sequence starts p, q, "
     "continues with positive multiples of negated remainders of the two elements before, contains no zero polynomial and "
     "ends with a gcd of p and q.",
     [I], "all pairs of nonzero integer polynomials",
     "The tests use a handful of small pairs; sign errors depend on leading signs, degree gaps and vanishing middle terms.",
     ["vts/uni_vts.py"],
     [("pseudo remainder that keeps the sign", "vts/uni_vts.py signed_pseudo_remainder"),
      ("sequence construction", "vts/uni_vts.py signed_remainder_sequence")],
     ["uni_vts.signed_pseudo_remainder", "uni_vts.signed_remainder_sequence"],
     MON + "call events checked element by element against exact division", NOTE)
prop("C05", "Root descriptors identify each real root uniquely",
     "For every polynomial with real roots, the sign descriptors computed for its roots are one per distinct real root, "
     "every recorded sign is the true sign of that polynomial at that root, and the recorded signs hold at no other root "
     "of the polynomial; looking up a recorded polynomial's sign returns the recorded one.",
     [I], "all integer polynomials (any multiplicities) in the back end's range",
     "Needs polynomials with many roots of mixed multiplicity; the tests check three.",
     ["vts/uni_vts.py"],
     [("splitting roots by the sign of successive derivatives", "vts/uni_vts.py get_discri_der_signs"),
      ("sign store and lookup", "vts/uni_vts.py DiscDerSigns")],
     ["uni_vts.get_discri_der_signs", "DiscDerSigns"],
     MON + "descriptor state checked at every exact root", NOTE)
prop("C06", "Sign determination at and right of a described root is exact",
     "For every root described by derivative signs and every goal polynomial, the computed sign at the root, and the "
     "computed sign immediately to the right of it, equal the true signs, also when the goal vanishes there to any order, "
     "is zero, constant, or shares factors with the root's polynomial.",
     [I], "all pairs of described root and goal polynomial",
     "The tests check a few roots; the right-hand sign depends on the first non-vanishing derivative.",
     ["vts/uni_vts.py", "vts/matrix_of_signs.py"],
     [("solving for the sign counts", "vts/uni_vts.py evaluate_single_on_sign_assignment, pick_sign_of_goal"),
      ("descent through derivatives", "vts/uni_vts.py e_close_evaluate_single_on_sign_assignment")],
     ["uni_vts.evaluate_single_on_sign_assignment", "uni_vts.e_close_evaluate_single_on_sign_assignment"],
     MON + "sign events judged by exact sign at the isolated root", NOTE)
prop("C07", "Sign matrices and inverses are right for every request history",
     "For n = 1 to 5, the sign matrix for n polynomials is the 3^n by 3^n matrix whose entry (power vector, sign vector) is "
     "the product of sign^power, and the inverse is its exact inverse; requests outside 1..5 are refused. This holds for "
     "any order of requests in any number of successive processes that share a cache directory, whichever of the cache "
     "files exist.",
     [I, H], "all sequences of requests over several process lives with any subset of cache files present",
     "The tests request each matrix once with whatever cache is lying around.",
     ["vts/matrix_of_signs.py"],
     [("Kronecker power construction", "vts/matrix_of_signs.py new_get_matrix"),
      ("in-memory and on-disk cache", "vts/matrix_of_signs.py cache_hit, read_cache, write_to_cache")],
     ["matrix_of_signs.get_matrix", "matrix_of_signs.get_matrix_inverse", "the cache directory"],
     MON + "offline checker over request/answer histories across process lives",
     NOTE + "Sizes 1..4 quick, 5 thorough. A process life is a fresh execution of the module.")
prop("C08", "The sign matrix cache survives crashes and concurrent processes",
     "If a process using the sign matrix cache dies at any point, or several processes use the same cache directory at the "
     "same time, every process still running and every later process gets the correct matrices and inverses, and none fails "
     "because of what it finds in the cache directory.",
     [C, S, Fs], "every file-system effect as crash point; all interleavings of 2-4 processes at file-system effects",
     "No test kills a process or runs two.",
     ["vts/matrix_of_signs.py"],
     [("temporary file and rename", "vts/matrix_of_signs.py write_to_cache")],
     ["os/open/pickle effects of matrix_of_signs", "matrix answers of later processes"],
     MON + "fault injection at file-system effects, randomized scheduler, answers judged offline",
     NOTE + "Effects are atomic per call; half of a write is also a crash point; no power-loss reordering.",
     level="fault_enumeration")
prop("C10", "Polynomial arithmetic under the decision procedures is exact",
     "For all integer polynomials, multiplication, differentiation and evaluation at a rational point give the exact "
     "result, and the product list of p1..pn consists of every product p1^e1...pn^en with exponents 0..2 in lexicographic "
     "order of the exponents; arguments are not modified.",
     [I], "all integer coefficient lists (including the empty one and huge coefficients) and rational points",
     "The tests multiply a few short polynomials.",
     ["vts/uni_vts.py"],
     [("convolution", "vts/uni_vts.py multiply"), ("products", "vts/uni_vts.py make_product_list"),
      ("derivative, evaluation", "vts/uni_vts.py derivative, evaluate_poly")],
     ["the four functions"],
     MON + "call events judged by exact arithmetic", NOTE)
prop("C11", "Symbolic polynomials convert to equivalent integer coefficients",
     "For every univariate polynomial with rational coefficients, in any expanded or unexpanded symbolic form and any "
     "variable name, conversion gives a list of degree+1 integers that is a positive multiple of its coefficients (the "
     "empty list for zero), so no sign or root changes; converting back gives that same polynomial.",
     [I], "all symbolic univariate polynomials with rational coefficients",
     "The tests convert about ten expressions; gaps, nested forms, shared denominators and cancellation are unbounded.",
     ["vts/isym.py"],
     [("expansion and leading terms", "vts/isym.py convert"),
      ("common denominator", "vts/isym.py convert_rationals_to_ints")],
     ["isym.convert", "isym.convert_back"],
     MON + "conversion events judged against the known exact polynomial", NOTE)
prop("C12", "Refuting a sequent: clauses and relation groups keep its meaning",
     "For every sequent of univariate relations (all six kinds, repeated or already decided ones included), some produced "
     "clause holds at a real number exactly when the whole antecedent holds there and not all of the succedent does; "
     "grouping a clause into <=, <, =, != lists keeps its meaning, and the input lists are not modified.",
     [I], "all sequents with at least one undecided relation on each side, at every real number",
     "The tests preformat a few fixed sequents and compare syntax.",
     ["vts/checker.py"],
     [("negated succedent distributed over the antecedent", "vts/checker.py vts_preformat"),
      ("rewriting and negation tables", "vts/checker.py rewrite_to_less, negate_relations, make_relation_map")],
     ["checker.vts_preformat", "checker.make_relation_map"],
     MON + "clause events evaluated on every cell of the exact decomposition of the line", NOTE)
prop("C13", "Parsing GRF text yields exactly the sequents that were written",
     "For every text with sequents in it (any white space, unrelated text between them), reading gives the sequents in "
     "order, each with its name and its antecedent and succedent relations in order, and each relation has the written "
     "kind and sides whose values equal those of the written prefix terms at every point. This holds for any legal variable "
     "name and whatever was parsed before in the process.",
     [I, H], "all GRF texts, in any order of parsing",
     "The tests parse fixed texts with friendly variable names, one at a time.",
     ["vts/grf_parser.py"],
     [("grammar and parse actions", "vts/grf_parser.py")],
     ["grf_parser.cmd.scanString"],
     MON + "parse events compared with the generated syntax tree at exact rational points",
     NOTE + "Decimal literals are compared to 1e-11 of the size of the intermediate values (the parser reads them as floats).")
prop("C14", "Reduction to one variable substitutes in the difference of both sides",
     "For every list of relations between polynomial terms in any number of variables, reduction gives, in order, one "
     "relation per input of the same kind (or its mirror image) between lhs - rhs with every variable replaced by the one "
     "variable, and zero; already decided relations stay decided the same way, and the input list is unchanged.",
     [I], "all lists of polynomial relations in any variables",
     "The tests reduce a handful of relations.",
     ["vts/examples_parser.py"],
     [("substitution of the one variable", "vts/examples_parser.py make_univariate")],
     ["examples_parser.make_univariate"],
     MON + "reduction events compared with exact multivariate arithmetic", NOTE)
prop("C15", "Stored examples load back as what the problem files say",
     "Writing the example corpus from any directory of GRF files and loading it, by either loader, gives for every file the "
     "univariate form of each of its sequents in order: nothing lost, duplicated, reordered or altered; files in both example "
     "directories are loaded.",
     [I, H], "all directory trees of GRF files",
     "No test writes a corpus and loads it back.",
     ["vts/examples_parser.py"],
     [("walk, parse, reduce, pickle", "vts/examples_parser.py write_sympy_parseable_examples"),
      ("loaders", "vts/examples_parser.py unpickle_dirs, unpickle_dirs_gen")],
     ["files written", "unpickle_dirs", "unpickle_dirs_gen"],
     MON + "write/load histories in scratch directories checked offline for conservation and content", NOTE)
prop("C16", "The example checker reports the true validity of every sequent",
     "For every example directory (within the checker's three-file limit), with either procedure, the checker prints one "
     "formula value per example, True exactly when the sequent (antecedent implies every succedent) holds for all reals, and "
     "its final report names exactly the false examples of each file." + SCOPE,
     [I], "all example directories of univariate sequents",
     "No test runs the checker end to end.",
     ["vts/checker.py", "vts/isym.py", "vts/uni_vts.py"],
     [("loop over clauses", "vts/checker.py check_examples")],
     ["stdout of checker.check_examples"],
     MON + "printed verdicts compared with exact validity of each sequent", NOTE)
prop("C17", "Systems with infinitesimal coefficients are decided correctly",
     "For systems of <=, <, =, != constraints whose coefficients contain infinitesimals of the RCF back end, both procedures "
     "answer True exactly when a solution exists in the real closed field with those infinitesimals, i.e. when one exists for "
     "all sufficiently small positive values of them (each later infinitesimal much smaller than the earlier). Scope: "
     "degree at most three, roots isolated correctly by the back end.",
     [I], "all systems with coefficients polynomial in up to two infinitesimals",
     "One fixed example script uses infinitesimals; no test does.",
     ["vts/uni_vts.py", "vts/examples.py"],
     [("generic coefficient arithmetic", "vts/uni_vts.py internal_vts, internal_ts")],
     ["uni_vts.internal_vts", "uni_vts.internal_ts"],
     MON + "decision events judged by the exact oracle at two points of tiny values",
     NOTE + "Both reference points must agree on verdict and root counts.")

QNOTE = ("Monitors wrap the public entry points; blist, which the sources import and which is not installed here, is replaced by "
         "a sorted set of the same interface. Parameter values are exact rationals.")
prop("C20", "Muchnik's real quantifier elimination is exact",
     "For all lists of polynomials in x over the integers with any parameters, asked to be negative, zero and positive, the "
     "formula returned by real_full is true at a parameter value exactly when some real x has all the required signs there; "
     "without parameters the printed verdict (satisfiable or not) is the truth and the printed sign tables are the true signs "
     "on every root and interval. The caller's lists are unchanged and the answer mentions parameters only.",
     [I], "all systems of sign conditions in one eliminated variable, all parameter values",
     "The module has no tests; wrong cases need particular vanishing coefficients or coinciding roots.",
     ["highschool_qe/muchnik.py"],
     [("closure under tail, derivative and pseudo remainder", "highschool_qe/muchnik.py"),
      ("real table construction and verdict", "highschool_qe/muchnik.py real_full")],
     ["Muchniker.real_full", "printed tables and verdict"],
     MON + "answer events evaluated at exact parameter points against exact root isolation", QNOTE)
prop("C21", "Muchnik's complex quantifier elimination is exact",
     "For all lists of polynomials in x over the integers with any parameters, asked to be zero and nonzero, the formula "
     "returned by complex_full is true at a parameter value exactly when some complex x satisfies them there; without "
     "parameters the printed verdict is the truth, and every printed table has one column per distinct root (and the generic point) with the "
     "true zero pattern. The caller's lists are unchanged and the answer mentions parameters only.",
     [I], "all systems of equations and inequations in one eliminated variable, all parameter values",
     "The module has no tests; wrong cases need common or multiple roots or vanishing coefficients.",
     ["highschool_qe/muchnik.py"],
     [("complex table construction and verdict", "highschool_qe/muchnik.py complex_full")],
     ["Muchniker.complex_full", "printed tables and verdict"],
     MON + "answer events evaluated at exact parameter points against exact gcd arithmetic", QNOTE)
prop("C22", "Cohen-Hormander quantifier elimination is exact",
     "For all lists of polynomials in x over the integers with any parameters, asked to be negative, zero and positive "
     "(including the empty system, which is true), the formula returned by real_full of the Cohen-Hormander procedure is true "
     "at a parameter value exactly when some real x has all the required signs there; printed parameter-free sign tables are "
     "the true signs. The caller's lists are unchanged and the answer mentions parameters only.",
     [I], "all systems of sign conditions in one eliminated variable, all parameter values",
     "The module has no tests; wrong cases need particular vanishing coefficients or coinciding roots.",
     ["highschool_qe/cohenhorm.py"],
     [("case split on coefficients, recursion on remainders", "highschool_qe/cohenhorm.py"),
      ("sign table construction", "highschool_qe/cohenhorm.py")],
     ["CohenHormander.real_full", "printed tables"],
     MON + "answer events evaluated at exact parameter points against exact root isolation", QNOTE)
prop("C23", "The algebra wrappers answer exactly, whatever was asked before",
     "For all polynomials, the plain and the cached algebra wrapper give the exact leading term, leading coefficient, degree "
     "(minus infinity for zero), tail, derivative, quotient and remainder, pseudo quotient and remainder, sign and variable "
     "test with respect to their own variable, also when several wrappers with different variables are alive and questions repeat.",
     [I, H], "all histories of calls on any number of wrapper objects",
     "The wrappers have no tests; a stale cache entry needs a particular earlier question.",
     ["highschool_qe/sympywrapper.py", "highschool_qe/cachedsympywrapper.py"],
     [("plain operations", "highschool_qe/sympywrapper.py"), ("cached operations", "highschool_qe/cachedsympywrapper.py")],
     ["calls on SympyWrapper and CachedSympyWrapper objects"],
     MON + "call histories judged by exact multivariate arithmetic", QNOTE)
prop("C24", "Muchnik's partial procedures build the exact table of an assignment",
     "For all lists of polynomials in x with any parameters, when the questions of real_partial or complex_partial (with the "
     "interactive assigner, given or by default) are answered with the signs at a real parameter value, the finished table has a "
     "row for every input and every row is exact there: the signs on every root and interval, or one column per distinct complex "
     "root with the true zero pattern. Answers outside the allowed values are asked again; the ready-made assigners give scalars "
     "their sign and everything else the one value.",
     [I], "all systems of polynomials, all parameter values",
     "The module has no tests; wrong rows need particular vanishing coefficients or coinciding roots.",
     ["highschool_qe/muchnik.py"],
     [("assigners", "highschool_qe/muchnik.py r_assignment_*, c_assignment_*"),
      ("table extension", "highschool_qe/muchnik.py real_extend, complex_extend")],
     ["result of real_extend / complex_extend inside real_partial / complex_partial"],
     MON + "finished tables compared with exact root isolation at the assigned point", QNOTE)


GNOTE = ("Sage is not installed here: the sources run on a small stand-in (jy/sage_shim) for the Sage objects they use (polynomials over Q, "
         "resultants, root isolation, factoring, Groebner bases, a 0-1 optimiser). What the stand-in lacks is counted as excluded, never "
         "as a violation.")
prop("C30", "Atoms and goals evaluate to their truth value",
     "For all atoms (polynomial, relation) and points, evaluation gives the truth of the relation at the point, None when a variable of "
     "the atom has no value, and stays the same when repeated; negating an atom gives the complementary truth value and negating twice "
     "the original one. A goal (hypotheses imply main goal) is true exactly when the main goal is true or some hypothesis is false there.",
     [I], "all atoms, goals and (partial) points", "GRF has no automated tests.", ["GRF/grf.sage"],
     [("RCF_Atom.eval_on_dict, negate", "GRF/grf.sage"), ("RCF_Goal.eval_on_dict", "GRF/grf.sage")],
     ["RCF_Atom and RCF_Goal calls"],
     MON + "evaluation events judged by exact rational arithmetic", GNOTE)
prop("C31", "Sample points reach every open region",
     "For all finite sets of polynomials over the rationals, sample_pt_dicts gives points with a value for every variable such that every "
     "strict sign vector taken on a full-dimensional region (where the goal, if given, is not already true) is taken at one of the "
     "points; in one variable every gap between neighbouring roots has a point and every rational root is a point. This also holds "
     "for polynomials with shared or repeated factors, for every number of sample points per cell and every list of ambient hypotheses.",
     [I], "all sets of polynomials in any number of variables (regions wider than floating-point resolution)",
     "GRF has no automated tests; a missed region needs particular common roots, tangencies or factors.", ["GRF/grf.sage"],
     [("projection", "GRF/grf.sage QE_Factory.bm_proj, projection_phase"), ("root isolation and sectors", "GRF/grf.sage iso_root_intvls, sector_sps"),
      ("lifting", "GRF/grf.sage stack_over_cell, lift_level")],
     ["QE_Factory.sample_pt_dicts"],
     MON + "returned points compared with the sign vectors an independent exact search finds on open regions", GNOTE)
prop("C32", "Goal-directed relevance filtering is sound and loses nothing",
     "For all hypotheses and goals, automatic or interactive, the check loop ends either with a counterexample or with a goal reported "
     "true. A counterexample satisfies every hypothesis and falsifies the goal (up to floating-point rounding). When it reports true, the "
     "hypotheses it used leave no open region where they all hold and the goal fails. Every hypothesis is afterwards either still "
     "hidden, unchanged, or used; those used are, together, equivalent to what they were, and the goal is unchanged. An earlier "
     "problem in the same session does not matter.",
     [I, H], "all sequents, all interactive inputs, all random sample choices",
     "GRF has no automated tests; lost equations and stale state need particular promotion orders.", ["GRF/grf.sage", "GRF/local_search.py"],
     [("check loop", "GRF/grf.sage RCF_GD_Decide.check, bad_subsets_on_dict, good_hyps"), ("equations", "GRF/grf.sage RCF_Goal.add_goal_hyp"),
      ("local search", "GRF/local_search.py")],
     ["RCF_GD_Decide.check, promote_right, resulting hyps and goal"],
     MON + "end state and promotion events judged by exact evaluation and open-region search", GNOTE)
prop("C33", "The hiding list written for a problem file is valid",
     "For all problem files, grf_on_file either reports a counterexample, which satisfies every antecedent formula and falsifies every "
     "succedent formula, or writes one line with the sequent's name, distinct indices of the antecedent formulas to hide and distinct "
     "indices of the succedent formulas to hide, all in range, and returns their numbers. The formulas not hidden leave no open region "
     "where the antecedent holds and the whole succedent fails, some succedent formula is kept, and exactly the formulas the filter did not use are hidden.",
     [I], "all problem files", "GRF has no automated tests; index mistakes need several succedent formulas.", ["GRF/smt2.py", "GRF/grf.sage"],
     [("sequent processing", "GRF/smt2.py SMTContext.perform_grf"), ("result file", "GRF/smt2.py grf_on_file")],
     ["grf_on_file: return value and output file"],
     MON + "output files judged by exact evaluation and open-region search", GNOTE)
prop("C34", "Parsed formulas denote what is written",
     "For all formulas of the problem language (numerals with a dot, ~ for negative numerals, names, +, *, binary and unary -, division by "
     "numerals, the six relations), the parser gives one atom per formula, in order, whose polynomial and relation are the exact meaning of "
     "the text; different names are different variables and one name is the same variable in all texts of one parser, also when the ring grows while parsing.",
     [I, H], "all texts of the language, all sequences of texts given to one parser", "GRF has no automated tests.", ["GRF/smt2.py"],
     [("grammar and actions", "GRF/smt2.py ParseSMT"), ("ring extension", "GRF/smt2.py SMTContext.get_ring_var")],
     ["ParseSMT.fmlsTokenList", "SMTContext.var_map"],
     MON + "parsed atoms compared with polynomials computed from the text by the generator", GNOTE)

prop("C35", "Suggested hypotheses rule out every bad subset at least weight",
     "For all hypotheses, promotions made so far and families of bad subsets, the suggestion of good_hyps consists of distinct hidden "
     "hypotheses, contains for every bad subset a hypothesis outside it, and has the least total weight (by weight_hyps) among all such "
     "sets; hypotheses that share no variable with the goal and the used hypotheses are suggested only as far as unavoidable. When some "
     "bad subset is the set of all hidden hypotheses, an infeasibility error is raised instead.",
     [I], "all hypotheses, goals and families of bad subsets", "GRF has no automated tests.", ["GRF/grf.sage"],
     [("0-1 optimisation problem", "GRF/grf.sage RCF_GD_Decide.good_hyps"), ("weights", "GRF/grf.sage RCF_GD_Decide.weight_hyps")],
     ["good_hyps, weight_hyps"],
     MON + "suggestions compared with the enumeration of all subsets", GNOTE)
prop("C36", "Local search keeps the sample point and finds only useful points",
     "For all problems and sample points, also after other problems in the same session, local search gives the sample point itself, "
     "distinct points close to it (0.01 in every coordinate) and further points at which the main goal is not already true; every point "
     "gives every variable of the problem a value.",
     [I, H], "all problems and points, all random choices", "GRF has no automated tests.", ["GRF/local_search.py", "GRF/grf.sage"],
     [("sampling", "GRF/local_search.py local_search_sampling"), ("variable order", "GRF/local_search.py VarOrder")],
     ["RCF_GD_Decide.sample_points"],
     MON + "returned points judged by exact evaluation", GNOTE)
prop("C37", "Recorded bad subsets describe what the sample points showed",
     "For all problems, promotions and points: bad_subsets_on_dict returns None exactly when the goal sequent (the used hypotheses imply the "
     "goal) is true at the point. Otherwise every recorded subset consists of exactly the hidden hypotheses true at some looked-at point "
     "where the goal sequent is false, for each such point the true hidden hypotheses lie within some recorded subset, and a "
     "counterexample is raised exactly when all hidden hypotheses are true at such a point (up to floating-point rounding). The "
     "problem is not changed.",
     [I, H], "all problems, points and random choices", "GRF has no automated tests.", ["GRF/grf.sage"],
     [("bad subsets", "GRF/grf.sage RCF_GD_Decide.bad_subsets_on_dict"), ("promotion", "GRF/grf.sage RCF_GD_Decide.promote_right")],
     ["bad_subsets_on_dict; points from sample_points"],
     MON + "recorded subsets compared with exact evaluation at every looked-at point", GNOTE)
