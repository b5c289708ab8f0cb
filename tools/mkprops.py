"""Writes /verif/properties.jsonl (kept as a generator so that the wording is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'Set union, intersection and complement are pointwise exact and total',
  'For all sets built from finite sets of reals, intervals (any open/closed ends, possibly unbounded) and finite or co-finite sets of strings, a point belongs to the union, intersection or complement of sets exactly when membership in the operands says so. Every such operation on valid sets returns a set and never fails; complement is relative to the real line for a purely real set and to all strings for a purely string set.',
  ['inputs'], 'all pairs (and nested combinations) of sets, all endpoints including infinite and touching ones, all probe points',
  'Tests check a few dozen hand-written pairs; correctness depends on the combination of endpoint coincidence, openness, ordering and the number of parts of a union.',
  ['src/sets.py'], [('set operators', 'src/sets.py __and__/__or__/__invert__ of every set class'), ('merging of adjacent parts', 'src/sets.py union_intervals, union_intervals_finite')],
  ['membership of probe points in operands and results', 'exceptions of set operators'])
p('C02', 'Sets with the same members are equal, hash alike and are canonical',
  'Two sets obtained through set operations that contain the same points compare equal and have the same hash, whatever the order or grouping of the operations or the numeric type (int, float, exact rational) of the endpoints. A union reports pairwise disjoint, non-mergeable parts, so no part repeats or touches another.',
  ['inputs', 'histories'], 'all sequences of set operations leading to the same point set',
  'Tests compare a handful of expressions against one expected literal; equality across construction orders is a relation over all histories.',
  ['src/sets.py'], [('normal form', 'src/sets.py Union.__init__, union_intervals'), ('equality and hash', 'src/sets.py __eq__/__hash__')],
  ['== and hash of sets built by different routes', 'iteration over the parts of a union'])
p('C03', 'Arithmetic on variables denotes real arithmetic',
  'An expression built from a variable with +, -, *, /, integer and unit-fraction powers, abs, exp, log, sqrt, constant bases and pieces guarded by disjoint events evaluates, at every real input where it is defined, to the value ordinary arithmetic gives, whichever side constants appear on and after any substitution of variables by expressions. Expressions the system cannot represent are rejected with an error, never given a different meaning.',
  ['inputs'], 'all expressions over the supported operators, all constants, all evaluation points and substitutions',
  'Tests compare constructed objects structurally for selected operators and evaluate only a few; operator overloads for every operand order are not exercised.',
  ['src/transforms.py', 'src/sym_util.py'], [('operator overloading', 'src/transforms.py Transform.__add__ .. __rpow__'), ('evaluation', 'src/transforms.py evaluate/ffwd'), ('substitution', 'src/transforms.py substitute/subs')],
  ['values of evaluate() on expressions', 'errors for unsupported expressions'])
p('C04', 'Solving an event on a transformed variable gives exactly its preimage',
  'For every single-variable event built from comparisons, ranges and memberships of supported expressions, the solution set contains a real number exactly when substituting that number into the expression makes the event true; numbers where the expression is undefined are never in the solution. This includes nested transforms, piecewise expressions, and events used as 0/1-valued expressions.',
  ['inputs'], 'all expressions, comparison constants and open/closed ends, all real points',
  'Tests check solution sets for some tens of formulas; the space of compositions (monotone, decreasing, even, with restricted domain) is unbounded.',
  ['src/transforms.py', 'src/poly.py', 'src/sets.py'], [('inversion', 'src/transforms.py invert, invert_finite, invert_interval'), ('event solving', 'src/transforms.py Event.solve')],
  ['solve() result vs truth of the event at probe points'])
p('C05', 'Polynomial constraints have the same solution in every solver configuration',
  'The solution of a polynomial equation or inequality (up to numerical root accuracy) is the same whether it is obtained symbolically, numerically (symbolic solving disabled by environment), or by the fallback taken when symbolic solving times out, including when there are no real roots, repeated roots, or the relation holds everywhere. Solving leaves no alarm pending, whichever path is taken.',
  ['inputs', 'configurations', 'fault_sequences'], 'all polynomials and bounds, the three solver paths, timeouts at arbitrary points',
  'Tests run the symbolic path and one or two numeric cases; timeout fallback is not exercised and no test compares the paths.',
  ['src/poly.py', 'src/timeout.py', 'src/transforms.py'], [('solver dispatch and fallback', 'src/poly.py solve_poly_inequality, solve_poly_equality'), ('timeout guard', 'src/timeout.py')],
  ['membership of probe points in returned sets', 'signal.getitimer after solving'],
  None, [('pending alarm', 'SIGALRM timer armed while solving', 'src/timeout.py')])
p('C06', 'Event connectives and normal forms preserve meaning',
  'For every assignment that gives each variable a value of the kind (number or string) its literals test, and at which their expressions are defined, conjunction, disjunction, complement and exclusive-or of events are true exactly when the corresponding Boolean combination of the operands is, and rewriting an event to disjunctive normal form changes its truth nowhere. This holds for numeric and string-valued variables, for any nesting, and for events mixing several variables.',
  ['inputs'], 'all event formulas over any number of variables, all assignments',
  'Tests cover fixed formulas; simplification of same-variable literals and De Morgan rewriting interact in unboundedly many nestings.',
  ['src/transforms.py', 'src/sets.py'], [('Boolean operators', 'src/transforms.py EventBasic/EventOr/EventAnd __and__/__or__/__invert__/__xor__'), ('DNF', 'src/transforms.py to_dnf')],
  ['evaluate() of events on assignments'])
p('C07', 'Events split into disjoint clauses cover exactly the original event',
  'Normalizing an event to literals on plain variables, factoring it by variable, and rewriting it as a union of clauses each preserve its truth for every assignment, and after the disjoint rewriting no assignment satisfies two clauses. An event that no assignment satisfies is reported as impossible.',
  ['inputs'], 'all event formulas, all assignments',
  'Tests use a fixed list of two- and three-variable formulas; overlap patterns grow combinatorially with clause count.',
  ['src/dnf.py', 'src/transforms.py'], [('normalization', 'src/dnf.py dnf_normalize'), ('disjoint union', 'src/dnf.py dnf_to_disjoint_union, dnf_non_disjoint_clauses'), ('factoring', 'src/dnf.py dnf_factor')],
  ['truth of clauses on assignments'])
p('C08', 'Event probabilities are exact',
  'For every model (mixtures and products of primitive distributions with derived variables) and every event over its variables, the reported probability equals the true probability of the event under the model up to floating-point error, for arbitrary nesting, overlapping disjunctions, boundary points, atoms and string-valued variables. Probabilities lie in [0, 1] and log-probabilities are their logarithms.',
  ['inputs'], 'all models and all events',
  'Tests verify selected models against hand-computed numbers; exactness must hold for every tree shape and overlap pattern.',
  ['src/spe.py', 'src/dnf.py', 'src/transforms.py', 'src/sets.py'], [('mixture and product recursion', 'src/spe.py SumSPE/ProductSPE.logprob_mem'), ('inclusion-exclusion', 'src/spe.py ProductSPE.logprob_mem'), ('leaf integration', 'src/spe.py logprob__ and logprob_values__')],
  ['prob()/logprob() vs an independent cell-decomposition evaluator'])
p('C09', 'Probability laws and mutual information hold across queries',
  'Answers to different queries on one model are mutually consistent: complements sum to one, inclusion-exclusion and additivity over partitions hold, and larger events are at least as likely. Mutual information of two events equals the value defined by their joint probabilities (in nats), is non-negative, symmetric, invariant under complement, zero for independent events, and equals the entropy of an event with itself, including for events of probability 0 or 1.',
  ['inputs', 'histories'], 'all models and tuples of events',
  'Tests check a few identities on a few models; metamorphic laws quantify over all pairs of events.',
  ['src/spe.py', 'src/math_util.py'], [('mutual information', 'src/spe.py SPE.mutual_information'), ('log-space arithmetic', 'src/math_util.py logdiffexp')],
  ['logprob/prob/mutual_information results'])
p('C10', 'Conditioning on an event is exactly Bayes rule',
  'For every model whose variables are of one kind (number or string) each and whose derived variables are defined throughout the support of their base, and every event of positive probability, the conditioned model assigns to every query the probability of (query and event) divided by the probability of the event, gives the event probability one, keeps the variables of the original, and can be queried, sampled and conditioned again with the same meaning. Conditioning in sequence equals conditioning on the conjunction.',
  ['inputs', 'histories'], 'all models, conditioning events (conjunctions, overlapping disjunctions, constraints on derived variables), follow-up queries and chains of conditionings',
  'Tests check particular posteriors; the closure property concerns every model reachable by repeated conditioning.',
  ['src/spe.py', 'src/dnf.py'], [('conditioning recursion', 'src/spe.py condition, condition_mem, condition__'), ('disjoint clause rewriting', 'src/dnf.py dnf_to_disjoint_union')],
  ['queries on conditioned models vs reference posterior'])
p('C11', 'Impossible evidence is rejected and possible evidence accepted',
  'Conditioning on an event of probability zero, or constraining to an assignment of density zero, raises an error and leaves the model unchanged; conditioning on any event whose probability is positive and resolvable in floating point (and constraining to any assignment of positive density) succeeds, for models whose derived variables are defined throughout the support of their base. Whether it succeeds does not depend on the form in which the event is written.',
  ['inputs'], 'all models, events and assignments, including contradictory conjunctions, events outside the support, equality on continuous variables, and rare events',
  'Tests check a few zero-probability errors; the boundary between possible and impossible evidence spans all models.',
  ['src/spe.py', 'src/dnf.py'], [('zero-probability guards', 'src/spe.py condition/condition__/condition_mem/constrain_mem')],
  ['exceptions vs reference probability'])
p('C12', 'Densities of assignments are exact, discrete atoms dominating',
  'The density of an assignment to non-derived variables of a model is the product over independent parts and the weighted sum over mixture components of primitive densities, where within a mixture only components with the fewest continuous coordinates contribute. Values of the wrong type or outside the support have density zero, and the log-density is the logarithm of the density.',
  ['inputs'], 'all models and full or partial assignments of numbers and strings',
  'Tests check small models; the dominance rule concerns all mixtures of discrete, continuous and nominal parts.',
  ['src/spe.py'], [('density recursion', 'src/spe.py logpdf_mem'), ('leaf density', 'src/spe.py logpdf__')],
  ['pdf()/logpdf() vs reference density'])
p('C13', 'Constraining to an assignment gives the exact posterior',
  'Constraining a model (with derived variables defined throughout the support of their base) to an assignment of positive density to base variables yields the model whose components are reweighted by their density at the assignment (components with more continuous coordinates than the minimum being dropped), with the assigned variables fixed to the given values and all others distributed as in the reweighted components. The result answers probability, density, sampling and further constraint queries consistently with that posterior.',
  ['inputs', 'histories'], 'all models, assignments and follow-up queries',
  'Tests check a few mixtures; agreement must hold for every structure and every follow-up query.',
  ['src/spe.py'], [('constraining recursion', 'src/spe.py constrain, constrain_mem, constrain__')],
  ['queries on constrained models vs reference posterior'])
p('C14', 'Samples are complete, consistent and inside the support',
  'Sampling N times from a model whose derived variables are defined throughout the support of their base returns N assignments giving every requested variable a value that the model can produce (up to rounding at the ends of intervals): within the (conditioned) support, satisfying every event the model was conditioned on, and with derived variables equal to their expression at the sampled base values. Sampling a subset of variables or a function of variables follows the same rule and returns exactly the requested outputs.',
  ['inputs', 'histories'], 'all models (including conditioned and constrained), all N, subsets and functions, all random streams',
  'Tests draw a few samples from a few models; the invariant is per sample, over all models and random streams.',
  ['src/spe.py', 'src/math_util.py'], [('sampling recursion', 'src/spe.py sample, sample_subset, sample_func, sample__, merge_samples')],
  ['every sample dictionary returned'])
p('C15', 'Samples follow the model distribution jointly',
  'The joint distribution of sampled assignments is the one that probability queries report: frequencies of arbitrary events over one or several variables converge to their probabilities, independent parts are sampled independently, and the order of draws within a batch carries no information. This holds equally for subset and function sampling and for conditioned models.',
  ['inputs', 'schedules'], 'all models, events and random streams (statistical, with controlled false alarm rate)',
  'Tests only look at marginal values of small samples; dependence between coordinates or between draws is not examined.',
  ['src/spe.py', 'src/math_util.py'], [('mixture sampling', 'src/spe.py SumSPE.sample_many'), ('product sampling', 'src/spe.py ProductSPE.sample/merge_samples'), ('inverse-cdf sampling', 'src/spe.py RealLeaf.sample__')],
  ['event frequencies over samples vs reference probabilities'])
p('C16', 'Sampling is reproducible from the supplied generator only',
  'When a random generator is supplied, sampling draws only from it: two generators in the same state give identical samples, the global numpy random state is neither read nor changed, and no other query (probability, conditioning, density, rendering, serialization) consumes randomness. Without a generator the global numpy generator alone determines the samples.',
  ['histories', 'inputs'], 'all models, sample kinds, generators and interleavings with other queries',
  'No test compares repeated runs or watches the global generator.',
  ['src/spe.py', 'src/math_util.py'], [('generator threading', 'src/spe.py prng arguments; src/math_util.py random')],
  ['sample lists for equal generator states', 'numpy global state before/after'])
p('C17', 'Derived variables are deterministic functions of their base',
  'After adding a derived variable defined by an expression that is defined throughout the support of its base, any event on it has the probability of the corresponding event on the expression, the distribution of previously existing variables is unchanged, and conditioning on derived variables, deriving from derived variables, and deriving in any branch of a mixture follow the same rule. The original model is not modified.',
  ['inputs', 'histories'], 'all models, expressions (including piecewise and indicator expressions) and chains of derivations',
  'Tests derive a few variables on small models; the substitution rule must commute with every query.',
  ['src/spe.py', 'src/transforms.py'], [('environment of leaves', 'src/spe.py transform, env'), ('substitution', 'src/transforms.py substitute')],
  ['queries on models with derived variables vs reference'])
p('C18', 'Queries are pure and independent of history',
  'No query (probability, density, conditioning, constraining, sampling, deriving, mutual information, serialization, rendering) changes the model it is asked of: the answer to a query is the same whatever queries were asked before, on this or other models, in any order, with a shared, fresh or disabled memo table.',
  ['histories', 'configurations'], 'all interleavings of queries over several models that share structure, with and without memo tables',
  'Tests ask each query once on a fresh model.',
  ['src/spe.py'], [('memo tables', 'src/spe.py memoize, Memo, get_memo_key'), ('immutable trees', 'src/spe.py constructors')],
  ['results of repeated queries', 'serialized form of the model before and after'],
  None, [('memo', 'cached query results keyed by node and event', 'src/spe.py Memo')])
p('C19', 'Simplification and sharing preserve the distribution',
  'Merging equal mixture components, factoring common independent parts, flattening nested mixtures and products, and sharing duplicate subtrees leave every query answer unchanged, with simplification during translation switched on or off. Sharing makes equal subtrees one object and never identifies different ones.',
  ['inputs', 'configurations'], 'all mixtures of products with any pattern of repeated parts, both settings of simplification',
  'Tests check expected shapes of small examples.',
  ['src/spe.py', 'src/compilers/ast_to_spe.py', 'src/sym_util.py'], [('mixture simplification', 'src/spe.py spe_simplify_sum and helpers'), ('subtree sharing', 'src/spe.py spe_cache_duplicate_subtrees'), ('flattening', 'src/spe.py SumSPE.__init__, ProductSPE.__init__')],
  ['queries before and after simplification', 'node identity after sharing'])
p('C20', 'Only well-formed models can be built',
  'Mixtures whose components have different variables or whose weights do not sum to one, products whose parts share a variable, weights outside (0,1), and string distributions that are not normalized are rejected with an error; well-formed ones are accepted whatever the order or grouping in which the parts are combined, and combining parts does not change them.',
  ['inputs', 'histories'], 'all sequences of weighting, mixing and product operations on models and distributions',
  'Tests check single error cases per constructor.',
  ['src/spe.py', 'src/distributions.py', 'src/math_util.py'], [('constructor checks', 'src/spe.py SumSPE, PartialSumSPE, ProductSPE, NominalLeaf'), ('distribution mixtures', 'src/distributions.py DistributionMix')],
  ['exceptions and resulting distributions of combinator expressions'])
p('C21', 'Models survive conversion to JSON and back',
  'For every model the system can build (including conditioned, constrained and derived-variable models), its dictionary form can be written as JSON text and read back in a fresh process, and the restored model gives the same answer as the original to every query.',
  ['inputs'], 'all models reachable through the public operations, all follow-up queries',
  'Tests round-trip a few leaves and compare by equality within one process.',
  ['src/compilers/spe_to_dict.py', 'src/transforms.py', 'src/sets.py', 'src/spe.py'], [('encoding', 'src/compilers/spe_to_dict.py spe_to_dict'), ('decoding', 'src/compilers/spe_to_dict.py spe_from_dict')],
  ['JSON text', 'queries on restored models'])
p('C22', 'Rendered SPPL source recompiles to the same distribution',
  'The SPPL source rendered for a model over numeric and string variables (with names that are not names of distributions) built from primitive distributions, mixtures, products, interval-conditioned parts and derived variables compiles again, and the resulting model (ignoring added branch selectors) gives every query the same answer as the original.',
  ['inputs', 'programs'], 'all renderable models, all queries on their variables',
  'Tests compare the rendered text of two examples.',
  ['src/compilers/spe_to_sppl.py', 'src/compilers/sppl_to_python.py'], [('rendering', 'src/compilers/spe_to_sppl.py render_sppl')],
  ['queries on recompiled models'])
p('C23', 'Translated programs denote their sequential probabilistic semantics',
  'For every well-formed SPPL program (sampling, derived variables, arrays, if/elif/else, conditional expressions, for, switch over enumerated values, string choices and interval bins, condition, constrain), the translated model gives every event the probability obtained by executing the program statement by statement as a random process and conditioning where it says so (a condition inside a branch conditions that branch). Names of distributions are reserved.',
  ['programs'], 'all well-formed programs and query events',
  'Tests compile about a hundred snippets and compare structure; semantics of nested control flow is not checked against an independent interpreter.',
  ['src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py', 'src/spe.py'], [('source translation', 'src/compilers/sppl_to_python.py SPPL_Compiler'), ('command interpretation', 'src/compilers/ast_to_spe.py')],
  ['prob() on compiled models vs reference interpreter'])
p('C24', 'Equivalent ways of writing a program give the same model',
  'Programs that differ only by standard rewritings give the same answers to all queries: a switch and the chain of if/elif it abbreviates, a for loop and its unrolling, a conditional expression and the if statement, elif and nested else-if, an array element and a plain variable, equality and membership spelling of tests, and reordering of independent statements.',
  ['programs'], 'all programs and applicable rewritings',
  'Tests compare a few pairs structurally.',
  ['src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py'], [('desugaring', 'src/compilers/sppl_to_python.py visit_For, visit_If, unroll_ifexp'), ('switch', 'src/compilers/ast_to_spe.py Switch.interpret')],
  ['prob() of both programs'])
p('C25', 'Ill-formed programs are rejected at translation',
  'A program that, in a reachable statement, redefines a variable, uses an undeclared variable as a sampling target or array, defines different variables in different branches of a conditional, leaves a conditional without an alternative, has branch events that do not cover all possibilities, conditions on an impossible event, or writes an unsupported construct anywhere is rejected with an error; it never yields a model.',
  ['programs'], 'all single-fault mutations of well-formed programs',
  'Tests check about a dozen error snippets.',
  ['src/compilers/sppl_to_python.py', 'src/compilers/ast_to_spe.py', 'src/spe.py'], [('static checks', 'src/compilers/sppl_to_python.py visitor assertions'), ('model checks', 'src/spe.py constructors; src/compilers/ast_to_spe.py interpret_if_block')],
  ['exception or model from compiling mutated programs'])
p('C26', 'Primitive distributions agree with their definition',
  'Every primitive distribution offered, for all valid parameters including location and scale, assigns each event the probability its scipy definition gives (where scipy defines one), has total mass one, gives conditioned probabilities and densities consistent with it, and samples only from its support. Finite tables, uniform tables, atoms and string choices follow their weights exactly.',
  ['inputs'], 'all offered distributions, all valid parameter values, all events',
  'Tests construct each distribution once and check few probabilities.',
  ['src/distributions.py', 'src/spe.py'], [('support declarations', 'src/distributions.py get_domain'), ('leaf integration', 'src/spe.py RealLeaf/DiscreteLeaf/AtomicLeaf/NominalLeaf')],
  ['prob/logpdf/condition/sample of leaves vs scipy.stats'])
p('C27', 'Equality and hashing of models, expressions and events are sound',
  'Equality of models, expressions and events is an equivalence relation, equal objects have equal hashes, independently built equal structures compare equal, and objects that compare equal are interchangeable: they give the same answer to every query. Objects that differ in variable, parameter, weight, support or derived variables never compare equal.',
  ['inputs'], 'all pairs of models, expressions and events',
  'Tests compare a few equal and unequal pairs.',
  ['src/spe.py', 'src/transforms.py', 'src/sets.py'], [('equality and hash', 'src/spe.py and src/transforms.py __eq__/__hash__')],
  ['==, hash, queries'])
p('C28', 'Rendered views show exactly the model structure',
  'Nested-list and graph renderings of a model show each node of the tree once with its kind, variables, weights, derived variables and children in correspondence, for any depth, repeated subtrees and speed of rendering: the number of nodes, the edges, the edge weights and the leaf labels match the model.',
  ['inputs', 'schedules'], 'all models; graph rendering under any clock behaviour',
  'Tests render two small models and check that it does not crash.',
  ['src/render.py', 'magics/render.py'], [('nested lists', 'src/render.py'), ('graph nodes', 'magics/render.py render_networkx_graph')],
  ['rendered structures vs tree walk'])
p('C29', 'Notebook sessions always refer to the last definition of a model',
  'In any sequence of notebook cells that define, redefine, inspect and query named programs, each name refers to the model of its most recent successful definition, definitions of different names do not interfere, unknown names are reported as errors, and the shown Python translation, when run, defines an equivalent model.',
  ['histories'], 'all sequences of cell and line commands over several names, including failing cells',
  'No test drives the notebook commands.',
  ['magics/magics.py'], [('program table', 'magics/magics.py SPPL_Magics.programs')],
  ['results of notebook commands vs a reference table'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
for d in P:
    assert len(d['title']) <= 80, d['title']
    n = d['statement'].count('. ') + 1
    if n > 3: print('LONG', d['id'], n)
