import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Relative log-densities obey the algebra of measures",
 "For any two library measures on the same space and any point where the base measure's log-density is finite, the log-density of one with respect to the other equals the difference of their log-densities with respect to the common root measure; hence it is zero for equal measures, changes sign when the two are swapped, and adds up along a chain of measures. The answer does not depend on which evaluation route is used (fluent builder, default base, helper function, batch, or the direct root density) nor on where the measure values live in memory.",
 ["inputs","programs"],"all ordered pairs and triples of measures of every family (exponential-family or not, primitive or not), all points of the space, all builder call sequences",
 "Tests evaluate a few Normal/Normal and Poisson pairs at single points; the four dispatch cases crossed with all measure kinds, swapped and chained, are not reached, and special-case shortcuts (same object, zero-sized measures) are never crossed.",
 ["measures-core/src/core/density.rs","measures-exponential-family/src/exponential_family/implementations.rs","measures-core/src/primitive/lebesgue.rs","measures-core/src/primitive/counting.rs"],
 [("fluent builder .wrt().at() and dispatch on the exponential-family marker","measures-core/src/core/density.rs"),("log_density_at / log_density_batch helpers","measures-core/src/core/density.rs")],
 observe=["LogDensityBuilder::log_density().wrt(..).at(..)","log_density_at","log_density_batch"])
p("C02","Each distribution's log-density is the logarithm of its named law",
 "For every distribution, every valid parameter value and every point, the log-density with respect to the root measure equals the logarithm of the textbook density or probability mass, and is negative infinity outside the support, at every supported float precision; the support a distribution reports is the set where that density is positive. In particular the masses of a discrete distribution add up to one.",
 ["inputs"],"all parameters and all points of all fourteen distribution families, in f32 and f64",
 "Tests compare a handful of points, mostly of the normal; several families are only checked for finiteness or through the exponential-family form, never at the support's edges or against normalisation.",
 ["measures-distributions/src/distributions/continuous/*.rs","measures-distributions/src/distributions/discrete/*.rs","measures-core/src/core/density.rs"],
 [("HasLogDensity implementations of each family","measures-distributions/src/distributions"),("log-factorial and binomial coefficient measures","measures-combinators/src/measures/derived")],
 observe=["HasLogDensity::log_density_wrt_root"])
p("C03","Exponential-family form equals the distribution",
 "For every exponential-family distribution and every point of its support, <natural parameter, sufficient statistic> minus log partition plus the base measure's log-density equals the log-density of the distribution, with the log partition consistent with the natural parameter. Converting to natural parameters and back yields an equal distribution.",
 ["inputs"],"all parameters and support points of all ten exponential families",
 "The tests check the identity for a few parameters of some families and only finiteness for others.",
 ["measures-exponential-family/src/exponential_family/traits.rs","measures-distributions/src/distributions"],
 [("natural_and_log_partition / to_natural / from_natural / sufficient_statistic / base_measure per family","measures-distributions/src/distributions"),("exp_fam_log_density","measures-exponential-family/src/exponential_family/traits.rs")])
p("C04","IID joint log-density is the sum over the observations",
 "For every distribution and every finite sequence of observations, the joint log-density of independent copies equals the sum of the single-observation log-densities, whichever of the offered routes computes it; a joint measure gives a sequence with an observation outside the support the value negative infinity. It is zero for the empty sequence, does not depend on the order of the observations, and adds up when sequences are concatenated.",
 ["inputs","histories"],"all observation sequences (any length and order) of all families and parameters",
 "Tests use single fixed samples of one to five points of a few families and never permute, concatenate or empty them systematically.",
 ["measures-exponential-family/src/exponential_family/iid.rs","measures-exponential-family/src/exponential_family/traits.rs"],
 [("IID wrapper: sum of sufficient statistics, n copies of the log partition","measures-exponential-family/src/exponential_family/iid.rs"),("compute_iid_exp_fam_log_density","measures-exponential-family/src/exponential_family/traits.rs")])
p("C05","A decomposed log-density evaluates to the sum of its terms",
 "A log-density decomposition built by any sequence of builder calls evaluates, at any data point and parameter, to the sum of all its terms, each evaluated once on the argument it was declared for. Evaluating the parts separately, with parameter terms precomputed, or over many observations gives the same total.",
 ["inputs","programs"],"all builder call sequences over the four term kinds, all data/parameter values",
 "Tests build one fixed normal decomposition with one term of each kind.",
 ["measures-core/src/core/log_density_decomposition.rs"],
 [("LogDensityDecomposition and DecompositionBuilder","measures-core/src/core/log_density_decomposition.rs")])
p("C06","Caching a log-density never changes its value",
 "For every history of evaluations, a cached log-density returns at each call exactly the value the uncached log-density returns for that argument. Separately built cached densities do not influence each other.",
 ["histories"],"all sequences of evaluations (with repeats and different arguments, on one and on two caches) on every measure pair",
 "Tests evaluate a point twice; they never interleave several arguments or caches.",
 ["measures-core/src/core/density.rs"],
 [("CachedLogDensity","measures-core/src/core/density.rs")],
 state=[("cache","argument to value memo","measures-core/src/core/density.rs")])
p("C07","Compiled and zero-overhead density functions equal the direct log-density",
 "A density function produced by the optimisation layer for a distribution (optionally relative to a base measure) returns, at every point of the support, the same value as evaluating the distribution's log-density directly, for every parameter value. It keeps that value however often and in whatever order it is called.",
 ["inputs","histories"],"all parameters, points and call orders of every distribution the optimiser accepts",
 "Tests compare one or two points for normal and a few other families.",
 ["measures-exponential-family/src/exponential_family/jit.rs","measures-exponential-family/src/exponential_family/auto_jit.rs"],
 [("generate_zero_overhead_exp_fam, ZeroOverheadOptimizer, StaticInlineJITCompiler","measures-exponential-family/src/exponential_family/jit.rs")])
p("C08","Measure combinators compose log-densities as measure theory says",
 "A product measure's log-density at a tuple is the sum of the components' log-densities; weighting adds the log weight; integrating a function adds its log-value; a mixture is the log of the weighted sum of its components; a point mass contains only its point. These laws hold for arbitrary nesting of combinators and for any points, including points outside a component's support.",
 ["programs","inputs"],"all nestings of the combinators up to a depth over all component measures, all points",
 "Tests build each combinator once over normals (and the combinator crate's own unit tests do not even compile).",
 ["measures-combinators/src/measures/combinators/product.rs","measures-combinators/src/measures/combinators/superposition.rs","measures-combinators/src/measures/derived/weighted.rs","measures-combinators/src/measures/derived/integral.rs","measures-combinators/src/measures/derived/dirac.rs"],
 [("HasLogDensity of ProductMeasure, MixtureMeasure, WeightedMeasure, IntegralMeasure","measures-combinators/src/measures"),("log_sum_exp","measures-combinators/src/measures/combinators/superposition.rs")])
p("C09","Pushforward measures follow the change-of-variables rule",
 "The log-density of a measure transported through an invertible transformation equals the base log-density at the preimage plus the log absolute derivative of the inverse, and is negative infinity at points that have no preimage. The provided transformations are inverse to themselves and back, and transporting forth and back restores the original measure.",
 ["inputs","programs"],"all base measures, all provided transformations and their parameters and compositions, all points",
 "Tests apply the logarithm and one linear map to a normal at a few points.",
 ["measures-combinators/src/measures/combinators/pushforward.rs"],
 [("Pushforward measure and log/exp/linear/logit transforms","measures-combinators/src/measures/combinators/pushforward.rs")])
p("C10","Combinatorial base measures give exact log weights",
 "The factorial base measure has log-density minus log(k!), the binomial one log C(n,k) (and no mass for k > n), and the negative binomial one log C(k+r-1, k), for every argument in range and accurate across any internal switch between table and asymptotic computation.",
 ["inputs"],"all arguments n, k, r of the three base measures, both precisions",
 "Tests look at a few small arguments with loose tolerance.",
 ["measures-combinators/src/measures/derived/factorial.rs","measures-combinators/src/measures/derived/binomial_coefficient.rs","measures-combinators/src/measures/derived/negative_binomial_coefficient.rs"],
 [("log-factorial table and Stirling tail; coefficient loops","measures-combinators/src/measures/derived")])
p("C11","Symbolic simplification preserves the value of an expression",
 "For every expression and every assignment of real values under which the expression and all its subexpressions are finite, the simplified expression evaluates to the same value. Simplifying never introduces variables, and simplifying an already simplified expression leaves its value unchanged as well.",
 ["programs","inputs"],"all expression trees over all fourteen node kinds, all variable assignments in the expression's domain",
 "Tests check about a dozen hand-written rewrites at benign positive arguments; wrong rewrites for negative arguments or unusual nesting are not sampled.",
 ["symbolic-math/src/expr.rs"],
 [("Expr::simplify","symbolic-math/src/expr.rs")])
p("C12","Equality-saturation optimisation preserves the value of an expression",
 "For every expression and every assignment under which the expression and all its subexpressions are finite, the expression returned by the e-graph optimiser evaluates to the same value up to rounding, whatever the names of its variables. An expression that has no value (such as a division by a literal zero) is returned without a panic, and the result does not depend on which expressions the same optimiser instance processed before.",
 ["programs","inputs","histories"],"all expression trees up to a bound, all assignments, all sequences of expressions given to one optimiser",
 "Tests optimise a few identities and accept any smaller result.",
 ["symbolic-math/src/optimization.rs"],
 [("rewrite rules, translation to and from the e-graph","symbolic-math/src/optimization.rs")],
 state=[("egraph","terms accumulated by one optimiser","symbolic-math/src/optimization.rs")])
p("C13","Natively compiled expressions compute the same value as interpretation",
 "For every expression, every split of its variables into data, parameters and constants, and every argument under which the expression and its subexpressions are finite, calling the just-in-time compiled function with the matching call form returns the interpreted value up to rounding. Compilation of an expression with unbound variables is an error, and calling twice gives the same answer.",
 ["programs","inputs","configurations"],"all expression trees up to a bound, all variable bindings and call signatures, all argument values",
 "Tests compile a few polynomials and one or two transcendental expressions at one or two arguments; signatures with several parameters, argument ranges and edge values are not covered.",
 ["symbolic-math/src/jit.rs","symbolic-math/src/final_tagless.rs"],
 [("GeneralJITCompiler, GeneralJITFunction and call forms","symbolic-math/src/jit.rs"),("JITEval compilation","symbolic-math/src/final_tagless.rs")])
p("C14","All evaluation routes of an expression agree",
 "Evaluating an expression with a variable map is the standard arithmetic meaning of the expression; the single-variable, batch, optimised batch, multi-variable batch, grid, polynomial, linear and automatic routes return, element for element and in order, that same value whenever they return a value. An undefined variable, a division by zero, a logarithm of a non-positive number or a square root of a negative number is reported as an error by every route, never as a number (a literal zero factor may decide a product without its other factor being looked at).",
 ["programs","inputs"],"all expression trees up to a bound, all variable assignments (including missing variables), all batch lengths",
 "Tests run each route on one or two expressions with complete assignments.",
 ["symbolic-math/src/expr.rs"],
 [("Expr::evaluate and the specialised evaluators","symbolic-math/src/expr.rs")])
p("C15","All interpretations of a tagless expression agree",
 "An expression written once against the tagless interface means the same under every interpreter: direct evaluation gives its arithmetic value, the native-code interpreter compiles to a function with that value, and the pretty printer prints text that reads back as the same function. Derived operations (sigmoid, logistic, softplus and the like) equal their mathematical definitions under every interpreter.",
 ["programs","inputs"],"all tagless terms up to a bound under all three interpreters, all argument values",
 "Tests compare interpreters on three or four fixed terms.",
 ["symbolic-math/src/final_tagless.rs"],
 [("MathExpr/StatisticalExpr implementations of DirectEval, PrettyPrint, JITEval","symbolic-math/src/final_tagless.rs")])
p("C16","Tagless distribution patterns equal the distributions they are named for",
 "Every ready-made distribution pattern and exponential-family pattern of the tagless layers evaluates, for all valid parameters and points, to the log-density (or the named ingredient) of the corresponding distribution. IID and exponential-family combination of patterns equal the corresponding sums.",
 ["inputs","programs"],"all patterns, parameters and points",
 "Tests check most patterns for finiteness or at one standard point.",
 ["measures-distributions/src/distributions/final_tagless.rs","measures-exponential-family/src/exponential_family/final_tagless.rs"],
 [("patterns modules and ExponentialFamilyExpr / DistributionExpr interpreters","measures-distributions/src/distributions/final_tagless.rs")])
p("C17","Global symbolic caches are transparent, accounted for and deadlock-free",
 "Under every interleaving of threads calling the cached simplify and evaluate operations, reading statistics and clearing the caches, each cached call returns what the uncached operation returns for its own arguments, including errors and regardless of which other expressions share the cache. Each call that consults a cache is counted exactly once as hit or miss, a repeated call on a warm cache is a hit, and no interleaving deadlocks.",
 ["schedules","histories"],"all interleavings of up to three threads with up to three calls each, all call sequences over colliding expressions",
 "The tests call the cached operations sequentially from tests that share the global caches, with two or three unrelated expressions, and cannot control interleavings.",
 ["symbolic-math/src/expr.rs"],
 [("simplify_cached, evaluate_cached, get_cache_stats, clear_caches over three global mutexes","symbolic-math/src/expr.rs")],
 state=[("SIMPLIFICATION_CACHE","memo of simplified expressions","symbolic-math/src/expr.rs"),("EVALUATION_CACHE","memo of values keyed by expression and bindings","symbolic-math/src/expr.rs"),("CACHE_STATS","hit and miss counters","symbolic-math/src/expr.rs")],
 observe=["return values, CacheStats, termination"])
p("C18","Bayesian expressions combine as Bayes' rule says",
 "The ready-made symbolic likelihoods and priors equal the log-densities they are named for, the unnormalised log-posterior is the sum of log-likelihood and log-prior, hierarchical and mixture builders equal the sums and weighted log-sums they describe, for all data and parameters. A compiled Bayesian model evaluates to the same values as its symbolic expression.",
 ["inputs","programs","histories"],"all data, parameters, builder combinations and compile/evaluate sequences",
 "Tests check that the expressions contain certain variables and evaluate one of them at one point.",
 ["measures-bayesian/src/bayesian/mod.rs"],
 [("expressions module and BayesianJITOptimizer","measures-bayesian/src/bayesian/mod.rs")])
p("C19","The standalone tagless crate computes what it denotes",
 "Every term of the standalone tagless expression crate evaluates under direct interpretation to its arithmetic value and prints as text that reads back as the same function. Its polynomial helpers (Horner evaluation, derivative, construction from roots) equal the mathematical polynomial for every coefficient list, including the empty one.",
 ["programs","inputs"],"all terms up to a bound; all coefficient/root lists up to a length over a value alphabet; all points",
 "Tests evaluate one quadratic, one cubic and a few operators.",
 ["mathjit/src/final_tagless.rs","mathjit/src/lib.rs"],
 [("MathExpr implementations, polynomial module","mathjit/src/final_tagless.rs")])
p("C20","Constructors accept exactly the valid parameters and accessors are faithful",
 "Constructing a distribution succeeds exactly for mathematically valid finite parameters (a NaN is not valid for a constrained parameter) and otherwise refuses instead of producing a distribution. Parameters, moments and derived quantities reported by an accepted distribution equal those of the law.",
 ["inputs"],"all parameter values including zero, negative and boundary ones, for all families and precisions",
 "Tests try one invalid value for some families and a couple of moments.",
 ["measures-distributions/src/distributions"],
 [("constructors with assertions, mean/variance/... accessors","measures-distributions/src/distributions")])
p("C21","Printed forms of an expression denote the same expression",
 "Reading the plain, Python or LaTeX text printed for an expression with the usual grammar and precedence rules gives an expression with the same value for every variable assignment. Constants are printed precisely enough to read back as the same number.",
 ["programs","inputs"],"all expression trees up to a bound and all constants of an alphabet",
 "Tests compare the printed text of a few expressions; missing parentheses in other nestings go unnoticed.",
 ["symbolic-math/src/expr.rs","symbolic-math/src/lib.rs"],
 [("Display, to_latex, to_python, PrettyExpr","symbolic-math/src/expr.rs")])
p("C22","Symbolic expression building and parameter substitution are faithful",
 "Operators, macros and builder helpers produce expressions with exactly the meaning of the notation used. A symbolic log-density with attached parameters evaluates to its expression under those parameters (explicit variables taking precedence), and simplifying it or substituting its parameters, in any order, does not change that value; the reported free variables are exactly the variables that occur.",
 ["programs","inputs","histories"],"all operator/builder combinations, all splits of variables into parameters and data, all orders of simplify/substitute/evaluate",
 "Tests construct a few expressions and substitute one parameter set.",
 ["symbolic-math/src/expr.rs","symbolic-math/src/lib.rs"],
 [("operator overloads, macros, builders, SymbolicLogDensity, ConstantPool","symbolic-math/src/expr.rs")])
p("C23","Numeric conversion and dot-product helpers are exact",
 "Safe numeric conversions return the exactly converted value when it is representable (in a double and in the target), truncate fractions towards zero for integer targets, and signal failure (or the given default) when the value is out of the target's range, and the dot product of two sequences is the sum of products over all positions. Both hold for every numeric type combination offered.",
 ["inputs"],"all boundary values of all source/target types; all vectors up to a length",
 "Tests convert two or three small numbers.",
 ["measures-core/src/core/utils.rs","measures-core/src/traits/dot_product.rs"],
 [("safe_convert family","measures-core/src/core/utils.rs"),("DotProduct","measures-core/src/traits/dot_product.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
