#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    over = [{"faults": "fault_sequences"}.get(over, over)]
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}], "hook_needed": None}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = [{"name": "solved problem", "meaning": state, "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BO="pypfopt/base_optimizer.py"; EF="pypfopt/efficient_frontier/efficient_frontier.py"
SV="pypfopt/efficient_frontier/efficient_semivariance.py"; CV="pypfopt/efficient_frontier/efficient_cvar.py"
CD="pypfopt/efficient_frontier/efficient_cdar.py"; OBJ="pypfopt/objective_functions.py"
BL="pypfopt/black_litterman.py"; CLA="pypfopt/cla.py"; DA="pypfopt/discrete_allocation.py"
ER="pypfopt/expected_returns.py"; RM="pypfopt/risk_models.py"; HP="pypfopt/hierarchical_portfolio.py"
PL="pypfopt/plotting.py"

p("C01","Minimum-volatility portfolio solves exactly the documented problem",
  "For every covariance matrix, weight bounds and added constraints or objectives, minimising volatility returns weights that sum to 1, respect every bound and constraint, and attain the least portfolio variance (plus the added objective terms) among all weight vectors that do so. No admissible portfolio is excluded and no inadmissible one is admitted.",
  "inputs","all symmetric covariance matrices, expected returns (present or absent), bounds, added constraints and added objectives, for each admissible weight vector",
  "Tests solve a handful of fixed data sets and compare to loose expectations; a missing, extra or perturbed constraint or term only shows up on inputs where it binds.",
  [EF,BO,OBJ],"the convex problem assembled by min_volatility() and handed to the solver","weights returned / problem handed to the solver")
p("C02","Target-return portfolio minimises variance subject to the return floor",
  "For every input and target return, the efficient-return portfolio minimises variance (plus added objective terms) among exactly the portfolios with the required weight sum that meet all bounds and constraints and whose expected return is at least the target. A target that is not a float, or that exceeds the largest return attainable by a fully invested portfolio under the same bounds and constraints, is rejected with a ValueError, and targets up to that maximum are not rejected.",
  "inputs","all expected returns, covariances, bounds, constraints, targets (binding or not, positive or negative), market neutral or not",
  "Whether the return floor, the weight sum and the rejection threshold are right depends on where the target lies relative to the data; tests use one data set and a few targets.",
  [EF,BO,OBJ],"efficient_return() and the maximum-return pre-solve")
p("C03","Target-risk portfolio maximises return subject to the risk ceiling",
  "For every input and target volatility, the efficient-risk portfolio maximises expected return (less added objective terms) among exactly the portfolios with the required weight sum that meet all bounds and constraints and whose variance is at most the target volatility squared. A target that is negative or non-numeric, or lies below the volatility of the unconstrained global minimum-variance portfolio, is rejected with a ValueError, and no other target is.",
  "inputs","all expected returns, nonsingular covariances, bounds, constraints and targets, market neutral or not",
  "The ceiling and rejection threshold depend continuously on the target and the data; tests sample a few targets on one data set.",
  [EF,BO,OBJ],"efficient_risk()")
p("C04","Quadratic-utility portfolio maximises return minus risk-weighted variance",
  "For every input and positive risk aversion, the portfolio returned maximises expected return minus one half times risk aversion times variance (less added objective terms) among exactly the portfolios with the required weight sum that meet all bounds and constraints. A non-positive risk aversion is rejected with a ValueError.",
  "inputs","all expected returns, covariances, bounds, constraints, risk aversions, market neutral or not",
  "A wrong factor or sign keeps results plausible and within tolerance on the test data set.",
  [EF,OBJ,BO],"max_quadratic_utility()")
p("C05","Maximum-Sharpe portfolio is admissible and has the best Sharpe ratio",
  "For every input and risk-free rate, the maximum-Sharpe portfolio sums to 1, satisfies every weight bound and every user-added linear constraint as stated (whichever side its constants are written on), and no other admissible portfolio with positive excess return has a higher Sharpe ratio. The call is rejected with a ValueError when the rate is non-numeric or no asset return exceeds it.",
  "inputs","all expected returns, positive-definite covariances, risk-free rates (including negative), bounds and linear constraints",
  "The optimum is found through a change of variables that must transform every constraint consistently; tests exercise only a few constraint shapes on one data set.",
  [EF,BO],"max_sharpe(): variable substitution, constraint rebuilding and inverse transform")
p("C06","Optimisers can be re-solved for a new target but never silently altered",
  "Calling the same optimisation again on one optimiser with a new target or risk aversion gives the portfolio that a fresh optimiser would give for that value. After an optimisation, adding an objective or constraint, switching to a different objective, or changing market neutrality raises an error instead of altering the problem.",
  "histories","all sequences of up to three calls on one optimiser over symbolic targets, for every optimiser class",
  "Depends on histories of calls with different parameter values; tests check a couple of fixed sequences with fixed values.",
  [BO,EF,SV,CV,CD],"parameter update and solved-problem guards",state="the compiled problem and its parameters kept between calls")
p("C07","Every accepted way to write weight bounds yields exactly those bounds",
  "A single pair, a pair of arrays, a list of pairs (one per asset) and None entries all translate to the bounds they denote: each weight is at least its lower and at most its upper bound, a None in a single pair meaning -1 or 1 and a None in a per-asset pair meaning unbounded. Bounds that are neither a pair nor one pair per asset raise a TypeError.",
  "inputs","all bound values and all supported bound notations for 1 to 5 assets",
  "Each notation takes a different path, and mistakes show only when the misplaced bound binds.",
  [BO],"_map_bounds_to_constraints()")
p("C08","Sector constraints bound exactly the summed weight of each sector",
  "For every assignment of tickers to sectors and every set of sector limits, the total weight of the tickers mapped to a sector lies between that sector's lower and upper limits, for each sector that has one, and nothing else is restricted.",
  "inputs","all sector maps (including unmapped tickers), limits and numbers of sectors for up to 4 assets",
  "Closures over loop variables and ticker-to-position mapping are only exercised for one mapping in tests.",
  [BO],"add_sector_constraints()")
p("C09","Market-neutral portfolios sum to zero, others to one",
  "With market neutrality requested, weights sum to zero, every user constraint still applies, and the bounds given are kept if any lower bound is negative and otherwise replaced by (-1, 1) with a warning; without it weights sum to 1. This holds for every optimiser and objective offering the option.",
  "inputs","all bounds (allowing shorts or not), user constraints and objectives offering the option",
  "Replacing bounds edits the constraint list in place, so which constraints survive depends on what was added before; tests look at one configuration.",
  [EF,SV,CV,CD,BO],"_make_weight_sum_constraint()")
p("C10","A failed solve raises an OptimizationError and yields no weights",
  "Whatever status the solver reports other than optimal (or optimal but inaccurate), and when the problem is not convex, the optimiser raises its documented OptimizationError and does not present weights as a result. When the solver succeeds the weights returned are those of its solution.",
  "faults","every solver outcome at each optimisation entry point",
  "Solver failures are hard to provoke deterministically in tests.",
  [BO,EF,SV,CV,CD,"pypfopt/exceptions.py"],"_solve_cvxpy_opt_problem() and the code after it")
p("C11","Weights are reported against the right asset, cleaned only as asked",
  "Results map each asset label, in input order, to its own weight; setting weights from a mapping assigns by label irrespective of mapping order. A file saved in csv, json or text form holds every asset's cleaned weight in order, and other forms are refused. Cleaning zeroes exactly the weights whose absolute value is below the cutoff and rounds the others to the requested number of decimals, without changing the stored weights.",
  "inputs","all weights (including negative and near-cutoff), cutoffs, roundings, label orders and input containers",
  "Label/position mismatches and cutoff edge cases appear only for particular orders and values.",
  [BO,EF],"_make_output_weights(), set_weights(), clean_weights()")
p("C12","Reported performance equals the defining formulas of the weights",
  "For every set of weights the reported performance is return = sum of weight times expected return, volatility = square root of the quadratic form of the covariance, and Sharpe ratio = (return - risk-free rate) / volatility. Weights supplied as a mapping are matched by label, missing labels count as zero, weights that sum to zero are rejected with a ValueError, and after a maximum-Sharpe optimisation the rate used there is used. A Black-Litterman model reports the performance of its current weights on its posterior estimates.",
  "inputs","all weights, expected returns, covariances, risk-free rates, containers and label orders",
  "Numeric tests pin a few portfolios; a slip in matching or scaling needs other inputs.",
  [BO,EF,HP,CLA,OBJ],"portfolio_performance()")
p("C13","Objective functions equal their formulas for numbers and in optimisation",
  "Each documented objective (variance, return, Sharpe ratio, L2 penalty, quadratic utility, transaction cost, ex-ante tracking error, and ex-post tracking error as the sum over periods of squared deviations of the active return from its mean) evaluates, for numeric weights, to its defining formula with the documented sign, and used as an optimisation term denotes the same function of the weights.",
  "inputs","all weights and parameters, numeric and symbolic use, up to 3 assets and 4 periods",
  "Tests evaluate each function at one point, which cannot separate formulas that agree there.",
  [OBJ],"each function in the objectives module")
p("C14","Semivariance optimisation uses true downside deviations",
  "For every return history, benchmark, frequency, target, bounds and added terms, each semivariance optimisation returns an admissible portfolio that is optimal for the documented goal, where semivariance is the mean squared shortfall below the benchmark over all periods (annualised for targets and reporting). The reported performance is that of the weights. Periods in which any return is missing are left out.",
  "inputs","all return histories up to 3 periods and 3 assets, benchmarks, targets and frequencies",
  "Auxiliary variables in the optimisation only encode the shortfall if all constraints are right for every sign pattern of shortfalls.",
  [SV,EF,BO],"EfficientSemivariance methods")
p("C15","CVaR optimisation bounds and minimises true expected tail loss",
  "For every return history, confidence level, target, bounds and added terms, each CVaR optimisation returns an admissible portfolio that is optimal for the documented goal, where CVaR is the minimum over a of a + mean(max(loss - a, 0)) / (1 - confidence). The reported performance is the return and CVaR of the weights. Periods in which any return is missing are left out.",
  "inputs","all return histories up to 3 periods and 2 assets, confidence levels in [0,1), targets and bounds",
  "Equality of the linear programme with the tail expectation depends on every constraint for all orderings of the scenario losses.",
  [CV,EF,BO],"EfficientCVaR methods")
p("C16","CDaR optimisation bounds and minimises true expected tail drawdown",
  "For every return history, confidence level, target, bounds and added terms, each CDaR optimisation returns an admissible portfolio that is optimal for the documented goal, where CDaR is the tail expectation (as for CVaR) of the drawdowns of the uncompounded cumulative return from its running maximum, starting from zero. The reported performance is the return and CDaR of the weights. Periods in which any return is missing are left out.",
  "inputs","all return histories up to 3 periods and 2 assets, confidence levels in [0,1), targets and bounds",
  "The drawdown recursion is encoded by inequalities that must be right for every path shape.",
  [CD,EF,BO],"EfficientCDaR methods")
p("C17","Custom objectives are optimised with all bounds, constraints and sum rule",
  "A custom convex objective is minimised, together with any added objectives, over exactly the portfolios meeting the bounds and constraints, and summing to 1 unless that is switched off. A custom nonconvex objective is passed to the numerical solver with the same bounds, the sum-to-1 condition unless switched off, the user's conditions, arguments and starting point (equal weights by default), and the solver's point is returned as the weights.",
  "inputs","all bounds, constraints, flags and argument values",
  "Tests exercise a few objectives whose optimum does not expose a missing condition.",
  [BO],"convex_objective(), nonconvex_objective()")
p("C18","Critical-line portfolios are admissible and optimal",
  "For distinct expected returns, a positive-definite covariance and feasible per-asset bounds, the critical line algorithm's minimum-volatility and maximum-Sharpe portfolios and every frontier portfolio sum to 1 and respect the bounds; the minimum-volatility portfolio has the least variance of all admissible portfolios, each frontier portfolio has the least variance among admissible portfolios with its return, and the frontier runs from the maximum-return to the minimum-variance portfolio with the returns and volatilities of its portfolios.",
  "inputs","symbolic expected returns, covariances and bounds for 2 assets and parametrised families for 3 assets",
  "The active-set walk takes a different sequence of turning points in each region of the input space; tests cover one data set.",
  [CLA],"the critical line algorithm: bound release and fixing, turning points, frontier interpolation")
p("C19","Hierarchical risk parity allocates by inverse-variance recursive bisection",
  "For every return history or covariance, hierarchical risk parity gives each asset a non-negative weight, the weights sum to 1, and they equal recursive bisection of the dendrogram's leaf order in which each half receives the share complementary to its inverse-variance-portfolio variance. The dendrogram is built from the correlation distances sqrt((1 - correlation) / 2), clipped to remain real, of the supplied data, and performance uses the supplied covariance or the sample covariance at the given frequency.",
  "inputs","all covariances / returns up to 4 assets and every possible leaf order",
  "Tests use one data set, hence one dendrogram.",
  [HP],"HRPOpt: clustering input, quasi-diagonal order, recursive bisection, portfolio_performance")
p("C20","Black-Litterman posterior equals the canonical Bayesian formulas",
  "For every prior, covariance, views, picking matrix, uncertainty and tau, the posterior returns equal the canonical Black-Litterman posterior mean [(tau S)^-1 + P'W^-1 P]^-1 [(tau S)^-1 pi + P'W^-1 Q] and the posterior covariance equals S + [(tau S)^-1 + P'W^-1 P]^-1, labelled by the assets.",
  "inputs","all priors, covariances, views, P, omega and tau up to 3 assets and 2 views",
  "The implementation uses different but equivalent matrix expressions; equality must hold identically.",
  [BL],"bl_returns(), bl_cov()")
p("C21","Views are translated into the picking matrix and uncertainty as documented",
  "Absolute views place 1 on exactly the named asset with the stated value whatever the order of names (unknown names are rejected); the default uncertainty is the diagonal of tau times P S P'; confidence-based uncertainty follows Idzorek's formula with confidence 1 meaning certainty and 0 meaning the view has (numerically) no influence; P, Q and uncertainty of inconsistent sizes are rejected.",
  "inputs","all views, confidences in [0,1], orders of names and container types up to 3 assets and 2 views",
  "Which row refers to which asset only matters for particular orders and values.",
  [BL],"_parse_views(), default_omega(), idzorek_method(), _set_* validation")
p("C22","Market-implied inputs and Black-Litterman weights follow the formulas",
  "Market-implied prior returns are risk aversion times covariance times capitalisation weights plus the risk-free rate, matched by asset; implied risk aversion is excess mean return over variance of the annualised market returns; portfolio weights implied by the posterior are the normalised inverse of risk aversion times covariance applied to the posterior returns, and sum to 1.",
  "inputs","all capitalisations (mapping or series in any order), covariances, risk aversions, rates, priors given explicitly, as market or as equal",
  "Matching by label and scaling errors only show for particular orders and values.",
  [BL],"market_implied_prior_returns(), market_implied_risk_aversion(), bl_weights(), prior parsing")
p("C23","Expected-return estimators equal their defining formulas",
  "For every price or return history, mean historical return is the compounded (or arithmetic) annualised mean, exponential return is the annualised exponentially weighted mean for the span, and the CAPM return is rate + beta times (market return - rate) with beta the covariance with the market over its variance and the market the equal-weighted average unless given; each value is labelled by its asset.",
  "inputs","all price/return histories up to 4 periods and 3 assets, with and without log returns, frequencies, spans and rates",
  "Tests pin values on one data set.",
  [ER],"mean_historical_return(), ema_historical_return(), capm_return(), return_model()")
p("C24","Price/return conversions are exact inverses and drop no data",
  "Simple returns are the ratio of consecutive prices minus 1 and log returns their logarithm, one per consecutive pair of periods; converting simple or log returns back to prices reproduces the price path relative to its value in the first row given, whose pseudo-price is 1, with the same rows and labels. Where prices are missing, a return is missing exactly when either of its two prices is.",
  "inputs","all positive price histories up to 4 periods and 2 assets, simple and log",
  "A round trip must hold for all values, including the first period.",
  [ER],"returns_from_prices(), prices_from_returns()")
p("C25","Historical covariance estimators equal their defining formulas",
  "Sample covariance is the unbiased covariance times frequency; semicovariance is the mean outer product of returns' shortfalls below the benchmark times frequency; exponential covariance is the exponentially weighted mean, for the span, of products of deviations times frequency; the minimum covariance determinant is the robust estimate of the complete periods times frequency; all are symmetric and labelled by the assets on both axes.",
  "inputs","all price/return histories up to 8 periods and 5 assets, frequencies, benchmarks and spans",
  "Tests pin values and shapes on one data set.",
  [RM],"sample_cov(), semicovariance(), exp_cov(), min_cov_determinant()")
p("C26","Repairing a covariance makes it positive semidefinite and spares good ones",
  "A matrix that is already positive semidefinite is returned unchanged; otherwise spectral repair keeps eigenvectors and non-negative eigenvalues and zeroes the negative ones, diagonal repair only increases the diagonal uniformly by about the most negative eigenvalue, and labels are kept.",
  "inputs","all symmetric 2x2 matrices (by spectral parameters), both methods, arrays and frames",
  "Indefinite inputs rarely appear in tests, and each has different eigenstructure.",
  [RM],"fix_nonpositive_semidefinite(), _is_positive_semidefinite()")
p("C27","Covariance and correlation conversions are mutually inverse",
  "Correlation from covariance divides each entry by the product of the two standard deviations, covariance from correlation multiplies them back, and converting there and back reproduces the covariance; labels are kept.",
  "inputs","all covariances up to 3 assets, arrays and frames",
  "Must hold identically; tests compare one matrix.",
  [RM],"cov_to_corr(), corr_to_cov()")
p("C28","Shrinkage estimators equal their published formulas, annualised and labelled",
  "Manual shrinkage is (1 - delta) times the sample covariance plus delta times the average variance times identity, and the Ledoit-Wolf variants shrink the covariance towards constant-variance, single-factor or constant-correlation targets with the published intensity limited to [0, 1]; results are annualised by the frequency once and labelled by the assets.",
  "inputs","all return histories up to 3 periods and 2 assets and shrinkage intensities",
  "Tests pin single values; the formulas have many terms that can compensate on one data set.",
  [RM],"CovarianceShrinkage methods")
p("C29","Greedy allocation never overspends and counts cash exactly",
  "For every set of weights, prices and budget, greedy long-only allocation buys a non-negative whole number of each asset with positive weight and none of others, the cost of the shares plus the leftover equals the budget, and the leftover is non-negative and too small to buy another share of any asset still below its target share of the value bought. Each asset first gets the whole shares that fit in its weight times the budget, and every further share goes to the affordable asset furthest below its target. Latest prices are each asset's last available price.",
  "inputs","all positive weights, prices and budgets within the stated share bounds, any label order and price container",
  "Rounding and the buy loop depend on exact relations between prices and cash.",
  [DA],"greedy_portfolio()")
p("C30","Linear-programme allocation minimises deviation plus leftover cash",
  "For every set of weights, prices and budget, the integer programme chooses whole share counts whose cost does not exceed the budget and that minimise leftover cash plus total absolute deviation from target amounts; each count is reported against its own asset whatever the order of labels, and the leftover reported is the budget minus the cost.",
  "inputs","all weights, prices, budgets, label orders and container types up to 3 assets",
  "Label order differences and non-binding slack only matter for particular inputs.",
  [DA],"lp_portfolio()")
p("C31","Long-short allocation splits into long and short books correctly",
  "With short positions, both allocators treat the shorts as a separate book of size short ratio (by default the total short weight) times the budget, with weights normalised within each book; the long book gets the budget, plus the short proceeds if reinvested; shares of shorted assets are reported negative, and the leftover is the sum over both books. Invalid budgets, short ratios and missing prices are rejected.",
  "inputs","all weights of mixed sign, short ratios, reinvest flags, prices and budgets up to 3 assets",
  "Tests use one mixed portfolio.",
  [DA],"long/short branches of both allocators, _remove_zero_positions, add-up of books")
p("C32","Inputs supplied by the caller are never modified",
  "No estimator, optimiser, allocator or Black-Litterman call changes the contents, labels or shape of any array, series, frame, list or dict passed in by the caller.",
  "inputs","all values of every container argument of the public entry points",
  "In-place edits are invisible to tests that build their inputs anew for each call.",
  [ER,RM,BL,DA,CLA,HP,EF,BO],"all public functions")
p("C33","Missing prices are handled pairwise and never spread to other assets",
  "Missing prices of one asset, leading or in between, do not change any other asset's expected return or the other assets' covariances, and its own figures use only its available periods, annualised by the number of periods actually available (semicovariance alone is a mean over all periods, so only the other assets' entries are stated for it).",
  "inputs","all price histories with each pattern of missing leading values and gaps within, up to 5 periods and 2 assets",
  "Tests have one pattern of missing data.",
  [ER,RM],"dropna / count handling in returns and covariance estimators")
p("C34","Model dispatchers select exactly the named estimator and pass on options",
  "Choosing a risk or return model by name gives the same result as calling the named estimator directly with the same options, and an unknown name raises NotImplementedError.",
  "inputs","every documented name, option values and data",
  "Aliases are only tested on one data set where several estimators may agree.",
  [RM,ER],"risk_matrix(), return_model()")
p("C35","Frontier plot data are the true risk and return of optimised portfolios",
  "Each point drawn for an efficient frontier is the volatility (or risk parameter) and return of the portfolio optimised for the corresponding parameter value, a parameter with no solution contributes no point, and default sweeps run from the minimum-risk to the maximum-return portfolio; finding the automatic sweep leaves the caller's optimiser ready for any objective. A plot is written to a file, at the resolution given, and shown exactly when asked for.",
  "inputs","all expected returns and covariances and every pattern of failing parameter values",
  "Failures at individual parameter values do not occur in the tests.",
  [PL],"_plot_ef(), _ef_default_returns_range(), plotting of points handed to the axes")
p("C36","Doubtful inputs are announced by the documented warning, sound ones by none",
  "A warning is given exactly when its cause is there: a missing return after an asset's first available one, or an infinite return, when returns are estimated; data that are not frames; periods with missing returns removed by an optimiser; a covariance that is not positive semidefinite; an exponential span below 10; a confidence level of at most 20 percent; sector constraints where some asset may be sold short; additional objectives in a maximum-Sharpe optimisation; Black-Litterman without a prior; capitalisations and covariances that cannot be matched by label.",
  "inputs","every pattern of missing cells and places of infinite returns in short histories, every value of each level, span, bound and matrix that decides a warning",
  "The warnings hang on data-dependent conditions that tests meet on one side only.",
  [ER,RM,EF,BO,BL],"warnings.warn call sites and the conditions around them")
p("C37","Printed reports state exactly the figures they describe",
  "With verbose reporting, every optimiser prints its returned return, risk and ratio (in percent where so marked, to the printed precision), nothing if there is no such figure; an allocation prints the funds left, each asset's weight in what was bought and its desired weight, and the root of the mean squared difference of these over all weights; without verbose reporting nothing is printed.",
  "inputs","all weights, returns, matrices, prices, budgets up to 3 assets; every class that reports",
  "Printed figures are not checked by tests at all.",
  [BO,SV,CV,CD,DA,CLA,HP,BL],"verbose branches of portfolio_performance(), _allocation_rmse_error()")
p("C38","Optimisers accept every documented input form and reject the rest",
  "Expected returns as series, list, array or none and covariances or returns as frame or array of matching sizes are accepted and held by position under the labels they carry; sizes that differ raise ValueError and other containers TypeError. Methods needing expected returns fail without them, methods a class does not offer raise NotImplementedError, constraints that are not callable raise TypeError, and a maximum-Sharpe rate must be a number below the best return; market neutrality cannot be switched between solves, and unknown plot parameters or objects are refused. The solver, verbosity and solver options given are used in every solve. A refusal leaves no trace on the optimiser.",
  "inputs","every combination of sizes 1-3 and containers with symbolic contents, every method and class",
  "The combinations of container, size and class are far more than the tests try.",
  [EF,BO,SV,CV,CD,CLA,PL],"constructors, _validate_*() helpers, NotImplementedError overrides")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
