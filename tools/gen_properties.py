"""writes /verif/properties.jsonl (single source for ids, titles and statements)"""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

T = "The test-suite only compares first-order policy matrices of five fixed models; "

add("C01", "Expressions are parsed and evaluated by ordinary arithmetic rules",
    "Parsing and evaluating a mathematical expression yields the value ordinary mathematics gives it: ^ (or **) binds tighter than unary signs, which bind tighter than * and /, then + and -, then one comparison; ^ is right-associative, the other binary operators left-associative, parentheses and function calls group. This holds alike for free-standing expressions and for the equations of a model. Input that is not a single well-formed expression is rejected with an error instead of being silently truncated or reinterpreted.",
    ["inputs", "programs"], "every expression (up to the stated number of tokens) and every value of the numbers and variables in it",
    T + "their equations exercise a few operator combinations, never unary signs after ^ or / nor malformed input.",
    ["pynare/parsing/parser.py", "pynare/parsing/base.py", "pynare/parsing/api.py", "pynare/core/expressions.py"],
    [("recursive-descent expression grammar", "pynare/parsing/parser.py: BaseParser/DynareParser"), ("tree evaluator", "pynare/parsing/base.py: _BaseEvaluator")],
    observe=["pynare.parse_string", "pynare.evaluate", "ModelExprs.parse"])
add("C02", "Tokenising loses nothing, ignores comments and always terminates",
    "For every text, tokenising terminates and either raises a syntax error or returns the tokens of the text in order: identifiers, numbers with their decimal value, strings, and operators, each exactly once. White space and comments (from % or // to the end of the line, and from /* to the next */) separate tokens and otherwise have no effect on the result, wherever they stand.",
    ["inputs"], "every text up to the stated length over the stated alphabet",
    T + "the few model files have well-behaved comments that end with a newline and contain no '*' or '/'.",
    ["pynare/parsing/lexer.py", "pynare/parsing/base.py"],
    [("character dispatch", "pynare/parsing/lexer.py: BaseLexer.next_token"), ("comment skipping", "pynare/parsing/lexer.py: DynareLexer.skip_*")],
    observe=["token stream"])
add("C03", "A model file is read faithfully or rejected",
    "Reading a model file yields exactly what it declares: the endogenous, stochastic, deterministic variables and parameters in declaration order, each equation, each model-local definition, each boundary value under its own kind (initial, terminal, historical) and each shock's variance (standard errors squared), correlation or covariance. Blocks that are optional may be left out, in any order, without changing the rest. A file that cannot be read is rejected with an error; reading always terminates.",
    ["inputs", "programs"], "every choice of optional blocks, declaration order and numeric values within the template bounds",
    T + "their model files use one block order, no terminal or historical values, no correlated shocks.",
    ["pynare/parsing/parser.py", "pynare/parsing/semantics.py", "pynare/parsing/factory.py", "pynare/core/model.py"],
    [("model-file grammar", "pynare/parsing/parser.py: DynareParser"), ("outline construction", "pynare/parsing/factory.py: DynareModelFactory"), ("declaration checks", "pynare/parsing/semantics.py")],
    observe=["read_model outline", "Model.from_path attributes"])
add("C04", "Model residuals use the right variable, period and parameter value",
    "Evaluating a model's dynamic equations at a point returns, equation by equation, left side minus right side with every lagged, current and led endogenous variable, every shock, every parameter and every model-local definition replaced by its own value. Evaluating the steady-state equations returns the same with every period of a variable set to its steady value and every shock set to zero. A lead or lag the library does not support is rejected, never silently read as another period.",
    ["programs", "inputs"], "every pattern of periods in which the variables appear, every variable naming within the bounds, and every value",
    T + "a wrong variable or period in a pattern those models lack goes unseen.",
    ["pynare/core/expressions.py", "pynare/core/variables.py"],
    [("argument naming and substitution", "pynare/core/expressions.py: dynamic_func, steady_func"), ("lead-lag incidence", "pynare/core/variables.py: VariableIndexManager")],
    observe=["Model.dynamic_repr(point)", "Model.steady_repr(point)"])
add("C05", "Variable classification and column indices are consistent",
    "For every pattern of lags and leads, each endogenous variable belongs to exactly one of the classes static, purely backward, mixed and purely forward, and the reported counts equal the class sizes. The decision-rule order is a permutation of the variables that lists these classes in that order, and the declaration order is its inverse. Every period-wise index selects precisely the Jacobian columns of the variables of its class at that period, in the order of its list.",
    ["programs", "configurations"], "every lead/lag incidence pattern within the stated number of variables",
    T + "only five incidence patterns ever occur.",
    ["pynare/core/variables.py"],
    [("incidence array and orderings", "pynare/core/variables.py: VariableIndexManager"), ("class selectors", "pynare/core/variables.py: VariableTyper, TimedLLX")],
    observe=["Model.indexes"])
add("C06", "Jacobian and Hessian hold the model's derivatives in the right places",
    "Entry (i, j) of the dynamic Jacobian is the partial derivative of equation i with respect to the j-th dynamic argument (lagged, then current, then led endogenous variables in declaration order, then shocks) at the steady state with shocks at zero. The Hessian holds the second derivatives in the same order, row-major over argument pairs, and the steady Jacobian the derivatives of the steady equations.",
    ["programs", "inputs"], "every steady state and parameter value, every incidence pattern within the bounds",
    T + "no Hessian is ever checked and no misplacement that cancels in a first-order solution is visible.",
    ["pynare/core/linearizing.py", "pynare/core/expressions.py"],
    [("steady-state tiling and row-wise assembly", "pynare/core/linearizing.py")],
    observe=["Model.jacobian.array", "Model.hessian.array", "Model.steady_repr.jacobian.array"])
add("C07", "The shock covariance matrix reflects every declared moment",
    "The shock covariance matrix has the declared variance of shock i at (i, i) (one for an undeclared shock), the declared covariance of two shocks at both of their positions, or the declared correlation times both standard deviations, and zero elsewhere. It does not depend on the order in which the shocks or the moments are declared, and is available as soon as a model exists.",
    ["inputs", "configurations"], "every set of declarations within the stated number of shocks and every value",
    T + "no test model has a covariance or correlation.",
    ["pynare/core/generic.py", "pynare/core/variables.py", "pynare/parsing/factory.py"],
    [("covariance assembly", "pynare/core/generic.py: DynamicModel._define_sigma"), ("shock variables", "pynare/core/variables.py: StochVar")],
    observe=["Model.sigma"])
add("C08", "Parameter calibration is order-independent, consistent and isolated",
    "A parameter defined by an expression always has the value of that expression at the current values of the other parameters, whatever the declaration order and after any sequence of updates and deletions. Circular or undefined definitions raise an error and leave the previous calibration unchanged. Changing the parameters of one model, or of the mapping it was built from, never changes another model.",
    ["histories", "inputs"], "every dependency graph within the stated number of parameters, every sequence of updates up to the stated length, every value",
    T + "parameters are set once and never updated.",
    ["pynare/core/variables.py", "pynare/core/generic.py", "pynare/core/model.py"],
    [("dependency ordering", "pynare/core/variables.py: order_precedence, solve_calibration"), ("mapping interface", "pynare/core/variables.py: ModelCalibration")],
    observe=["Model.params", "ModelCalibration"])
add("C09", "The steady state is sought as a root of the steady equations",
    "The steady state is computed by minimising a function that equals the sum of squares of all steady-state equations, so that it is zero exactly at a steady state, starting from the model's declared initial values in declaration order (zero where none is declared). What is reported as steady values and results is what that minimisation returned, and options given by the caller reach the minimiser.",
    ["inputs", "configurations"], "every point, every set of initial values, every documented method",
    T + "for those models nearly any start reaches the steady state.",
    ["pynare/core/steady.py", "pynare/core/generic.py", "pynare/core/variables.py"],
    [("objective and start point", "pynare/core/steady.py"), ("initial values", "pynare/core/generic.py: StructuredModel.initial")],
    observe=["Model.ss.values", "Model.ss.compute"])
add("C10", "The first-order solution solves the linearised model",
    "Whenever the Blanchard-Kahn conditions hold, the first-order policy matrices make the linearised model hold identically: substituting y_t = gy x_{t-1} + gu u_t and the same rule one period ahead into every linearised equation leaves zero, for all lagged states and shocks, with the transition of the states having only the stable eigenvalues. Models with the wrong number of unstable eigenvalues are reported as such by verification.",
    ["inputs", "configurations"], "every Jacobian satisfying the conditions for the listed variable-class patterns, including negative and infinite eigenvalues",
    T + "five numeric Jacobians with positive eigenvalues and two to four class patterns.",
    ["pynare/core/solve/first_order.py", "pynare/core/solve/statespace.py", "pynare/utils/numpy.py"],
    [("structural state space", "pynare/core/solve/statespace.py"), ("QZ partition", "pynare/utils/numpy.py: partitioned_qz"), ("policy functions", "pynare/core/solve/first_order.py")],
    observe=["Model.solve(order=1).gy/.gu", "Model.statespace"])
add("C11", "The second-order solution solves the second-order expansion",
    "The second-order policy arrays make the second-order Taylor expansion of every equation hold: the coefficients on state-state, state-shock and shock-shock products, and the constant shift due to the shock covariance, satisfy their equations for every Jacobian, Hessian, first-order solution and covariance. The stored arrays are the coefficients that multiply the Kronecker products directly, i.e. one half of the second derivatives for the pure terms and for the constant.",
    ["inputs", "configurations"], "every Jacobian, symmetric Hessian, policy matrix and covariance for the listed variable-class patterns",
    T + "no second-order array is compared with anything.",
    ["pynare/core/solve/second_order.py", "pynare/utils/numpy.py"],
    [("systems for ghxx, ghxu, ghuu, del2", "pynare/core/solve/second_order.py")],
    observe=["Model.solve(order=2).arrays"])
add("C12", "Matrix helpers compute what they document",
    "The generalised Sylvester solver returns X with A X B' + C X D' = E; the helper for A kron(B, C) returns that product, the shingle merge keeps every row of its first argument and the uncovered rows of its second, and the scalar-tolerant product, two-dimensional coercion and concatenation preserve every entry and its position. This holds for every documented shape, single rows and columns included.",
    ["inputs"], "every entry value for the stated shapes, with real and complex eigenvalue blocks",
    T + "they reach the helpers only through the fixed shapes of five first-order solutions.",
    ["pynare/utils/numpy.py"],
    [("generalised Sylvester solver", "pynare/utils/numpy.py: generalized_sylvester"), ("shape helpers", "pynare/utils/numpy.py")],
    observe=["pynare.utils.numpy functions"])
add("C13", "Simulated paths follow the solved decision rule",
    "A simulated path starts at the given initial values (the steady state by default) and each later period equals the solved decision rule, at the order it was solved, applied to the previous period's states and that period's innovations: linear at first order, and with all quadratic terms and the constant shift at second order. Every entry is reported for its own variable in declaration order, in levels, and unit innovations are scaled and correlated by the declared shock covariance.",
    ["inputs", "configurations"], "every policy array, steady state, initial value and shock path for the stated sizes",
    T + "nothing is ever simulated.",
    ["pynare/simul.py"],
    [("first- and second-order recursions", "pynare/simul.py: LinearSimulator"), ("innovations", "pynare/simul.py: _generate_simul_shocks")],
    observe=["Model.simulate(...).paths"])
add("C14", "Impulse responses isolate one shock of the requested size",
    "An impulse response is the simulated deviation from the steady state when only the requested shock (the first by default) is hit, once, by the requested number of standard deviations, and starts from the steady state. At first order it is proportional to the size, and it traces the policy matrices: the impact response, then its propagation through the states, each for its own variable.",
    ["inputs", "configurations"], "every policy array, shock choice and size for the stated sizes and horizon",
    T + "no impulse response is computed.",
    ["pynare/impulse.py", "pynare/simul.py"],
    [("shock placement and differencing", "pynare/impulse.py: impulse_response")],
    observe=["Model.impulse_response(...).impulse"])
add("C15", "Theoretical moments are those of the solved process",
    "The reported covariance matrix C is the stationary covariance of the first-order decision rule: C = G C G' + R S R' in declaration order, symmetric; variances, standard deviations and correlations derive from it. The i-th entry of the autocovariances is G to the power i+1 times C, and autocorrelations divide by the standard deviations. The mean is the steady state at first order, and at second order adds the stationary expectation of the quadratic terms and constant of the same decision rule that is simulated.",
    ["inputs"], "every policy array and covariance for the stated sizes and lags",
    T + "no moment is computed.",
    ["pynare/stats/moments.py", "pynare/core/solve/statespace.py"],
    [("moment formulas", "pynare/stats/moments.py"), ("state variance", "pynare/core/solve/statespace.py: StateSpace.sigma")],
    observe=["Model.stats.mean/var/std/cov/corr/autocov/autocorr"])
add("C16", "Variance decompositions attribute all variance to its shocks",
    "Each row of a variance decomposition is non-negative and sums to one, and entry (i, j) is the share of variable i's stationary variance that the j-th (orthogonalised) shock alone generates. Restricting to named variables or shocks returns exactly the rows or columns of those names, in the requested order, and an unknown name is rejected.",
    ["inputs"], "every policy array and covariance for the stated sizes, every selection of names",
    T + "no decomposition is computed.",
    ["pynare/stats/var.py"],
    [("per-shock variance", "pynare/stats/var.py: var_decomp")],
    observe=["Model.stats.var_decomp"])
add("C17", "One-constraint piecewise paths obey regimes and the constraint",
    "When the one-constraint algorithm reports convergence, each period's expected path satisfies the linearised equations of the regime assigned to each future period, ends in the reference regime, and the assignment agrees with the constraint: the alternative regime holds exactly where the binding condition calls for it and is left where the relaxing condition holds. The reported path starts at the given initial point, chains each period from the previous one under its own shock, and continues the last expected path once the shocks run out. If it does not converge a warning says so.",
    ["inputs", "histories"], "every shock sequence and initial point, and every coefficient in the scalar case, for the stated horizons and iteration counts",
    T + "no piecewise solution is computed.",
    ["pynare/core/solve/binding.py"],
    [("guess-and-verify loop", "pynare/core/solve/binding.py: solve_occbin_one_constraint"), ("backward recursion", "pynare/core/solve/binding.py: _simulate_hypothesized_paths")],
    observe=["Model.solve(constraint=...).paths"])
add("C18", "Two-constraint piecewise paths obey regimes and both constraints",
    "When the two-constraint algorithm reports convergence, each period's expected path satisfies the linearised equations of the one of four regimes assigned to it (neither, first, second or both binding), and for both constraints the assignment agrees with its binding and relaxing condition. The path starts at the initial point, chains period by period under its own shock, and continues the last expected path once the shocks run out; failure to converge is warned about.",
    ["inputs", "histories"], "every shock sequence and initial point, and every coefficient in the scalar case, for the stated horizons and iteration counts",
    T + "no piecewise solution is computed.",
    ["pynare/core/solve/binding.py"],
    [("guess-and-verify loop", "pynare/core/solve/binding.py: solve_occbin_two_constraints"), ("backward recursion", "pynare/core/solve/binding.py: _simulate_hypothesized_paths_two_constraints")],
    observe=["Model.solve(constraint=...).paths"])
add("C19", "Constraints read the variables they name; regime models share a baseline",
    "Evaluating an occasionally binding constraint on a path compares, period by period and for each constraint in its own rows, the named variables and parameters as the condition says. An alternative regime differs from the baseline exactly in the replaced equations, keeping variables, parameters, model-local definitions, shocks and boundary values, and building regimes or copies never alters the model they were made from.",
    ["inputs", "configurations"], "every path value, every condition in the stated grammar, every replaced equation",
    T + "neither constraints nor copies are exercised.",
    ["pynare/core/solve/binding.py", "pynare/regimes.py", "pynare/core/generic.py", "pynare/core/expressions.py"],
    [("constraint evaluation", "pynare/core/solve/binding.py: Constraint"), ("copying", "pynare/core/generic.py: DynamicModel.copy"), ("regimes", "pynare/regimes.py")],
    observe=["Constraint(paths)", "RegimeSwitchingModel", "Model.copy"])
add("C20", "Solution summaries label every coefficient correctly",
    "In the printed summary of a first- or second-order solution, each number stands in the column of its variable and the row of its steady value, lagged state, shock, or pair of these, and equals the corresponding entry of the policy arrays. No row with an entry whose absolute value reaches the display threshold is left out.",
    ["inputs", "configurations"], "every policy array value for the stated incidence patterns and thresholds",
    T + "no summary is printed.",
    ["pynare/io/summary.py"],
    [("row and column ordering", "pynare/io/summary.py: FirstOrderSummary, SecondOrderSummary"), ("number table", "pynare/io/summary.py: _summarize_array")],
    observe=["str(solution.summary())"])
add("C21", "Model and statistics summaries report the model's own numbers",
    "The model summary and the statistics summary print, next to each label, that very quantity of the model: variable counts, eigenvalues with their moduli, the shock covariance, parameter values, means, standard deviations, variances, correlations, autocorrelations and variance shares, each in the row and column of the variable, shock or lag it belongs to. Restricting a summary to some features prints those features and no others.",
    ["inputs", "configurations"], "every value of the underlying quantities for the stated sizes",
    T + "no summary is printed.",
    ["pynare/io/summary.py", "pynare/stats/stats.py"],
    [("feature blocks", "pynare/io/summary.py: ModelSummary, ModelStatisticsSummary")],
    observe=["str(model.summary())", "str(model.stats.summary())"])
add("C22", "Sample statistics of a simulation describe its paths",
    "The correlation table of a simulation is the sample correlation of its paths after dropping the requested number of first periods: symmetric, one on the diagonal, entry (i, j) built from variables i and j. The autocorrelation table holds for each variable and lag k the sample covariance with its own k-th lag over its sample variance. Impossible requests (negative or too long drops, too many lags) are rejected.",
    ["inputs"], "every path value for the stated lengths, every number of dropped periods and lags",
    T + "no simulation statistic is computed.",
    ["pynare/simul.py"],
    [("sample moments", "pynare/simul.py: ModelSimulation.corr, autocorr")],
    observe=["ModelSimulation.corr", "ModelSimulation.autocorr"])
add("C23", "A changed model behaves like a freshly built one",
    "After adding or replacing variables, parameters, equations or shocks (by the model's methods, or in place followed by update()), every derived object of the model (residuals, indices, Jacobian, covariance, steady equations, solution) equals that of a model built from scratch with the same content. Name lookups return the position of each requested name in the order asked for and reject unknown names.",
    ["histories"], "every sequence of edits within the bounds and every value",
    T + "models are never edited.",
    ["pynare/core/generic.py", "pynare/core/expressions.py", "pynare/core/variables.py"],
    [("staleness flag and update", "pynare/core/generic.py"), ("equation list", "pynare/core/expressions.py: ModelExprs"), ("name lookup", "pynare/core/variables.py: VarArray.get_loc")],
    observe=["Model after edits", "ModelExprs list operations"])
add("C24", "The Kalman filter computes the Gaussian likelihood recursion",
    "The filter's one-step prediction, forecast-error variance and updating follow the Kalman recursion for the given transition, measurement and innovation matrices, and the log-likelihood it returns is the Gaussian prediction-error decomposition of the data. Data columns are matched to the observed variables they are labelled with. An observed model is the given model plus one variable and one equation per observed series, and making or changing it leaves the given model as it was.",
    ["inputs", "configurations"], "every data set and system matrix for the stated sizes, every order of labels",
    T + "the filters are never run.",
    ["pynare/stats/filters.py", "pynare/stats/observation.py", "pynare/utils/numpy.py"],
    [("recursions", "pynare/stats/filters.py"), ("observed models", "pynare/stats/observation.py"), ("data labels", "pynare/stats/filters.py: ModelFilter")],
    observe=["pynare.stats filters"])
add("C25", "Plots show every series once under its own label",
    "Plotting simulated paths or impulse responses draws each variable's series exactly once, with the label of that variable on the same axes, for every layout; the rectangular layout has exactly as many axes as series, and the square and column layouts have room for all of them.",
    ["inputs", "configurations"], "every number of series within the bounds, every layout",
    T + "nothing is plotted.",
    ["pynare/plotting/base.py", "pynare/simul.py", "pynare/impulse.py"],
    [("axes arrangement", "pynare/plotting/base.py: PynarePlot")],
    observe=["axes returned by plot()"])
add("C26", "Printed equations read back as the same equations",
    "Printing a model's equations lists every equation exactly once, in the order of the model, as text that reads back as the same equation: whether it was given as text with or without an equals sign, as a parsed tree or in a model file, and after equations were replaced, inserted, appended, deleted or copied.",
    ["inputs", "histories"], "every equation built from the token shapes within the bounds, and every value of its variables",
    T + "nothing is printed.",
    ["pynare/core/expressions.py"],
    [("printing", "pynare/core/expressions.py: ModelExprs.__str__"), ("text of parsed equations", "pynare/core/expressions.py: ExprText")],
    observe=["str(model.exprs)"])
add("C27", "Solutions, simulations and responses are the ones that were asked for",
    "In every history of requests and edits: solve returns the solution of the order asked for (second order when none is named, other orders are rejected and change nothing), solution, solution_order and first_order_solution report the latest one, simulate uses the order it is given, or else the existing solution, or else the default; impulse responses and moments use the existing solution or else the default; and every answer is that of the model as it is after the latest edit, with parameters, equations, variances and copies taken into account, so that the computed response coefficients, paths, responses and moments are those of its equations.",
    ["histories", "inputs"], "every sequence of requests and edits of the stated length, every parameter value",
    T + "a model is solved once and only its first-order arrays are compared.",
    ["pynare/core/model.py", "pynare/simul.py", "pynare/impulse.py", "pynare/core/solve"],
    [("requests", "pynare/core/model.py: Model.solve, solution, first_order_solution"), ("simulation order", "pynare/simul.py: simulate"), ("moments", "pynare/stats")],
    observe=["Model.solve", "Model.solution", "Model.simulate", "Model.impulse_response", "Model.stats"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
