#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=None)))


M = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearize.py'; LM = 'do_mpc/model/_linearmodel.py'
DAE = 'do_mpc/model/_dae2odeconversion.py'; IT = 'do_mpc/model/_iteratedvariables.py'
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; LQR = 'do_mpc/controller/_lqr.py'
MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'; DATA = 'do_mpc/data.py'; GR = 'do_mpc/graphics.py'
DIF = 'do_mpc/differentiator/_nlpdifferentiator.py'; ONNX = 'do_mpc/sysid/_onnxconversion.py'
SP = 'do_mpc/sampling/_samplingplanner.py'; SA = 'do_mpc/sampling/_sampler.py'; DH = 'do_mpc/sampling/_datahandler.py'
ST = 'do_mpc/tools/_structure.py'; IP = 'do_mpc/tools/_indexedproperty.py'
UA = ['do_mpc/opcua/_base.py', 'do_mpc/opcua/_server.py', 'do_mpc/opcua/_client.py', 'do_mpc/opcua/_helper.py']

# ---------------------------------------------------------------- model
prop('M01', 'A set-up model evaluates exactly the equations the user declared',
     'For every model built through the public declaration calls, the right-hand side, algebraic, auxiliary and measurement equations of the set-up model, evaluated at any point, equal the user\'s expressions at that point. Process and measurement noise enter additively, only in the equations that were declared noisy, and undeclared measurements default to the full state.',
     ['programs', 'inputs'], 'all models (SX and MX, discrete and continuous, any number, shape and declaration order of x/u/z/p/tvp, expressions, measurements, noise flags) and all evaluation points',
     'The tests build a dozen fixed example models and look only at closed-loop results; a mix-up between two variables of one kind, an off-by-one in a vector state or a wrong noise flag in other shapes or orders is never sampled.',
     [M], [('set_variable/set_rhs/set_alg/set_meas/set_expression', M), ('setup: substitution of user symbols by structure entries', M)],
     ['Model._rhs_fun, _alg_fun, _meas_fun, _aux_expression_fun evaluated numerically', 'Simulator.make_step'])
prop('M02', 'Model handles stay valid and models survive pickling unchanged',
     'The symbols returned while declaring a model and the ones read back by name (model.x[name], model[\'x\']) denote the same variables before and after setup, so an expression written with either gives the same result in a controller, estimator or simulator. A set-up SX model that is pickled and restored has the same variables, labels, sizes, equations and linearizations as the original.',
     ['programs', 'inputs'], 'all generated models, all handles, all evaluation points, before/after setup and after one or more pickle round trips',
     'The tests pickle two fixed models and re-run one example.', [M], [('_getvar / _substitute_exported_vars', M), ('__getstate__/__setstate__', M)],
     ['casadi.Function built from the handles', 'pickle.dumps/loads of a Model'])
prop('L01', 'Linearization returns the true Jacobians at the requested point',
     'The system matrices and the linear model obtained from a nonlinear model equal the derivatives of its right-hand side and measurement equations with respect to states and inputs at the given operating point (state, input, algebraic state, parameter, time-varying parameter). The linear model keeps variable names, order and shapes, and simulating it near the operating point reproduces the deviation dynamics to first order.',
     ['programs', 'inputs'], 'all generated SX models without algebraic states for linearize (with them for the matrices), all operating points',
     'Tests linearize two fixed models at one set-point and only look at the LQR result.', [M, LIN, LM], [('get_linear_system_matrices', M), ('linearize', LIN), ('LinearModel.setup', LM)],
     ['Model.get_linear_system_matrices', 'do_mpc.model.linearize(...).sys_A/B/C/D'])
prop('L02', 'Discretizing a linear model is exact at the sampling instants',
     'Discretizing a continuous linear model for any sampling time gives a discrete linear model whose states, under inputs held constant between samples (zero-order hold, the default), equal those of the continuous model at the sampling instants; the other supported conversion methods give the matrices of that method. The output equation (including direct feed-through) and the names, order and shapes of states and inputs are kept.',
     ['inputs', 'configurations'], 'all linear models (stable, unstable, singular A, any sizes, with C and/or D), all sampling times, all conversion methods',
     'One fixed CSTR model with one sampling time is discretized in the tests.', [LM], [('LinearModel.discretize', LM)], ['LinearModel.discretize(t_step).sys_A/B/C/D', 'Simulator on both models'])
prop('L03', 'Steady states and DAE-to-ODE conversion agree with the model equations',
     'The steady state computed by a linear model for a given input (or the input for a given state) makes the model stationary, and is only refused when it is not unique. The ODE model converted from a continuous index-1 DAE model reproduces, from consistent initial values, the trajectories of the DAE model; names and shapes of the original states are kept and the original inputs and algebraic states become states.',
     ['programs', 'inputs'], 'all linear models with a unique steady state; all semi-explicit index-1 DAE models, inputs and parameters',
     'Tests convert one DAE model for one LQR run.', [LM, DAE], [('get_steady_state', LM), ('dae2odeconversion', DAE)], ['LinearModel.get_steady_state', 'do_mpc.model.dae2odeconversion'])
# ---------------------------------------------------------------- simulator
prop('S01', 'A simulation step is the true solution of the model over one sampling interval',
     'For any model, a simulator step from state x0 with input u0 returns the exact next state of the declared dynamics: the mapped state of a discrete model, the solution of the ODE/DAE over one sampling time within integrator tolerance, with algebraic states satisfying their equations. Process noise, parameters and time-varying parameters of that instant enter as declared, and the returned measurement is the measurement equation plus the supplied measurement noise.',
     ['programs', 'inputs', 'configurations'], 'all generated discrete/continuous (DAE) models, states, inputs, parameters, noise, sampling times and integration tools',
     'The tests simulate fixed examples and compare against stored trajectories for one input sequence.', [SIM], [('setup: integrator / rootfinder', SIM), ('simulate/make_step', SIM)], ['Simulator.make_step return value', 'Simulator.data', 'Simulator.x0, z0'])
prop('S02', 'A simulation history is the chain of its steps, recorded as executed',
     'Over any sequence of steps, resets and assignments of the initial state, step k starts from the state reached by step k-1 (or last assigned), uses the parameters its callbacks give for exactly that time, and the clock advances by one sampling time. The recorded data hold, row by row, the time, state, input, parameters, auxiliary and measured values of each step, and resetting the history restarts the clock at zero and empties the record while the current state is kept.',
     ['histories', 'inputs'], 'all sequences of make_step / reset_history / x0,u0,z0,t0 assignment / callback changes',
     'Tests run straight closed loops; resets between or after steps, reassignments and time-dependent callbacks are not combined.', [SIM, IT, DATA], [('make_step bookkeeping', SIM), ('reset_history', SIM), ('x0/u0/z0/t0 setters', IT)], ['Simulator.data[...]', 'Simulator.t0, x0'])
# ---------------------------------------------------------------- MPC
prop('S03', 'Initialized algebraic variables solve the equations of the current instant',
     'init_algebraic_variables returns algebraic values which satisfy the declared algebraic equations for the current state, input, time and the parameters and time-varying parameters given by the callbacks for this time, close to the guess z0 where several solutions exist. They become z0 and the start values of the next step, which continues on this solution; state, input, clock and record are left unchanged.',
     ['inputs', 'histories', 'programs'], 'all generated DAE models, states, inputs, times, guesses and orders of assignments, steps and initializations',
     'No test calls the method with parameters, time-varying parameters or several solutions.',
     ['do_mpc/simulator.py'],
     [('init_algebraic_variables', 'do_mpc/simulator.py'), ('set_initial_guess', 'do_mpc/simulator.py')],
     ['return value of init_algebraic_variables', 'Simulator.z0', 'result of the next step'])

prop('C01', 'The MPC input is the optimum of the documented optimal control problem',
     'For any model and configuration, the returned input and predicted trajectories satisfy the initial state, dynamics, bounds, terminal bounds and (soft) nonlinear constraints when re-evaluated outside the controller, and minimise stage cost + terminal cost + input-rate penalty + slack penalty as documented. No feasible plan for the same problem has a smaller objective (for problems with a unique optimum).',
     ['configurations', 'inputs', 'programs'], 'all small generated problems: horizons, costs, rate penalties (default and user-defined), bounds, hard/soft constraints, parameters, time-varying parameters, algebraic states, initial states and previous inputs',
     'Tests replay six examples with one configuration each and compare with stored results.', [MPC, OPT], [('_prepare_nlp', MPC), ('set_objective/set_rterm', MPC), ('set_nl_cons/_setup_nl_cons', OPT), ('bounds/terminal_bounds', OPT)], ['MPC.make_step', 'MPC.opt_x_num_unscaled', 'MPC.solver_stats'])
prop('C02', 'Multi-stage MPC optimises over exactly the documented scenario tree',
     'With uncertain parameter values and a robust horizon, the plan branches into all value combinations at each of the first n_robust stages and then keeps each scenario\'s parameter; every branch obeys the dynamics and constraints with its own parameter, inputs planned at the same node coincide, and with open_loop all scenarios share one input. Stage and terminal cost weight the scenarios of a stage equally (input-rate and slack penalties are added up per branch) and the returned input is the optimum of that tree problem.',
     ['configurations', 'inputs'], 'all combinations of number of uncertain parameters and values, n_robust from 0 to the horizon, open_loop, soft constraints, costs and models',
     'The tests contain one n_robust=1 tree with fixed values.', [MPC, OPT], [('_setup_scenario_tree', OPT), ('_prepare_nlp', MPC), ('set_uncertainty_values/get_p_template', MPC)], ['MPC.opt_x_num_unscaled', 'MPC.opt_p_num', 'MPC.make_step'])
prop('C03', 'Scaling changes the numerics, never the physical result, of MPC and MHE',
     'For any positive scaling of states, inputs, algebraic states or estimated parameters, all quantities the user passes in or reads back stay in physical units and the optimal input, estimates, predictions and objective equal those of the unscaled problem (up to solver tolerance; only the default quadratic input-rate factor refers to the scaled inputs). Bounds, initial guesses and runtime bound changes are interpreted physically.',
     ['configurations', 'inputs'], 'all scaling vectors (scalar and vector variables) crossed with constraint, cost, robustness and noise options',
     'Tests use at most one fixed scaling per example and never compare with the unscaled problem.', [OPT, MPC, MHE], [('scaling property', OPT), ('opt_x_scaling / opt_x_unscaled', MPC), ('opt_x_scaling', MHE)], ['make_step of scaled and unscaled twin', 'opt_x_num_unscaled', 'data.prediction'])
prop('C04', 'Predictions of continuous models follow the true solution of the model',
     'For continuous (ODE and DAE) models, the state and algebraic trajectories an optimizer predicts equal the true solution of the model under the planned piecewise-constant inputs, up to the order of the selected collocation scheme, for every choice of collocation type, degree and number of finite elements. Refining the scheme converges to the true solution.',
     ['configurations', 'programs', 'inputs'], 'all collocation types, degrees 1..5, finite elements 1..3, sampling times, generated ODE/DAE models, MPC and MHE',
     'Each example uses one collocation setting and is compared only with its own stored result.', [OPT], [('_setup_discretization', OPT)], ['MPC.opt_x_num_unscaled[\'_x\', k, s, -1]', 'collocation points'])
prop('C05', 'Closed-loop MPC carries exactly the right state from step to step',
     'Across any sequence of control steps, the k-th call solves the problem for the state passed in, for the time t0 + k*t_step, with the time-varying and uncertain parameters the callbacks return for that time, and with the previously applied input as reference of the input-rate penalty; results do not depend on warm starts or on how earlier steps were interleaved with resets, bound changes or other controllers. The record holds every step as executed, and resetting restarts time and record.',
     ['histories', 'inputs'], 'all sequences of make_step / reset_history / u0,x0,t0 assignment / bound changes / set_initial_guess',
     'Tests run one closed loop of a few steps with constant parameters.', [MPC, OPT, IT, DATA], [('make_step', MPC), ('_update_bounds', MPC), ('reset_history', OPT)], ['MPC.make_step', 'MPC.opt_p_num', 'MPC.data', 'MPC.t0'])
prop('C06', 'Stored predictions are the solution of the step they are asked for',
     'For every recorded control step, any prediction query by variable type, name and element returns exactly the state, input, algebraic, auxiliary or time-varying parameter trajectory of that step\'s optimal solution, per horizon stage and per scenario of the tree, in physical units.',
     ['histories', 'inputs', 'configurations'], 'all query indices, time indices, scenario trees, scalar/vector variables, before and after save/load',
     'Tests only store results; no test compares a prediction query with the solution.', [DATA, MPC], [('MPCData.prediction', DATA), ('_prepare_data', OPT)], ['MPC.data.prediction'])
prop('C07', 'Constraints hold at every point the settings promise',
     'Bounds on inputs hold at every stage, bounds on states at the stages after the initial one (at the last stage the terminal bounds, if these are enabled; unset ones default to the state bounds), bounds on algebraic states and nonlinear constraints in every interval, and all of them also at the collocation points when the corresponding point-wise setting is on, for every scenario; and soft constraints are violated by at most the declared maximum, at the declared penalty. Changing bounds at runtime takes effect in the next step and for nothing but the variable changed.',
     ['configurations', 'inputs', 'histories'], 'all combinations of cons_check_colloc_points, nl_cons_check_colloc_points, nl_cons_single_slack, soft constraints, bound updates (scalar/vector), models with active constraints, MPC and MHE',
     'The examples have few active constraints, and only default point settings.', [MPC, MHE, OPT], [('_update_bounds', MPC), ('_update_bounds', MHE), ('nl_cons loops', MPC)], ['opt_x_num_unscaled at all collocation points', 'MPC.bounds / terminal_bounds'])
prop('C08', 'Low-level interface, storage and compilation options solve the composed problem',
     'Between prepare_nlp and create_nlp, terms added to nlp_obj over opt_x (scaled), opt_x_unscaled (physical) and opt_p, constraints appended to nlp_cons with their bounds, and single bounds set with lb_opt_x / ub_opt_x (in physical units) are part of every problem solved afterwards, for exactly the addressed variables, next to the unchanged problem configured before; afterwards objective and constraints cannot be changed. Creating the problem in two steps, writing opt_p_num and calling solve(), and options which concern storage, solver statistics, expansion or a compiled problem (compile_nlp: fresh, existing or overwritten library, of this or another optimizer, in any order; a failed compilation is reported and changes nothing) give the results of the plain object. Stored solutions, multipliers (satisfying the optimality conditions) and statistics are those of their step.',
     ['configurations', 'programs', 'inputs'], 'all generated MPC and MHE problems x added terms/constraints/single bounds x storage, statistics and compilation options', 'No test uses the low-level interface, compile_nlp or other statistics than the default.', [OPT, MPC, MHE, DATA],
     [('nlp_obj/nlp_cons/lb_opt_x/ub_opt_x/prepare_nlp/create_nlp/compile_nlp/solve', OPT), ('_prepare_nlp/_create_nlp/make_step', MPC), ('_prepare_nlp/_create_nlp/make_step', MHE), ('update', DATA)],
     ['MPC.opt_x_num_unscaled', 'MPC.make_step', 'MHE.make_step', 'MPC.data fields _opt_x_num, _lam_g_num, return_status'])
# ---------------------------------------------------------------- MHE
prop('H01', 'The estimator reproduces noise-free data exactly',
     'If the measurements and inputs of a window were produced by the model itself and the prior is correct (or carries negligible weight while the window determines the state), the estimated states, algebraic states, parameters and auxiliary values equal the true ones, for any model, horizon and choice of estimated parameters. Estimates from a window not yet filled use only the measurements received.',
     ['programs', 'inputs', 'histories'], 'all generated observable models (discrete, continuous, DAE), horizons, noise flags, estimated/known parameter splits, scalings, steps before and after the window fills',
     'One example with fixed trajectory and stored result.', [MHE], [('make_step', MHE), ('_prepare_nlp', MHE)], ['MHE.make_step', 'MHE.p_est0', 'MHE.data'])
prop('H02', 'The MHE estimate is the optimum of the documented estimation problem',
     'For any data, the estimate minimises the documented weighted sum of arrival cost on state and parameters, measurement residuals and process noise over the window, subject to dynamics, noise-free equations, bounds and nonlinear constraints, with weights, time-varying or not, as passed by the user. No feasible trajectory for the same data and prior has a smaller objective.',
     ['configurations', 'inputs'], 'all generated problems: weights, horizons, noise flags per variable, estimated parameters, bounds, constraints, noisy data, prior values',
     'One example is compared with its own stored result.', [MHE], [('set_default_objective/set_objective', MHE), ('_prepare_nlp', MHE), ('_update_bounds', MHE)], ['MHE.opt_x_num_unscaled', 'MHE.make_step'])
prop('H03', 'The estimation window holds the last N measurements in order',
     'After any number of estimation steps the problem solved uses the most recent measurements in chronological order, together with the inputs and time-varying parameters of those instants, and the prior is the previous estimate of the window start (state) and parameters. The record holds every step, and resetting restarts it.',
     ['histories', 'inputs'], 'all measurement sequences, horizons, custom or default measurement functions, steps before and after the window fills, resets, initial value assignments',
     'The example uses constant parameters and one horizon.', [MHE, IT, 'do_mpc/estimator/_base.py'], [('make_step / y_fun', MHE), ('set_y_fun, get_y_template', MHE)], ['MHE.opt_p_num', 'MHE.data', 'MHE.x0, p_est0'])
# ---------------------------------------------------------------- LQR
prop('K01', 'LQR gains solve the Riccati equation of the declared problem',
     'For every stabilizable discrete linear model and weights, the infinite-horizon gain is the unique stabilizing solution of the discrete algebraic Riccati equation and the finite-horizon gain is the first gain of the backward Riccati recursion with the declared terminal weight, so that the control sequence minimises the declared quadratic cost. With input-rate penalization the gains are those of the augmented problem in which the input change is the decision.',
     ['inputs', 'configurations'], 'all generated linear models (scalar/vector states and inputs), weights, horizons, with and without rate penalization and terminal weight',
     'Two fixed examples with one set of weights.', [LQR], [('discrete_gain', LQR), ('set_objective/setup', LQR)], ['LQR.K', 'LQR.make_step'])
prop('K02', 'LQR steps apply the gain to the deviation from the current set-point',
     'In any history of steps, set-point changes and resets, every step returns uss - K (x - xss) for the set-point last given (zero if none), or the accumulated rate-penalized input, and records it with its time; the set-point is an equilibrium of the closed loop. Set-points may be changed repeatedly and partially.',
     ['histories', 'inputs'], 'all sequences of make_step / set_setpoint (full, state only, input only) / reset_history, both modes, all shapes',
     'Tests set one set-point once.', [LQR], [('set_setpoint', LQR), ('make_step', LQR)], ['LQR.make_step', 'LQR.data'])
# ---------------------------------------------------------------- data
prop('D01', 'Recorded data are returned exactly as appended, for every query',
     'For any sequence of recorded steps, every query of the record by variable type, name and element index returns the column(s) of exactly that variable in chronological order with one row per step, and initialising the storage empties it. Order, shapes and values are those recorded, whatever the names and shapes of the variables.',
     ['histories', 'inputs'], 'all models (names, shapes incl. matrices), append sequences and query indices',
     'Tests query a few scalar variables.', [DATA], [('Data.update/__getitem__/init_storage', DATA)], ['Data[...]'])
prop('D02', 'Saving results never loses data and loading returns what was saved',
     'Loading a saved result file returns records equal to the ones saved for each of simulator, controller and estimator, with working name queries and predictions. Saving without overwrite never modifies an existing file but chooses a fresh name, with overwrite it replaces exactly that file.',
     ['histories', 'inputs', 'configurations'], 'all generated records, file names, sequences of save/load with overwrite on/off and pre-existing files',
     'One test saves and loads a single file.', [DATA], [('save_results/load_results/save_pickle', DATA)], ['files in the results directory', 'load_results'])
# ---------------------------------------------------------------- sampling
prop('P01', 'A sampling plan contains exactly the requested cases',
     'A plan holds every case that was added or generated, in order, with unique identifiers, each variable drawn by its own generating function or given explicitly; a product plan is the full Cartesian product of the values, and adding after generating appends. Invalid or incomplete cases are rejected without changing the plan, and export/import round-trips the plan without silently overwriting a file.',
     ['inputs', 'histories', 'configurations'], 'all sequences of set_sampling_var / gen_sampling_plan / add_sampling_case / product / export, all variable sets',
     'One test with two variables.', [SP], [('gen_sampling_plan, product, add_sampling_case, export', SP)], ['SamplingPlanner.sampling_plan', 'exported file'])
prop('P02', 'Sampling evaluates each case once and the handler returns it with its inputs',
     'Sampling a plan calls the sample function exactly once per case with that case\'s values, in serial, by index or resumed after any interruption, and never overwrites finished samples unless asked. The data handler returns, for every query by index, slice, list of indices or filter, exactly the matching cases in plan order together with their stored results and all post-processing values, in every storage format.',
     ['histories', 'inputs', 'crash_points', 'configurations'], 'all plans, result types, save formats, name settings, index/slice/filter queries, interruption points',
     'One test samples a small plan and reads it back once.', [SA, DH], [('sample_data/sample_idx', SA), ('__getitem__/filter/post processing', DH)], ['result files', 'DataHandler[...] / filter'])
# ---------------------------------------------------------------- others
prop('N01', 'NLP sensitivities equal the true derivatives of the solution',
     'At any solution where the parametric sensitivity theorem applies, the sensitivities of primal variables, multipliers and of the controller\'s input with respect to the problem parameters (initial state, previous input, parameters) equal the derivatives of the re-solved problem, in physical units, for every scaling and active set. Degenerate situations are reported, and settings do not change the result.',
     ['inputs', 'configurations'], 'all generated parametric NLPs (equality, inequality, bounds; active and inactive) and MPC problems with scaling and changing active sets',
     'No test in the stable suite exercises the differentiator on more than one problem.', [DIF, 'do_mpc/differentiator/helper.py'], [('differentiate / _get_sensitivity_matrices', DIF), ('DoMPCDifferentiator scaling', DIF)], ['NLPDifferentiator.differentiate', 'DoMPCDifferentiator.sens_num'])
prop('X01', 'A converted ONNX network computes the same function as the network',
     'For every network built from supported operations, the converted model evaluated numerically equals the ONNX reference evaluation for every input, and the symbolic conversion represents the same function (values and derivatives), for every output and named intermediate layer. Unsupported operations are rejected rather than silently mis-converted.',
     ['programs', 'inputs'], 'all generated graphs of supported operators with generated weights, shapes, attributes and inputs; SX and MX symbols',
     'A few fixed networks are compared at fixed inputs.', [ONNX], [('ONNXConversion.convert / ONNXOperations', ONNX)], ['ONNXConversion[...]'])
prop('U01', 'OPC UA exchange delivers each value to the variable it was written for',
     'The server listens at its configured address. Values written by one client to the tags of a namespace generated from a model are read back unchanged, by any client, from the tag of the same variable and element; a simulator and a controller stepped over tags behave as if they were connected directly. Every model element gets exactly one tag and unrelated tags are untouched. Asynchronous steps are not faster than the cycle time and end with async_step_stop.',
     ['programs', 'inputs', 'histories'], 'all generated models (names, shapes), values, write/read sequences over a loopback server',
     'No stable test uses the OPC UA layer.', UA, [('namespace_from_model / NamespaceEntry', UA[3]), ('writeData/readData', UA[2]), ('asynchronous_step of the real-time classes', UA[0])], ['RTClient.readData/writeData', 'namespaces'])
prop('G01', 'Plots show exactly the recorded and predicted values',
     'Every line the graphics layer draws for a variable contains, after a plotting call for time index t, exactly the recorded values up to t (inputs as steps), and prediction lines exactly the stored prediction of step t on the prediction time grid, for every variable type, element and scenario. Queries for result lines return the lines of the requested variable only (each variable is added once per graphics object). Animations consist of these pictures for every step and are written to the requested file without touching existing ones unless overwriting is requested.',
     ['histories', 'inputs', 'configurations'], 'all generated records and models, time indices, add_line configurations, plot_results/plot_predictions/clear/reset sequences',
     'No stable test inspects plot content.', [GR], [('plot_results/plot_predictions/add_line', GR), ('result_lines/pred_lines Structure', ST)], ['matplotlib line data', 'Graphics.result_lines / pred_lines'])
prop('T01', 'Structured containers return and set exactly the addressed items',
     'The structure used to configure many items at once holds one value per power index; reading any (partial or sliced) power index returns exactly the items whose indices match, in insertion order, and assigning changes exactly these.',
     ['histories', 'inputs'], 'all sequences of assignments and queries with full, partial and slice indices',
     'Only used incidentally by plotting code.', [ST], [('Structure.__getitem__/__setitem__', ST)], ['Structure[...]'])
prop('I01', 'Objects are isolated from each other and from the caller\'s data',
     'Configuring or stepping one model, simulator, controller, estimator or record never changes another one, even for the same model, in any interleaving. Arrays and structures passed in by the user (initial values, inputs, measurements, weights, bounds, set-points, time), and arrays returned by step calls and data queries, can be changed later without altering the object, and a call does not alter its arguments.',
     ['histories', 'inputs'], 'all interleavings of configuration and step calls on two or more objects and later mutation of arguments and results',
     'Tests use one object of each kind per process.', [IT, IP, SIM, OPT, MPC, MHE], [('IteratedVariables setters', IT), ('IndexedProperty', IP), ('settings dataclasses', 'do_mpc/controller/_controllersettings.py')], ['x0/bounds/scaling/settings/data of the other object'])
prop('E01', 'Invalid configuration is rejected and leaves the object usable',
     'Calls with invalid names, types, shapes, missing declarations or in the wrong phase (before or after setup) raise an error instead of being ignored, and after the error the object behaves as if the call had never been made. Complete valid configurations are never rejected. (Exceptions: unknown keys of set_param only print a warning; settings attributes are checked at setup at the latest.)',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of valid configuration calls with invalid calls injected at any point, for model, simulator, MPC, MHE, LQR, linear model',
     'Tests contain only valid configurations.', [M, OPT, MPC, MHE, SIM, LQR], [('argument checks', M), ('_check_validity', MPC), ('flags[\'setup\'] assertions', OPT)], ['exceptions', 'behaviour of the object afterwards'])

prop('W01', 'Controller, simulator and estimator of a loop agree on one history',
     'In the documented loop (controller step, simulator step, estimator step) on one model, or on equal ones, without disturbance the next state of a discrete model is the one the controller predicted; the simulated state is the true next state, it is what the estimator returns under full measurement and what the next controller step starts from; the records of controller and simulator agree row by row in time, state, input, parameters and time-varying parameters, also after reset_history; the auxiliary and algebraic rows of the controller belong to the recorded values; loops on the same model do not influence each other, and the same loop with new objects applies the same inputs.',
     ['histories', 'configurations', 'programs', 'inputs'], 'all generated models, controller configurations, disturbances, resets and interleavings of two loops',
     'The tests run one loop per example and compare only stored results of that example.', [MPC, SIM, IT, DATA, 'do_mpc/estimator/_base.py'],
     [('make_step', MPC), ('make_step', SIM), ('iterated variables and clock', IT), ('Data.update', DATA)], ['MPC.data', 'Simulator.data', 'MPC.data.prediction', 't0/x0/u0 of the parts'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
