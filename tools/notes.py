NOT_CLAIMED = {}
NOTES = {
 'M01': ('property-based testing (Hypothesis): random model programs vs. plain-Python evaluation of the same equations',
         'Generated-input search; agreement on sampled models and points. Trusts casadi elementary functions and the Python expression evaluator.'),
 'M02': ('property-based testing (Hypothesis): handle/alias metamorphic relations and pickle round trips',
         'Generated-input search over models and handles; trusts casadi evaluation and pickle itself.'),
 'L01': ('property-based testing (Hypothesis): automatic-differentiation Jacobians vs. complex/central differences of a plain-Python model and perturbed simulation',
         'Generated-input search over models and operating points; tolerance of numerical differentiation (about 1e-6 relative).'),
 'L02': ('property-based testing (Hypothesis): matrix-exponential reference, definitions of the other methods, simulated twins',
         'Generated-input search over linear systems; scipy.linalg.expm is trusted.'),
 'L03': ('property-based testing (Hypothesis): stationarity residuals and differential simulation of DAE and converted ODE',
         'Generated-input search; integrator tolerances bound the precision of the comparison.'),
 'S01': ('property-based testing (Hypothesis): differential against an independent DOP853 / Newton reference of the generated model',
         'Generated-input search over models, parameters and integration settings; comparison within integrator tolerance.'),
 'S02': ('stateful property-based testing (Hypothesis): random operation histories against a reference model of state, clock and record',
         'Generated histories of bounded length.'),
 'S03': ('property-based testing (Hypothesis): generated histories against an independent root search and the declared residuals',
         'Generated DAE models and histories; tolerance 1e-5.'),
 'C01': ('property-based testing (Hypothesis): optimality (KKT) and feasibility oracle on an independently written NLP',
         'Generated-input search; first-order conditions at solver tolerance on problems with horizon <= 4 and few variables.'),
 'C02': ('property-based testing (Hypothesis): KKT and feasibility oracle on an independently built scenario tree',
         'Generated-input search over trees with up to ~16 scenarios, horizon <= 4.'),
 'C03': ('property-based testing (Hypothesis): KKT oracle in physical units under wide random scalings, read-back relations and scaled/unscaled twins',
         'Generated-input search; scaling factors 0.01..100, tolerances follow the largest factor.'),
 'C04': ('property-based testing (Hypothesis): differential against own collocation, Pade approximants and DOP853',
         'Generated-input search over schemes and models; the accuracy bound of the scheme is only asserted in its asymptotic regime.'),
 'C05': ('stateful property-based testing (Hypothesis): random closed-loop histories against a reference of clock, previous input, bounds and record, KKT per step',
         'Histories of up to 9 operations on up to two controllers.'),
 'C06': ('stateful property-based testing (Hypothesis): prediction queries against independently kept solutions',
         'Generated configurations, up to 4 steps, all names and elements.'),
 'C07': ('property-based testing (Hypothesis): feasibility and KKT oracle under random constraint settings and runtime bound changes',
         'Generated-input search; up to 3 runtime changes per case.'),
 'C08': ('property-based testing (Hypothesis): random modifications through the low-level interface against an independently written problem (KKT), differential runs with storage, solver and compilation options',
         'Generated-input search; horizon <= 3, up to 4 modifications per case, few compiled problems in the quick tier.'),
 'H01': ('property-based testing (Hypothesis): noise-free data from an own discretisation or the simulator must be reproduced',
         'Generated-input search over models and windows; noise-free data, horizon <= 4, up to 3 consecutive windows.'),
 'H02': ('property-based testing (Hypothesis): optimality (KKT) and feasibility oracle on an independently written estimation NLP',
         'Generated-input search; first-order conditions at solver tolerance, horizon <= 4.'),
 'H03': ('stateful property-based testing (Hypothesis): random histories of estimations against a reference of window, prior, clock and record, KKT per step',
         'Histories of up to 9 operations.'),
 'K01': ('property-based testing (Hypothesis): gains against a dense least-squares solution of the declared cost over the input sequence',
         'Generated-input search over linear systems with up to 6 states; infinite horizon closed by an own value iteration.'),
 'D01': ('stateful property-based testing (Hypothesis): random append/query/reset histories of records against a dictionary of rows',
         'Generated histories of bounded length over generated models.'),
 'D02': ('stateful property-based testing (Hypothesis): random save/load histories with injected failures against a file-system reference, round trips',
         'Generated histories in a scratch directory; failures are injected by unpicklable content.'),
 'P01': ('stateful property-based testing (Hypothesis): random planner call sequences against a reference list of cases, round trips',
         'Generated histories of bounded length.'),
 'P02': ('stateful property-based testing (Hypothesis): random sampling histories with injected interruptions (exceptions, kills) and queries against a dictionary reference',
         'Generated histories of bounded length; interruption points are the sample function and the saving of its result.'),
 'K02': ('stateful property-based testing (Hypothesis): random histories of steps, set-points and resets against a reference; regulation to random equilibria',
         'Histories of up to 9 operations; closed loops of up to ~180 steps.'),
 'N01': ('property-based testing (Hypothesis): sensitivities against closed-form solutions of quadratic programs and central differences of re-solved problems',
         'Generated-input search over strictly regular solutions (strict complementarity, LICQ, second order conditions); SX problems only.'),
 'X01': ('property-based testing / grammar-based fuzzing (Hypothesis): random operator graphs, differential against the ONNX reference evaluator',
         'Generated-input search over small graphs of the supported operators.'),
 'W01': ('stateful property-based testing (Hypothesis): closed loops of random models, consistency relations between the parts, reference next state, repetition with new objects',
         'Loops of up to 6 steps; solver tolerances bound the comparison of predicted and simulated states.'),
 'U01': ('stateful property-based testing (Hypothesis): random write/read/step histories over a loopback server against a dictionary and directly connected twins',
         'Histories of up to 60 operations with up to three clients; asynchronous mode only with one-sided time bounds.'),
 'G01': ('stateful property-based testing (Hypothesis): random plotting histories, line data against an independently kept record and independently read solutions',
         'Generated histories of bounded length; rendering itself is not examined.'),
 'T01': ('stateful property-based testing (Hypothesis): random assignment/query histories against an ordered dictionary',
         'Histories of up to 12 operations, power indices of depth up to 4.'),
 'E01': ('stateful property-based testing (Hypothesis): random configuration/run programs with injected invalid calls against the same program without them',
         'Programs of bounded length; invalid calls from a catalogue of about 45 kinds with several variants each.'),
 'I01': ('stateful property-based testing (Hypothesis): metamorphic relation between interleaved programs with shared/overwritten arguments and the same programs alone in fresh processes',
         'Programs of two or three objects with up to about 20 calls each.'),
}
