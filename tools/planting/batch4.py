BUGS = {}
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'
LQR = 'do_mpc/controller/_lqr.py'; MOD = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearmodel.py'; DATA = 'do_mpc/data.py'
DH = 'do_mpc/sampling/_datahandler.py'; LZ = 'do_mpc/model/_linearize.py'; D2O = 'do_mpc/model/_dae2odeconversion.py'; STR = 'do_mpc/tools/_structure.py'
SPL = 'do_mpc/sampling/_samplingplanner.py'; IV = 'do_mpc/model/_iteratedvariables.py'; GRA = 'do_mpc/graphics.py'; OPB = 'do_mpc/opcua/_base.py'
NLPD = 'do_mpc/differentiator/_nlpdifferentiator.py'; SAM = 'do_mpc/sampling/_sampler.py'
QUIET = '''
Q = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''

BUGS['open-loop-shared-slack'] = dict(prop='C02', edits=[(MPC, "opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],\n                            opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])",
    "opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],\n                            opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s_u])")],
    needs='open_loop multi-stage MPC with a soft constraint that is violated in several scenarios',
    breaks='all scenarios share the slack variable of the first one',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', x + u + p); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, n_robust=1, open_loop=True, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=(m.x['x'] - 0)**2 * 1e-3, mterm=ca.DM(0)); c.set_rterm(u=1e4); c.set_uncertainty_values(p=np.array([1., 2., 3.]))
c.set_nl_cons('c', m.x['x'], ub=0., soft_constraint=True, penalty_term_cons=10.); c.setup(); c.set_initial_guess(); c.make_step(np.array([[0.]]))
e = [float(c.opt_x_num_unscaled['_eps', 1, s, 'c']) for s in range(3)]
xx = [float(c.opt_x_num_unscaled['_x', 1, s, -1, 'x']) for s in range(3)]
assert all(a >= b - 1e-3 for a, b in zip(e, xx)), (e, xx)
''')

BUGS['prediction-element-then-all'] = dict(prop='C06', edits=[(DATA, """                    f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T

                # Store f_ind:
                self.prediction_queries['ind'].append(copy.deepcopy(ind))""", """                    f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T

                # Store f_ind:
                self.prediction_queries['ind'].append(copy.deepcopy(ind[:2]))""")],
    needs='the prediction of a single element of a vector-valued input is queried before the whole input',
    breaks='the later query returns the elements of the earlier one',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u', (2, 1)); m.set_rhs('x', x + u[0] - u[1]); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=np.array([1., 2.])); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
c.data.prediction(('_u', 'u', 1)); r = c.data.prediction(('_u', 'u'))
assert r.shape == (2, 3, 1), r.shape
''')

BUGS['mhe-recorded-parameter'] = dict(prop='H03', edits=[(MHE, "        self.data.update(_tvp = self.opt_p_num['_tvp', -1])", "        self.data.update(_tvp = self.opt_p_num['_tvp', 0])")],
    needs='an estimator with time-varying parameters that differ over the window',
    breaks='the record holds the parameters of the beginning of the window',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); d = m.set_variable('_tvp', 'd'); m.set_rhs('x', 0.5 * x + d); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1))
t = e.get_tvp_template()
def f(now):
    for k in range(3): t['_tvp', k, 'd'] = float(np.ravel(now)[0]) + k
    return t
e.set_tvp_fun(f); e.setup(); e.x0 = np.zeros(1); e.set_initial_guess(); e.make_step(np.array([[0.]])); e.make_step(np.array([[0.]]))
assert abs(e.data['_tvp', 'd'].ravel() - np.array([2., 3.])).max() < 1e-9, e.data['_tvp', 'd']
''')

BUGS['init-algebraic-order'] = dict(prop='S03', edits=[(SIM, "nlp['p'] = castools.vertcat(self.model.p, self.model.tvp, self.model.u, self.model.x)", "nlp['p'] = castools.vertcat(self.model.tvp, self.model.p, self.model.u, self.model.x)")],
    needs='a DAE model with parameters and time-varying parameters in the algebraic equations',
    breaks='parameters and time-varying parameters are exchanged in the initialization',
    demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); p = m.set_variable('_p', 'p'); d = m.set_variable('_tvp', 'd')
m.set_rhs('x', -x + z); m.set_alg('a', z - x - 2 * p - 5 * d); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=0.1, integration_tool='idas'); tt = s.get_tvp_template(); pt = s.get_p_template(); tt['d'] = 1.; pt['p'] = 10.
s.set_tvp_fun(lambda t: tt); s.set_p_fun(lambda t: pt); s.setup(); s.x0 = np.array([1.]); z0 = s.init_algebraic_variables()
assert abs(float(z0[0, 0]) - 26) < 1e-6, z0
''')

BUGS['lqr-rate-terminal'] = dict(prop='K01', edits=[(LQR, "self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])", "self.P = self.Q")],
    needs='input-rate mode, finite horizon, terminal weight P different from Q',
    breaks='the terminal weight is ignored',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u'); m.setup(np.array([[1., .1], [0., 1.]]), np.array([[0.], [1.]]))
K = []
for P in (np.eye(2), 100 * np.eye(2)):
    c = do_mpc.controller.LQR(m); c.set_param(n_horizon=2, t_step=1.); c.set_objective(Q=np.eye(2), R=np.eye(1), P=P); c.set_rterm(delR=np.eye(1)); c.setup(); K.append(c.K)
assert abs(K[0] - K[1]).max() > 1e-3
''')

BUGS['export-many'] = dict(prop='P01', edits=[(SPL, "for i in range(1,10000):", "for i in range(1,10):")],
    needs='more than ten exports under the same name', breaks='later exports are dropped',
    demo='''
import tempfile
with tempfile.TemporaryDirectory() as d:
    sp = do_mpc.sampling.SamplingPlanner(); sp.data_dir = d + '/'; sp.set_sampling_var('a'); sp.add_sampling_case(a=1)
    for k in range(12): sp.export('plan')
    assert len(os.listdir(d)) == 12, sorted(os.listdir(d))
''')

BUGS['handler-pollutes-plan'] = dict(prop='P02', edits=[(DH, "result_processed = copy.copy(sample)", "result_processed = sample")],
    needs='the sampling plan is used again after a query of the data handler', breaks='results are written into the cases of the plan',
    demo='''
import tempfile
with tempfile.TemporaryDirectory() as d:
    sp = do_mpc.sampling.SamplingPlanner(); sp.data_dir = d + '/'; sp.set_sampling_var('a'); sp.add_sampling_case(a=1); plan = sp.add_sampling_case(a=2)
    s = do_mpc.sampling.Sampler(plan); s.data_dir = d + '/'; s.set_param(print_progress=False); s.set_sample_function(lambda a: 10 * a); s.sample_data()
    h = do_mpc.sampling.DataHandler(plan); h.data_dir = d + '/'; h.set_post_processing('b', lambda r: r + 1); h[0]; h[:]
    assert plan == [{'a': 1, 'id': '000'}, {'a': 2, 'id': '001'}], plan
''')

BUGS['opcua-timeunit'] = dict(prop='U01', edits=[(OPB, "self.cycle_time = do_mpc_object.settings.t_step*clientOpts.timeunit", "self.cycle_time = do_mpc_object.settings.t_step/clientOpts.timeunit")],
    needs='a time unit other than one', breaks='the cycle time is divided by the unit',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', 0.5 * x); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=0.5); s.setup()
from do_mpc.opcua import RTBase, ClientOpts
r = RTBase(s, ClientOpts('c', 'opc.tcp://localhost:4845/x', 4845, 60))
bad = abs(r.cycle_time - 30) > 1e-9
print(r.cycle_time); sys.stdout.flush(); os._exit(1 if bad else 0)
''')

BUGS['structure-shared-feature'] = dict(prop='T01', edits=[(STR, "if ind_i not in self.features[i]:", "if not any(ind_i in feature for feature in self.features):")],
    needs='a structure in which the same index value occurs on different levels', breaks='slices over the second level skip the value',
    demo='''
from do_mpc.tools import Structure
s = Structure(); s['a', 'b'] = 1; s['b', 'c'] = 2; s['b', 'a'] = 3
assert s['b', :] == [[], [2], [3]] or sorted(sum(s['b', :], [])) == [2, 3], s['b', :]
''')

BUGS['linear-model-input-measurement'] = dict(prop='E01', edits=[(LIN, "if castools.jacobian(meas, castools.vertcat(self.x, self.u)).is_constant():", "if castools.jacobian(meas, self.x.cat).is_constant():")],
    needs='a measurement of a LinearModel that is nonlinear in the input', breaks='the nonlinear measurement is accepted',
    demo='''
m = do_mpc.model.LinearModel('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
try: m.set_meas('y', x + u**2)
except Exception: pass
else: assert False
''')

BUGS['linearize-feedthrough'] = dict(prop='L01', edits=[(LZ, "if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == np.zeros((n_x,n_u))).all():", "if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():")],
    needs='a model that measures its states plus a feed-through of the input', breaks='the feed-through is lost in the linearized model',
    demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', -x**3 + u); m.set_meas('y', x + 2 * u); m.setup()
l = do_mpc.model.linearize(m, np.array([[1.]]), np.array([[1.]]))
assert abs(l.sys_D - 2).max() < 1e-9, l.sys_D
''')

BUGS['dae2ode-noise-offset'] = dict(prop='L03', edits=[(D2O, "process_noise=(True))\n            x_count += model.x[model.x.keys()[i]].size()[0]", "process_noise=(True))\n            x_count += 1")],
    needs='a vector-valued state with process noise that is followed by another state', breaks='the following states get the wrong equations',
    demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x', (2, 1)); y = m.set_variable('_x', 'y'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', ca.vertcat(-x[0], -2 * x[1]), process_noise=True); m.set_rhs('y', -7 * y); m.set_alg('a', z - x[0] - u); m.setup()
o = do_mpc.model.dae2odeconversion(m)
r = o._rhs_fun(np.ones(o.n_x), np.zeros(o.n_u), np.zeros(0), np.zeros(0), np.zeros(0), np.zeros(o.n_w))
assert abs(float(o._rhs(r)['y']) + 7) < 1e-9 if callable(o._rhs) else abs(float(r[2]) + 7) < 1e-9
''')

BUGS['mhe-window-fill'] = dict(prop='H03', edits=[(MHE, "range(self.settings.n_horizon-n_steps):\n                        y_template['y_meas',k] = self.data._y[-n_steps]", "range(self.settings.n_horizon-n_steps):\n                        y_template['y_meas',k] = self.data._y[-1]")],
    needs='the second to N-th step of an estimator (window not yet filled)', breaks='the missing measurements are replaced by the latest instead of the oldest one',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', 0.5 * x); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=4, t_step=1.0, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1))
e.setup(); e.x0 = np.zeros(1); e.set_initial_guess(); e.make_step(np.array([[1.]])); e.make_step(np.array([[2.]]))
assert [float(e.opt_p_num['_y_meas', k]) for k in range(4)] == [1., 1., 1., 2.]
''')

BUGS['shared-constraint-list'] = dict(prop='I01', edits=[(OPT, """        self.nl_cons_list = [
            {'expr_name': 'default', 'expr': castools.DM([]), 'ub': castools.DM([])}
        ]
""", """        self.nl_cons_list = NL_CONS_DEFAULT
"""), (OPT, "class Optimizer:\n", "NL_CONS_DEFAULT = [{'expr_name': 'default', 'expr': castools.DM([]), 'ub': castools.DM([])}]\n\n\nclass Optimizer:\n")],
    needs='two optimizers of one model, the first with a constraint', breaks='the constraint of the first optimizer is added to the second one',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
r = []
for k in range(2):
    c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q); c.set_objective(lterm=(m.x['x'] - 5)**2, mterm=(m.x['x'] - 5)**2); c.set_rterm(u=1e-3)
    if k == 0: c.set_nl_cons('c', m.u['u'], ub=1.)
    c.setup(); c.set_initial_guess(); r.append(float(c.make_step(np.zeros((1, 1)))[0, 0]))
assert r[0] < 1.01 and r[1] > 4, r
''')

BUGS['mhe-measurement-input'] = dict(prop='H02', edits=[(MHE, "opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],", "opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', min(k+1, self.settings.n_horizon-1)], opt_x_unscaled['_z', k, -1],")],
    needs='a measurement equation with feed-through of a time-varying input', breaks='the measurement refers to the input of the following interval',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', 0.5 * x + u, process_noise=True); m.set_meas('y', x + u, meas_noise=True); m.set_meas('um', u, meas_noise=False); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_w=np.eye(1))
e.setup(); e.x0 = np.zeros(1); e.set_initial_guess(); x = 0.; g = []
for v in (1., -2., 3., 5.):
    x = 0.5 * x + v; e.make_step(np.array([[x + v], [v]])); g.append([float(e.opt_x_num_unscaled['_u', k, 'u']) for k in range(3)])
assert abs(np.array(g[-1]) - [-2., 3., 5.]).max() < 1e-4, g
''')

BUGS['sensitivity-one-sided'] = dict(prop='N01', edits=[(NLPD, "where_x_inactive = np.where((np.abs(x_delta_lbx)>self.settings.active_set_tol) & (np.abs(x_delta_ubx)>self.settings.active_set_tol))[0]", "where_x_inactive = np.where((np.abs(x_delta_lbx)>self.settings.active_set_tol) | (np.abs(x_delta_ubx)>self.settings.active_set_tol))[0]")],
    needs='set_lam_zero and an active bound', breaks='the multipliers of active bounds are set to zero, which changes nothing but the reported complementarity',
    demo='''
from do_mpc.differentiator import NLPDifferentiator
x = ca.SX.sym('x', 2); p = ca.SX.sym('p')
nlp = dict(x=x, p=p, f=(x[0] - p)**2 + (x[1] - 3 * p)**2, g=x[0] + x[1]); b = dict(lbx=ca.DM([-10, -10]), ubx=ca.DM([10, 1]), lbg=ca.DM([-100]), ubg=ca.DM([100]))
s = ca.nlpsol('s', 'ipopt', nlp, {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.fixed_variable_treatment': 'make_constraint', 'ipopt.bound_relax_factor': 0})
r = s(p=1., x0=[0, 0], **b)
d = NLPDifferentiator(nlp, b, set_lam_zero=True); d.differentiate(r, ca.DM(1.))
assert d.status.SC
''')

BUGS['default-plot-axis'] = dict(prop='G01', edits=[(GRA, "    counter += n_z\n    # Add lines/ labels for inputs:", "    counter += min(n_z, 1)\n    # Add lines/ labels for inputs:")],
    needs='default_plot of a model with two or more algebraic states', breaks='inputs are drawn into the axes of algebraic states',
    demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z'); w = m.set_variable('_z', 'w')
m.set_rhs('x', -x + u + z + w); m.set_alg('a', z - x); m.set_alg('b', w - 2 * x); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=.1, integration_tool='idas'); s.setup(); s.make_step(np.zeros((1, 1)))
f, ax, g = do_mpc.graphics.default_plot(s.data)
assert [a.get_ylabel() for a in ax] == ['x', 'z', 'w', 'u'], [a.get_ylabel() for a in ax]
''')


BUGS['t0-array-alias'] = dict(prop='I01', edits=[(LQR, "self._t0 = self._t0 + self.settings.t_step", "self._t0 += self.settings.t_step")], needs='a time given as float array that is set on an LQR and used elsewhere',
    breaks='the array of the caller or a recorded time is advanced together with the clock',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[1.]]), np.array([[1.]]))
c = do_mpc.controller.LQR(m); c.set_param(t_step=.5); c.set_objective(Q=np.eye(1), R=np.eye(1)); c.setup()
c.t0 = np.array([1.5]); now = c.t0; c.make_step(np.array([[1.]]))
assert float(now[0]) == 1.5 and float(c.t0[0]) == 2.0
''')

BUGS['model-substitution-measurement'] = dict(prop='M01', edits=[(MOD, "for name, var in zip(self._x['name'], self._x['var']):\n                self.set_meas(name, var)", "for name, var in sorted(zip(self._x['name'], self._x['var']), key=lambda nv: nv[0]):\n                self.set_meas(name, var)")],
    needs='a model without declared measurements whose state names are not in alphabetical order', breaks='the default measurement vector has another order than the states',
    demo='''
m = do_mpc.model.Model('discrete'); a = m.set_variable('_x', 'b'); b = m.set_variable('_x', 'a'); m.set_rhs('b', a); m.set_rhs('a', b); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.); s.setup(); s.x0 = np.array([1., 2.]); y = s.make_step()
assert y.ravel().tolist() == [1., 2.], y
''')


BUGS['time-varying-last-stage'] = dict(prop='C01', edits=[(MPC, "-1], opt_p['_tvp', k+1],\n", "-1], opt_p['_tvp', k],\n")],
    needs='a terminal cost with a time-varying parameter', breaks='the terminal cost uses the value one step before the end of the horizon',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); r = m.set_variable('_tvp', 'r'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, store_full_solution=True, nlpsol_opts=Q); c.set_objective(lterm=ca.DM(0), mterm=(m.x['x'] - m.tvp['r'])**2); c.set_rterm(u=1e-6)
t = c.get_tvp_template(); t['_tvp', 0, 'r'] = 1.; t['_tvp', 1, 'r'] = 2.; t['_tvp', 2, 'r'] = 3.
c.set_tvp_fun(lambda now: t); c.setup(); c.set_initial_guess(); c.make_step(np.zeros((1, 1)))
assert abs(c.data.prediction(('_x', 'x'))[0, -1, 0] - 3) < 1e-2
''')


BUGS['terminal-bound-one-sided'] = dict(prop='C07', edits=[(MPC, "if np.all(self._x_terminal_ub.cat == np.inf) and self._settings.use_terminal_bounds:", "if np.all(self._x_terminal_ub.cat == np.inf) and np.all(self._x_terminal_lb.cat == -np.inf) and self._settings.use_terminal_bounds:")],
    needs='only a lower terminal bound and an upper bound of the state', breaks='the upper bound is not enforced at the end of the horizon',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, store_full_solution=True, use_terminal_bounds=True, nlpsol_opts=Q); c.set_objective(lterm=(m.x['x'] - 5)**2, mterm=(m.x['x'] - 5)**2); c.set_rterm(u=1e-3)
c.bounds['upper', '_x', 'x'] = 1.; c.terminal_bounds['lower', 'x'] = -1.; c.setup(); c.set_initial_guess(); c.make_step(np.zeros((1, 1)))
assert c.data.prediction(('_x', 'x'))[0, -1, 0] < 1 + 1e-6
''')

BUGS['reset-history-time'] = dict(prop='C05', edits=[(OPT, "        self.data.init_storage()\n        self._t0 = np.array([0])\n", "        if self.data._time.shape[0] > 0:\n            self._t0 = self._t0 - self._t0\n        self.data.init_storage()\n")],
    needs='the clock is set and the history reset before the first step', breaks='the clock is not set to zero',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q); c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=1e-3); c.setup(); c.set_initial_guess()
c.t0 = 5.; c.reset_history(); c.make_step(np.ones((1, 1)))
assert float(c.data['_time'][0, 0]) == 0
''')
