BUGS = {}
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'
LQR = 'do_mpc/controller/_lqr.py'; MOD = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearmodel.py'; DATA = 'do_mpc/data.py'
D2O = 'do_mpc/model/_dae2odeconversion.py'; NLPD = 'do_mpc/differentiator/_nlpdifferentiator.py'; STR = 'do_mpc/tools/_structure.py'
ONX = 'do_mpc/sysid/_onnxconversion.py'; GRA = 'do_mpc/graphics.py'; OB = 'do_mpc/opcua/_base.py'; DH = 'do_mpc/sampling/_datahandler.py'
SPL = 'do_mpc/sampling/_samplingplanner.py'; SAM = 'do_mpc/sampling/_sampler.py'; LINZ = 'do_mpc/model/_linearize.py'

QUIET = '''
Q = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''

BUGS['tvp-handles'] = dict(prop='M02', edits=[(MOD, "self._substitute_exported_vars(var_dict_list, sym_struct_list)", "self._substitute_exported_vars(var_dict_list[:-1], sym_struct_list[:-1])")],
    needs='a time-varying parameter whose symbol was kept from set_variable and is used after setup (objective, constraint)',
    breaks='the exported symbol of a time-varying parameter no longer denotes the variable of the set-up model',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); d = m.set_variable('_tvp', 'd')
m.set_rhs('x', x + u + d); m.setup()
f = ca.Function('f', [m.x, m.u, m.tvp], [x + 2 * u + 3 * d])
assert float(f(1, 1, 1)) == 6
''')

BUGS['steady-state-wide'] = dict(prop='L03', edits=[(LIN, "self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss", "self.uss = np.linalg.inv(self.sys_B.T@self.sys_B)@self.sys_B.T@(I-self.sys_A)@xss")],
    needs='a linear model with more inputs than states (or dependent input columns), steady state input for a given state',
    breaks='the normal equations are singular for more inputs than states: the input is garbage or an error is raised',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u', (3, 1))
A = np.array([[.5, .1], [0., .3]]); B = np.array([[1., .3, 1.3], [.2, 1., 1.2]])
m.setup(A, B); xs = np.array([[1.], [2.]]); us = m.get_steady_state(xss=xs)
r = A @ xs + B @ us - xs
assert np.abs(r).max() < 1e-8, r
''')

BUGS['dae2ode-vector-z'] = dict(prop='L03', edits=[(D2O, "        z_count += model.z[model.z.keys()[k+1]].size()[0]\n", "        z_count += 1\n")],
    needs='a DAE model with a vector-valued algebraic state that is followed by another algebraic state',
    breaks='the later algebraic states of the converted model follow the derivative of another element',
    demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z', (2, 1)); y = m.set_variable('_z', 'y')
m.set_rhs('x', ca.vertcat(-x[0] + u, -2 * x[1])); m.set_alg('a', z - 2 * x); m.set_alg('b', y - 5 * x[0]); m.setup()
o = do_mpc.model.dae2odeconversion(m)
r = o._rhs_fun(ca.DM([1., 2., 0.5, 2., 4., 5.]), ca.DM([0.]), [], [], [], [])
k = o.x.f['y'][0]
assert abs(float(r[k]) - 5 * (-1 + 0.5)) < 1e-9, r
''')

BUGS['linearize-drops-feedthrough'] = dict(prop='L01', edits=[(LINZ, "    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == np.zeros((n_x,n_u))).all():", "    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and np.trace(D @ D.T) == np.trace(D) == 0 if C.shape == D.shape else C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():")],
    needs='a model whose measurement is the state plus a feed-through of the inputs',
    breaks='the feed-through is dropped from the linear model',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u')
m.set_rhs('x', ca.vertcat(x[1], x[0] * u)); m.set_meas('y', x + ca.vertcat(u, 2 * u)); m.setup()
l = do_mpc.model.linearize(m, np.zeros((2, 1)), np.ones((1, 1)))
assert np.allclose(l.sys_D, [[1.], [2.]]), l.sys_D
''')

BUGS['aux-prediction-scenario'] = dict(prop='C06', edits=[(DATA, "                f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')\n                # sort pred such that each column belongs to one scenario\n                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T\n                # Store f_ind:\n                self.prediction_queries['ind'].append(copy.deepcopy(ind))\n                self.prediction_queries['f_ind'].append(f_ind)\n            out = _opt_aux_num", "                f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')\n                # sort pred such that each column belongs to one scenario\n                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[1:,:].T].T\n                # Store f_ind:\n                self.prediction_queries['ind'].append(copy.deepcopy(ind))\n                self.prediction_queries['f_ind'].append(f_ind)\n            out = _opt_aux_num")],
    needs='multi-stage MPC and a prediction query of an auxiliary expression',
    breaks='auxiliary predictions are those of the node index of the child',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_expression('e', 10 * x); m.set_rhs('x', p * x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, n_robust=2, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1)
c.set_uncertainty_values(p=np.array([1.0, 2.0])); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
a = c.data.prediction(('_aux', 'e')); b = c.data.prediction(('_x', 'x'))[:, :-1]
assert np.allclose(a, 10 * b, atol=1e-6), (a, b)
''')

BUGS['mhe-cons-scaled-parameter'] = dict(prop='C03', edits=[(MHE, "                    opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],\n                    opt_p['_tvp', k], opt_x_unscaled['_p_est'],", "                    opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],\n                    opt_p['_tvp', k], opt_x['_p_est'],")],
    needs='an estimator with a scaled estimated parameter and a nonlinear constraint on it',
    breaks='the constraint is imposed on the scaled parameter',
    demo=QUIET + '''
def est(sc):
    m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p')
    m.set_rhs('x', 0.5 * x + p, process_noise=True); m.set_meas('y', x, meas_noise=True); m.setup()
    e = do_mpc.estimator.MHE(m, ['p']); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q)
    e.scaling['_p_est', 'p'] = sc
    e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_p=1e-3 * np.eye(1), P_w=10 * np.eye(1))
    e.set_nl_cons('c', m.p['p']**2, 0.04); e.setup(); e.x0 = np.zeros(1); e.p_est0 = np.array([0.1]); e.set_initial_guess()
    for k in range(3):
        e.make_step(np.array([[2.0 * (1 - 0.5**(k + 1))]]))
    return float(e.p_est0['p'])
a, b = est(1.0), est(0.1)
assert abs(a) < 0.2 + 1e-6 and abs(b) < 0.2 + 1e-6 and abs(a - b) < 1e-5, (a, b)
''')

BUGS['mhe-measured-z-start'] = dict(prop='H01', edits=[(MHE, "opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],", "opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],")],
    needs='a continuous DAE model whose measurement contains an algebraic state',
    breaks='the measured algebraic state is taken from the start of the interval that ends at the measurement',
    demo=QUIET + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z')
m.set_rhs('x', -x + 0 * z, process_noise=False); m.set_alg('a', z - 2 * x); m.set_meas('y', z, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=3, t_step=0.3, collocation_type='radau', collocation_deg=3, collocation_ni=1, meas_from_data=True, nlpsol_opts=Q)
e.set_default_objective(P_x=1e-8 * np.eye(1), P_v=np.eye(1)); e.setup(); e.x0 = np.array([1.]); e.z0 = np.array([2.]); e.set_initial_guess()
for k in range(6):
    t = np.exp(-0.3 * (k + 1)); r = float(e.make_step(np.array([[2 * t]])))
assert abs(r - t) < 1e-3, (r, t)
''')

BUGS['mhe-tvp-from-first'] = dict(prop='H03', edits=[(MHE, "        tvp0 = self.tvp_fun(t0)\n", "        tvp0 = self.tvp_fun(t0 if self.data._y.shape[0] > self.settings.n_horizon else np.zeros(1))\n")],
    needs='an estimator with time-varying parameters during the steps in which the window is not yet filled',
    breaks='the time-varying parameters of time zero are used until the window is filled',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); d = m.set_variable('_tvp', 'd')
m.set_rhs('x', 0.5 * x + d); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q)
t = e.get_tvp_template()
def tf(now):
    for k in range(3):
        t['_tvp', k] = 10. + float(now) + k
    return t
e.set_tvp_fun(tf); e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1)); e.setup(); e.x0 = np.zeros(1); e.set_initial_guess()
for k in range(5):
    e.make_step(np.ones((1, 1)))
    assert abs(float(e.data['_tvp'][-1, 0]) - (12. + k)) < 1e-12, e.data['_tvp']
''')

BUGS['setpoint-partial-resets-input'] = dict(prop='K02', edits=[(LQR, "        elif hasattr(self,'uss'):\n", "        elif hasattr(self,'uss') and xss is None:\n")],
    needs='a set-point given in two calls, or a later call that changes the state set-point only',
    breaks='changing the state set-point silently resets the input set-point to zero',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[.5]]), np.array([[1.]]))
c = do_mpc.controller.LQR(m); c.settings.t_step = 1.0; c.set_objective(Q=np.eye(1), R=np.eye(1)); c.setup()
c.set_setpoint(xss=np.array([[2.]]), uss=np.array([[1.]])); c.set_setpoint(xss=np.array([[3.]]))
assert abs(float(c.make_step(np.array([[3.]]))) - 1.) < 1e-12
''')

BUGS['query-cache-type'] = dict(prop='D01', edits=[(DATA, "            if ind in self.result_queries['ind']:\n                i = self.result_queries['ind'].index(ind)\n                f_ind = self.result_queries['f_ind'][i]\n            else:\n                powerind = ind[1:]\n                f_ind = self.model[data_field].f[powerind]\n                self.result_queries['ind'].append(copy.deepcopy(ind))\n", "            powerind = ind[1:]\n            if powerind in self.result_queries['ind']:\n                i = self.result_queries['ind'].index(powerind)\n                f_ind = self.result_queries['f_ind'][i]\n            else:\n                f_ind = self.model[data_field].f[powerind]\n                self.result_queries['ind'].append(copy.deepcopy(powerind))\n")],
    needs='two variables of different type with the same name (e.g. a state and its measurement) at different positions, both queried',
    breaks='the second query returns the columns of the first one',
    demo='''
m = do_mpc.model.Model('discrete'); a = m.set_variable('_x', 'a'); b = m.set_variable('_x', 'b')
m.set_rhs('a', a); m.set_rhs('b', b); m.set_meas('b', b); m.set_meas('a', a); m.setup()
d = do_mpc.data.Data(m); d.update(_x=np.array([[1.], [2.]]), _y=np.array([[2.], [1.]]))
assert d['_x', 'a'] == 1 and d['_y', 'a'] == 1, (d['_x', 'a'], d['_y', 'a'])
''')

BUGS['plan-export-count'] = dict(prop='P01', edits=[(SPL, "            for i in range(1,10000):\n", "            n_files = len([f for f in os.listdir(self.data_dir) if f.startswith(sampling_plan_name)])\n            for i in range(n_files,10000):\n"), (SPL, "                if not os.path.isfile(full_name):\n", "                if i == n_files:\n")],
    needs='an export under a name for which some, but not all, of the numbered files exist (one was deleted)',
    breaks='the number of the new file is derived from the number of files, so an existing plan is overwritten',
    demo='''
import tempfile, pickle
d = tempfile.mkdtemp(); s = do_mpc.sampling.SamplingPlanner(); s.data_dir = d + '/'; s.set_sampling_var('a')
for k in range(3):
    s.add_sampling_case(a=k); s.export('plan')
os.remove(d + '/plan1.pkl'); before = open(d + '/plan2.pkl', 'rb').read()
s.add_sampling_case(a=3); s.export('plan')
assert open(d + '/plan2.pkl', 'rb').read() == before
import shutil; shutil.rmtree(d)
''')

BUGS['handler-slice-step'] = dict(prop='P02', edits=[(DH, "                samples = self.sampling_plan[ind]\n", "                samples = [s for s in self.sampling_plan if int(s['id']) in range(*ind.indices(len(self.sampling_plan)))]\n")],
    needs='a slice with a negative step (or a plan whose cases are not numbered by position)',
    breaks='the cases of a slice are returned in the order of the plan instead of the order of the slice',
    demo='''
import tempfile, shutil
d = tempfile.mkdtemp(); s = do_mpc.sampling.SamplingPlanner(); s.data_dir = d + '/'; s.set_sampling_var('a')
p = s.product(a=[1, 2, 3, 4]); w = do_mpc.sampling.Sampler(p, print_progress=False); w.data_dir = d + '/'
w.set_sample_function(lambda a: a * 10); w.sample_data()
h = do_mpc.sampling.DataHandler(p); h.data_dir = d + '/'
r = [k['a'] for k in h[::-1]]; shutil.rmtree(d)
assert r == [4, 3, 2, 1], r
''')

BUGS['diff-parameter-cache'] = dict(prop='N01', edits=[(NLPD, "        self.nlp_sol[\"lam_g\"] = ca.vertcat(self.optimizer.lam_g_num)\n", "        if 'lam_g' not in self.nlp_sol or self.optimizer.lam_g_num.is_zero():\n            self.nlp_sol[\"lam_g\"] = ca.vertcat(self.optimizer.lam_g_num)\n")],
    needs='a nonlinear problem differentiated at two different solutions with the same differentiator',
    breaks='the multipliers of the constraints are those of the first differentiation',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
m.set_rhs('x', x + 0.3 * x**2 + ca.sin(u) + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, t_step=1.0, nlpsol_opts=dict(Q, **{'ipopt.tol': 1e-12}))
c.set_objective(lterm=m.x['x']**4 + m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
d = do_mpc.differentiator.DoMPCDifferentiator(c)
def at(v):
    c.u0 = np.zeros(1); return float(c.make_step(np.array([[v]])))
at(0.8); d.differentiate(); at(-1.0); d.differentiate()
s = float(d.sens_num['dxdp', ca.tools.indexf['_u', 0, 0], ca.tools.indexf['_x0']]) if hasattr(ca, 'tools') else None
h = 1e-4; fd = (at(-1.0 + h) - at(-1.0 - h)) / (2 * h)
assert abs(s - fd) < 1e-5, (s, fd)
''')

BUGS['onnx-sum-three'] = dict(prop='X01', edits=[(ONX, "        return  self.Add(*args)\n", "        return  self.Add(args[0], args[-1]) if len(args) > 1 else args[0]\n")],
    needs='a Sum node with three or more inputs',
    breaks='only the first and the last input of a Sum node are added',
    demo='''
from onnx import helper, TensorProto
f = TensorProto.FLOAT
g = helper.make_graph([helper.make_node('Sum', ['a', 'b', 'c'], ['y'])], 'g', [helper.make_tensor_value_info(n, f, [1, 2]) for n in 'abc'], [helper.make_tensor_value_info('y', f, [1, 2])])
c = do_mpc.sysid.ONNXConversion(helper.make_model(g))
c.convert(a=np.ones((1, 2)), b=2 * np.ones((1, 2)), c=4 * np.ones((1, 2)))
assert np.allclose(np.array(c['y']), 7), c['y']
''')

BUGS['structure-short-index'] = dict(prop='T01', edits=[(STR, "                        None\n", "                        if j > 1 and _iter_index[i] == tuple(ind[:len(ind_i)]) and len(ind) == 4:\n                            _tmp_master.append(_iter_master[i])\n                            _tmp_index.append(_iter_index[i])\n")],
    needs='items with power indices of different length and a query longer than some of them',
    breaks='an item whose power index is shorter than the query is returned as well',
    demo='''
s = do_mpc.tools.Structure(); s['a', 'b'] = 1; s['a', 'b', 0, 1] = 2
assert s['a', 'b', 0, 1] == [2], s['a', 'b', 0, 1]
''')

BUGS['prediction-time-grid'] = dict(prop='G01', edits=[(GRA, "            x_data = t_now + np.arange(y_data.shape[0])*t_step\n", "            x_data = np.linspace(t_now, t_now + self.data.meta_data['n_horizon']*t_step, y_data.shape[0]).flatten()\n")],
    needs='plotting the prediction of an input, algebraic state or auxiliary expression',
    breaks='predictions with one value per interval are stretched over the whole horizon',
    demo=QUIET + '''
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
fig, ax = plt.subplots(); g = do_mpc.graphics.Graphics(c.data); g.add_line('_u', 'u', ax); g.plot_predictions(t_ind=0)
t = np.array(g.pred_lines['_u', 'u'][0].get_xdata(), float)
assert np.allclose(t, [0, 1, 2]), t
''')

BUGS['opcua-skip-unchanged'] = dict(prop='U01', edits=[(OB, "            self.client.writeData(tag, [value])\n", "            if getattr(self, '_last_written', {}).get(tag) == value:\n                continue\n            self.client.writeData(tag, [value])\n            self._last_written = dict(getattr(self, '_last_written', {}), **{tag: value})\n")],
    needs='a tag written by two clients: the first one writes its previous value again after the other changed the tag',
    breaks='a value that equals the last one written by the same client is not delivered',
    demo='''
import do_mpc.opcua._base as B
class C:
    def __init__(s): s.v = {}
    def writeData(s, tag, val): s.v[tag] = val
r = B.RTBase.__new__(B.RTBase); r.client = C(); r.tagout = ['a', 'b']
r.write_to_tags(np.array([1., 2.])); r.client.v['a'] = [7.]; r.write_to_tags(np.array([1., 3.]))
assert r.client.v == {'a': [1.], 'b': [3.]}, r.client.v
''')

BUGS['nl-cons-after-setup'] = dict(prop='E01', edits=[(OPT, "        assert self.flags['setup'] == False, 'Cannot call .set_expression after .setup().'\n", "        assert self.flags['initial_run'] == False, 'Cannot call .set_expression after .setup().'\n")],
    needs='a constraint that is set after setup, before the first step',
    breaks='the constraint is ignored silently',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1); c.setup()
try:
    c.set_nl_cons('c', m.x['x'], 1)
except Exception:
    sys.exit(0)
sys.exit('accepted')
''')

BUGS['sim-meas-start-z'] = dict(prop='S01', edits=[(SIM, "        z_next = self.sim_z_num['_z']\n", "        z_next = z0 if self.model.model_type == 'discrete' else self.sim_z_num['_z']\n")],
    needs='a discrete DAE model whose measurement contains an algebraic state',
    breaks='the measurement is computed with the algebraic state of the previous step',
    demo='''
import contextlib, io
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', 0.5 * x + u); m.set_alg('a', z - x - u); m.set_meas('y', z, meas_noise=False); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); s.x0 = np.array([1.]); s.set_initial_guess()
r = [float(s.make_step(np.array([[float(k)]]))) for k in range(3)]
assert abs(r[0] - 1.) < 1e-6 and abs(r[1] - 1.5) < 1e-6, r
''')

BUGS['terminal-bounds-runtime'] = dict(prop='C07', edits=[(MPC, "            self.lb_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_lb.cat\n            self.ub_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_ub.cat\n", "            if not self.flags['prepare_nlp']:\n                self.lb_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_lb.cat\n            self.ub_opt_x['_x', self._settings.n_horizon, :, -1] = self._x_terminal_ub.cat\n")],
    needs='a lower (terminal) bound that is changed after setup',
    breaks='a lower bound changed at runtime does not apply to the last stage',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, t_step=1.0, store_full_solution=True, use_terminal_bounds=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1); c.bounds['lower', '_x', 'x'] = -1.; c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
c.bounds['lower', '_x', 'x'] = 0.5; c.make_step(np.array([[1.0]]))
assert c.data.prediction(('_x', 'x'))[0, 1:, 0].min() > 0.5 - 1e-6, c.data.prediction(('_x', 'x'))
''')

BUGS['rate-parent-node'] = dict(prop='C02', edits=[(MPC, "((opt_x['_u', k, s_u]-opt_x['_u', k-1, parent_scenario[k][s_u]])**2)", "((opt_x['_u', k, s_u]-opt_x['_u', k-1, min(s_u, n_scenarios[k-1]-1) if not self._settings.open_loop else 0])**2)")],
    needs='multi-stage MPC with a robust horizon of at least two (three nodes at a stage have different parents)',
    breaks='the input-rate penalty compares the input of a node with that of another node than its parent',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, n_robust=2, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=1.0)
c.set_uncertainty_values(p=np.array([1.0, 2.0])); c.setup()
v = c.opt_x(0)
v['_u', 1, 0] = 1.; v['_u', 1, 1] = 3.
for s, val in enumerate([1., 1., 3., 3.]):
    v['_u', 2, s] = val
f = ca.Function('f', [c.opt_x, c.opt_p], [c.nlp_obj])
# two branches of the nodes at stage 1 differ from u = 0, nothing changes from stage 1 to 2
assert abs(float(f(v, c.opt_p(0))) - 2 * (1. + 9.)) < 1e-9, f(v, c.opt_p(0))
''')

BUGS['load-save-estimator-key'] = dict(prop='D02', edits=[(DATA, "    if not os.path.exists(result_path):\n        os.makedirs(result_path)\n\n    results = {}\n", "    if not os.path.exists(result_path):\n        os.makedirs(result_path)\n\n    result_name = os.path.splitext(result_name)[0]\n    results = {}\n")],
    needs='a result name that contains a dot and another file named by the part before it',
    breaks='the part of the name after the dot is dropped, so results of different experiments replace each other',
    demo='''
import tempfile, shutil
d = tempfile.mkdtemp() + '/'
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); s.x0 = np.zeros(1); s.make_step(np.ones((1, 1)))
do_mpc.data.save_results([s], 'run_0.5', d, overwrite=True); do_mpc.data.save_results([s], 'run_0.7', d, overwrite=True)
f = sorted(os.listdir(d)); shutil.rmtree(d)
assert f == ['run_0.5.pkl', 'run_0.7.pkl'], f
''')

BUGS['discretize-step-cast'] = dict(prop='L02', edits=[(LIN, "A, B, C, D, t = cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method)", "A, B, C, D, t = cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method, alpha=0.5)\n        C, D = self.sys_C, self.sys_D")],
    needs='a model with measurements discretized by the bilinear, backward or another generalized bilinear method',
    breaks='the output matrices of the bilinear methods are replaced by those of the continuous model',
    demo='''
from scipy.signal import cont2discrete
m = do_mpc.model.LinearModel('continuous'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[-1.]]), np.array([[1.]]), np.array([[2.]]), np.array([[.5]]))
for me in ('bilinear', 'backward_diff'):
    d = m.discretize(0.3, me); r = cont2discrete((m.sys_A, m.sys_B, m.sys_C, m.sys_D), 0.3, me)
    assert np.allclose(d.sys_C, r[2]) and np.allclose(d.sys_D, r[3]), me
''')

BUGS['mpc-tvp-clock'] = dict(prop='I01', edits=[(OPT, "        self.data.init_storage()\n        self._t0 = np.array([0])\n", "        self.data.init_storage()\n        self._t0 *= 0\n")],
    needs='a controller or estimator whose clock was assigned by the user as an array, or a recorded time kept by the user, then a reset',
    breaks='resetting the history changes the clock in place (integer clocks stay integer, arrays shared with the user are changed)',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0); c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1); c.setup()
seen = []
c.t0 = np.array([4.]); t = c.t0; c.reset_history()
assert t[0] == 4., t
''')

BUGS['template-cache'] = dict(prop='I01', edits=[(OPT, "        tvp_template = self.model.sv.sym_struct([\n            castools.entry('_tvp', repeat=self.settings.n_horizon+1, struct=self.model._tvp)\n        ])\n        return tvp_template(0)\n", "        key = '_tvp_template_{}'.format(self.settings.n_horizon)\n        if not hasattr(self.model, key):\n            tvp_template = self.model.sv.sym_struct([\n                castools.entry('_tvp', repeat=self.settings.n_horizon+1, struct=self.model._tvp)\n            ])\n            setattr(self.model, key, tvp_template(0))\n        return getattr(self.model, key)\n")],
    needs='two optimizers of one model with the same horizon and different time-varying parameters',
    breaks='both optimizers fill the same structure',
    demo=QUIET + """
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); d = m.set_variable('_tvp', 'd'); m.set_rhs('x', x + u + d); m.setup()
def mk(v):
    c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q)
    c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1)
    t = c.get_tvp_template(); t['_tvp', :, 'd'] = v; c.set_tvp_fun(lambda now: t); c.setup(); c.x0 = np.zeros(1); c.set_initial_guess(); return c
a = mk(1.); b = mk(2.); a.make_step(np.zeros((1, 1)))
assert float(a.data['_tvp'][0, 0]) == 1., a.data['_tvp']
""")

BUGS['mpc-terminal-tvp'] = dict(prop='C01', edits=[(MPC, "child_scenario[k][s][b], -1], opt_p['_tvp', k+1],", "child_scenario[k][s][b], -1], opt_p['_tvp', k],")],
    needs='a terminal cost that depends on a time-varying parameter',
    breaks='the terminal cost is evaluated with the parameter of the stage before the last one',
    demo=QUIET + """
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); d = m.set_variable('_tvp', 'd'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=0 * m.x['x'], mterm=(m.x['x'] - m.tvp['d'])**2); c.set_rterm(u=1e-6)
t = c.get_tvp_template()
for k in range(3):
    t['_tvp', k] = float(k)
c.set_tvp_fun(lambda now: t); c.setup(); c.x0 = np.zeros(1); c.set_initial_guess(); c.make_step(np.zeros((1, 1)))
assert abs(float(c.opt_x_num_unscaled['_x', 2, 0, -1]) - 2.) < 1e-3
""")

BUGS['mhe-runtime-parameter-bound'] = dict(prop='H02', edits=[(MHE, "        self.lb_opt_x['_p_est'] = self._p_est_lb.cat\n        self.ub_opt_x['_p_est'] = self._p_est_ub.cat\n", "        if not self.flags['prepare_nlp']:\n            self.lb_opt_x['_p_est'] = self._p_est_lb.cat\n            self.ub_opt_x['_p_est'] = self._p_est_ub.cat\n")],
    needs='a bound of an estimated parameter that is changed after setup',
    breaks='the changed bound has no effect',
    demo=QUIET + """
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p')
m.set_rhs('x', 0.5 * x + p, process_noise=True); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m, ['p']); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q)
e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_p=1e-3 * np.eye(1), P_w=10 * np.eye(1))
e.setup(); e.x0 = np.zeros(1); e.p_est0 = np.array([0.1]); e.set_initial_guess(); e.make_step(np.array([[1.]]))
e.bounds['upper', '_p_est', 'p'] = 0.2; e.make_step(np.array([[1.5]]))
assert float(e.p_est0['p']) < 0.2 + 1e-6, e.p_est0['p']
""")
