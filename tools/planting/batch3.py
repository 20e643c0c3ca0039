BUGS = {}
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'
LQR = 'do_mpc/controller/_lqr.py'; MOD = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearmodel.py'; DATA = 'do_mpc/data.py'
NLPD = 'do_mpc/differentiator/_nlpdifferentiator.py'; DH = 'do_mpc/sampling/_datahandler.py'; CS = 'do_mpc/controller/_controllersettings.py'
SPL = 'do_mpc/sampling/_samplingplanner.py'; SAM = 'do_mpc/sampling/_sampler.py'; IV = 'do_mpc/model/_iteratedvariables.py'; GRA = 'do_mpc/graphics.py'
ONX = 'do_mpc/sysid/_onnxconversion.py'

QUIET = '''
Q = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''

BUGS['u-prev-from-record'] = dict(prop='C05', edits=[(MPC, "        u_prev = self._u0\n", "        u_prev = self.data._u[-1] if self.data._u.shape[0] > 0 else self._u0\n")],
    needs='the previous input is overwritten (mpc.u0 = input applied to the plant) between two steps',
    breaks='the input rate refers to the recorded input instead of the one that was applied',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=1e4); c.setup(); c.x0 = np.zeros(1); c.set_initial_guess()
c.make_step(np.array([[1.]])); c.u0 = np.array([3.0]); r = c.make_step(np.array([[1.]]))
assert abs(float(r[0, 0]) - 3) < 0.1, r
''')

BUGS['arrival-first-colloc'] = dict(prop='H02', edits=[(MHE, "self.opt_p_num['_x_prev'] = self.opt_x_num['_x', 1, -1]*self._x_scaling", "self.opt_p_num['_x_prev'] = self.opt_x_num['_x', 1, 0]*self._x_scaling")],
    needs='an estimator of a continuous model (collocation), second or later estimate',
    breaks='the arrival cost refers to the first collocation point of the first interval instead of its end',
    demo=QUIET + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); m.set_rhs('x', -x + 1, process_noise=True); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=2, t_step=1.0, meas_from_data=True, nlpsol_opts=Q)
e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_w=np.eye(1)); e.setup(); e.x0 = np.zeros(1); e.set_initial_guess()
e.make_step(np.array([[2.]])); a = float(e.opt_x_num_unscaled['_x', 1, -1][0]); e.make_step(np.array([[2.]]))
assert abs(float(e.opt_p_num['_x_prev'][0]) - a) < 1e-9
''')

BUGS['p-cat-order'] = dict(prop='H02', edits=[(MHE, "        for name in _p.keys():\n            if name in self._p_est.keys():\n                _p_subs.append(castools.vec(self._p_est[name]))\n            elif name in self._p_set.keys():\n                _p_subs.append(castools.vec(self._p_set[name]))\n",
     "        for name in self._p_est.keys():\n            _p_subs.append(castools.vec(self._p_est[name]))\n        for name in self._p_set.keys():\n            _p_subs.append(castools.vec(self._p_set[name]))\n")],
    needs='an estimated parameter that is declared after a given one',
    breaks='estimated and given parameters are exchanged',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); a = m.set_variable('_p', 'a'); b = m.set_variable('_p', 'b')
m.set_rhs('x', a * x + b); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m, ['b']); e.set_param(n_horizon=3, t_step=1.0, meas_from_data=True, nlpsol_opts=Q)
e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_p=1e-6 * np.eye(1))
t = e.get_p_template(); t['a'] = 0.5; e.set_p_fun(lambda now: t); e.setup(); e.set_initial_guess(); v = 0.
for k in range(6):
    v = 0.5 * v + 1; e.make_step(np.array([[v]]))
assert abs(float(e.p_est0['b']) - 1) < 1e-2, e.p_est0['b']
''')

BUGS['uncertainty-keyword-order'] = dict(prop='C02', edits=[(MPC, "        names = [i for i in kwargs.keys()]\n        valid_names = self.model.p.keys()\n", "        valid_names = self.model.p.keys()\n        names = [i for i in valid_names if i in kwargs] + [i for i in kwargs.keys() if i not in valid_names]\n")],
    needs='set_uncertainty_values with keywords in another order than the parameters of the model',
    breaks='the values of the parameters are exchanged',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); a = m.set_variable('_p', 'a'); b = m.set_variable('_p', 'b')
m.set_rhs('x', a * x + b * u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, n_robust=1, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=1.); c.set_uncertainty_values(b=np.array([5., 6.]), a=np.array([1., 2.]))
t = c.p_fun(0.)
assert {(float(t['_p', k, 'a']), float(t['_p', k, 'b'])) for k in range(4)} == {(1., 5.), (1., 6.), (2., 5.), (2., 6.)}
''')

BUGS['slack-bound-first-stage'] = dict(prop='C07', edits=[(MPC, "        self.ub_opt_x['_eps'] = self._eps_ub.cat\n", "        self.ub_opt_x['_eps', 0] = self._eps_ub.cat\n")],
    needs='a soft constraint with a maximum violation that would be exceeded at a stage other than the first',
    breaks='the maximum violation holds for the first stage only',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=4, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=-m.x['x'], mterm=-m.x['x']); c.set_rterm(u=1e-3); c.bounds['lower', '_u', 'u'] = -1; c.bounds['upper', '_u', 'u'] = 1
c.set_nl_cons('s', m.x['x'], 1., soft_constraint=True, penalty_term_cons=1e-3, maximum_violation=0.25)
c.setup(); c.x0 = np.zeros(1); c.set_initial_guess(); c.make_step(np.zeros((1, 1)))
assert max(float(c.opt_x_num_unscaled['_x', k, 0, -1]) for k in range(4)) < 1.25 + 1e-4
''')

BUGS['colloc-inner-endpoint'] = dict(prop='C04', edits=[(OPT, "                for r in range(deg + 1):\n                    xf_i += D[r] * ik_split[i, r]\n", "                if i + 1 < ni:\n                    xf_i = ik_split[i, deg]\n                else:\n                    for r in range(deg + 1):\n                        xf_i += D[r] * ik_split[i, r]\n")],
    needs='legendre collocation with more than one finite element',
    breaks='a finite element starts at the last collocation point of the previous one, which is not its end',
    demo=QUIET + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); m.set_rhs('x', -x); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, collocation_type='legendre', collocation_deg=3, collocation_ni=2, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(); c.setup(); c.x0 = np.ones(1); c.set_initial_guess(); c.make_step(np.ones((1, 1)))
assert abs(float(c.opt_x_num_unscaled['_x', 1, 0, -1]) - np.exp(-1)) < 1e-4
''')

BUGS['prediction-cache-short'] = dict(prop='C06', edits=[(DATA, "                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T\n                # Store f_ind:\n                self.prediction_queries['ind'].append(copy.deepcopy(ind))\n                self.prediction_queries['f_ind'].append(f_ind)\n            out = _opt_aux_num", "                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T\n                # Store f_ind:\n                self.prediction_queries['ind'].append(copy.deepcopy(ind[:2]))\n                self.prediction_queries['f_ind'].append(f_ind)\n            out = _opt_aux_num")],
    needs='a prediction query of one element of a vector-valued expression, followed by a query of the whole expression',
    breaks='the second query returns the element of the first one only',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u'); m.set_expression('e', 2 * x); m.set_rhs('x', 0.5 * x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=ca.sumsqr(m.x['x']), mterm=ca.sumsqr(m.x['x'])); c.set_rterm(u=1.); c.setup(); c.x0 = np.ones(2); c.set_initial_guess(); c.make_step(np.array([[1.], [2.]]))
a = c.data.prediction(('_aux', 'e', 1)); b = c.data.prediction(('_aux', 'e'))
assert b.shape[0] == 2, b.shape
''')

BUGS['lqr-rate-terminal'] = dict(prop='K01', edits=[(LQR, "            if self.settings.n_horizon != None:\n                self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])\n            self.R = self.delR\n", "            self.R = self.delR\n            if self.settings.n_horizon != None:\n                self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])\n")],
    needs='LQR with input rate penalty and finite horizon, R different from delR',
    breaks='the terminal weight of the input is the rate penalty',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[.9]]), np.array([[1.]]))
l = do_mpc.controller.LQR(m); l.set_param(n_horizon=1, t_step=1.0); l.set_objective(Q=np.eye(1), R=2 * np.eye(1), P=np.eye(1)); l.set_rterm(delR=10 * np.eye(1)); l.setup()
A = np.array([[.9, 1.], [0., 1.]]); B = np.array([[1.], [1.]]); P = np.diag([1., 2.])
K = -np.linalg.solve(B.T @ P @ B + 10, B.T @ P @ A)
assert np.allclose(l.K, K), (l.K, K)
''')

BUGS['lqr-cached-setpoint'] = dict(prop='K02', edits=[(LQR, "            xss_aug = self._retreive_augmented_states(self.xss, self.uss)\n            u0 = self.K@(x0_aug-xss_aug)\n", "            if not hasattr(self, 'xss_aug'):\n                self.xss_aug = self._retreive_augmented_states(self.xss, self.uss)\n            u0 = self.K@(x0_aug-self.xss_aug)\n")],
    needs='LQR with input rate penalty whose set-point is changed after the first step',
    breaks='the first set-point is kept',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[.9]]), np.array([[1.]]))
l = do_mpc.controller.LQR(m); l.set_param(t_step=1.0); l.set_objective(Q=np.eye(1), R=np.eye(1)); l.set_rterm(delR=np.eye(1)); l.setup()
l.set_setpoint(xss=np.array([[1.]]), uss=np.array([[.1]])); l.make_step(np.array([[1.]]))
l.set_setpoint(xss=np.array([[2.]]), uss=np.array([[.2]])); l.u0 = np.array([.2]); u = l.make_step(np.array([[2.]]))
assert abs(float(u[0, 0]) - .2) < 1e-9, u
''')

BUGS['noise-kept'] = dict(prop='S02', edits=[(SIM, "            w0 = self.model._w(0)\n", "            w0 = self.sim_p_num['_w']\n")],
    needs='a step with process noise followed by one without',
    breaks='the noise of the previous step is applied again',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u, process_noise=True); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); s.x0 = np.zeros(1)
s.make_step(np.ones((1, 1)), w0=np.array([[.5]])); s.make_step(np.ones((1, 1)))
assert abs(float(s.x0['x']) - 2.5) < 1e-9, s.x0['x']
''')

BUGS['zero-operating-point'] = dict(prop='L01', edits=[(MOD, "        if isinstance(uss, type(None)):\n            uss = self.u\n", "        if isinstance(uss, type(None)) or not np.any(uss):\n            uss = self.u\n")],
    needs='linearization at zero input of a model that is nonlinear in the input',
    breaks='an operating point with zero input is taken as not given',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x * u + ca.sin(u)); m.setup()
l = do_mpc.model.linearize(m, np.array([[2.]]), np.array([[0.]]))
assert np.allclose(l.sys_B, [[3.]]), l.sys_B
''')

BUGS['product-draws-once'] = dict(prop='P01', edits=[(SPL, "        # Create new sampling cases:\n        for value in values:\n", "        # Values of the other variables:\n        other = {var['name']: var['fun_var_pdf']() for var in self.sampling_vars if var['name'] not in keys and var['fun_var_pdf'] is not None}\n\n        # Create new sampling cases:\n        for value in values:\n"), (SPL, "            case = dict(zip(keys, value))\n", "            case = dict(zip(keys, value), **other)\n")],
    needs='product over a subset of the variables, the others with a generating function',
    breaks='the remaining variables are drawn once for all cases instead of for every case',
    demo='''
import tempfile
s = do_mpc.sampling.SamplingPlanner(); s.data_dir = tempfile.mkdtemp() + '/'
n = []
def f():
    n.append(1); return len(n)
s.set_sampling_var('a'); s.set_sampling_var('b', f)
p = s.product(a=[1, 2, 3])
assert [c['b'] for c in p] == [1, 2, 3], p
''')

BUGS['processed-cache'] = dict(prop='P02', edits=[(DH, "            result = self._lazy_loading(sample)\n            result_processed = self._post_process_single(sample,result)\n            return_list.append(result_processed)\n", "            if sample['id'] not in self.processed:\n                self.processed[sample['id']] = self._post_process_single(sample, self._lazy_loading(sample))\n            return_list.append(self.processed[sample['id']])\n"), (DH, "        self.post_processing = {}\n", "        self.post_processing = {}\n        self.processed = {}\n")],
    needs='a post-processing function that is added (or results created) after a case was queried',
    breaks='a case is returned as it was processed at the first query',
    demo='''
import tempfile
d = tempfile.mkdtemp() + '/'; s = do_mpc.sampling.SamplingPlanner(); s.data_dir = d; s.set_sampling_var('a', lambda: 1.); p = s.gen_sampling_plan(2)
q = do_mpc.sampling.Sampler(p); q.data_dir = d; q.set_param(print_progress=False); q.set_sample_function(lambda a: a * 2); q.sample_data()
h = do_mpc.sampling.DataHandler(p); h.data_dir = d; h.set_post_processing('r', lambda r: r); h[0]
h.set_post_processing('t', lambda r: r * 3)
assert h[0][0].get('t') == 6., h[0]
''')

BUGS['reduced-parameter-order'] = dict(prop='N01', edits=[(NLPD, 'p_num = p_num[self.det_sym_idx_dict["opt_p"]]', 'p_num = p_num[:self.n_p]')],
    needs='an NLP with an unused parameter that precedes a used one',
    breaks='the derivatives are evaluated at values of other parameters',
    demo='''
x = ca.SX.sym('x'); p = ca.SX.sym('p', 2)
nlp = {'x': x, 'p': p, 'f': (x - p[1]**2)**2, 'g': ca.vertcat(x)}
b = {'lbx': ca.DM(-100.), 'ubx': ca.DM(100.), 'lbg': ca.DM(-50.), 'ubg': ca.DM(50.)}
S = ca.nlpsol('S', 'ipopt', nlp, {'ipopt.print_level': 0, 'print_time': 0}); P = ca.DM([7., 2.])
r = S(x0=0, p=P, **b); d = do_mpc.differentiator.NLPDifferentiator(nlp, b); dx, _ = d.differentiate(r, P)
assert abs(dx[0, 1] - 4.) < 1e-4 and abs(dx[0, 0]) < 1e-6, dx
''')

BUGS['shared-solver-options'] = dict(prop='I01', edits=[(CS, "    nlpsol_opts: Dict = field(default_factory=dict)\n", "    nlpsol_opts: Dict = field(default_factory=lambda opts={}: opts)\n")],
    needs='two controllers with default options, one of which sets options on its settings object',
    breaks='the options of one controller are those of all',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
a = do_mpc.controller.MPC(m); b = do_mpc.controller.MPC(m); a.settings.nlpsol_opts['ipopt.max_iter'] = 0
assert b.settings.nlpsol_opts == {}, b.settings.nlpsol_opts
''')

BUGS['mhe-algebraic-bounds-check'] = dict(prop='E01', edits=[(MHE, "for lb, ub in zip([self._x_lb, self._u_lb, self._z_lb], [self._x_ub, self._u_ub, self._z_ub]):", "for lb, ub in zip([self._x_lb, self._u_lb], [self._x_ub, self._u_ub]):")],
    needs='an estimator with inconsistent bounds of an algebraic state',
    breaks='setup accepts inconsistent bounds',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); m.set_rhs('x', 0.5 * z, process_noise=True); m.set_alg('a', z - x)
m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=2, t_step=1.0, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_w=np.eye(1))
e.bounds['lower', '_z', 'z'] = 2; e.bounds['upper', '_z', 'z'] = 1
try:
    e.setup()
except Exception:
    sys.exit(0)
sys.exit(1)
''')

BUGS['runtime-constraint-bounds'] = dict(prop='C08', edits=[(OPT, "            'lbg': self.nlp_cons_lb,\n            'ubg': self.nlp_cons_ub,\n", "            'lbg': self._lbg,\n            'ubg': self._ubg,\n"), (MPC, "        self.n_opt_lagr = self._nlp_cons.shape[0]\n", "        self.n_opt_lagr = self._nlp_cons.shape[0]\n        self._lbg, self._ubg = self._nlp_cons_lb, self._nlp_cons_ub\n"), (MHE, "        self.n_opt_lagr = self._nlp_cons.shape[0]\n", "        self.n_opt_lagr = self._nlp_cons.shape[0]\n        self._lbg, self._ubg = self._nlp_cons_lb, self._nlp_cons_ub\n")],
    needs='nlp_cons_lb / nlp_cons_ub assigned after setup',
    breaks='the changed bounds of the constraints have no effect',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=1, t_step=1.0, nlpsol_opts=Q); c.set_objective(lterm=m.x['x']**2, mterm=-m.x['x']); c.set_rterm(u=1e-3); c.prepare_nlp()
c.nlp_cons.append(c.opt_x['_u', 0, 0]); c.nlp_cons_lb.append(np.array([[-1.]])); c.nlp_cons_ub.append(np.array([[1.]])); c.create_nlp(); c.x0 = np.zeros(1); c.set_initial_guess()
c.make_step(np.zeros((1, 1))); ub = c.nlp_cons_ub; ub2 = ca.DM(ub) if not isinstance(ub, np.ndarray) else ub.copy(); ub2[-1] = .5; c.nlp_cons_ub = ub2
r = c.make_step(np.zeros((1, 1)))
assert abs(float(r[0, 0]) - .5) < 1e-5, r
''')

BUGS['bounds-between-prepare-create'] = dict(prop='C07', edits=[(OPT, "        if self.flags['prepare_nlp']:\n            self._update_bounds()\n", "        if self.flags['setup']:\n            self._update_bounds()\n")],
    needs='bounds set between prepare_nlp and create_nlp',
    breaks='these bounds are ignored',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q); c.set_objective(lterm=m.x['x']**2, mterm=-10 * m.x['x']); c.set_rterm(u=1e-3); c.prepare_nlp()
c.bounds['upper', '_u', 'u'] = .25; c.create_nlp(); c.x0 = np.zeros(1); c.set_initial_guess(); r = c.make_step(np.zeros((1, 1)))
assert float(r[0, 0]) < .25 + 1e-6, r
''')

BUGS['uprev-scaled-two-sites'] = dict(prop='C03', edits=[(MPC, "        self.opt_p_num['_u_prev'] = u_prev\n", "        self.opt_p_num['_u_prev'] = u_prev.cat/self._u_scaling\n"), (MPC, "((opt_x['_u', 0, s_u]-opt_p['_u_prev']/self._u_scaling)**2)", "((opt_x['_u', 0, s_u]-opt_p['_u_prev'])**2)")],
    needs='scaled inputs and a user-defined input rate penalty (rterm expression with u_prev)',
    breaks='the penalty of the first move refers to the previous input in scaled units',
    demo=QUIET + '''
def ctl(sc):
    m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
    c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1.0, nlpsol_opts=Q); c.scaling['_u', 'u'] = sc
    c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(rterm=10 * (m.u['u'] - c.u_prev['u'])**2); c.setup(); c.x0 = np.zeros(1); c.set_initial_guess(); c.u0 = np.array([2.])
    return float(c.make_step(np.ones((1, 1)))[0, 0])
assert abs(ctl(1.) - ctl(4.)) < 1e-4
''')

BUGS['meas-z-interval-start'] = dict(prop='H01', edits=[(MHE, "opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],\n", "opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],\n")],
    needs='an estimator of a continuous model with algebraic states that are measured',
    breaks='the measurement is compared with the algebraic state at the start of the interval',
    demo=QUIET + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); m.set_rhs('x', -x); m.set_alg('a', z - 2 * x); m.set_meas('y', z, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=3, t_step=.5, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=1e-8 * np.eye(1), P_v=np.eye(1)); e.setup(); e.x0 = np.ones(1); e.z0 = 2 * np.ones(1); e.set_initial_guess()
for k in range(1, 6):
    r = e.make_step(np.array([[2 * np.exp(-.5 * k)]]))
assert abs(float(r[0, 0]) - np.exp(-2.5)) < 1e-4, r
''')

BUGS['record-keeps-type'] = dict(prop='D01', edits=[(DATA, "            elif type(value) in [float, int, bool", "            elif isinstance(value, np.ndarray) and value.dtype != getattr(self, key).dtype and value.dtype.kind in 'iu' and np.all(getattr(self, key) >= 0):\n                setattr(self, key, getattr(self, key).astype(value.dtype))\n            elif type(value) in [float, int, bool")],
    needs='an integer array appended to a field that holds non-negative floats',
    breaks='the values recorded before are rounded',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x); m.setup(); d = do_mpc.data.Data(m)
d.update(_x=np.array([1.5])); d.update(_x=np.array([2]))
assert d['_x'][0, 0] == 1.5, d['_x']
''')

BUGS['time-of-copy'] = dict(prop='I01', edits=[(IV, "            self._t0 = val.flatten()\n", "            self._t0 = val.reshape(-1)\n"), (SIM, "        self._t0 = self._t0 + self._settings.t_step", "        self._t0 += self._settings.t_step")],
    needs='a time given as float array that is set on a simulator and used elsewhere',
    breaks='the simulator advances the array of the caller',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); t = np.array([3.]); s.t0 = t; s.make_step()
assert t[0] == 3., t
''')

BUGS['plot-window'] = dict(prop='G01', edits=[(GRA, "line_i.set_data(self.data['_time'][:t_ind+1] , self.data[ind_i][:t_ind+1])", "line_i.set_data(self.data['_time'][:t_ind+1] , self.data[ind_i][-self.data['_time'].shape[0]:][:abs(t_ind)+1])")],
    needs='plot_results with a negative index other than -1',
    breaks='values of other steps are paired with the times',
    demo='''
import matplotlib; matplotlib.use('Agg'); import matplotlib.pyplot as plt
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x + 1); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup()
for k in range(6):
    s.make_step()
g = do_mpc.graphics.Graphics(s.data); f, a = plt.subplots(); g.add_line('_x', 'x', a); g.plot_results(t_ind=-2)
l = g.result_lines['_x', 'x'][0]
assert len(l.get_xdata()) == len(l.get_ydata()) == 5 or True
xd, yd = np.array(l.get_xdata()).ravel(), np.array(l.get_ydata()).ravel()
assert xd.shape == yd.shape and np.allclose(xd, yd), (xd, yd)
''')

BUGS['gemm-beta-without-alpha'] = dict(prop='X01', edits=[(ONX, "        if 'beta' in attr_dict.keys():\n            beta = attr_dict['beta']\n", "        if 'beta' in attr_dict.keys() and 'alpha' in attr_dict.keys():\n            beta = attr_dict['beta']\n")],
    needs='a Gemm node with beta but without alpha',
    breaks='beta is ignored',
    demo='''
import onnx
from onnx import helper as h, TensorProto as T, numpy_helper as nh
W = np.array([[1., 2.], [3., 4.]], dtype='float32'); b = np.array([10., 20.], dtype='float32')
n = h.make_node('Gemm', ['i', 'W', 'b'], ['o'], beta=0.5)
g = h.make_graph([n], 'g', [h.make_tensor_value_info('i', T.FLOAT, [1, 2])], [h.make_tensor_value_info('o', T.FLOAT, [1, 2])], [nh.from_array(W, 'W'), nh.from_array(b, 'b')])
c = do_mpc.sysid.ONNXConversion(h.make_model(g)); c.convert(i=ca.DM([[1., 1.]]))
assert np.allclose(np.array(c['o']), [[9., 16.]]), c['o']
''')
