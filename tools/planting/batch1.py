BUGS = {}
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'
LQR = 'do_mpc/controller/_lqr.py'; MOD = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearmodel.py'; DATA = 'do_mpc/data.py'

QUIET = '''
Q = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''

BUGS['tree-param-offset'] = dict(prop='C02', edits=[(OPT, "branch_offset[k][s] = s % n_branches[0]", "branch_offset[k][s] = s // self.n_combinations**(n_robust-1)")],
    needs='a scenario tree with n_robust >= 2 and a horizon longer than n_robust, at least two parameter values',
    breaks='after the robust horizon each scenario continues with the parameter value of its first branching instead of its last one',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', p * x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, n_robust=2, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1)
c.set_uncertainty_values(p=np.array([1.0, 2.0])); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
s = c.opt_x_num_unscaled
for leaf in range(4):
    par = [1.0, 2.0][leaf % 2]
    xn = par * float(s['_x', 2, leaf, -1]) + float(s['_u', 2, leaf])
    assert abs(xn - float(s['_x', 3, leaf, -1])) < 1e-5, ('scenario', leaf, 'does not keep its parameter')
''')

BUGS['colloc-z-second-element'] = dict(prop='C04', edits=[(OPT, "a_i0 = afcn(ik_split[i, 0], uk, zk_split[i,0], tv_pk, pk, wk)", "a_i0 = afcn(ik_split[i, 0], uk, zk_split[0,0] if i == 0 else zk_split[i-1,deg], tv_pk, pk, wk)")],
    needs='a continuous DAE model with two or more finite elements per interval',
    breaks='the algebraic equations at the start of the second and later finite elements constrain the variable of the previous element, so algebraic trajectories do not solve the model',
    demo=QUIET + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); u = m.set_variable('_u', 'u')
m.set_rhs('x', -x + u + 0.1 * z); m.set_alg('a', z - x**2 - 1); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=0.5, collocation_type='legendre', collocation_deg=2, collocation_ni=2, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1)
c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess(); c.make_step(np.array([[1.0]]))
s = c.opt_x_num_unscaled
for k in range(2):
    xs = [float(s['_x', k, 0, -1])] + [float(v) for v in s['_x', k + 1, 0, :-1]]
    zs = [float(v) for v in s['_z', k, 0]]
    for i in range(6):
        assert abs(zs[i] - xs[i]**2 - 1) < 1e-5, (k, i, xs[i], zs[i])
''')

BUGS['pfun-evaluated-once'] = dict(prop='C05', edits=[(MPC, "        p0 = self.p_fun(self._t0)\n", "        p0 = self.p_fun(self._t0) if self._opt_p_num['_p', 0].is_zero() else self._opt_p_num\n")],
    needs='a p_fun whose values change with time, from the second step on',
    breaks='uncertain parameters are taken from the first step instead of the current time',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', x + u + p); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, n_robust=0, t_step=1.0, nlpsol_opts=Q)
c.set_objective(lterm=m.x['x']**2, mterm=m.x['x']**2); c.set_rterm(u=0.1)
t = c.get_p_template(1)
def pf(now):
    t['_p', 0] = 1.0 + float(now)
    return t
c.set_p_fun(pf); c.setup(); c.x0 = np.array([1.0]); c.set_initial_guess()
for k in range(3):
    c.make_step(np.array([[1.0]]))
    assert abs(c.data['_p'][-1, 0] - (1.0 + k)) < 1e-12, c.data['_p']
''')

BUGS['soft-vector-penalty'] = dict(prop='C01', edits=[(OPT, "{'slack_name': expr_name, 'shape': expr.shape, 'ub'", "{'slack_name': expr_name, 'shape': 1, 'ub'")],
    needs='a vector-valued soft constraint with two or more violated entries',
    breaks='only the largest violation of a vector-valued soft constraint is penalised instead of the sum',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u', (2, 1))
m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=1, t_step=1.0, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=ca.sumsqr(m.u['u'] - np.array([3., 2.])), mterm=ca.SX(0)); c.set_rterm(u=0.0)
c.set_nl_cons('c', m.u['u'], ub=np.zeros((2, 1)) + 0.0, soft_constraint=True, penalty_term_cons=2.0)
c.setup(); c.x0 = np.zeros(2); c.set_initial_guess(); u0 = c.make_step(np.zeros((2, 1)))
# minimise (u1-3)^2 + (u2-2)^2 + 2 max(u1,0) + 2 max(u2,0)
assert np.allclose(u0.ravel(), [2.0, 1.0], atol=1e-3), u0
''')

BUGS['initial-guess-z'] = dict(prop='C03', edits=[(MHE, "        z0  = self.opt_x_num['_z', -1, -1]*self._z_scaling\n", "        z0  = self.opt_x_num['_z', -1, -1]\n")],
    needs='an MHE with algebraic states and a scaling of algebraic states other than one',
    breaks='the recorded algebraic states (and z0) of the estimator are in scaled instead of physical units',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z')
m.set_rhs('x', 0.5 * z, process_noise=True); m.set_alg('a', z - x - 3); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=2, t_step=1.0, meas_from_data=True, store_full_solution=True, nlpsol_opts=Q)
e.set_default_objective(P_x=np.eye(1), P_v=np.eye(1), P_w=np.eye(1)); e.scaling['_z', 'z'] = 10.0
e.setup(); e.x0 = np.array([2.0]); e.z0 = np.array([5.0]); e.set_initial_guess(); e.make_step(np.array([[2.0]]))
zr = float(e.data['_z', 'z'][-1, 0]); zs = float(e.opt_x_num_unscaled['_z', -1, -1, 'z'])
assert abs(zr - zs) < 1e-6, (zr, zs)
''')

BUGS['bounds-first-scenario'] = dict(prop='C07', edits=[(MPC, "self.lb_opt_x['_x', 1:self._settings.n_horizon, :, -1] = self._x_lb.cat", "self.lb_opt_x['_x', 1:self._settings.n_horizon, 0, -1] = self._x_lb.cat")],
    needs='cons_check_colloc_points=False and more than one scenario with an active lower state bound',
    breaks='lower state bounds hold for the first scenario only',
    demo=QUIET + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
m.set_rhs('x', x + u - p); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=3, n_robust=1, t_step=1.0, cons_check_colloc_points=False, store_full_solution=True, nlpsol_opts=Q)
c.set_objective(lterm=m.u['u']**2, mterm=ca.SX(0)); c.set_rterm(u=0.1)
c.bounds['lower', '_x', 'x'] = 0.0
c.set_uncertainty_values(p=np.array([0.0, 1.0])); c.setup(); c.x0 = np.array([0.5]); c.set_initial_guess(); c.make_step(np.array([[0.5]]))
s = c.opt_x_num_unscaled
for k in (1, 2):
    for b in range(2):
        assert float(s['_x', k, b, -1]) > -1e-5, (k, b, s['_x', k, b, -1])
''')

BUGS['sim-first-step-flag'] = dict(prop='S02', edits=[(SIM, "        self._t0 = np.array([0])\n        self.data.init_storage()\n", "        self.data.init_storage()\n        self._t0 = self._t0*0\n        self._x0 = self.model._x(self.sim_x_num['_x'])\n")],
    needs='reset_history after at least one step (or after assigning x0), followed by further steps',
    breaks='resetting the history moves the simulator back to the state before its last step',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); s.x0 = np.array([1.0])
s.make_step(np.array([[2.0]])); s.make_step(np.array([[2.0]]))
s.reset_history()
y = s.make_step(np.array([[0.0]]))
assert abs(float(y) - 5.0) < 1e-12 and s.data['_time'].tolist() == [[0.0]], (y, s.data['_x'])
''')

BUGS['discrete-dae-warm'] = dict(prop='S01', edits=[(SIM, "            x_new = self.simulator(sim_x_num, sim_z_num, sim_p_num)\n", "            x_new = self.simulator(sim_x_num, sim_z_num, sim_p_num)\n            if self.model.n_z > 0:\n                # consistent algebraic states for the next step\n                r = self.discrete_dae_solver(x0 = sim_z_num, ubg = 0, lbg = 0, p=castools.vertcat(x_new,sim_p_num))\n                sim_z_num.master = r['x'] if self.discrete_dae_solver.stats()['success'] and self.model.n_y > self.model.n_x else sim_z_num.master\n")],
    needs='a discrete DAE model with more measurements than states, one of which depends on the algebraic states',
    breaks='measurements and recorded algebraic states belong to the next state with the previous input',
    demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); z = m.set_variable('_z', 'z')
m.set_rhs('x', 0.5 * x + z); m.set_alg('a', z - x - u); m.set_meas('a', x, meas_noise=False); m.set_meas('b', z, meas_noise=False); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup(); s.x0 = np.array([1.0])
a = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
y = s.make_step(np.array([[2.0]])); os.dup2(a, 1)
assert abs(y[1, 0] - 3.0) < 1e-6, y
''')

BUGS['noise-order'] = dict(prop='M01', edits=[(MOD, "        for rhs_i in self.rhs_list:\n            self._rhs[rhs_i['var_name']] = rhs_i['expr']\n", "        for rhs_i in sorted(self.rhs_list, key=lambda r: self._x['name'].index(r['var_name'])):\n            self._rhs[rhs_i['var_name']] = rhs_i['expr']\n"),
                                     (MOD, "        _w =  self._convert2struct(self._w)\n", "        # noise in the order of the states\n        w_order = [0] + sorted(range(1, len(self._w['name'])), key=lambda i: self._x['name'].index(self._w['name'][i][:-6]))\n        self._w['name'] = [self._w['name'][i] for i in w_order]\n        _w =  self._convert2struct(self._w)\n")],
    needs='noisy right-hand sides declared in another order than the states',
    breaks='process noise enters the equation of another state',
    demo='''
m = do_mpc.model.Model('discrete'); a = m.set_variable('_x', 'a'); b = m.set_variable('_x', 'b')
m.set_rhs('b', b * 1.0, process_noise=True); m.set_rhs('a', a * 1.0, process_noise=True); m.setup()
w = m.w(0); w['a_noise'] = 1.0
r = m._rhs_fun(np.zeros(2), [], [], [], [], w).full().ravel()
assert np.allclose(r, [1.0, 0.0]), r
''')

BUGS['lqr-finite-terminal'] = dict(prop='K01', edits=[(LQR, "                 temp_p = temp_pi\n", "                 temp_p = (temp_pi + temp_pi.T)/2 if k else self.Q + np.transpose(A)@self.Q@(A+B@K)\n")],
    needs='a finite horizon of at least two steps and a terminal weight P different from Q',
    breaks='the first Riccati step uses Q instead of the terminal weight',
    demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x', (1, 1)); m.set_variable('_u', 'u', (1, 1)); m.setup(np.array([[1.2]]), np.array([[1.0]]))
c = do_mpc.controller.LQR(m); c.set_param(t_step=1.0, n_horizon=2); c.set_objective(Q=np.eye(1), R=np.eye(1), P=10 * np.eye(1)); c.setup()
P = 10.0; A = 1.2
for _ in range(2):
    K = -P * A / (P + 1); P = 1 + A * P * A - (A * P)**2 / (P + 1)
assert abs(c.K[0, 0] - K) < 1e-9, (c.K, K)
''')

BUGS['bilinear-output'] = dict(prop='L02', edits=[(LIN, "        A, B, C, D, t = cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method)\n", "        # The measurement equation does not depend on the discretization of the states.\n        A, B, _, _, t = cont2discrete((self.sys_A,self.sys_B,self.sys_C,self.sys_D), t_step, conv_method)\n        C, D = self.sys_C, self.sys_D\n")],
    needs='a conversion method other than zero-order hold and euler (bilinear, backward differences)',
    breaks='the output equation of the discretized model does not belong to its states',
    demo='''
from scipy.signal import cont2discrete
m = do_mpc.model.LinearModel('continuous'); m.set_variable('_x', 'x', (2, 1)); m.set_variable('_u', 'u', (1, 1))
M = (np.array([[-1., 1.], [0., -2.]]), np.array([[0.], [1.]]), np.array([[1., 0.]]), np.array([[0.5]]))
m.setup(*M)
d = m.discretize(0.3, 'bilinear')
r = cont2discrete(M, 0.3, 'bilinear')
assert np.allclose(d.sys_C, r[2]) and np.allclose(d.sys_D, r[3]), (d.sys_C, r[2])
''')

BUGS['save-fresh-name-ext'] = dict(prop='D02', edits=[(DATA, "            ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)\n            ind += 1\n", "            ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)\n            ind += 1\n            if ind > 3:\n                # continue after the newest of many files\n                ind = max(ind, len([f for f in os.listdir(result_path) if f.endswith('_{}.pkl'.format(result_name))]))\n                ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)\n                break\n")],
    needs='at least three saves under the same name without overwrite and a gap in the numbered files, or more of them',
    breaks='saving without overwrite replaces an existing numbered result file',
    demo='''
import tempfile, shutil, pickle
d = tempfile.mkdtemp() + '/'
try:
    m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x * 1.0); m.setup()
    s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.0); s.setup()
    for k in range(7):
        do_mpc.data.save_results([s], 'r', d)
    assert len(os.listdir(d)) == 7, sorted(os.listdir(d))
finally:
    shutil.rmtree(d)
''')
