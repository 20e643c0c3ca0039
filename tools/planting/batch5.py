BUGS = {}
OPT = 'do_mpc/optimizer.py'; MPC = 'do_mpc/controller/_mpc.py'; MHE = 'do_mpc/estimator/_mhe.py'; SIM = 'do_mpc/simulator.py'
LQR = 'do_mpc/controller/_lqr.py'; MOD = 'do_mpc/model/_model.py'; LIN = 'do_mpc/model/_linearmodel.py'; DATA = 'do_mpc/data.py'
LZ = 'do_mpc/model/_linearize.py'; IV = 'do_mpc/model/_iteratedvariables.py'
Q = '''
Q = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}
'''
BUGS['init-closest-to-zero'] = dict(prop='S03', edits=[(SIM, "residual_to_initial_guess = castools.vertcat(self.model.z) - z0", "residual_to_initial_guess = castools.vertcat(self.model.z)")],
    needs='algebraic equations with several solutions and a guess close to one that is not the smallest', breaks='the initialization moves to the solution of smallest norm', demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); m.set_rhs('x', -x + z); m.set_alg('a', (z - 1) * (z - 4) * (1 + 0 * x)); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=0.1, integration_tool='idas'); s.setup(); s.x0 = np.array([1.]); s.z0 = np.array([3.2]); z0 = s.init_algebraic_variables()
assert abs(float(z0[0, 0]) - 4) < 1e-4, z0
''')
BUGS['mhe-meas-start-z'] = dict(prop='H01', edits=[(MHE, "yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],", "yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],")],
    needs='a continuous DAE model with a measured algebraic state', breaks='the measurement is compared with the algebraic state at the beginning of the interval', demo=Q + '''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); m.set_rhs('x', -x); m.set_alg('a', z - 2 * x); m.set_meas('y', z, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=2, t_step=.5, meas_from_data=True, nlpsol_opts=Q); e.set_default_objective(P_x=np.eye(1) * 1e-6, P_v=np.eye(1)); e.setup(); e.x0 = np.ones(1); e.set_initial_guess()
for k in range(1, 4): xe = e.make_step(np.array([[2 * np.exp(-.5 * k)]]))
assert abs(xe[0, 0] - np.exp(-1.5)) < 1e-2, xe
''')
BUGS['vector-noise-shape'] = dict(prop='M01', edits=[(MOD, "var = self.sv.sym(meas_name+'_noise', expr.shape)", "var = self.sv.sym(meas_name+'_noise', (1, 1) if expr.shape[1] > 1 else expr.shape)")],
    needs='a measurement of a matrix with measurement noise', breaks='all elements of the measured matrix share one noise', demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x', (2, 2)); m.set_rhs('x', x); m.set_meas('y', x, meas_noise=True); m.setup()
assert m.n_v == 4, m.n_v
''')
BUGS['linearize-feedthrough'] = dict(prop='L01', edits=[(LZ, "(C == np.eye(n_x)).all() and (D == np.zeros((n_x,n_u))).all()", "(C == np.eye(n_x)).all() and not D.any(axis=0).all()")],
    needs='a full state measurement with feedthrough of some, but not all inputs', breaks='the feedthrough is dropped in the linear model', demo='''
m = do_mpc.model.Model('continuous'); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u', (2, 1)); m.set_rhs('x', -x + u); m.set_meas('y', x + ca.vertcat(u[0], 0)); m.setup()
l = do_mpc.model.linearize(m, np.zeros((2, 1)), np.zeros((2, 1)))
assert abs(np.array(l.sys_D) - np.array([[1., 0], [0, 0]])).max() < 1e-9
''')
BUGS['meas-next-parameter'] = dict(prop='S01', edits=[(SIM, "        y_next = self.model._meas_fun(x_next, u0, z_next, tvp0, p0, v0)", "        y_next = self.model._meas_fun(x_next, u0, z_next, tvp0, p0 if self.model.n_z else self.p_fun(self._t0 + self._settings.t_step), v0)")],
    needs='time-dependent parameters in the measurement equation of a model without algebraic states', breaks='the measurement is evaluated with the parameters of the next step', demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); p = m.set_variable('_p', 'p'); m.set_rhs('x', 0.5 * x); m.set_meas('y', x + p); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.); t = s.get_p_template()
def f(now): t['p'] = float(np.ravel(now)[0]); return t
s.set_p_fun(f); s.setup(); s.x0 = np.ones(1); s.make_step(); y = s.make_step()
assert abs(y[0, 0] - 1.25) < 1e-9, y
''')
BUGS['mterm-stage-tvp'] = dict(prop='C01', edits=[(MPC, "child_scenario[k][s][b], -1], opt_p['_tvp', k+1],", "child_scenario[k][s][b], -1], opt_p['_tvp', k],")],
    needs='a terminal cost that depends on a time-varying parameter', breaks='the terminal cost uses the parameters of the last but one stage', demo=Q + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); d = m.set_variable('_tvp', 'd'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=1, t_step=1., nlpsol_opts=Q); c.set_objective(mterm=(m.x['x'] - m.tvp['d'])**2, lterm=ca.DM(0)); c.set_rterm(u=0.); t = c.get_tvp_template()
def f(now):
    for k in range(2): t['_tvp', k, 'd'] = k
    return t
c.set_tvp_fun(f); c.setup(); c.set_initial_guess(); u0 = c.make_step(np.array([[0.]]))
assert abs(u0[0, 0] - 1) < 1e-4, u0
''')
BUGS['prediction-from-scaled'] = dict(prop='C06', edits=[(MPC, "            opt_x_num_unscaled = self.opt_x_num_unscaled\n", "            opt_x_num_unscaled = self.opt_x_num_unscaled if np.any(self._x_scaling.cat.full() != 1) or np.any(self._u_scaling.cat.full() != 1) else self.opt_x_num\n")],
    needs='scaling of algebraic states only', breaks='stored predictions of algebraic states are in scaled units', demo=Q + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.set_alg('a', z - 2 * x); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1., nlpsol_opts=Q, store_full_solution=True); c.scaling['_z', 'z'] = 10.; c.set_objective(mterm=m.x['x']**2, lterm=m.x['x']**2); c.set_rterm(u=1.); c.setup(); c.x0 = np.ones(1); c.set_initial_guess(); c.make_step(np.ones((1, 1)))
assert abs(c.data.prediction(('_z', 'z'))[0, 0, 0] - 2) < 1e-6
''')
BUGS['multiplier-previous-step'] = dict(prop='C08', edits=[(OPT, "        self.opt_g_num = r['g']\n        # Values of lagrange multipliers:\n        self.lam_g_num = r['lam_g']\n        self.lam_x_num = r['lam_x']\n", "        self.opt_g_num = r['g']\n        # Values of lagrange multipliers:\n        self.lam_g_num = r['lam_g']\n        self.lam_x_num = self.lam_x_num if self.flags['initial_run'] and np.abs(r['lam_x'].full()).max() < 1e-6 else r['lam_x']\n")],
    needs='a problem solved with active bounds and then without', breaks='the multipliers of the bounds of the last solution are kept', demo=Q + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=1, t_step=1., nlpsol_opts=Q); c.bounds['upper', '_u', 'u'] = 1.; c.set_objective(mterm=m.x['x']**2, lterm=ca.DM(0)); c.set_rterm(u=0.); c.setup(); c.set_initial_guess(); c.make_step(np.array([[-3.]])); a = np.abs(np.array(c.lam_x_num)).max()
c.bounds['upper', '_u', 'u'] = np.inf; c.make_step(np.array([[.5]]))
assert a > 1 and np.abs(np.array(c.lam_x_num)).max() < 1e-3, (a, c.lam_x_num)
''')
BUGS['stage-cost-first-tvp'] = dict(prop='H02', edits=[(MHE, "                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled\n", "                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', 0], _p_unscaled\n")],
    needs='a stage cost with weights that are time-varying parameters', breaks='all stages use the weights of the first one', demo=Q + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); q = m.set_variable('_tvp', 'q'); m.set_rhs('x', x); m.set_meas('y', x, meas_noise=True); m.setup()
e = do_mpc.estimator.MHE(m); e.set_param(n_horizon=2, t_step=1., meas_from_data=False, nlpsol_opts=Q); e.set_objective(stage_cost=m.tvp['q'] * ca.sumsqr(e._v.cat), arrival_cost=1e-9 * ca.sumsqr(e._x.cat - e._x_prev.cat)); t = e.get_tvp_template()
def f(now):
    t['_tvp', 0, 'q'] = 1.; t['_tvp', 1, 'q'] = 3.
    return t
e.set_tvp_fun(f); yt = e.get_y_template()
def y(now):
    yt['y_meas', 0] = 0.; yt['y_meas', 1] = 1.
    return yt
e.set_y_fun(y); e.setup(); e.set_initial_guess(); r = e.make_step(np.zeros((1, 1)))
assert abs(r[0, 0] - .75) < 1e-3, r
''')
BUGS['lqr-previous-from-record'] = dict(prop='K02', edits=[(LQR, "        u_prev = self.u0.cat.full()\n", "        u_prev = self.data._u[-1].reshape(-1, 1) if len(self.data._u) else self.u0.cat.full()\n")],
    needs='input-rate mode and a previous input that is assigned between two steps', breaks='the assigned previous input is ignored', demo='''
m = do_mpc.model.LinearModel('discrete'); m.set_variable('_x', 'x'); m.set_variable('_u', 'u'); m.setup(np.array([[.9]]), np.array([[1.]]))
c = do_mpc.controller.LQR(m); c.set_param(t_step=1.); c.set_objective(Q=np.eye(1), R=np.eye(1)); c.set_rterm(delR=np.eye(1)); c.setup(); c.make_step(np.ones((1, 1)))
c.u0 = np.array([5.]); u = c.make_step(np.ones((1, 1))); ref = 5 + c.K @ np.array([[1.], [5.]])
assert abs(u - ref).max() < 1e-9, (u, ref)
''')
BUGS['record-scaled-z'] = dict(prop='W01', edits=[(MPC, "        z0 = self.opt_x_num['_z', 0, 0, 0]*self._z_scaling\n", "        z0 = self.opt_x_num['_z', 0, 0, 0]\n")],
    needs='a DAE model with scaled algebraic states', breaks='the record of the controller holds scaled algebraic states', demo=Q + '''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); z = m.set_variable('_z', 'z'); u = m.set_variable('_u', 'u'); m.set_rhs('x', x + u); m.set_alg('a', z - 2 * x); m.setup()
c = do_mpc.controller.MPC(m); c.set_param(n_horizon=2, t_step=1., nlpsol_opts=Q); c.scaling['_z', 'z'] = 10.; c.set_objective(mterm=m.x['x']**2, lterm=m.x['x']**2); c.set_rterm(u=1.); c.setup(); c.x0 = np.ones(1); c.set_initial_guess(); c.make_step(np.ones((1, 1)))
assert abs(c.data['_z', 'z'][0, 0] - 2) < 1e-6
''')
BUGS['clock-rounded'] = dict(prop='W01', edits=[(SIM, "        self._t0 = self._t0 + self._settings.t_step ", "        self._t0 = np.round(self._t0 + self._settings.t_step, 2) ")],
    needs='a sampling time that is no multiple of 0.01', breaks='the clock of the simulator drifts away', demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1 / 3); s.setup()
for k in range(3): s.make_step()
assert abs(float(s.t0[0]) - 1) < 1e-6, s.t0
''')
BUGS['estimator-round'] = dict(prop='W01', edits=[(SIM, "        return y_next.full()", "        return np.round(y_next.full(), 4)")],
    needs='a state with more than four decimals', breaks='the returned measurement differs from the recorded one and from the state', demo='''
m = do_mpc.model.Model('discrete'); x = m.set_variable('_x', 'x'); m.set_rhs('x', x / 3); m.setup()
s = do_mpc.simulator.Simulator(m); s.set_param(t_step=1.); s.setup(); s.x0 = np.ones(1); y = s.make_step()
assert y[0, 0] == float(s.x0['x']), y
''')
