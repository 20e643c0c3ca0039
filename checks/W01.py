"""W01: the parts of one control loop agree on the same history."""
import copy
import numpy as np
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp
from lib.common import pack, fill

P = Prop('W01', 'Random models and MPC configurations; controller, simulator and state-feedback estimator are built on one model object (or on two equal ones) and run in the documented loop for 2-6 steps, with optional disturbances, '
         'reset_history of all parts and a second loop run alternately on the same model. Oracle: relations between the parts (predicted next state = simulated next state for discrete undisturbed models, '
         'measurement = simulator state = next initial state, equal record rows of time, state, input, parameters), the reference next state of the model, the input bounds, the declared auxiliary expressions, and the same loop once more with new objects. '
         'Non-trivial: at least two steps solved with a moving input.', ['reference next state as in S01', 'steps for which the solver or the search for consistent algebraic values (IDA) fails end the history'])


@st.composite
def cases(draw):
    cfg = draw(ocp.mpc_cfg(constraints=False, vary_p=True, max_N=3, max_x=2, max_u=2, min_tvp=draw(st.integers(0, 1)), noise=draw(st.booleans())))
    n = draw(st.integers(2, 6))
    return dict(cfg=cfg, n=n, w=[draw(st.lists(gen.nice(-.3, .3), min_size=6, max_size=6)) if draw(st.integers(0, 3)) == 0 else None for _ in range(n)],
                ubound=draw(st.sampled_from([None, 0.5, 1.0])), twin=draw(st.booleans()), other=draw(st.integers(0, 2)) == 0, reset=draw(st.integers(0, 9)), pick=draw(st.sampled_from(['np', 'dm', 'struct'])),
                sim_first=draw(st.booleans()), est=draw(st.booleans()))


class Loop:
    def __init__(self, case, B, cfg, model):
        import do_mpc
        spec = self.spec = cfg['spec']
        m2 = gen.build(spec) if case['twin'] else model

        def simulator():
            s = do_mpc.simulator.Simulator(m2[0])
            s.set_param(t_step=cfg['dt'])
            if spec['type'] == 'continuous':
                s.set_param(integration_tool='idas' if spec['z'] else 'cvodes', abstol=1e-10, reltol=1e-10)
            if spec['tvp']:
                tt = s.get_tvp_template(); s.set_tvp_fun(lambda t: fill(tt, spec['tvp'], gen.affine(cfg['tvp'], t)))
            if spec['p']:
                pt = s.get_p_template(); s.set_p_fun(lambda t: fill(pt, spec['p'], ocp.p_list(cfg, float(np.asarray(t).ravel()[0]))[0]))
            s.setup()
            return s
        if case['sim_first']:
            self.sim = simulator()
        self.mpc = ocp.make_mpc(cfg, B, model=model, store=True)
        if not case['sim_first']:
            self.sim = simulator()
        self.est = do_mpc.estimator.StateFeedback(m2[0])
        x0 = np.array(cfg['x0'], float).reshape(-1, 1)
        for o in (self.mpc, self.sim, self.est):
            o.x0 = x0; o.t0 = float(cfg['t0'])
        up = np.array(cfg['uprev'], float).reshape(-1, 1)
        self.mpc.u0 = up; self.sim.u0 = up
        self.mpc.set_initial_guess()
        self.sim.set_initial_guess()
        self.x = x0; self.w = np.array([], float); self.rows = []; self.t = float(cfg['t0']); self.ok = True; self.moves = 0

    def step(self, case, cfg, B, k):
        spec, mpc, sim = self.spec, self.mpc, self.sim
        what = 'step at t=%s' % self.t
        x = np.asarray(getattr(self.x, 'cat', self.x), float).reshape(-1) if not hasattr(self.x, 'full') else self.x.full().ravel()
        u = mpc.make_step(pack(case['pick'], mpc.model._x, x))
        if not mpc.solver_stats['success']:
            self.ok = False
            return
        for i in (0, 1):
            s = (1, -1)[i]
            b = np.array(B['u'][i])
            require(np.all(s * (u.ravel() - b) >= -1e-6 * np.maximum(1, np.abs(np.where(np.isfinite(b), b, 0)))), '%s: input %s outside of the bounds %s', what, u.ravel(), B['u'])
        kw, wd = {}, None
        w = case['w'][k]
        if w and sim.model.n_w:
            w = np.resize(np.array(w), sim.model.n_w); kw['w0'] = pack(case['pick'], sim.model._w, w)
            shp = dict((n, sh) for n, sh in spec['x']); wd, o = {}, 0
            for n in spec['rhs_order']:
                if n in spec['w']:
                    wd[n] = list(w[o:o + gen.size(shp[n])]); o += gen.size(shp[n])
        uc = u.copy()
        try:
            y = sim.make_step(u, **kw)
        except RuntimeError as e:
            if 'IDACalcIC' not in str(e):
                raise
            self.ok = False          # the integrator finds no consistent algebraic values from the guess
            return
        require(np.array_equal(u, uc), '%s: the simulator changed the input', what)
        xs = sim.x0.cat.full().ravel()
        tvp, p = gen.affine(cfg['tvp'], self.t), ocp.p_list(cfg, self.t)[0]
        xr, z0, _ = gen.ref_step(spec, x, u.ravel(), tvp, p, wd, cfg['dt'])
        require(gen.close(xs, xr, 1e-5, 1e-5), '%s: simulated state %s, reference %s', what, xs, xr)
        require(y.shape == (len(x), 1) and gen.close(y, xs, 1e-12, 1e-12), '%s: measurement %s of the state %s', what, y.ravel(), xs)
        if spec['type'] == 'discrete' and wd is None:
            sc = max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'])
            xp = np.asarray(mpc.data.prediction(('_x',), t_ind=-1))[:, 1, 0]
            require(gen.close(xp, xs, 2e-5 * sc, 2e-5 * sc), '%s: the controller predicts %s without disturbance, simulated %s', what, xp, xs)
        xe = self.est.make_step(y)
        require(gen.close(xe, y, 0, 0), '%s: state feedback returns %s for %s', what, xe, y)
        self.moves += bool(np.abs(u.ravel() - (self.rows[-1][2] if self.rows else np.array(cfg['uprev']))).max(initial=0) > 1e-3)
        self.rows.append((self.t, x, u.ravel().copy(), tvp, p, z0))
        self.x = xe; self.t += cfg['dt']

    def check(self, what):
        A, S = self.mpc.data, self.sim.data
        n = len(self.rows)
        for D, nm in ((A, 'controller'), (S, 'simulator')):
            for f, j in (('_time', 0), ('_x', 1), ('_u', 2), ('_tvp', 3), ('_p', 4)):
                a = np.asarray(D[f], float)
                require(a.shape[0] == n, '%s: %s of the %s has %d rows after %d steps', what, f, nm, a.shape[0], n)
                for q, r in enumerate(self.rows):
                    require(gen.close(a[q], r[j], 1e-9, 1e-9), '%s: %s of the %s in row %d is %s, in the loop %s', what, f, nm, q, a[q], r[j])
        for f in ('_time', '_x', '_u', '_tvp', '_p'):
            require(gen.close(A[f], S[f], 1e-9, 1e-9), '%s: %s differs between controller %s and simulator %s', what, f, A[f], S[f])
        for q, r in enumerate(self.rows):
            z = np.asarray(A['_z'])[q]
            env = gen.env_of(self.spec, dict(x=r[1], u=r[2], z=z, tvp=r[3], p=r[4]))
            require(gen.close(np.asarray(A['_aux'])[q][1:1 + len(gen.ref_aux(self.spec, env)) - 1], gen.ref_aux(self.spec, env)[1:], 1e-6, 1e-6), '%s: controller _aux row %d is %s, the expressions at the recorded values give %s', what, q, np.asarray(A['_aux'])[q], gen.ref_aux(self.spec, env))
            if len(z) and self.spec['type'] == 'discrete':
                sc = max([1.0] + self.cfg_sz)
                require(gen.close(z, r[5], 2e-5 * sc, 2e-5 * sc), '%s: controller _z row %d is %s, the algebraic equations give %s', what, q, z, r[5])
        for o, nm in ((self.mpc, 'controller'), (self.sim, 'simulator')):
            require(abs(float(np.asarray(o.t0).ravel()[0]) - self.t) < 1e-9, '%s: clock of the %s is %s, loop time %s', what, nm, o.t0, self.t)


def run(case):
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf = ocp.prepare(cfg)
    spec, d = cfg['spec'], ref.m.d
    if case['ubound'] is not None:
        B['u'] = ([-case['ubound'] + min(0.0, a) for a in cfg['uprev']], [case['ubound'] + max(0.0, a) for a in cfg['uprev']])
    model = gen.build(spec)
    L = [Loop(case, B, cfg, model)]
    c2 = dict(cfg, x0=[0.5 * v + 0.25 for v in cfg['x0']], t0=cfg['t0'] + 1.0)
    if case['other']:
        L.append(Loop(case, B, c2, model))
    cfgs = [cfg, c2]
    inputs = []
    for l, c in zip(L, cfgs):
        l.cfg_sz = c['scaling']['z']
    for k in range(case['n']):
        for i, l in enumerate(L):
            if not l.ok:
                continue
            l.step(case, cfgs[i], B, k)
            if l.ok:
                l.check('loop %d after step %d' % (i, k))
                if i == 0:
                    inputs.append(l.rows[-1][2])
        if case['reset'] == k and k + 1 < case['n'] and L[0].ok:
            l = L[0]
            for o in (l.mpc, l.sim, l.est):
                o.reset_history()
            l.t = 0.0; l.rows = []
            l.check('after reset_history')
    if not inputs:
        raise Inconclusive('no step solved')
    # the same loop once more, with new objects and the last one run alone
    if len(inputs) == case['n'] and case['est']:
        R = Loop(dict(case, sim_first=not case['sim_first']), B, cfg, gen.build(spec)); R.cfg_sz = cfg['scaling']['z']
        for k in range(case['n']):
            R.step(case, cfg, B, k)
            require(R.ok, 'the solver fails at step %d in a repetition of the loop only', k)
            require(gen.close(R.rows[-1][2], inputs[k], 1e-6, 1e-6), 'step %d: input %s, in a repetition of the loop with new objects %s', k, inputs[k], R.rows[-1][2])
            if case['reset'] == k and k + 1 < case['n']:
                for o in (R.mpc, R.sim, R.est):
                    o.reset_history()
                R.t = 0.0; R.rows = []
    return dict(nontrivial=len(inputs) >= 2 and L[0].moves >= 1, labels=[spec['type'], 'dae' if spec['z'] else 'ode', 'disturbed' if any(case['w']) and spec['w'] else 'exact', 'two loops' if case['other'] else 'one loop']
                + (['reset'] if case['reset'] + 1 < case['n'] else []) + (['repeat'] if case['est'] else []))


P.test('loop', cases(), 600, 12000)(run)
if __name__ == '__main__':
    P.main()
