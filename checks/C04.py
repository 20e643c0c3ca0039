"""C04: predictions of continuous models follow the true solution."""
import copy, math
import numpy as np
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp, est
from checks import mhe_parts


P = Prop('C04', 'Random smooth ODE and DAE models in MPC (nominal and multi-stage) and MHE with every collocation type, degree 1-5 and 1-3 finite elements. '
         'From the state and the input planned at every stage, the predicted state at the end of the interval and at every collocation point and the algebraic states '
         'are compared (a) with an independently programmed collocation of that type and degree, (b) for linear models with the Pade approximant of the '
         'matrix exponential that this type and degree must give, (c) with an integration by DOP853 at 1e-10 within an error bound of the scheme; refining '
         'the scheme must reduce the error. Non-trivial: the state changes by more than 1e-3 in an interval.',
         ['DOP853 at rtol 1e-10', 'orthogonal polynomials of numpy'])

ORDER = {'radau': lambda d: 2 * d - 1, 'legendre': lambda d: 2 * d}


@st.composite
def cases(draw, linear=False):
    cfg = draw(ocp.mpc_cfg(types=('continuous',), constraints=False, robust=draw(st.integers(0, 3)) == 0 and not linear, max_N=2, coll=True, custom_r=False,
                           convex=linear, with_z=not linear))
    cfg['coll'] = draw(st.sampled_from(['radau', 'legendre'])); cfg['deg'] = draw(st.integers(1, 5)); cfg['ni'] = draw(st.integers(1, 3))
    return cfg


def interval(spec, xs, zs, x0, u, tv, p, cfg, lab, what, wn=None):
    """xs, zs: predicted values at the points (element, j), j=0..deg, plus the end; returns the largest state error."""
    tau = np.concatenate([[0.0], ocp.coll_points(cfg['coll'], cfg['deg'])])
    from scipy.integrate import solve_ivp
    env = gen.env_of(spec, dict(x=x0, u=u, z=[0.0] * gen.dims(spec)['z'], tvp=tv, p=p))

    def f(x):
        env['x'] = gen.split(spec, 'x', x); gen.solve_z(spec, env)
        return gen.ref_rhs(spec, env, wn)
    h = cfg['dt'] / cfg['ni']
    ts = [h * (e + t) for e in range(cfg['ni']) for t in tau] + [cfg['dt']]
    s = solve_ivp(lambda t, y: f(y), (0, cfg['dt']), np.asarray(x0, float), method='DOP853', rtol=1e-10, atol=1e-11, t_eval=sorted(set(np.minimum(ts, cfg['dt']))))
    sol = {round(t, 12): y for t, y in zip(s.t, s.y.T)}
    errs, zerr = [], []
    for t, x, z in zip(ts, xs, zs + [None]):
        y = sol[min(sol, key=lambda q: abs(q - t))]
        errs.append(np.abs(x - y).max())
        if z is not None and len(z):
            env['x'] = gen.split(spec, 'x', x)
            zerr.append(np.abs(gen.solve_z(spec, env) - z).max())
    if zerr:
        require(max(zerr) <= 2e-5, '%s: algebraic states at a collocation point do not satisfy the algebraic equations (off by %.3g)', what, max(zerr))
    return errs, np.abs(sol[max(sol)] - np.asarray(x0)).max()


def tol(cfg, end):
    """generous bound on the error of the scheme on the generated class (|f| <= ~3, derivatives of order one)"""
    h = cfg['dt'] / cfg['ni']
    q = ORDER[cfg['coll']](cfg['deg']) if end else cfg['deg']
    fac = 6.0 if end else 4.0
    return fac * cfg['dt'] * h ** q + 3e-5


def plan(cfg):
    ref, B, wf = ocp.prepare(cfg)
    mpc = ocp.make_mpc(cfg, B)
    mpc.t0 = cfg['t0']; mpc.x0 = np.array(cfg['x0']).reshape(-1, 1); mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1)
    mpc.set_initial_guess()
    ref.write(mpc.opt_x_num, wf, {k: np.array(cfg['scaling'][k]) for k in ('x', 'u', 'z')})
    u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg, B, cfg['x0'], cfg['t0'], cfg['uprev'], wf)
    if not ok:
        raise Inconclusive('no solution')
    return mpc, ref, ref.read(mpc.opt_x_num_unscaled), B


def branches(cfg, ref, w):
    ps, tvps = ocp.p_list(cfg, cfg['t0']), ocp.tvp_list(cfg, cfg['t0'])
    for k in range(ref.N):
        for c, (s, pi) in enumerate(ref.stages[k + 1]):
            x0 = ref.get(w, 'x', k, s); u = ref.get(w, 'u', k, 0 if cfg['open_loop'] else s)
            xs = [x0] + [ref.get(w, 'xc', k, c, i) for i in range(ref.nc - 1)] + [ref.get(w, 'x', k + 1, c)]
            zs = [ref.get(w, 'z', k, c, i) for i in range(ref.nc)]
            yield k, c, x0, u, xs, zs, tvps[k], ps[pi]


def orders(cfg, e, x0, u, tv, p, sc, k, wn=None):
    """errors of the predicted points within the order of the scheme"""
    lip = amp(cfg, x0, u, tv, p, wn)
    h = cfg['dt'] / cfg['ni']
    if lip * h <= 0.7:                       # asymptotic regime of the scheme
        b = 3.0 * (lip * h) ** ORDER[cfg['coll']](cfg['deg']) * cfg['dt'] * max(1.0, lip) + 3e-5 * sc
        require(e[-1] <= b, 'stage %d: predicted state is off by %.3g from the true solution (%s, degree %d, %d elements, t_step %g, bound %.3g)', k, e[-1], cfg['coll'], cfg['deg'], cfg['ni'], cfg['dt'], b)
        b = 3.0 * (lip * h) ** cfg['deg'] * h * max(1.0, lip) + 3.0 * (lip * h) ** ORDER[cfg['coll']](cfg['deg']) * cfg['dt'] * max(1.0, lip) + 3e-5 * sc
        require(max(e) <= b, 'stage %d: a state at a collocation point is off by %.3g from the true solution (%s, degree %d, bound %.3g)', k, max(e), cfg['coll'], cfg['deg'], b)


def run(case):
    cfg = copy.deepcopy(case)
    mpc, ref, w, B = plan(cfg)
    sc = max(1.0, np.abs(w).max())
    moved, worst = False, 0.0
    for k, c, x0, u, xs, zs, tv, p in branches(cfg, ref, w):
        if np.abs(u).max(initial=0) > 20 or np.abs(x0).max() > 20:
            raise Inconclusive('plan too far out')
        # (a) own collocation from the same state
        e, mv = interval(cfg['spec'], xs, zs, x0, u, tv, p, cfg, [], 'stage %d' % k)
        moved |= mv > 1e-3
        orders(cfg, e, x0, u, tv, p, sc, k)
    # own collocation along the planned inputs
    us = [ref.get(w, 'u', k, 0) for k in range(ref.N)]
    if cfg['n_robust'] == 0 or cfg['open_loop']:
        wr = ref.rollout(cfg['x0'], us, ocp.tvp_list(cfg, cfg['t0']), ocp.p_list(cfg, cfg['t0']))
        for key, (o, n) in ref.index.items():
            if n and key[0] in ('x', 'xc', 'z'):
                require(np.abs(wr[o:o + n] - w[o:o + n]).max() <= 2e-5 * sc, '%s is %s, %s collocation of degree %d with %d elements gives %s', key, w[o:o + n], cfg['coll'], cfg['deg'], cfg['ni'], wr[o:o + n])
    return dict(nontrivial=bool(moved), labels=['%s-%d' % (cfg['coll'], cfg['deg']), 'ni%d' % cfg['ni']] + (['dae'] if cfg['spec']['z'] else []))


def amp(cfg, x0, u, tv, p, wn=None):
    """Size of the Jacobian / derivatives along the interval (largest of a few samples), at least 0.3."""
    spec = cfg['spec']
    env = gen.env_of(spec, dict(x=x0, u=u, z=[0.0] * gen.dims(spec)['z'], tvp=tv, p=p))

    def f(x):
        env['x'] = gen.split(spec, 'x', x); gen.solve_z(spec, env)
        return gen.ref_rhs(spec, env, wn)
    x = np.array(x0, float); m = 0.3
    for i in range(5):
        fx = f(x); m = max(m, np.abs(fx).max())
        for j in range(len(x)):
            for eps in (1e-4, 0.5):
                d = np.zeros(len(x)); d[j] = eps
                m = max(m, np.abs((f(x + d) - fx) / eps).max() * 1.5)
        x = x + fx * cfg['dt'] / 4
    return m * 1.5


def pade(Z, j, k):
    """(j,k) Pade approximant of exp(Z)."""
    from math import factorial as F
    n = Z.shape[0]; N = np.zeros((n, n)); D = np.zeros((n, n)); Q = np.eye(n)
    for i in range(max(j, k) + 1):
        if i <= j:
            N += F(j) / F(j - i) * F(j + k - i) / F(j + k) / F(i) * Q
        if i <= k:
            D += (-1) ** i * F(k) / F(k - i) * F(j + k - i) / F(j + k) / F(i) * Q
        Q = Q @ Z
    return np.linalg.solve(D, N)


def linear(case):
    """x_{k+1} = R(hA)^ni x_k for linear models; and the error decreases when the scheme is refined."""
    cfg = copy.deepcopy(case)
    mpc, ref, w, B = plan(cfg)
    spec = cfg['spec']; nx = gen.dims(spec)['x']
    from scipy.linalg import expm
    moved = False
    for k, c, x0, u, xs, zs, tv, p in branches(cfg, ref, w):
        env = lambda x: gen.env_of(spec, dict(x=x, u=u, z=[], tvp=tv, p=p))
        b = gen.ref_rhs(spec, env(np.zeros(nx)))
        A = np.array([gen.ref_rhs(spec, env(np.eye(nx)[i])) - b for i in range(nx)]).T
        Z = np.zeros((nx + 1, nx + 1)); Z[:nx, :nx] = A; Z[:nx, nx] = b
        h = cfg['dt'] / cfg['ni']
        d = cfg['deg']
        R = np.linalg.matrix_power(pade(Z * h, d - 1 if cfg['coll'] == 'radau' else d, d), cfg['ni'])
        xn = (R @ np.append(x0, 1.0))[:nx]
        sc = max(1.0, np.abs(w).max())
        require(np.abs(xn - xs[-1]).max() <= 3e-6 * sc, 'stage %d: linear model predicted at %s; %s collocation of degree %d with %d elements gives %s', k, xs[-1], cfg['coll'], d, cfg['ni'], xn)
        xt = (expm(Z * cfg['dt']) @ np.append(x0, 1.0))[:nx]
        if d >= 4 and np.abs(Z * h).sum(1).max() < 1.5:
            require(np.abs(xt - xs[-1]).max() <= 1e-4 * sc, 'stage %d: degree %d, off by %.3g from the exact solution', k, d, np.abs(xt - xs[-1]).max())
        moved |= np.abs(xn - x0).max() > 1e-3
    return dict(nontrivial=bool(moved), labels=['%s-%d' % (cfg['coll'], cfg['deg']), 'ni%d' % cfg['ni']])


def mhe(case):
    """the estimator's window follows the model in the same way"""
    cfg, ref, w, segs = mhe_parts.window(case)
    sc = max(1.0, np.abs(w).max()); moved = False
    for k, x0, u, xs, zs, tv, p, wn in segs:
        if np.abs(u).max(initial=0) > 20 or np.abs(x0).max() > 20 or np.abs(p).max(initial=0) > 20:
            raise Inconclusive('estimate too far out')
        e, mv = interval(cfg['spec'], xs, zs, x0, u, tv, p, cfg, [], 'interval %d' % k, wn)
        moved |= mv > 1e-3
        orders(cfg, e, x0, u, tv, p, sc, k, wn)
        if case.get('linear'):
            xn = lin_step(cfg, x0, u, tv, p, wn)
            require(np.abs(xn - xs[-1]).max() <= 1e-5 * sc, 'interval %d: linear model estimated at %s; %s collocation of degree %d with %d elements gives %s', k, xs[-1], cfg['coll'], cfg['deg'], cfg['ni'], xn)
    return dict(nontrivial=bool(moved), labels=['%s-%d' % (cfg['coll'], cfg['deg']), 'ni%d' % cfg['ni']] + ['w'] * bool(cfg['spec']['w']))


def lin_step(cfg, x0, u, tv, p, wn=None):
    spec = cfg['spec']; nx = gen.dims(spec)['x']
    env = lambda x: gen.env_of(spec, dict(x=x, u=u, z=[], tvp=tv, p=p))
    b = gen.ref_rhs(spec, env(np.zeros(nx)), wn)
    A = np.array([gen.ref_rhs(spec, env(np.eye(nx)[i]), wn) - b for i in range(nx)]).T
    Z = np.zeros((nx + 1, nx + 1)); Z[:nx, :nx] = A; Z[:nx, nx] = b
    d = cfg['deg']
    R = np.linalg.matrix_power(pade(Z * cfg['dt'] / cfg['ni'], d - 1 if cfg['coll'] == 'radau' else d, d), cfg['ni'])
    return (R @ np.append(x0, 1.0))[:nx]


@st.composite
def mhe_cases(draw):
    lin = draw(st.booleans())
    return dict(draw(mhe_parts.colloc_cases(linear=lin)), linear=lin)


P.test('ode_dae', cases(), 300, 9000)(run)
P.test('linear', cases(linear=True), 200, 6000)(linear)
P.test('mhe', mhe_cases(), 150, 5000)(mhe)
if __name__ == '__main__':
    P.main()
