"""H01: noise-free data are reproduced exactly by the estimator."""
import copy
import numpy as np
from lib.vf import Prop, st, require, Inconclusive, Violation
from lib import gen, ocp, est

P = Prop('H01', 'Random models (discrete/ODE/DAE, SX/MX, noise flags, estimated and set parameters, time-varying parameters, scaling, weights) produce noise-free data: (prior) from the '
         'model discretised by an own collocation, prior correct, 2-4 consecutive windows; (simulator) from the simulator with true integration and a fine scheme, within its error; '
         '(negligible) linear fully measured models with wrong prior of weight 1e-6 and the default measurement window, judged once the window is filled. The estimated states, inputs, algebraic states, '
         'parameters, noises and auxiliary values must equal the truth at every node. Non-trivial: the true state moves by more than 1e-2 in the window (and the wrong prior is off by more than 0.1 in the last test).',
         ['with noise-free consistent data the optimum has zero cost and is unique (all inputs measured, positive definite weights)'])


def truth(cfg, K):
    """True trajectory over K intervals from time t_start = t0-(N-1)dt; returns the big reference and vector, y per interval."""
    c = dict(cfg, N=K, nlc=[], t0=cfg['t0'] + (K - cfg['N']) * cfg['dt'])
    big = est.RefMHE(c)
    tv = [gen.affine(cfg['tvp'], cfg['t0'] + (k - cfg['N'] + 1) * cfg['dt']) for k in range(K)]
    p = np.array(cfg['p_true'], float)
    w = big.rollout(cfg['x_true'], [cfg['us'][k % len(cfg['us'])] for k in range(K)], tv, p)
    if not np.all(np.isfinite(w)) or np.abs(w).max() > 50:
        raise Inconclusive('trajectory not bounded')
    return big, w, tv, p, [big.measure(w, k, tv[k], p) for k in range(K)]


def compare(ref, big, w, wt, j, tol, what, points=True, first=0):
    """node by node"""
    for key, (o, n) in ref.index.items():
        if not n:
            continue
        t = key[0]
        if t in ('x', 'z', 'xc') and key[1] < first:
            continue
        if t in ('w', 'v', 'e'):
            tr = np.zeros(n)
        elif t == 'pe':
            tr = big.get(wt, 'pe')
        elif t in ('x', 'u'):
            tr = big.get(wt, t, key[1] + j)
        else:
            if not points:
                continue
            tr = big.get(wt, t, key[1] + j, key[2])
        require(np.abs(w[o:o + n] - tr).max() <= tol, '%s: %s estimated %s, true value %s', what, key, w[o:o + n], tr)


def setup(case, K):
    cfg = copy.deepcopy(case)
    cfg['pdrift'] = [0.0] * len(cfg['pdrift'])
    big, wt, tv, p, ys = truth(cfg, K)
    inf = lambda n: ([-np.inf] * n, [np.inf] * n)
    B = {k: inf(len(cfg['scaling'][k])) for k in ('x', 'u', 'z', 'pe')}
    ref = est.RefMHE(cfg)
    ref.tolf = max(1.0, max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'] + cfg['scaling']['u'] + cfg['scaling']['pe']) / 10)
    return cfg, big, wt, tv, p, ys, B, ref


def aux_of(cfg, ref, w, k, tv, p):
    env = gen.env_of(cfg['spec'], dict(x=ref.get(w, 'x', k), u=ref.get(w, 'u', k), z=ref.get(w, 'z', k, 0), tvp=tv, p=p))
    return gen.ref_aux(cfg['spec'], env)


def run(case):
    N, S = case['N'], case['steps']
    cfg, big, wt, tv, p, ys, B, ref = setup(case, case['N'] + case['steps'] - 1)
    win = est.Win([list(y) for y in ys[:N]])
    mhe = est.make_mhe(cfg, B, win, settings=cfg['handle'])
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, big.get(wt, 'x', 0), p[ref.ie])
    sc = max(1.0, np.abs(wt).max()) * ref.tolf
    moved = False
    for j in range(S):
        win.y = [list(y) for y in ys[j:j + N]]
        x = mhe.make_step(np.array(win.y[-1]).reshape(-1, 1))
        if not mhe.solver_stats['success']:
            raise Inconclusive('solver did not converge')
        w = ref.read(mhe.opt_x_num_unscaled)
        par = ref.params(big.get(wt, 'x', j), p[ref.ie], p[ref.is_], tv[j:j + N], win.y)
        try:
            compare(ref, big, w, wt, j, 2e-5 * sc, 'window %d' % j)
        except Violation:
            lb, ub = ref.bounds(B)
            f = float(ref.short(w, *par)[0])
            if f > 1e-8 and not case.get('linear'):
                ref.check(w, par, lb, ub, what='window %d' % j)      # a local optimum of the documented problem: no verdict
                raise Inconclusive('local optimum')
            raise
        require(gen.close(x, big.get(wt, 'x', j + N), 2e-5 * sc, 2e-5 * sc), 'window %d: returned %s, true state %s', j, x.ravel(), big.get(wt, 'x', j + N))
        if ref.ie:
            require(gen.close(mhe.p_est0.cat, p[ref.ie], 2e-5 * sc, 2e-5 * sc), 'window %d: parameters %s, true %s', j, mhe.p_est0.cat, p[ref.ie])
        a = aux_of(cfg, big, wt, j + N - 1, tv[j + N - 1], p)
        require(gen.close(mhe.data['_aux'][-1], a, 1e-4 * sc, 1e-4 * sc), 'window %d: auxiliary values %s recorded, true %s', j, mhe.data['_aux'][-1], a)
        if ref.m.d['z']:
            zt = big.get(wt, 'z', j + N - 1, max(ref.nc, 1) - 1)
            require(gen.close(mhe.z0.cat, zt, 2e-5 * sc, 2e-5 * sc), 'window %d: algebraic state %s, true %s', j, mhe.z0.cat, zt)
        moved |= np.abs(big.get(wt, 'x', j + N) - big.get(wt, 'x', j)).max() > 1e-2
    lab = [cfg['spec']['type']] + ['est'] * bool(cfg['est']) + ['dae'] * bool(cfg['spec']['z']) + ['w'] * bool(cfg['spec']['w']) + ['tvp'] * bool(cfg['spec']['tvp'])
    return dict(nontrivial=bool(moved), labels=lab)


def negligible(case):
    N, S = case['N'], case['steps'] + case['N']
    cfg, big, wt, tv, p, ys, B, ref = setup(dict(case, t0=0), N + S)
    mhe = est.make_mhe(cfg, B, None, settings=cfg['handle'])
    xp = big.get(wt, 'x', 0) + np.array(cfg['xp'])
    mhe.t0 = -(N - 1) * cfg['dt']
    est.start(mhe, cfg, ref, xp, p[ref.ie])
    sc = max(1.0, np.abs(wt).max()) * ref.tolf
    moved = False
    for j in range(S):
        x = mhe.make_step(np.array(ys[j]).reshape(-1, 1))
        if not mhe.solver_stats['success']:
            raise Inconclusive('solver did not converge')
        if j >= N - 1:
            w = ref.read(mhe.opt_x_num_unscaled)
            compare(ref, big, w, wt, j - N + 1, 2e-4 * sc, 'step %d (window filled)' % j, first=1)
            require(gen.close(x, big.get(wt, 'x', j + 1), 2e-4 * sc, 2e-4 * sc), 'step %d: returned %s, true %s', j, x.ravel(), big.get(wt, 'x', j + 1))
            moved |= np.abs(big.get(wt, 'x', j + 1) - big.get(wt, 'x', j - N + 1)).max() > 1e-2
    return dict(nontrivial=bool(moved and np.abs(cfg['xp']).max() > 0.1), labels=[cfg['spec']['type'], 'N%d' % N])


def simulator(case):
    """data from the simulator, record and measurements as it returns them"""
    import do_mpc
    from checks import S01
    N, S = case['N'], case['steps']
    cfg, big, wt, tv, p, ys, B, ref = setup(case, case['N'] + case['steps'] - 1)
    spec = cfg['spec']
    model = gen.build(spec)
    ts = cfg['t0'] - (N - 1) * cfg['dt']
    sim, tool = S01.make_sim(dict(spec=spec, dt=cfg['dt'], tool='default', via_settings=True, tvp=cfg['tvp'], p=[[v, 0.0] for v in cfg['p_true']]), model[0])
    sim.t0 = ts; sim.x0 = np.array(cfg['x_true']).reshape(-1, 1)
    xs, yl = [np.array(cfg['x_true'], float)], []
    for k in range(N + S - 1):
        y = sim.make_step(np.array(cfg['us'][k % len(cfg['us'])]).reshape(-1, 1)) if spec['u'] else sim.make_step()
        yl.append(y.ravel().tolist()); xs.append(sim.x0.cat.full().ravel())
    if np.abs(np.array(xs)).max() > 20:
        raise Inconclusive('trajectory not bounded')
    mhe_win = est.Win(yl[:N])
    mhe = est.make_mhe(cfg, B, mhe_win, model=model)
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, xs[0], p[ref.ie])
    # error of the scheme along the true trajectory (own collocation), amplified by the window length
    e0 = max(np.abs(big.get(wt, 'x', k) - xs[k]).max() for k in range(N + S))
    tol = 20 * e0 + 3e-5 * max(1.0, np.abs(np.array(xs)).max()) * ref.tolf
    if tol > 0.02:
        raise Inconclusive('scheme too coarse')
    moved = False
    for j in range(S):
        mhe_win.y = yl[j:j + N]
        x = mhe.make_step(np.array(mhe_win.y[-1]).reshape(-1, 1))
        if not mhe.solver_stats['success']:
            raise Inconclusive('solver did not converge')
        w = ref.read(mhe.opt_x_num_unscaled)
        bad = np.abs(x.ravel() - xs[j + N]).max() > tol
        if bad:
            par = ref.params(xs[j], p[ref.ie], p[ref.is_], tv[j:j + N], mhe_win.y)
            f = float(ref.short(w, *par)[0])
            if f > 100 * tol ** 2 + 1e-8:
                lb, ub = ref.bounds(B)
                if j == 0:
                    ref.check(w, par, lb, ub, what='window %d' % j)
                raise Inconclusive('local optimum')
            require(False, 'window %d: returned %s, the simulator is at %s (tolerance %.2g)', j, x.ravel(), xs[j + N], tol)
        moved |= np.abs(xs[j + N] - xs[j]).max() > 1e-2
    return dict(nontrivial=bool(moved), labels=[spec['type']] + ['dae'] * bool(spec['z']))


@st.composite
def cases(draw, steps=(1, 2, 3), **kw):
    c = draw(est.mhe_cfg(constraints=False, custom=False, all_meas=True, **kw))
    c['steps'] = draw(st.sampled_from(steps)); c['linear'] = kw.get('linear', False)
    return c


@st.composite
def simcases(draw):
    c = draw(cases(coll=True))
    c['coll'] = 'radau'; c['deg'] = draw(st.sampled_from([3, 4])); c['ni'] = draw(st.sampled_from([1, 2]))
    if c['dt'] > 0.5:
        c['dt'] = 0.25
    return c


P.test('prior', cases(), 260, 9000)(run)
P.test('simulator', simcases(), 130, 4000)(simulator)
P.test('negligible', cases(linear=True, full_y=True, negligible=True, estimate=False, with_z=False, scales=(1.0, 0.5, 2.0)), 100, 3000)(negligible)
if __name__ == '__main__':
    P.main()
