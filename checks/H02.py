"""H02: the MHE estimate is the optimum of the documented estimation problem."""
import copy
import numpy as np
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp, est

P = Prop('H02', 'Random estimation problems (discrete/ODE/DAE, SX/MX, names, shapes, subset of estimated parameters, noise flags, default and custom objective with '
         'diagonal/full/parameter-dependent weights, scaling, bounds on states, inputs, algebraic states and parameters, hard/soft nonlinear constraints, collocation settings) '
         'with random data: each of 1-3 estimates (a bound may be changed between two of them) must be feasible for and a KKT point of an independently written estimation NLP, with the estimates returned, stored and used as next prior '
         'being those of this solution. Some cases look for a better feasible point with a reference solver. Non-trivial: an inequality is active or the estimate differs from the prior by more than 1e-3.',
         ['first-order optimality identifies the optimum'])


def one(mhe, ref, cfg, B, win, t, xp, pp, what, y=None):
    """One estimation judged against the reference; returns (w, info) or None if the solver gave up."""
    tv, p = est.tvp_win(cfg, t), est.p_vals(cfg, t)
    par = ref.params(xp, pp, p[ref.is_], tv, win.y)
    lb, ub = ref.bounds(B)
    x = mhe.make_step(np.array(win.y[-1] if y is None else y, float).reshape(-1, 1))
    if not mhe.solver_stats['success']:
        return None, par, lb, ub, x
    w = ref.read(mhe.opt_x_num_unscaled)
    info = ref.check(w, par, lb, ub, what=what)
    sc = max(1.0, np.abs(w).max())
    require(isinstance(x, np.ndarray) and x.shape == (ref.m.d['x'], 1), '%s: make_step returns shape %s', what, getattr(x, 'shape', type(x)))
    require(gen.close(x, ref.get(w, 'x', ref.N), 1e-9, 1e-9), '%s: returned estimate %s, the last state of the optimal trajectory is %s', what, x.ravel(), ref.get(w, 'x', ref.N))
    require(gen.close(mhe.x0.cat, x, 1e-9, 1e-9), '%s: mhe.x0 is not the estimate', what)
    if ref.ie:
        require(gen.close(mhe.p_est0.cat, ref.get(w, 'pe'), 1e-9, 1e-9), '%s: mhe.p_est0 %s is not the estimated parameter %s', what, mhe.p_est0.cat, ref.get(w, 'pe'))
    if ref.m.d['u']:
        require(gen.close(mhe.u0.cat, ref.get(w, 'u', ref.N - 1), 1e-9, 1e-9), '%s: mhe.u0 is not the last input', what)
    return w, par, lb, ub, info


def run(case, tolf=True):
    cfg = copy.deepcopy(case)
    ref, B, wf, ys = est.prepare(cfg)
    if tolf:
        ref.tolf = max(1.0, max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'] + cfg['scaling']['u'] + cfg['scaling']['pe']) / 10)
    win = est.Win(ys)
    mhe = est.make_mhe(cfg, B, win, settings=cfg['handle'])
    xp = np.array(cfg['x_true']) + np.array(cfg['xp'])
    pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, xp, pp)
    w, par, lb, ub, info = one(mhe, ref, cfg, B, win, cfg['t0'], xp, pp, 'first estimate')
    if w is None:
        # start from the feasible trajectory (its second node is then the prior)
        ref.write(mhe.opt_x_num, wf, est.scal(cfg))
        xp = ref.get(wf, 'x', 1); mhe.t0 = cfg['t0']
        if ref.ie:
            mhe.p_est0 = pp.reshape(-1, 1)
        w, par, lb, ub, info = one(mhe, ref, cfg, B, win, cfg['t0'], xp, pp, 'estimate from a feasible start')
        if w is None:
            ok, wr, fr = ref.solve(wf, par, lb, ub)
            if not ok:
                raise Inconclusive('no solution')
            ref.write(mhe.opt_x_num, wr, est.scal(cfg)); mhe.t0 = cfg['t0']
            if ref.ie:
                mhe.p_est0 = pp.reshape(-1, 1)
            xp = ref.get(wr, 'x', 1)
            w, par, lb, ub, info = one(mhe, ref, cfg, B, win, cfg['t0'], xp, pp, 'estimate from the reference solution')
            if w is None:
                f, v, iv, _, _ = ref.residuals(wf, par, lb, ub)
                raise Inconclusive('controller finds no solution (%s)' % mhe.solver_stats['return_status'])
    moved = np.abs(ref.get(w, 'x', 0) - xp).max() > 1e-3
    if cfg['v'][0] > 0.4:                    # sometimes search for a better point
        ok, wr, fr = ref.solve(wf, par, lb, ub)
        if ok and not cfg['custom'] and all(f is None for f in cfg['fac'].values()) and cfg.get('linear'):
            require(info['f'] <= fr + 1e-5 * max(1, abs(fr)), 'objective %.9g, a feasible trajectory has %.9g', info['f'], fr)
    labs = set(info['labels'])
    t = cfg['t0']
    for j in range(case.get('more', 1)):
        t += cfg['dt']
        xp2, pp2 = ref.get(w, 'x', 1).copy(), ref.get(w, 'pe').copy()
        # the window moves by one measurement
        ynew = [float(a + b) for a, b in zip(win.y[-1], (cfg['v'][7 * (j + 1):] + cfg['v'])[:len(ys[-1])])]
        win.y = win.y[1:] + [ynew]
        what = 'estimate %d' % (j + 2)
        chg = case.get('chg', [])[j:j + 1]
        if chg and chg[0]:
            B, d = est.change_bound(mhe, ref, cfg, B, w, *chg[0])
            what += ' after setting the ' + d; labs.add('bound-change')
        w2, par, lb, ub, info = one(mhe, ref, cfg, B, win, t, xp2, pp2, what)
        if w2 is None:
            break
        w = w2; labs |= set(info['labels']); labs.add('next-step')
    labs.add(cfg['spec']['type']); labs.update(['p_est'] * bool(cfg['est'])); labs.update(['dae'] * bool(cfg['spec']['z'])); labs.update(['w'] * bool(cfg['spec']['w']))
    labs.add('custom' if cfg['custom'] else 'default-objective')
    labs.update(n for n in ('nlc_colloc', 'single_slack') if cfg[n] and cfg['nlc'])
    act = any(l.startswith('active') for l in labs)
    return dict(nontrivial=bool(moved or act), labels=sorted(labs))


@st.composite
def cases(draw, **kw):
    c = draw(est.mhe_cfg(**kw))
    c['more'] = draw(st.integers(0, 2))
    c['chg'] = [draw(st.one_of(st.none(), st.tuples(st.sampled_from(list(range(8))), st.integers(0, 1), st.sampled_from([-0.02, 0.0, 0.05])))) for _ in range(2)]
    c['chg'] = [list(q) if q else None for q in c['chg']]
    c['linear'] = kw.get('linear', False)
    return c


P.test('nonlinear', cases(), 300, 12000)(run)
P.test('linear', cases(linear=True), 150, 5000)(run)
P.test('matrix', cases(shapes=gen.SHAPES, max_N=2, min_p=1), 80, 3000)(run)
if __name__ == '__main__':
    P.main()
