"""H03: the estimation window over histories of steps, resets and assignments."""
import copy
import numpy as np
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp, est
from lib.common import pack

P = Prop('H03', 'Random histories (up to 9 operations) of estimation steps with random measurements (several container types, later overwritten by the caller), reset_history, new initial guesses, '
         'assignments of p_est0, x0 and t0, on random models with default measurement window (last N measurements, oldest one repeated until the window is filled) or a user window. Every step must solve the '
         'reference problem whose data are kept by a model of the history (KKT test), the documented parameter vector opt_p_num must hold exactly these values, and the record must contain one row per step with time, '
         'measurement, state, parameters, time-varying parameters, input, algebraic and auxiliary values of that instant. Non-trivial: at least one step with a filled window of distinct measurements, or a reset in between.',
         ['first-order optimality identifies the optimum', 'the recorded state and estimated parameters of a row are those known before that step (as executed)'])


@st.composite
def cases(draw):
    c = draw(est.mhe_cfg(types=('discrete', 'discrete', 'continuous'), constraints=False, custom=False, all_meas=True, scales=(1.0, 1.0, 2.0, 0.5), max_N=4, max_tvp=2))
    c['ops'] = draw(gen.seq(2, 9, gen.weighted((6, st.just('step')), (1, st.just('reset')), (1, st.sampled_from(['guess', 'p_est0', 'x0', 't0'])))))
    c['ys'] = draw(st.lists(gen.nice(), min_size=40, max_size=40))
    c['kind'] = draw(st.sampled_from(['np', 'dm', 'struct', 'flat']))
    c['store'] = draw(st.booleans())
    return c


def run(case):
    cfg = copy.deepcopy(case)
    spec, N = cfg['spec'], cfg['N']
    inf = lambda n: ([-np.inf] * n, [np.inf] * n)
    B = {k: inf(len(cfg['scaling'][k])) for k in ('x', 'u', 'z', 'pe')}
    ref = est.RefMHE(cfg); ref.tolf = 1.0 * max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'] + cfg['scaling']['u'] + cfg['scaling']['pe'])
    d = ref.m.d
    mhe = est.make_mhe(cfg, B, None, store=cfg['store'], settings=cfg['handle'])
    xp = np.array(cfg['x_true'], float); pe = np.array(cfg['p_true'], float)[ref.ie]
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, xp, pe)
    t, ys, rows, x0 = float(cfg['t0']), [], [], xp.copy()
    ny = len(gen.meas_trees(spec)); q = 0
    lab, filled, resets, n_steps = set(), False, 0, 0
    lb, ub = ref.bounds(B)
    for op in cfg['ops']:
        lab.add(op)
        if op == 'reset':
            mhe.reset_history()
            ys, rows, t = [], [], 0.0
            resets += n_steps > 0
            require(gen.close(mhe.t0, 0.0), 'reset_history leaves the clock at %s', mhe.t0)
            require(mhe.data['_time'].shape[0] == 0, 'reset_history leaves %d rows', mhe.data['_time'].shape[0])
        elif op == 'guess':
            mhe.set_initial_guess()
            xp = x0.copy()
        elif op == 'p_est0':
            if ref.ie:
                pe = pe + 0.25; mhe.p_est0 = pe.reshape(-1, 1)
        elif op == 'x0':
            x0 = x0 - 0.125; mhe.x0 = x0.reshape(-1, 1)
        elif op == 't0':
            t = 3.5; mhe.t0 = t
        else:
            y = [cfg['ys'][(q + i) % 40] for i in range(ny)]; q += ny
            arg = pack(cfg['kind'], mhe.model._y, y)
            ys.append(y)
            k = min(len(ys), N)
            win = [ys[-k]] * (N - k) + ys[-k:]
            tv, p = est.tvp_win(cfg, t), est.p_vals(cfg, t)
            par = ref.params(xp, pe, p[ref.is_], tv, win)
            # the record is written with the values known before the step
            prow = p.copy(); prow[ref.ie] = pe
            x = mhe.make_step(arg)
            if isinstance(arg, np.ndarray):
                arg += 17.0
            if not mhe.solver_stats['success']:
                raise Inconclusive('solver did not converge')
            n_steps += 1
            filled |= len(ys) >= N
            O = mhe.opt_p_num
            require(gen.close(O['_x_prev'], xp, 1e-9, 1e-9), 'step %d: prior of the state %s, previous estimate of the window start %s', len(rows), O['_x_prev'], xp)
            if ref.ie:
                require(gen.close(O['_p_est_prev'], pe, 1e-9, 1e-9), 'step %d: prior of the parameters %s, previous estimate %s', len(rows), O['_p_est_prev'], pe)
            for k in range(N):
                require(gen.close(O['_y_meas', k], win[k], 1e-12, 1e-12), 'step %d: window position %d holds measurement %s, expected %s', len(rows), k, O['_y_meas', k], win[k])
                if d['tvp']:
                    require(gen.close(O['_tvp', k], tv[k], 1e-9, 1e-9), 'step %d: window position %d has time-varying parameters %s, expected %s', len(rows), k, O['_tvp', k], tv[k])
            w = ref.read(mhe.opt_x_num_unscaled)
            ref.check(w, par, lb, ub, what='step %d of the history' % len(rows))
            require(gen.close(x, ref.get(w, 'x', N), 1e-9, 1e-9), 'step %d: returned %s', len(rows), x)
            env = gen.env_of(spec, dict(x=ref.get(w, 'x', N - 1), u=ref.get(w, 'u', N - 1), z=ref.get(w, 'z', N - 1, 0), tvp=tv[-1], p=[0.0] * d['p']))
            pa = p.copy(); pa[ref.ie] = ref.get(w, 'pe')
            env['p'] = gen.split(spec, 'p', pa)
            rows.append(dict(_time=[t], _y=y, _x=x0.copy(), _p=prow, _tvp=tv[-1], _u=ref.get(w, 'u', N - 1), _z=ref.get(w, 'z', N - 1, max(ref.nc, 1) - 1), _aux=gen.ref_aux(spec, env), w=w))
            t += cfg['dt']; xp = ref.get(w, 'x', 1).copy(); pe = ref.get(w, 'pe').copy(); x0 = ref.get(w, 'x', N).copy()
            require(gen.close(mhe.t0, t, 1e-9, 1e-9), 'the clock is at %s after the step, expected %s', mhe.t0, t)
        for key in ('_time', '_y', '_x', '_p', '_tvp', '_u', '_z', '_aux'):
            D = mhe.data[key]
            require(D.shape[0] == len(rows), 'record %s has %d rows after %d steps', key, D.shape[0], len(rows))
            for i, r in enumerate(rows):
                tol = 1e-6 * max(1.0, np.abs(r['w']).max()) if key == '_aux' else 1e-8
                require(gen.close(D[i], r[key], tol, tol), 'record %s row %d is %s, executed %s', key, i, D[i], r[key])
        if cfg['store'] and rows:
            D = mhe.data['_opt_x_num']
            require(D.shape[0] == len(rows), 'stored solutions: %d rows for %d steps', D.shape[0], len(rows))
            for i, r in enumerate(rows):
                require(gen.close(ref.read(mhe.opt_x(D[i])), r['w'], 1e-9, 1e-9), 'stored solution %d is not the one of that step', i)
    lab.add('filled' if filled else 'unfilled')
    lab.add('reset-after-steps' if resets else 'no-reset')
    return dict(nontrivial=bool(n_steps >= 2 and (filled or resets)), labels=sorted(lab) + [spec['type']])


class Hist:
    """User window kept by the caller."""


def userwin(case):
    """the window given by the user is used as given, also when it is not the recorded one"""
    cfg = copy.deepcopy(case)
    spec, N = cfg['spec'], cfg['N']
    inf = lambda n: ([-np.inf] * n, [np.inf] * n)
    B = {k: inf(len(cfg['scaling'][k])) for k in ('x', 'u', 'z', 'pe')}
    ref = est.RefMHE(cfg); ref.tolf = 1.0 * max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'] + cfg['scaling']['u'] + cfg['scaling']['pe'])
    ny = len(gen.meas_trees(spec))
    ys = [[cfg['ys'][(i + 3 * k) % 40] for i in range(ny)] for k in range(N + 4)]
    win = est.Win(ys[:N])
    mhe = est.make_mhe(cfg, B, win)
    xp = np.array(cfg['x_true'], float); pe = np.array(cfg['p_true'], float)[ref.ie]
    mhe.t0 = cfg['t0']; est.start(mhe, cfg, ref, xp, pe)
    lb, ub = ref.bounds(B); t = float(cfg['t0'])
    for j in range(3):
        win.y = ys[j:j + N]
        tv, p = est.tvp_win(cfg, t), est.p_vals(cfg, t)
        par = ref.params(xp, pe, p[ref.is_], tv, win.y)
        mhe.make_step(np.array(ys[j + N - 1]).reshape(-1, 1) + (1.0 if cfg['store'] else 0.0))
        if not mhe.solver_stats['success']:
            raise Inconclusive('solver did not converge')
        w = ref.read(mhe.opt_x_num_unscaled)
        ref.check(w, par, lb, ub, what='step %d with a user window' % j)
        xp, pe = ref.get(w, 'x', 1).copy(), ref.get(w, 'pe').copy(); t += cfg['dt']
    return dict(nontrivial=True, labels=['user-window'])


P.test('history', cases(), 220, 7000)(run)
P.test('userwin', cases(), 60, 2000)(userwin)
if __name__ == '__main__':
    P.main()
