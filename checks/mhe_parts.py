"""Estimator parts of C03, C04 and C07 (same reference problem as H02)."""
import copy
import numpy as np
import casadi as ca
from lib.vf import st, require, Inconclusive
from lib import gen, ocp, est
from checks import H02

WIDE = (1.0, 0.01, 0.1, 7.0, 100.0, 0.5)


entries = est.entries


def prepare(cfg):
    ref, B, wf, ys = est.prepare(cfg)
    ref.tolf = max(1.0, max([1.0] + cfg['scaling']['x'] + cfg['scaling']['z'] + cfg['scaling']['u'] + cfg['scaling']['pe']) / 10)
    win = est.Win(ys)
    return ref, B, wf, win


def readback(mhe, cfg, B, what):
    for kd, name, ent in entries(cfg):
        o = 0
        for n, sh in ent:
            k = gen.size(sh)
            for bt, i in (('lower', 0), ('upper', 1)):
                v = np.asarray(ca.DM(mhe.bounds[bt, name, n])).ravel(order='F'); b = np.array(B[kd][i][o:o + k])
                require(np.array_equal(v, b), '%s: bounds[%s,%s,%s] reads %s, set %s', what, bt, name, n, v, b)
            s = np.asarray(ca.DM(mhe.scaling[name, n])).ravel(order='F')
            require(np.array_equal(s, np.array(cfg['scaling'][kd][o:o + k])), '%s: scaling[%s,%s] reads %s', what, name, n, s)
            o += k


def guess(mhe, ref, cfg):
    d = ref.m.d
    col = lambda v: np.array(v, float).reshape(-1, 1)
    g = {k: np.arange(1, 1 + len(cfg['scaling'][k])) * 0.37 + i for i, k in enumerate(('x', 'u', 'z', 'pe'))}
    mhe.x0 = col(g['x'])
    if d['u']:
        mhe.u0 = col(g['u'])
    if d['z']:
        mhe.z0 = col(g['z'])
    if ref.ie:
        mhe.p_est0 = col(g['pe'])
    mhe.set_initial_guess()
    w = ref.read(mhe.opt_x_num)
    for key, (o, n) in ref.index.items():
        kd = 'x' if key[0] == 'xc' else key[0]
        if n and kd in g:
            require(gen.close(w[o:o + n] * np.array(cfg['scaling'][kd]), g[kd], 1e-9, 1e-9), 'initial guess of %s is not physical', key)


def scaling(case):
    cfg = copy.deepcopy(case)
    ref, B, wf, win = prepare(cfg)
    mhe = est.make_mhe(cfg, B, win)
    readback(mhe, cfg, B, 'after setup')
    guess(mhe, ref, cfg)
    xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    t = cfg['t0']; mhe.t0 = t
    est.start(mhe, cfg, ref, xp, pp)
    steps, labs = 0, set()
    for j in range(2):
        x0 = mhe.x0.cat.full().ravel().copy()
        w, par, lb, ub, info = H02.one(mhe, ref, cfg, B, win, t, xp, pp, 'estimate %d' % j)
        if w is None:
            break
        steps += 1; labs |= set(info['labels'])
        a = mhe.opt_x_num_unscaled.cat.full(); b = (mhe.opt_x_num.cat * mhe.opt_x_scaling.cat).full()
        require(gen.close(a, b, 1e-12, 1e-12), 'opt_x_num_unscaled is not opt_x_num times the scaling')
        f = float(ca.Function('f', [mhe.opt_x, mhe.opt_p], [mhe.nlp_obj])(mhe.opt_x_num, mhe.opt_p_num)); fr = float(ref.short(w, *par)[0])
        require(abs(f - fr) <= 1e-6 * max(1, abs(fr)), 'objective %.9g of the estimator, %.9g in physical units', f, fr)
        D = mhe.data
        p = est.p_vals(cfg, t); pr = p.copy(); pr[ref.ie] = pp
        pn = p.copy(); pn[ref.ie] = ref.get(w, 'pe')
        N = ref.N
        exp = dict(_x=x0, _u=ref.get(w, 'u', N - 1), _z=ref.get(w, 'z', N - 1, max(ref.nc, 1) - 1), _p=pr)
        env = gen.env_of(cfg['spec'], dict(x=ref.get(w, 'x', N - 1), u=ref.get(w, 'u', N - 1), z=ref.get(w, 'z', N - 1, 0), tvp=est.tvp_win(cfg, t)[-1], p=pn))
        exp['_aux'] = gen.ref_aux(cfg['spec'], env)
        for k, v in exp.items():
            tol = 1e-7 * max(1, np.abs(v).max(initial=0)) if k == '_aux' else 1e-9
            require(gen.close(D[k][-1], v, tol, tol), 'estimate %d: recorded %s %s is not the physical value %s', j, k, D[k][-1], v)
        xp, pp = ref.get(w, 'x', 1).copy(), ref.get(w, 'pe').copy(); t += cfg['dt']
        win.y = win.y[1:] + [win.y[0]]
    if not steps:
        raise Inconclusive('no solution')
    sc = any(v != 1.0 for q in cfg['scaling'].values() for v in q)
    return dict(nontrivial=bool(sc), labels=sorted(labs))


def twin(case):
    """the same estimation without scaling"""
    cfg = copy.deepcopy(case)
    ref, B, wf, win = prepare(cfg)
    cfg1 = copy.deepcopy(cfg); cfg1['scaling'] = {k: [1.0] * len(v) for k, v in cfg['scaling'].items()}
    xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    out = []
    for c in (cfg, cfg1):
        w_ = est.Win([list(y) for y in win.y])
        mhe = est.make_mhe(c, B, w_, opts={'ipopt.tol': 1e-10})
        mhe.t0 = c['t0']; est.start(mhe, c, ref, xp, pp)
        r = []
        for j in range(2):
            x = mhe.make_step(np.array(w_.y[-1]).reshape(-1, 1))
            if not mhe.solver_stats['success']:
                raise Inconclusive('no solution')
            r.append((x.ravel(), ref.read(mhe.opt_x_num_unscaled)))
            w_.y = w_.y[1:] + [w_.y[0]]
        out.append(r)
    for j in range(2):
        (xa, wa), (xb, wb) = out[0][j], out[1][j]
        m = max(1.0, np.abs(wb).max())
        if max([np.abs(xa - xb).max() / 1e-3] + [np.abs(wa[o:o + n] - wb[o:o + n]).max() / 2e-3 for key, (o, n) in ref.index.items() if n and key[0] in ('x', 'pe', 'w', 'v')]) > m:
            w0, t = out[1][0][1], cfg['t0'] + j * cfg['dt']
            ys = [list(y) for y in win.y]
            par = ref.params(ref.get(w0, 'x', 1) if j else xp, ref.get(w0, 'pe') if j else pp, est.p_vals(cfg, t)[ref.is_], est.tvp_win(cfg, t), ys[j:] + ys[:j])
            lb, ub = ref.bounds(B)
            if ref.several_optima(wa, wb, par, lb, ub, 5e-6, 'step %d with and without scaling' % j):
                raise Inconclusive('several optima with the same value')
        require(np.abs(xa - xb).max() <= 1e-3 * m, 'step %d: estimate %s with scaling, %s without', j, xa, xb)
        for key, (o, n) in ref.index.items():
            if n and key[0] in ('x', 'pe', 'w', 'v'):
                require(np.abs(wa[o:o + n] - wb[o:o + n]).max() <= 2e-3 * m, 'step %d: %s is %s with scaling, %s without', j, key, wa[o:o + n], wb[o:o + n])
    return dict(nontrivial=any(v != 1.0 for q in cfg['scaling'].values() for v in q), labels=[cfg['spec']['type']])


# ------------------------------------------------------------------------------------------------ C07
@st.composite
def bound_cases(draw):
    c = draw(est.mhe_cfg(tight=True, max_N=3, scales=(1.0, 1.0, 0.5, 3.0), custom=False))
    if draw(st.integers(0, 3)) == 0:
        c['late'] = draw(st.lists(st.sampled_from(['x', 'u', 'z', 'pe']), min_size=1, max_size=4, unique=True))
    op = st.tuples(st.sampled_from(['u', 'x', 'pe', 'z', 'x']), st.integers(0, 3), st.integers(0, 1), st.sampled_from([-0.05, 0.02, 0.1, 0.5, None]), st.integers(0, 2), st.booleans())
    c['ops'] = [list(o) for o in draw(gen.seq(1, 3, op))]
    return c


def bounds(case):
    cfg = copy.deepcopy(case)
    ref, B, wf, win = prepare(cfg)
    B = {k: [list(v[0]), list(v[1])] for k, v in B.items()}
    mhe = est.make_mhe(cfg, B, win)
    xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    t = cfg['t0']; mhe.t0 = t
    est.start(mhe, cfg, ref, xp, pp)
    w, par, lb, ub, info = H02.one(mhe, ref, cfg, B, win, t, xp, pp, 'first estimate')
    if w is None:
        raise Inconclusive('no solution')
    labs = set(info['labels']); name = {k: nm for k, nm, _ in entries(cfg)}; ent = {k: e for k, _, e in entries(cfg)}
    for kd, vi, side, delta, ei, elem in case['ops']:
        if not ent[kd]:
            continue
        n, sh = ent[kd][vi % len(ent[kd])]
        o = 0
        for nn, s2 in ent[kd]:
            if nn == n:
                break
            o += gen.size(s2)
        k = gen.size(sh); e = ei % k
        lo, hi = (o + e, o + e + 1) if elem else (o, o + k)
        keys = [q for q in ref.index if q[0] == kd or (kd == 'x' and q[0] == 'xc')]
        vals = np.array([w[ref.index[q][0] + lo:ref.index[q][0] + hi] for q in keys])
        other = np.array(B[kd][1 - side][lo:hi])
        if delta is None:
            new = np.full(hi - lo, -np.inf if side == 0 else np.inf)
        elif side == 0:
            new = np.minimum(vals.min(0) - delta, other - 0.02)
        else:
            new = np.maximum(vals.max(0) + delta, other + 0.02)
        B[kd][side][lo:hi] = [float(v) for v in new]
        val = float(new[0]) if elem or k == 1 else new.reshape(tuple(sh), order='F')
        ind = (('lower', 'upper')[side], name[kd], n) + ((e,) if elem else ())
        mhe.bounds[ind] = val
        readback(mhe, cfg, B, 'after changing %s' % (ind,))
        xp2, pp2 = ref.get(w, 'x', 1).copy(), ref.get(w, 'pe').copy()
        t += cfg['dt']
        w2, par, lb, ub, info = H02.one(mhe, ref, cfg, B, win, t, xp2, pp2, 'after changing %s to %s' % (ind, new))
        if w2 is None:
            break
        w = w2; labs |= set(info['labels']); labs.add('changed-' + kd)
    act = [l for l in labs if l.startswith('active')]
    labs.update(n for n in ('nlc_colloc', 'cons_colloc', 'single_slack') if cfg[n])
    return dict(nontrivial=bool(act), labels=sorted(labs))


# ------------------------------------------------------------------------------------------------ C04
@st.composite
def colloc_cases(draw, linear=False):
    c = draw(est.mhe_cfg(types=('continuous',), constraints=False, custom=False, max_N=2, linear=linear, with_z=not linear))
    c['coll'] = draw(st.sampled_from(['radau', 'legendre'])); c['deg'] = draw(st.integers(1, 5)); c['ni'] = draw(st.integers(1, 3))
    return c


def window(case):
    """Trajectory of the window as (stage, x0, u, points, z, tvp, p, w-noise)."""
    cfg = copy.deepcopy(case)
    ref, B, wf, win = prepare(cfg)
    mhe = est.make_mhe(cfg, B, win)
    xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, xp, pp)
    mhe.make_step(np.array(win.y[-1]).reshape(-1, 1))
    if not mhe.solver_stats['success']:
        raise Inconclusive('no solution')
    w = ref.read(mhe.opt_x_num_unscaled)
    p = est.p_vals(cfg, cfg['t0']); p[ref.ie] = ref.get(w, 'pe')
    tv = est.tvp_win(cfg, cfg['t0'])
    out = []
    for k in range(ref.N):
        wn, o = {}, 0
        for n, sh in ref.W:
            wn[n] = [float(v) for v in ref.get(w, 'w', k)[o:o + gen.size(sh)]]; o += gen.size(sh)
        xs = [ref.get(w, 'x', k)] + [ref.get(w, 'xc', k, i) for i in range(ref.nc - 1)] + [ref.get(w, 'x', k + 1)]
        out.append((k, ref.get(w, 'x', k), ref.get(w, 'u', k), xs, [ref.get(w, 'z', k, i) for i in range(ref.nc)], tv[k], p, wn))
    return cfg, ref, w, out
