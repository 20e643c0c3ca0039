"""C03: scaling never changes the physical result (MPC; MHE see lib.est)."""
import copy
import numpy as np
import casadi as ca
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp
from checks import C01, mhe_parts
from lib import est

P = Prop('C03', 'Random MPC problems (nominal and multi-stage) with scaling factors between 0.01 and 100 per variable or element: the solution, read in '
         'physical units, must be a KKT point of the unscaled reference problem before and after a runtime bound change; bounds, initial guess, record, '
         'objective value and unscaled solution must be the physical ones; convex problems are compared with an unscaled twin. Non-trivial: some factor is '
         'not one and an inequality is active or the input moves.',
         ['first-order optimality identifies the optimum', 'ipopt default tolerances (they act on scaled variables)'])

WIDE = (1.0, 0.01, 0.1, 7.0, 100.0, 0.5)


def readback(mpc, ref, cfg, B, w, par):
    spec, d = cfg['spec'], ref.m.d
    for kd in ('x', 'u', 'z'):
        o = 0
        for n, sh in spec[kd]:
            k = gen.size(sh)
            for bt, i in (('lower', 0), ('upper', 1)):
                v = np.asarray(ca.DM(mpc.bounds[bt, '_' + kd, n])).ravel(order='F')
                b = np.array(B[kd][i][o:o + k])
                if np.any(np.isfinite(b)):
                    require(np.array_equal(v, b), 'bounds[%s,_%s,%s] reads %s, set %s', bt, kd, n, v, b)
                else:
                    require(np.all(np.isinf(v)), 'bounds[%s,_%s,%s] reads %s, never set', bt, kd, n, v)
            s = np.asarray(ca.DM(mpc.scaling['_' + kd, n])).ravel(order='F')
            require(np.array_equal(s, np.array(cfg['scaling'][kd][o:o + k])), 'scaling[_%s,%s] reads %s', kd, n, s)
            o += k
    a = mpc.opt_x_num_unscaled.cat.full(); b = (mpc.opt_x_num.cat * mpc.opt_x_scaling.cat).full()
    require(gen.close(a, b, 1e-12, 1e-12), 'opt_x_num_unscaled is not opt_x_num times the scaling')
    f = ca.Function('f', [mpc.opt_x, mpc.opt_p], [mpc.nlp_obj])(mpc.opt_x_num, mpc.opt_p_num)
    fr = float(ref.short(w, *par)[0])
    require(abs(float(f) - fr) <= 1e-6 * max(1, abs(fr)), 'objective %.9g of the controller, %.9g in physical units', float(f), fr)
    require(gen.close(mpc.data['_x'][-1], par[0], 1e-10, 1e-10), 'recorded state is not the physical one')
    require(gen.close(mpc.data['_u'][-1], ref.get(w, 'u', 0, 0), 1e-9, 1e-9), 'recorded input is not the physical one')
    if d['z']:
        require(gen.close(mpc.data['_z'][-1], ref.get(w, 'z', 0, 0, 0), 1e-9, 1e-9), 'recorded algebraic state is not the physical one')
    env = gen.env_of(spec, dict(x=par[0], u=ref.get(w, 'u', 0, 0), z=ref.get(w, 'z', 0, 0, 0), tvp=ocp.tvp_list(cfg, cfg['t0'])[0], p=ocp.p_list(cfg, cfg['t0'])[0]))
    if len(ref.stages[1]) == 1 and spec['aux']:
        aux = [gen.ev(t, env) for _, _, tr in spec['aux'] for t in tr]
        got = np.asarray(mpc.data['_aux'][-1]).ravel()
        got = got[len(got) - len(aux):]
        require(gen.close(got, aux, 1e-7, 1e-7), 'recorded auxiliary value %s is not evaluated at the physical point (%s)', got, aux)


def set_guess(mpc, ref, cfg):
    """the initial guess is physical"""
    d = ref.m.d
    rng = np.arange(1, 1 + d['x'] + d['u'] + d['z']) * 0.37
    xg, ug, zg = rng[:d['x']], rng[d['x']:d['x'] + d['u']], rng[d['x'] + d['u']:]
    mpc.x0, mpc.u0 = xg.reshape(-1, 1), ug.reshape(-1, 1)
    if d['z']:
        mpc.z0 = zg.reshape(-1, 1)
    mpc.set_initial_guess()
    X = mpc.opt_x_num
    sx, su, sz = (np.array(cfg['scaling'][k]) for k in ('x', 'u', 'z'))
    for k in range(cfg['N'] + 1):
        require(gen.close(X['_x', k, 0, -1].full().ravel() * sx, xg, 1e-9, 1e-9), 'initial guess of the states is not physical')
    for k in range(cfg['N']):
        require(gen.close(X['_u', k, 0].full().ravel() * su, ug, 1e-9, 1e-9), 'initial guess of the inputs is not physical')
        if d['z']:
            require(gen.close(X['_z', k, 0, 0].full().ravel() * sz, zg, 1e-9, 1e-9), 'initial guess of the algebraic states is not physical')


def run(case):
    cfg = copy.deepcopy(case['cfg'])
    mpc, ref, w, cfg, B, info = C01.judge(cfg, tolf=True)
    par = ref.params(cfg['x0'], cfg['uprev'], ocp.tvp_list(cfg, cfg['t0']), ocp.p_list(cfg, cfg['t0']))
    readback(mpc, ref, cfg, B, w, par)
    lab = list(info['labels'])
    # runtime change of one bound: physical, in the next step, nothing else
    cand = []
    for kd in ('u', 'x', 'z'):
        o = 0
        for n, sh in cfg['spec'][kd]:
            cand.append((kd, n, sh, o)); o += gen.size(sh)
    kd, n, sh, o = cand[case['pick'] % len(cand)]
    k = gen.size(sh); side = case['side']
    keys = [q for q in ref.index if q[0] in ((kd, 'xc') if kd == 'x' else (kd,))]
    vals = np.array([w[ref.index[q][0] + o:ref.index[q][0] + o + k] for q in keys])
    new = (vals.min(0) - case['delta']) if side == 0 else (vals.max(0) + case['delta'])
    other = np.array(B[kd][1 - side][o:o + k])
    new = np.minimum(new, other - 0.02) if side == 0 else np.maximum(new, other + 0.02)
    B2 = copy.deepcopy(B); B2[kd] = [list(B[kd][0]), list(B[kd][1])]
    B2[kd][side][o:o + k] = [float(v) for v in new]
    if kd == 'x' and cfg['use_tb']:
        for i in (0, 1):       # a default terminal bound follows the state bound
            if B['tb'][i] is B['x'][i]:
                B2['tb'] = list(B2['tb']); B2['tb'][i] = B2['x'][i]
    mpc.bounds[('lower', 'upper')[side], '_' + kd, n] = new.reshape(tuple(sh), order='F') if k > 1 else float(new[0])
    set_guess(mpc, ref, cfg)
    cfg2 = dict(cfg)
    up = ref.get(w, 'u', 0, 0)
    t1 = cfg['t0'] + cfg['dt'] if case['adv'] else cfg['t0']
    mpc.t0 = t1; mpc.u0 = up.reshape(-1, 1)
    ref.write(mpc.opt_x_num, w, {q: np.array(cfg['scaling'][q]) for q in ('x', 'u', 'z')})
    u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg2, B2, cfg['x0'], t1, up, None)
    if ok:
        w2 = ref.read(mpc.opt_x_num_unscaled)
        ref.check(w2, par, lb, ub, what='after the bound change')
        readback(mpc, ref, dict(cfg2, t0=t1), B2, w2, par)
        lab.append('second-step')
    sc = any(v != 1.0 for q in ('x', 'u', 'z') for v in cfg['scaling'][q])
    return dict(nontrivial=bool(sc and info['nontrivial']), labels=lab)


def twin(case):
    cfg = copy.deepcopy(case)
    ref, B, wf = ocp.prepare(cfg)
    d = ref.m.d
    cfg1 = copy.deepcopy(cfg)
    for k in ('x', 'u', 'z'):
        cfg1['scaling'][k] = [1.0] * len(cfg['scaling'][k])
    su = np.array(cfg['scaling']['u'])
    cfg1['rterm'] = [float(r / s ** 2) for r, s in zip(cfg['rterm'], su)]
    cfg1['rvec'] = {n: gen.size(sh) > 1 for n, sh in cfg['spec']['u']}
    out = []
    for c in (cfg, cfg1):
        mpc = ocp.make_mpc(c, B, opts={'ipopt.tol': 1e-10})
        mpc.t0 = c['t0']; mpc.x0 = np.array(c['x0']).reshape(-1, 1); mpc.u0 = np.array(c['uprev']).reshape(-1, 1)
        mpc.set_initial_guess()
        r = []
        x = np.array(c['x0'])
        for i in range(2):
            u = mpc.make_step(x.reshape(-1, 1))
            if not mpc.solver_stats['success']:
                raise Inconclusive('no solution')
            w = ref.read(mpc.opt_x_num_unscaled)
            r.append((u.ravel(), w))
            # both twins continue from the same state
            x = ref.get(out[0][0][0][1] if out else w, 'x', 1, 0).copy()
        out.append((r, mpc))
    moved = False
    for i in range(2):
        (ua, wa), (ub_, wb) = out[0][0][i], out[1][0][i]
        m = max(1.0, np.abs(wb).max())
        par = ref.params(ref.get(out[0][0][0][1], 'x', 1, 0) if i else cfg['x0'], out[0][0][0][0] if i else cfg['uprev'],
                         ocp.tvp_list(cfg, cfg['t0'] + i * cfg['dt']), ocp.p_list(cfg, cfg['t0'] + i * cfg['dt']))
        lb, ub = ref.bounds(B)
        differ = max([np.abs(ua - ub_).max() / 3e-4] + [np.abs(wa[o:o + n] - wb[o:o + n]).max() / 1e-3 for key, (o, n) in ref.index.items() if n and key[0] in ('x', 'u')]) > m
        if differ and ref.several_optima(wa, wb, par, lb, ub, 5e-6, 'step %d with and without scaling' % i):
            raise Inconclusive('several optima with the same value')
        require(np.abs(ua - ub_).max() <= 3e-4 * m, 'step %d: input %s with scaling, %s without', i, ua, ub_)
        for key, (o, n) in ref.index.items():
            if n and key[0] in ('x', 'u'):
                require(np.abs(wa[o:o + n] - wb[o:o + n]).max() <= 1e-3 * m, 'step %d: %s is %s with scaling, %s without', i, key, wa[o:o + n], wb[o:o + n])
        moved |= np.abs(ua - np.array(cfg['uprev'])).max() > 1e-3
    # the second step starts at the input of the first one
    sc = any(v != 1.0 for q in ('x', 'u', 'z') for v in cfg['scaling'][q])
    return dict(nontrivial=bool(sc and moved), labels=[cfg['spec']['type']])


@st.composite
def cases(draw):
    rob = draw(st.integers(0, 2)) == 0
    return dict(cfg=draw(ocp.mpc_cfg(robust=rob, scales=WIDE, max_N=3)), pick=draw(st.integers(0, 7)), side=draw(st.integers(0, 1)),
                delta=draw(st.sampled_from([-0.02, 0.0, 0.05])), adv=draw(st.booleans()))


P.test('physical', cases(), 280, 9000)(run)
P.test('twin', ocp.mpc_cfg(scales=(0.1, 1.0, 4.0, 25.0, 0.5), convex=True, max_N=3), 120, 4000)(twin)
P.test('mhe', est.mhe_cfg(scales=mhe_parts.WIDE, max_N=3), 200, 7000)(mhe_parts.scaling)
P.test('mhe_twin', est.mhe_cfg(scales=(0.1, 1.0, 4.0, 25.0, 0.5), linear=True, all_meas=True, max_N=3), 100, 3000)(mhe_parts.twin)
if __name__ == '__main__':
    P.main()
