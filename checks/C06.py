"""C06: stored predictions are the solutions of their steps."""
import copy, os
import numpy as np
from lib.vf import Prop, st, require, Inconclusive, scratch
from lib import gen, ocp

P = Prop('C06', 'Random MPC configurations (nominal and multi-stage trees, open loop, vector variables, DAE, scaling) are stepped 1-4 times; after every step the harness '
         'copies the solution. Prediction queries by type, name and element for every (positive and negative) time index, in random order, repeated, between the steps, after a '
         'reset and after save/load must return exactly the recorded trajectories per stage and scenario; auxiliary predictions must equal the expression evaluated on the prediction. '
         'Non-trivial: at least two steps with different solutions, or more than one scenario.', ['pickle'])


@st.composite
def cases(draw):
    rob = draw(st.booleans())
    cfg = draw(ocp.mpc_cfg(robust=rob, constraints=draw(st.booleans()), vary_p=not rob, min_tvp=draw(st.integers(0, 1)), max_N=3, smooth_cost=False, max_u=2, max_aux=2))
    return dict(cfg=cfg, steps=draw(st.integers(1, 3)), dx=draw(st.lists(gen.nice(-.5, .5), min_size=4, max_size=4)), reset=draw(st.integers(0, 3)) == 0,
                order=draw(st.permutations(range(12))), save=draw(st.booleans()), between=draw(st.booleans()))


def queries(spec):
    out = []
    for kd in ('x', 'u', 'z', 'tvp'):
        if spec[kd] or kd == 'x':
            out.append(('_' + kd,))
        for n, sh in spec[kd]:
            out.append(('_' + kd, n))
            out += [('_' + kd, n, i) for i in range(gen.size(sh))] if gen.size(sh) > 1 else [('_' + kd, n, 0)]
    for n, sh, _ in spec['aux']:
        out.append(('_aux', n))
        out += [('_aux', n, i) for i in range(gen.size(sh))]
    return out


def rows(spec, q):
    """element positions of a query within its kind"""
    kd = q[0][1:]
    ent = [(n, sh) for n, sh in spec[kd]] if kd != 'aux' else [(n, sh) for n, sh, _ in spec['aux']]
    o = 0
    if len(q) == 1:
        return list(range(sum(gen.size(sh) for _, sh in ent)))
    for n, sh in ent:
        if n == q[1]:
            return [o + q[2]] if len(q) == 3 else list(range(o, o + gen.size(sh)))
        o += gen.size(sh)


def verify(D, ref, cfg, R, t, qs, what):
    """all queries at time index t against the recorded step R"""
    spec, d, N = cfg['spec'], ref.m.d, cfg['N']
    w, S = R['w'], len(ref.paths)
    X = np.array([[ref.get(w, 'x', k, p[k]) for k in range(N + 1)] for p in ref.paths])            # scen, stage, el
    U = np.array([[ref.get(w, 'u', k, 0 if cfg['open_loop'] else p[k]) for k in range(N)] for p in ref.paths])
    Z = np.array([[ref.get(w, 'z', k, p[k + 1], 0) for k in range(N)] for p in ref.paths])
    # the order of the scenarios is free, but common to all queries
    gx, gu = D.prediction(('_x',), t), D.prediction(('_u',), t)
    require(gx.shape == (d['x'], N + 1, S), '%s: prediction of the states has shape %s, expected %s', what, gx.shape, (d['x'], N + 1, S))
    su = 1 if cfg['open_loop'] else S
    require(gu.shape == (d['u'], N, su), '%s: prediction of the inputs has shape %s, expected %s', what, gu.shape, (d['u'], N, su))
    gz = D.prediction(('_z',), t) if d['z'] else np.zeros((0, N, S))
    require(gz.shape == (d['z'], N, S), '%s: prediction of the algebraic states has shape %s', what, gz.shape)
    perm, used = [], set()
    for j in range(S):
        hit = None
        for i in [j] + list(range(S)):
            if i in used:
                continue
            if gen.close(gx[:, :, j].T, X[i], 1e-10, 1e-10) and gen.close(gz[:, :, j].T, Z[i], 1e-10, 1e-10) and (cfg['open_loop'] or gen.close(gu[:, :, j].T, U[i], 1e-10, 1e-10)):
                hit = i; break
        require(hit is not None, '%s: scenario %d of the predictions is no scenario of the solution of that step\n_x %s\nscenarios %s', what, j, gx[:, :, j].tolist(), X.tolist())
        used.add(hit); perm.append(hit)
    if cfg['open_loop']:
        require(gen.close(gu[:, :, 0].T, U[0], 1e-10, 1e-10), '%s: predicted inputs', what)
    A = None
    for q in qs:
        g = np.asarray(D.prediction(q, t))
        r = rows(spec, q)
        if q[0] == '_x':
            e = X[perm].transpose(2, 1, 0)[r]
        elif q[0] == '_u':
            e = (U[:1] if cfg['open_loop'] else U[perm]).transpose(2, 1, 0)[r]
        elif q[0] == '_z':
            e = Z[perm].transpose(2, 1, 0)[r]
        elif q[0] == '_tvp':
            e = np.array(R['tvp']).T[r][:, :, None]
        else:
            require(g.shape == (len(r), N, S), '%s: prediction of %s has shape %s, expected %s', what, q, g.shape, (len(r), N, S))
            for j in range(S):
                path = ref.paths[perm[j]]
                for k in range(N):
                    opts = []
                    for c, (s, pi) in enumerate(ref.stages[k + 1]):
                        if s != path[k]:
                            continue
                        env = gen.env_of(spec, dict(x=ref.get(w, 'x', k, s), u=U[perm[j]][k], z=ref.get(w, 'z', k, c, 0), tvp=R['tvp'][k], p=R['p'][pi]))
                        opts.append(gen.ref_aux(spec, env)[1:][r])
                    require(any(gen.close(g[:, k, j], a, 1e-7, 1e-7) for a in opts), '%s: prediction of %s at stage %d, scenario %d is %s, the expression on the prediction gives %s', what, q, k, j, g[:, k, j], opts)
            continue
        require(g.shape == e.shape and gen.close(g, e, 1e-10, 1e-10), '%s: prediction of %s is\n%s\nthe solution of that step is\n%s', what, q, g.tolist(), e.tolist())


def run(case):
    import do_mpc
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf = ocp.prepare(cfg)
    mpc = ocp.make_mpc(cfg, B, store=True)
    mpc.t0 = cfg['t0']; mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1); mpc.x0 = np.array(cfg['x0']).reshape(-1, 1)
    mpc.set_initial_guess()
    qs = queries(cfg['spec'])
    qs = [qs[i % len(qs)] for i in case['order']] + qs
    R, t, x = [], float(cfg['t0']), np.array(cfg['x0'], float)
    n = case['steps'] + 1
    for i in range(n):
        if i == 1 and case['reset']:
            mpc.reset_history(); R = []; t = 0.0
        mpc.make_step(x.reshape(-1, 1))
        w = ref.read(mpc.opt_x_num_unscaled)
        if not np.all(np.isfinite(w)):
            raise Inconclusive('solver diverged')
        R.append(dict(w=w, tvp=ocp.tvp_list(cfg, t), p=ocp.p_list(cfg, t)))
        t += cfg['dt']
        x = x + 0.3 * np.resize(np.array(case['dx']), len(x)) + 0.1
        if case['between']:
            verify(mpc.data, ref, cfg, R[-1], -1, qs[:6], 'step %d, latest' % i)
            verify(mpc.data, ref, cfg, R[0], 0, qs[6:9], 'step %d, first' % i)

    def all_(D, what):
        m = len(R)
        for i in range(m):
            verify(D, ref, cfg, R[i], i, qs, '%sstep %d of %d' % (what, i, m))
            verify(D, ref, cfg, R[i], i - m, qs[-3:], '%sstep %d of %d (negative index)' % (what, i, m))
        g = D.prediction(qs[0])
        require(gen.close(g, D.prediction(qs[0], m - 1), 0, 0), 'the default of prediction is not the last step')
    all_(mpc.data, '')
    if case['save']:
        with scratch() as dd:
            do_mpc.data.save_results([mpc], 'r', dd + '/')
            L = do_mpc.data.load_results(os.path.join(dd, 'r.pkl'))
            all_(L['mpc'], 'loaded: ')
    S = len(ref.paths)
    diff = len(R) > 1 and np.abs(R[0]['w'] - R[1]['w']).max() > 1e-4
    return dict(nontrivial=bool(diff or S > 1), labels=['scen%d' % min(S, 9), 'nr%d' % cfg['n_robust'], 'steps%d' % len(R)] + (['saved'] if case['save'] else []) + (['dae'] if cfg['spec']['z'] else []))


P.test('predictions', cases(), 330, 9000)(run)
if __name__ == '__main__':
    P.main()
