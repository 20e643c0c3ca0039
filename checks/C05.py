"""C05: closed-loop MPC histories."""
import copy
import numpy as np
import casadi as ca
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp
from lib.common import pack

P = Prop('C05', 'Random histories (2-9 operations) of make_step, reset_history, assignment of u0/t0/x0/z0, set_initial_guess, runtime bound changes and steps of a '
         'second controller built on the same model. A reference keeps clock, previous input, bounds and record. Each step must pass exactly the expected '
         'initial state, previous input, parameters and time-varying parameters to the problem, return the first planned input, be a KKT point of the problem with '
         'these data, and append one row to the record. For convex problems a fresh controller must give the same input. Non-trivial: at least two steps of one controller of which one moves the input.',
         ['first-order optimality identifies the optimum', 'steps for which the solver reports failure are only checked for bookkeeping'])


@st.composite
def cases(draw):
    convex = draw(st.integers(0, 2)) == 0
    rob = draw(st.integers(0, 3)) == 0
    cfg = draw(ocp.mpc_cfg(robust=rob, vary_p=not rob or draw(st.booleans()), max_N=3, min_tvp=draw(st.integers(0, 1)), convex=convex, max_x=2, max_u=2))
    step = st.tuples(st.just('step'), st.sampled_from([0, 0, 0, 1]), st.lists(gen.nice(-.5, .5), min_size=4, max_size=4), st.sampled_from(['np', 'dm', 'struct']))
    op = gen.weighted((8, step), (2, st.tuples(st.just('reset'))), (1, st.tuples(st.just('u0'), gen.nice(-1, 1))), (1, st.tuples(st.just('t0'), st.sampled_from([0, 1, 3.5, 0.25]), st.sampled_from(['float', 'np', 'dm']))),
                      (1, st.tuples(st.just('x0'), gen.nice(-1, 1))), (1, st.tuples(st.just('guess'))),
                      (2, st.tuples(st.just('bound'), st.integers(0, 1), st.integers(0, 3), st.sampled_from([0.05, 0.2, 0.5]))))
    return dict(cfg=cfg, convex=convex, ops=[list(o) for o in draw(gen.seq(2, 9, op))], store=draw(st.booleans()), second=draw(st.booleans()), loop=draw(st.booleans()))


def run(case):
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf = ocp.prepare(cfg)
    d, spec = ref.m.d, cfg['spec']
    model = gen.build(spec)
    objs = []
    for i in range(2 if case['second'] else 1):
        mpc = ocp.make_mpc(cfg, B, model=model, store=case['store'])
        S = dict(mpc=mpc, t=float(cfg['t0']) + i * 0.5, up=np.array(cfg['uprev'], float), B=copy.deepcopy(B), rows=[], x=np.array(cfg['x0'], float), n=0, moved=False)
        for kd in ('x', 'u', 'z'):
            S['B'][kd] = [list(v) for v in S['B'][kd]]
        if cfg['use_tb']:
            S['B']['tb'] = [S['B']['x'][j] if B['tb'][j] is B['x'][j] else list(B['tb'][j]) for j in (0, 1)]
        mpc.t0 = S['t']; mpc.u0 = S['up'].reshape(-1, 1); mpc.x0 = S['x'].reshape(-1, 1)
        mpc.set_initial_guess()
        objs.append(S)
    lab = set(); fails = 0

    def expect_state(S, what):
        m = S['mpc']
        require(abs(float(np.asarray(m.t0).ravel()[0]) - S['t']) < 1e-9, '%s: clock is %s, expected %s', what, m.t0, S['t'])
        require(gen.close(m.u0.cat, S['up'], 1e-9, 1e-9), '%s: previous input is %s, expected %s', what, m.u0.cat, S['up'])
        D = m.data
        for f, j in (('_time', 0), ('_x', 1), ('_u', 2), ('_z', 3), ('_tvp', 4), ('_p', 5)):
            a = np.asarray(D[f], float)
            require(a.shape[0] == len(S['rows']), '%s: record %s has %d rows after %d steps', what, f, a.shape[0], len(S['rows']))
            for q, r in enumerate(S['rows']):
                require(gen.close(a[q], r[j], 1e-9, 1e-9), '%s: record %s row %d is %s, executed %s', what, f, q, a[q], r[j])
        a = np.asarray(D['_aux'], float)
        require(a.shape[0] == len(S['rows']), '%s: record _aux has %d rows', what, a.shape[0])

    for k, op in enumerate(case['ops']):
        o = op[0]
        if o == 'step':
            S = objs[op[1] % len(objs)]; m = S['mpc']
            x = S['x'] + 0.3 * np.resize(np.array(op[2]), d['x'])
            if not S['n'] and not case['loop']:
                x = S['x']
            ps, tvps = ocp.p_list(cfg, S['t']), ocp.tvp_list(cfg, S['t'])
            par = ref.params(x, S['up'], tvps, ps); lb, ub = ref.bounds(S['B'])
            u = m.make_step(pack(op[3], m.model._x, x))
            P_ = m.opt_p_num
            require(gen.close(P_['_x0'].cat if hasattr(P_['_x0'], 'cat') else P_['_x0'], x, 1e-12, 1e-12), 'step %d: the problem has initial state %s, passed %s', k, P_['_x0'], x)
            cat = lambda v: v.cat if hasattr(v, 'cat') else v
            require(gen.close(cat(P_['_u_prev']), S['up'], 1e-9, 1e-9), 'step %d: the problem has previous input %s, applied was %s', k, cat(P_['_u_prev']), S['up'])
            for i, t in enumerate(tvps):
                require(gen.close(cat(P_['_tvp', i]), t, 1e-9, 1e-9), 'step %d: time-varying parameter of stage %d is %s, the callback for t=%s gives %s', k, i, cat(P_['_tvp', i]), S['t'], t)
            for i, p in enumerate(ps):
                require(gen.close(cat(P_['_p', i]), p, 1e-9, 1e-9), 'step %d: parameters %d are %s, the callback for t=%s gives %s', k, i, cat(P_['_p', i]), S['t'], p)
            w = ref.read(m.opt_x_num_unscaled)
            require(u.shape == (d['u'], 1) and gen.close(u, ref.get(w, 'u', 0, 0), 1e-9, 1e-9), 'step %d: returned %s, planned %s', k, u.ravel(), ref.get(w, 'u', 0, 0))
            if m.solver_stats['success']:
                info = ref.check(w, par, lb, ub, what='step %d (t=%s)' % (k, S['t']))
                lab.update(info['labels'])
                if case['convex'] and S['n'] in (1, 3):
                    fr = ocp.make_mpc(dict(cfg, t0=S['t']), B)
                    for kd in ('x', 'u', 'z'):
                        for bt, i in (('lower', 0), ('upper', 1)):
                            ocp.struct_set(fr.bounds, [bt, '_' + kd], spec[kd], S['B'][kd][i])
                    fr.t0 = S['t']; fr.u0 = S['up'].reshape(-1, 1); fr.x0 = x.reshape(-1, 1); fr.set_initial_guess()
                    uf = fr.make_step(x.reshape(-1, 1))
                    if fr.solver_stats['success']:
                        same = np.abs(uf - u).max() <= 1e-3 * max(1, np.abs(u).max())
                        flat = not same and ref.several_optima(w, ref.read(fr.opt_x_num_unscaled), par, lb, ub, 1e-6, 'step %d, running and fresh controller' % k)
                        if flat:
                            lab.add('several-optima')
                        require(same or flat, 'step %d: input %s in the running controller, %s in a fresh one with the same data', k, u.ravel(), uf.ravel())
                        lab.add('fresh')
            else:
                fails += 1
                m.set_initial_guess()
            z0 = ref.get(w, 'z', 0, 0, 0)
            S['rows'].append((S['t'], x, u.ravel().copy(), z0.copy(), tvps[0], ps[0]))
            S['moved'] |= bool(np.abs(u.ravel() - S['up']).max(initial=0) > 1e-3)
            S['t'] += cfg['dt']; S['up'] = u.ravel().copy(); S['x'] = ref.get(w, 'x', 1, 0).copy(); S['n'] += 1
            if not np.all(np.isfinite(S['x'])) or np.abs(S['x']).max() > 30:
                S['x'] = np.array(cfg['x0'], float)
            u[:] = 77.0
        else:
            S = objs[0]; m = S['mpc']
            lab.add(o)
            if o == 'reset':
                m.reset_history(); S['t'] = 0.0; S['rows'] = []
            elif o == 'u0':
                S['up'] = np.full(d['u'], op[1]); m.u0 = S['up'].reshape(-1, 1).copy()
            elif o == 't0':
                S['t'] = float(op[1]); m.t0 = {'float': op[1], 'np': np.array([op[1]], float), 'dm': ca.DM(op[1])}[op[2]]
            elif o == 'x0':
                m.x0 = np.full((d['x'], 1), op[1])
            elif o == 'guess':
                m.set_initial_guess()
            elif o == 'bound' and d['u']:
                n, sh = spec['u'][op[2] % len(spec['u'])]
                off = 0
                for nn, s2 in spec['u']:
                    if nn == n:
                        break
                    off += gen.size(s2)
                kk = gen.size(sh); i = op[1]
                other = np.array(S['B']['u'][1 - i][off:off + kk]); cur = S['up'][off:off + kk]
                v = np.minimum(cur - op[3], other - 0.1) if i == 0 else np.maximum(cur + op[3], other + 0.1)
                S['B']['u'][i] = list(S['B']['u'][i])
                S['B']['u'][i][off:off + kk] = [float(q) for q in v]
                m.bounds[('lower', 'upper')[i], '_u', n] = v.reshape(tuple(sh), order='F') if kk > 1 else float(v[0])
        for S in objs:
            expect_state(S, 'after %s (%d)' % (o, k))
    n = max(S['n'] for S in objs)
    tot = sum(S['n'] for S in objs)
    if tot and fails == tot:
        raise Inconclusive('no step solved')
    return dict(nontrivial=n >= 2 and any(S['moved'] for S in objs) and fails < tot, labels=sorted(lab) + ['two' if case['second'] else 'one'] + (['dae'] if spec['z'] else []))


P.test('history', cases(), 600, 12000)(run)
if __name__ == '__main__':
    P.main()
