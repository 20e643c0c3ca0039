"""C07: constraints hold where promised; runtime bound changes."""
import copy
import numpy as np
import casadi as ca
from lib.vf import Prop, st, require, Inconclusive
from lib import gen, ocp
from checks import C01, mhe_parts

P = Prop('C07', 'Random MPC problems with tight bounds and hard/soft nonlinear constraints under all combinations of cons_check_colloc_points, nl_cons_check_colloc_points, '
         'nl_cons_single_slack, use_terminal_bounds and scenario trees, followed by 1-3 runtime changes of a bound or terminal bound of a single variable or element (also '
         'removing a bound). After every step the plan must satisfy the reference constraints at exactly the promised points and be a KKT point (no additional constraint, '
         'declared penalty); reading all other bounds must give the values set. Non-trivial: a bound, slack or nonlinear constraint is active.',
         ['first-order optimality identifies the optimum', 'state bounds apply from stage 1 to N-1 (and collocation points up to stage N-1), the terminal stage is governed by the terminal bounds'])


@st.composite
def cases(draw, trees=False):
    rob = trees or draw(st.integers(0, 2)) == 0
    cfg = draw(ocp.mpc_cfg(robust=rob, tight=True, max_N=3, types=('discrete', 'discrete', 'continuous') if trees else ('discrete', 'continuous'), max_u=1 if trees else 2, with_z=not trees, scales=(1.0, 1.0, 0.5, 3.0), custom_r=False))
    if trees:
        cfg['cons_colloc'] = draw(st.integers(0, 2)) == 0
        cfg['open_loop'] = False
        if cfg['n_robust'] == 0:
            cfg['n_robust'] = 1
        cfg['B']['x'] = [[draw(st.sampled_from([0.01, 0.02, 0.05])) for _ in b] for b in cfg['B']['x']]
    if draw(st.integers(0, 3)) == 0:
        cfg['late'] = draw(st.lists(st.sampled_from(['x', 'u', 'z', 'tb']), min_size=1, max_size=4, unique=True))
    op = st.tuples(st.sampled_from(['u', 'x', 'z', 'x', 't']), st.integers(0, 3), st.integers(0, 1), st.sampled_from([-0.05, 0.02, 0.1, 0.5, None]), st.integers(0, 2), st.booleans())
    return dict(cfg=cfg, ops=[list(o) for o in draw(gen.seq(0 if trees else 1, 1 if trees else 3, op))])


def readback(mpc, cfg, B, T, what):
    for kd in ('x', 'u', 'z', 't'):
        o = 0
        for n, sh in cfg['spec']['x' if kd == 't' else kd]:
            k = gen.size(sh)
            for i, bt in enumerate(('lower', 'upper')):
                if kd == 't' and not cfg['use_tb'] and T[i] is None:
                    continue
                b = np.array((B[kd] if kd != 't' else T)[i][o:o + k])
                v = np.asarray(ca.DM(mpc.bounds[bt, '_' + kd, n] if kd != 't' else mpc.terminal_bounds[bt, n])).ravel(order='F')
                require(np.array_equal(v, b), '%s: %s bound of %s %s reads %s, it was set to %s', what, bt, 'terminal' if kd == 't' else '_' + kd, n, v, b)
            o += k


def run(case):
    cfg = copy.deepcopy(case['cfg'])
    # blocks are either set completely or not at all (struct_set skips blocks without any finite value)
    mpc, ref, w, cfg, B, info = C01.judge(cfg)
    lab = set(info['labels'])
    spec = cfg['spec']
    for kd in ('x', 'u', 'z'):
        B[kd] = [list(v) for v in B[kd]]
    T = [None, None]
    if cfg['use_tb']:
        T = [list(B['tb'][i]) for i in (0, 1)]
    elif B['tb_set'] is not None:
        T = [list(B['tb_set'][i]) for i in (0, 1)]
    readback(mpc, cfg, B, T, 'after setup')
    t = cfg['t0']
    for j, (kd, vi, side, delta, ei, elem) in enumerate(case['ops']):
        ent = spec['x' if kd == 't' else kd]
        if not ent or (kd == 't' and T[side] is None):
            continue
        n, sh = ent[vi % len(ent)]
        o = 0
        for nn, s2 in ent:
            if nn == n:
                break
            o += gen.size(s2)
        k = gen.size(sh)
        e = ei % k
        lo, hi = (o + e, o + e + 1) if elem else (o, o + k)
        if kd == 't':
            keys = [q for q in ref.index if q[0] == 'x' and q[1] == ref.N]
        else:
            keys = [q for q in ref.index if q[0] == kd or (kd == 'x' and q[0] == 'xc')]
        vals = np.array([w[ref.index[q][0] + lo:ref.index[q][0] + hi] for q in keys])
        tgt = T if kd == 't' else B[kd]
        other = np.array(tgt[1 - side][lo:hi])
        if kd == 'x' and cfg['use_tb']:       # the terminal bound may follow the state bound: both stay consistent
            other = (np.minimum if side == 0 else np.maximum)(other, np.array(T[1 - side][lo:hi]))
        if delta is None:
            new = np.full(hi - lo, -np.inf if side == 0 else np.inf)
        elif side == 0:
            new = np.minimum(vals.min(0) - delta, other - 0.02)
        else:
            new = np.maximum(vals.max(0) + delta, other + 0.02)
        tgt[side] = list(tgt[side]); tgt[side][lo:hi] = [float(v) for v in new]
        bt = ('lower', 'upper')[side]
        val = float(new[0]) if elem or k == 1 else new.reshape(tuple(sh), order='F')
        ind = (bt, n) if kd == 't' else (bt, '_' + kd, n)
        if elem:
            ind = ind + (e,)
        # default terminal bounds are the state bounds (same structure): both readings are accepted
        if kd == 'x' and cfg['use_tb'] and B['tb'] is not None:
            cur = np.asarray(ca.DM(mpc.terminal_bounds[bt, n])).ravel(order='F').copy()
        if kd == 't':
            mpc.terminal_bounds[ind] = val
        else:
            mpc.bounds[ind] = val
        if kd == 'x' and cfg['use_tb']:
            now = np.asarray(ca.DM(mpc.terminal_bounds[bt, n])).ravel(order='F')
            if not np.array_equal(now, cur):
                require(np.array_equal(now[lo - o:hi - o], new), 'changing a state bound sets the terminal bound to %s', now)
                T[side][lo:hi] = [float(v) for v in new]
                lab.add('terminal-follows')
        if cfg['use_tb']:
            B['tb'] = T
        readback(mpc, cfg, B, T, 'after changing %s' % (ind,))
        mpc.t0 = t; mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1)
        u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg, B, cfg['x0'], t, cfg['uprev'], None)
        if not ok:
            mpc.t0 = t; mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1)
            okr, wr, fr = ref.solve(w, par, lb, ub)
            if not okr:
                lab.add('infeasible-step'); mpc.set_initial_guess()
                continue
            ref.write(mpc.opt_x_num, wr, {q: np.array(cfg['scaling'][q]) for q in ('x', 'u', 'z')})
            u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg, B, cfg['x0'], t, cfg['uprev'], None)
            if not ok:
                f, v, iv, _, _ = ref.residuals(wr, par, lb, ub)
                require(v > 1e-6 or iv > 1e-6 or not ocp.rejects(mpc, ref, wr, {q: np.array(cfg['scaling'][q]) for q in ('x', 'u', 'z')}), 'after changing %s to %s the controller finds no solution (%s) although one exists', ind, new, mpc.solver_stats['return_status'])
                continue
        w = ref.read(mpc.opt_x_num_unscaled)
        r = ref.check(w, par, lb, ub, what='after changing %s to %s' % (ind, new))
        lab.update(r['labels']); lab.add('changed-' + kd); lab.add('removed' if delta is None else 'moved')
    act = [l for l in lab if l.startswith('active')]
    lab.update(n for n in ('nlc_colloc', 'cons_colloc', 'single_slack', 'use_tb') if cfg[n])
    return dict(nontrivial=bool(act), labels=sorted(lab))


P.test('constraints', cases(), 420, 10000)(run)
P.test('trees', cases(trees=True), 200, 5000)(run)
P.test('mhe', mhe_parts.bound_cases(), 200, 7000)(mhe_parts.bounds)
if __name__ == '__main__':
    P.main()
