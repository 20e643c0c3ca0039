"""C01: the MPC input is the optimum of the documented problem."""
import numpy as np, copy
from lib.vf import Prop, st, require, Inconclusive, Violation
from lib import gen, ocp

P = Prop('C01', 'Random MPC problems: random models (discrete/ODE/DAE, SX/MX, scalar/vector variables, parameters, tvp), quadratic + smooth random '
         'stage/terminal costs over all variables, default and user-defined rate penalty, bounds/terminal bounds/nonlinear hard and soft '
         'constraints placed around a feasible plan, scaling, collocation settings. The returned solution is judged by an independently written '
         'NLP: feasibility and existence of Lagrange multipliers (KKT). If the controller fails on a feasible problem it is restarted from a '
         'reference solution. Non-trivial: some constraint is active or the optimal input differs from the previous one.',
         ['first-order optimality (KKT) identifies a local optimum; ipopt default tolerances', 'casadi derivatives of the reference problem'])


def judge(case, tolf=False):
    cfg = copy.deepcopy(case)
    ref, B, wf = ocp.prepare(cfg)
    if tolf:
        ref.tolf = max(1.0, max(cfg['scaling']['x'] + cfg['scaling']['u'] + cfg['scaling']['z']) / 20)
    d = ref.m.d
    mpc = ocp.make_mpc(cfg, B)
    mpc.t0 = cfg['t0']
    mpc.x0 = np.array(cfg['x0']).reshape(-1, 1); mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1)
    if d['z']:
        mpc.z0 = ref.get(wf, 'z', 0, 0, 0).reshape(-1, 1)
    mpc.set_initial_guess()
    u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg, B, cfg['x0'], cfg['t0'], cfg['uprev'], wf)
    lab = []
    if not ok:
        okr, wr, fr = ref.solve(wf, par, lb, ub)
        if not okr:
            raise Inconclusive('no solver converged')
        mpc.t0 = cfg['t0']; mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1)
        ref.write(mpc.opt_x_num, wr, {k: np.array(cfg['scaling'][k]) for k in ('x', 'u', 'z')})
        u0, ok, par, lb, ub = ocp.step(mpc, ref, cfg, B, cfg['x0'], cfg['t0'], cfg['uprev'], wf)
        lab.append('restarted')
        if not ok:
            f, v, iv, _, _ = ref.residuals(wr, par, lb, ub)
            require(v > 1e-6 or iv > 1e-6 or not ocp.rejects(mpc, ref, wr, {q: np.array(cfg['scaling'][q]) for q in ('x', 'u', 'z')}), 'the controller finds no solution (%s) although the plan with cost %.6g is feasible', mpc.solver_stats['return_status'], f)
            raise Inconclusive('controller did not converge')
    w = ref.read(mpc.opt_x_num_unscaled)
    require(isinstance(u0, np.ndarray) and u0.shape == (d['u'], 1), 'make_step returned %s', type(u0))
    require(gen.close(u0, ref.get(w, 'u', 0, 0), 1e-9, 1e-9), 'returned input %s is not the first input %s of the plan', u0.ravel(), ref.get(w, 'u', 0, 0))
    info = ref.check(w, par, lb, ub)
    moved = np.abs(np.array(cfg['uprev']) - u0.ravel()).max() > 1e-4 if d['u'] else False
    spec = cfg['spec']
    lab += info['labels'] + [spec['type'], 'N%d' % cfg['N']] + (['dae'] if spec['z'] else []) + (['rexpr'] if cfg['rexpr'] is not None else [])
    lab += ['soft'] if any(c['soft'] for c in cfg['nlc']) else []
    lab += ['tb'] if B['tb'] is not None else []
    return mpc, ref, w, cfg, B, dict(nontrivial=bool(moved or any(l.startswith('active') for l in info['labels'])), labels=lab)


def run(case):
    return judge(case)[-1]


P.test('optimum', ocp.mpc_cfg(), 400, 12000)(run)
if __name__ == '__main__':
    P.main()
