"""C02: scenario trees."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen, ocp
from checks.C01 import judge

P = Prop('C02', 'Random multi-stage problems: 1-2 uncertain parameters (scalar or vector) with 1-3 values each through set_uncertainty_values or '
         'set_p_fun, robust horizons from 0 to the full horizon, with and without open_loop, up to 12 combinations in test "many", soft constraints, DAE models, user-defined rate '
         'penalty. An independently written scenario tree (every node branches into all combinations in the first n_robust stages, then keeps '
         'its parameter) must be satisfied by the plan, which must be a KKT point of the tree problem. Non-trivial: more than one scenario.',
         ['first-order optimality (KKT) identifies a local optimum', 'rate penalty and slack penalty add up over all branches (convention of the code, pinned by the reference results)'])


def run(case):
    mpc, ref, w, cfg, B, info = judge(case)
    ps = ocp.p_list(cfg, cfg['t0'])
    got = [np.asarray(mpc.opt_p_num['_p', c].cat if hasattr(mpc.opt_p_num['_p', c], 'cat') else mpc.opt_p_num['_p', c], float).ravel() for c in range(len(ps))]
    for c, p in enumerate(ps):
        require(gen.close(got[c], p), 'combination %d of the uncertain parameters is %s, expected %s', c, got[c], p)
    require(mpc.n_combinations == len(ps), '%d combinations, expected %d', mpc.n_combinations, len(ps))
    ns = len(ref.paths)
    info['nontrivial'] = ns > 1
    info['labels'] += ['scen%d' % ns, 'nr%d' % cfg['n_robust']] + (['open_loop'] if cfg['open_loop'] else []) + (['nr=N'] if cfg['n_robust'] == cfg['N'] else [])
    return info


P.test('tree', ocp.mpc_cfg(robust=True, max_x=2, max_u=1, max_N=3), 400, 10000)(run)
P.test('deep', ocp.mpc_cfg(robust=True, types=('discrete',), max_x=1, max_u=1, max_N=4, with_z=False, scaling=False, force_rob=3), 40, 1000)(run)
P.test('many', ocp.mpc_cfg(robust=True, types=('discrete',), max_x=1, max_u=1, max_N=2, with_z=False, scaling=False, force_rob=1, many=True), 40, 1000)(run)
if __name__ == '__main__':
    P.main()
