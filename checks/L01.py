"""L01: linearization."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen

P = Prop('L01', 'matrices: random SX models (with algebraic states, parameters, tvp), random operating points, random subsets of arguments left '
         'symbolic; the returned A,B,C,D are compared with hand-written forward-mode derivatives of the expression trees. linearize: the '
         'LinearModel must have these matrices, names, shapes, and its functions/Simulator must evaluate A x + B u, C x + D u. Non-trivial: '
         'A or B depends on the operating point or is not constant zero.', [])
ARGS = ('x', 'u', 'z', 'tvp', 'p')


@st.composite
def mcase(draw):
    spec = draw(gen.model_spec(syms=('SX',), shapes=gen.VSHAPES, max_x=3, max_u=2, wide=True))
    return dict(spec=spec, pt=draw(gen.point(spec)), sym=[draw(st.booleans()) and draw(st.booleans()) for _ in range(5)])


def jacs(spec, env):
    rt, mt = gen.rhs_trees(spec), gen.meas_trees(spec)
    return [gen.ref_jac(rt, spec, env, 'x'), gen.ref_jac(rt, spec, env, 'u'), gen.ref_jac(mt, spec, env, 'x'), gen.ref_jac(mt, spec, env, 'u')]


def rmat(case):
    import casadi as ca
    spec = case['spec']; m, hs = gen.build(spec)
    pt = case['pt']; env = gen.env_of(spec, pt)
    a = {k: np.array(pt[k], float).reshape(-1, 1) for k in ARGS}
    kw = {}
    for k, nm, s in zip(ARGS, ('xss', 'uss', 'z', 'tvp', 'p'), case['sym']):
        if not s:
            kw[nm] = a[k]
    got = m.get_linear_system_matrices(**kw)
    want = jacs(spec, env)
    for nm, g, w in zip('ABCD', got, want):
        if isinstance(g, np.ndarray):
            G = g
        else:
            require(not g.is_constant(), '%s is constant but not returned as array', nm)
            G = ca.Function('g', [m[k] for k in ARGS], [g])(*[a[k] for k in ARGS]).full()
        require(G.shape == w.shape, '%s has shape %s, expected %s', nm, G.shape, w.shape)
        require(gen.close(G, w, 1e-8, 1e-7), '%s is %s, true Jacobian %s at %s', nm, G, w, pt)
    return dict(nontrivial=bool(np.any(want[0]) or np.any(want[1])), labels=[spec['type']] + (['symbolic'] if any(case['sym']) else []) + (['z'] if spec['z'] else []))


P.test('matrices', mcase(), 600, 15000)(rmat)


@st.composite
def lcase(draw):
    meas = draw(st.sampled_from(['random', 'default', 'state', 'state+D']))
    spec = draw(gen.model_spec(syms=('SX',), shapes=gen.VSHAPES, max_z=0, max_x=2, max_meas=0 if meas == 'default' else 3, default_meas=meas != 'random'))
    if meas in ('state', 'state+D'):
        # measurement with C = I; with feed-through in the second case
        ul = gen.elements(spec, ('u', 'tvp', 'p'))
        spec['meas'] = []
        for n, sh in spec['x']:
            rows = [['v', 'x', n, k] for k in range(gen.size(sh))]
            if meas == 'state+D' and ul:
                rows = [['+', r, draw(gen.exprs(ul, 3))] for r in rows]
            spec['meas'].append(['m_' + n, list(sh), rows, draw(st.booleans())])
    return dict(spec=spec, meas=meas, pt=draw(gen.point(spec)), x=draw(st.lists(gen.nice(), min_size=6, max_size=6)),
                u=draw(st.lists(gen.nice(), min_size=6, max_size=6)), full=draw(st.booleans()))


def rlin(case):
    import do_mpc, casadi as ca
    spec = case['spec']; m, hs = gen.build(spec)
    pt = case['pt']; env = gen.env_of(spec, pt)
    a = {k: np.array(pt[k], float).reshape(-1, 1) for k in ARGS}
    lm = do_mpc.model.linearize(m, a['x'], a['u'], tvp0=a['tvp'] if (spec['tvp'] or case['full']) else None, p0=a['p'] if (spec['p'] or case['full']) else None)
    A, B, C, D = jacs(spec, env)
    for nm, g, w in zip('ABCD', (lm.sys_A, lm.sys_B, lm.sys_C, lm.sys_D), (A, B, C, D)):
        require(isinstance(g, np.ndarray), 'sys_%s is %s', nm, type(g))
        require(g.shape == w.shape, 'sys_%s has shape %s, expected %s', nm, g.shape, w.shape)
        require(gen.close(g, w, 1e-8, 1e-7), 'sys_%s is %s, true Jacobian %s at %s', nm, g, w, pt)
    require(lm.model_type == spec['type'], 'model type %s', lm.model_type)
    for k in ('x', 'u', 'tvp', 'p'):
        require(getattr(lm, k).labels() == getattr(m, k).labels(), '%s of the linear model has labels %s, original %s', k, getattr(lm, k).labels(), getattr(m, k).labels())
    x = np.array((case['x'] * 3)[:lm.n_x]).reshape(-1, 1); u = np.array((case['u'] * 3)[:lm.n_u]).reshape(-1, 1)
    args = [x, u, lm._z(0), a['tvp'], a['p']]
    require(gen.close(lm._rhs_fun(*args, lm._w(0)).full(), A @ x + B @ u, 1e-8, 1e-7), 'linear model rhs is not A x + B u')
    require(gen.close(lm._meas_fun(*args, lm._v(0)).full(), C @ x + D @ u, 1e-8, 1e-7), 'linear model measurement is not C x + D u')
    env2 = gen.env_of(spec, dict(x=list(x.ravel()), u=list(u.ravel()), z=[], tvp=pt['tvp'], p=pt['p']))
    for n, sh, tr in spec['aux']:
        require(n in lm.aux.keys(), 'expression %s lost', n)
        f = ca.Function('f', [lm[k] for k in ARGS], [lm.aux[n]])
        require(gen.close(f(*args).full().ravel(order='F'), [gen.ev(t, env2) for t in tr], 1e-8, 1e-7), 'expression %s changed', n)
    if spec['type'] == 'discrete':
        sim = do_mpc.simulator.Simulator(lm); sim.set_param(t_step=1.0)
        if lm.n_tvp:
            tt = sim.get_tvp_template(); tt.master = ca.DM(a['tvp']); sim.set_tvp_fun(lambda t: tt)
        if lm.n_p:
            pp = sim.get_p_template(); pp.master = ca.DM(a['p']); sim.set_p_fun(lambda t: pp)
        sim.setup(); sim.x0 = x
        y = sim.make_step(u) if lm.n_u else sim.make_step()
        require(gen.close(sim.x0.cat.full(), A @ x + B @ u, 1e-8, 1e-7), 'simulated deviation %s, expected %s', sim.x0.cat.full().ravel(), (A @ x + B @ u).ravel())
        require(gen.close(y, C @ (A @ x + B @ u) + D @ u, 1e-8, 1e-7), 'simulated measurement differs')
    return dict(nontrivial=bool(np.any(A) or np.any(B)), labels=[spec['type'], case['meas']])


P.test('linearize', lcase(), 500, 10000)(rlin)


@st.composite
def bcase(draw):
    """LinearModel declared through linear expressions instead of matrices."""
    spec = dict(type=draw(st.sampled_from(['discrete', 'continuous'])), sym='SX', x=draw(gen.variables(1, 3, gen.VSHAPES)), u=draw(gen.variables(0, 2, gen.VSHAPES)))
    nx = sum(gen.size(s) for _, s in spec['x']); nu = sum(gen.size(s) for _, s in spec['u'])
    M = lambda r, c: st.lists(st.lists(gen.nice(), min_size=c, max_size=c), min_size=r, max_size=r)
    ny = draw(st.integers(0, 2))
    return dict(spec=spec, A=draw(M(nx, nx)), B=draw(M(nx, nu)), ny=ny, C=draw(M(ny, nx)), D=draw(M(ny, nu)), order=draw(st.permutations([n for n, _ in spec['x']])),
                nonlin=draw(st.integers(0, 3)) == 0)


def rdecl(case):
    import do_mpc, casadi as ca
    spec = case['spec']
    lm = do_mpc.model.LinearModel(spec['type'])
    xs = [lm.set_variable('_x', n, tuple(sh)) for n, sh in spec['x']]
    us = [lm.set_variable('_u', n, tuple(sh)) for n, sh in spec['u']]
    x = ca.vertcat(*xs); u = ca.vertcat(*us) if us else ca.SX(0, 1)
    A = np.array(case['A']).reshape(x.shape[0], x.shape[0]); B = np.array(case['B']).reshape(x.shape[0], u.shape[0])
    C = np.array(case['C']).reshape(case['ny'], x.shape[0]); D = np.array(case['D']).reshape(case['ny'], u.shape[0])
    f = ca.mtimes(A, x) + (ca.mtimes(B, u) if us else 0)
    if case['ny']:
        lm.set_meas('y', ca.mtimes(C, x) + (ca.mtimes(D, u) if us else 0))
    else:
        C = np.eye(x.shape[0]); D = np.zeros((x.shape[0], u.shape[0]))
    offs = {}; o = 0
    for n, sh in spec['x']:
        offs[n] = (o, o + gen.size(sh)); o += gen.size(sh)
    if case['nonlin']:
        n = case['order'][0]
        try:
            lm.set_rhs(n, f[offs[n][0]:offs[n][1]] + ca.sin(x[0]))
        except ValueError:
            pass
        else:
            require(False, 'nonlinear right-hand side accepted by the linear model')
    for n in case['order']:
        lm.set_rhs(n, f[offs[n][0]:offs[n][1]])
    lm.setup()
    for nm, g, w in zip('ABCD', (lm.sys_A, lm.sys_B, lm.sys_C, lm.sys_D), (A, B, C, D)):
        require(g.shape == w.shape and gen.close(g, w), 'sys_%s is %s, declared %s', nm, g, w)
    return dict(nontrivial=bool(np.any(A)), labels=['declared'] + (['nonlin'] if case['nonlin'] else []))


P.test('declared', bcase(), 200, 4000)(rdecl)
if __name__ == '__main__':
    P.main()
