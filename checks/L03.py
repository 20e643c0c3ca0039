"""L03: steady states and DAE-to-ODE conversion."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen

P = Prop('L03', 'steady: random discrete LinearModels with I-A regular (A often singular) or singular and random inputs; the returned state must be '
         'stationary, refusal is required iff I-A is singular; for a reachable steady state the returned input must keep it stationary. dae: random '
         'continuous SX DAE models (vector states/inputs/algebraic states, parameters, tvp, process noise in any declaration order); the '
         'right-hand side of the converted model equals (f+w, q, -gz^-1 (gx (f+w) + gu q)) with hand-written derivatives, and simulating it '
         'from consistent values follows an independent DAE integration. Non-trivial: B (steady) or algebraic equations (dae) are not zero.',
         ['scipy DOP853 at rtol 1e-10 is the true trajectory'])


@st.composite
def scase(draw):
    x = draw(gen.variables(1, 2, gen.VSHAPES)); u = draw(gen.variables(1, 2, gen.VSHAPES[:3]))
    nx = sum(gen.size(s) for _, s in x); nu = sum(gen.size(s) for _, s in u)
    M = lambda r, c: st.lists(st.lists(gen.nice(-1, 1, .25), min_size=c, max_size=c), min_size=r, max_size=r)
    kind = draw(st.sampled_from(['any', 'any', 'singA', 'integrator']))
    A = np.array(draw(M(nx, nx)))
    if kind == 'singA':
        A[draw(st.integers(0, nx - 1))] = 0
    if kind == 'integrator':
        i = draw(st.integers(0, nx - 1)); A[i] = 0; A[i, i] = 1
    return dict(x=x, u=u, A=A.tolist(), B=draw(M(nx, nu)), kind=kind, uss=draw(st.lists(gen.nice(), min_size=nu, max_size=nu)),
                flat=draw(st.booleans()))


def rsteady(case):
    import do_mpc
    A = np.array(case['A']); B = np.array(case['B']); nx, nu = B.shape
    lm = do_mpc.model.LinearModel('discrete')
    for k in ('x', 'u'):
        for n, s in case[k]:
            lm.set_variable('_' + k, n, tuple(s))
    lm.setup(A, B)
    I = np.eye(nx); u = np.array(case['uss']).reshape(-1, 1)
    sv = np.linalg.svd(I - A, compute_uv=False)
    if 0 < sv[-1] < 1e-2:
        return dict(nontrivial=False, labels=['nearly singular'])
    if sv[-1] <= 1e-12:
        try:
            r = lm.get_steady_state(uss=u)
        except Exception:
            return dict(nontrivial=True, labels=['refused'])
        require(False, 'steady state %s returned although I-A is singular (A=%s)', r, A.tolist())
    xs = lm.get_steady_state(uss=u)
    require(np.shape(xs) == (nx, 1), 'steady state has shape %s', np.shape(xs))
    require(gen.close(A @ xs + B @ u, xs, 1e-8, 1e-8), 'x=%s is not stationary for u=%s (A=%s, B=%s)', xs.ravel(), u.ravel(), A.tolist(), B.tolist())
    require(u.ravel().tolist() == case['uss'], 'the input argument was changed')
    sb = np.linalg.svd(B, compute_uv=False)
    if nu <= nx and sb[-1] > 1e-2:
        us = lm.get_steady_state(xss=xs)
        require(gen.close(us, u, 1e-6, 1e-6), 'input for steady state %s is %s, expected %s', xs.ravel(), np.ravel(us), u.ravel())
    elif nu > nx and sb[-1] > 1e-2:
        us = lm.get_steady_state(xss=xs)
        require(gen.close(A @ xs + B @ us, xs, 1e-6, 1e-6), 'input %s does not keep %s stationary', np.ravel(us), xs.ravel())
    return dict(nontrivial=bool(np.any(B)), labels=['steady', case['kind']] + (['wide'] if nu > nx else []))


P.test('steady', scase(), 400, 10000)(rsteady)


@st.composite
def dcase(draw):
    spec = draw(gen.tame_spec(types=('continuous',), syms=('SX',), shapes=gen.VSHAPES, max_x=2, max_u=2, min_u=1, min_z=1, max_aux=0, max_meas=0))
    # names must be unique over all kinds, as they share one structure after conversion
    taken, ren = set(['q']), {}
    for kd in gen.KINDS:
        for e in spec[kd]:
            n = e[0]
            while n in taken:
                n = n + '_' + kd
            taken.add(n); ren[(kd, e[0])] = n; e[0] = n

    def rn(t):
        if t[0] == 'v':
            t[2] = ren[(t[1], t[2])]
        else:
            for a in t[1:]:
                if isinstance(a, list):
                    rn(a)
    import json
    spec = json.loads(json.dumps(spec))          # no shared subtrees
    for tr in spec['rhs'].values():
        for t in tr:
            rn(t)
    for a in spec['alg']:
        a[0] = 'alg_' + ren[('z', a[0][4:])]
        for t in a[1]:
            rn(t)
    spec['rhs'] = {ren[('x', k)]: v for k, v in spec['rhs'].items()}
    spec['w'] = [ren[('x', k)] for k in spec['w']]; spec['rhs_order'] = [ren[('x', k)] for k in spec['rhs_order']]
    d = gen.dims(spec)
    V = lambda k: st.lists(gen.nice(), min_size=k, max_size=k)
    return dict(spec=spec, pt=draw(gen.point(spec)), q=draw(st.lists(gen.nice(-1, 1), min_size=d['u'], max_size=d['u'])),
                w=draw(st.lists(gen.nice(-1, 1), min_size=12, max_size=12)), dt=draw(st.sampled_from([.25, .5, 1.0])), traj=draw(st.integers(0, 2)) == 0)


def rdae(case):
    import do_mpc
    spec = case['spec']; d = gen.dims(spec); pt = case['pt']
    m, hs = gen.build(spec)
    om = do_mpc.model.dae2odeconversion(m)
    names = [(n, tuple(s)) for k in ('x', 'u', 'z') for n, s in spec[k]]
    require([k for k in om.x.keys()] == [n for n, _ in names], 'states of the ODE model %s, expected %s', om.x.keys(), [n for n, _ in names])
    for n, s in names:
        require(tuple(om.x[n].shape) == s, 'shape of %s is %s', n, om.x[n].shape)
    for k in ('p', 'tvp'):
        require(getattr(om, k).labels() == getattr(m, k).labels(), 'labels of %s changed', k)
    require(om.n_u == d['u'] and om.n_z == 0, 'ODE model has %d inputs, %d algebraic states', om.n_u, om.n_z)
    require(om.model_type == 'continuous', 'type %s', om.model_type)
    q = np.array(case['q'])
    # right-hand side at an arbitrary point, with noise
    env = gen.env_of(spec, pt)
    wd, i = {}, 0
    for n, s in spec['x']:
        if n in spec['w']:
            wd[n] = case['w'][i:i + gen.size(s)]; i += gen.size(s)
    wst = om._w(0)
    for n in wd:
        wst[n + '_noise'] = np.array(wd[n])
    f = gen.ref_rhs(spec, env, wd)
    at = [t for _, tr in spec['alg'] for t in tr]
    G = {k: gen.ref_jac(at, spec, env, k) for k in ('x', 'u', 'z')}
    lab = ['dae'] + (['noise'] if wd else []) + (['tvp'] if spec['tvp'] else [])
    if abs(np.linalg.det(G['z'])) > 5e-2:
        zd = -np.linalg.solve(G['z'], G['x'] @ f + G['u'] @ q)
        got = om._rhs_fun(np.array(pt['x'] + pt['u'] + pt['z']), q, [], pt['tvp'], pt['p'], wst).full().ravel()
        want = np.concatenate([f, q, zd])
        require(gen.close(got, want, 1e-8, 1e-8), 'derivative of the converted model %s, from the DAE %s (order x,u,z)', got, want)
    if case['traj']:
        from scipy.integrate import solve_ivp
        lab.append('trajectory')
        e = gen.env_of(spec, dict(pt, z=[0.0] * d['z'])); z0 = gen.solve_z(spec, e)

        def fun(t, y):
            e['x'] = gen.split(spec, 'x', y); e['u'] = gen.split(spec, 'u', np.array(pt['u']) + t * q)
            gen.solve_z(spec, e)
            return gen.ref_rhs(spec, e)
        s = solve_ivp(fun, (0, case['dt']), pt['x'], method='DOP853', rtol=1e-9, atol=1e-10)
        fun(case['dt'], s.y[:, -1]); ze = np.array([v for n, sh in spec['z'] for v in e['z'][n]])
        want = np.concatenate([s.y[:, -1], np.array(pt['u']) + case['dt'] * q, ze])
        sim = do_mpc.simulator.Simulator(om); sim.set_param(t_step=case['dt'], abstol=1e-9, reltol=1e-9)
        import casadi as ca
        if om.n_p:
            pp = sim.get_p_template(); pp.master = ca.DM(pt['p']); sim.set_p_fun(lambda t: pp)
        if om.n_tvp:
            tt = sim.get_tvp_template(); tt.master = ca.DM(pt['tvp']); sim.set_tvp_fun(lambda t: tt)
        sim.setup(); sim.x0 = np.array(list(pt['x']) + list(pt['u']) + list(z0)).reshape(-1, 1)
        sim.make_step(q.reshape(-1, 1))
        got = sim.x0.cat.full().ravel()
        require(gen.close(got, want, 1e-5, 1e-5), 'ODE trajectory ends at %s, DAE at %s (order x,u,z)', got, want)
    return dict(nontrivial=any(gen.used(t) - {a for a in gen.used(t) if a[0] == 'z'} for t in at), labels=lab)


P.test('dae', dcase(), 240, 6000)(rdae)
if __name__ == '__main__':
    P.main()
