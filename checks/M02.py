"""M02: handles and pickling."""
import copy, os, pickle
import numpy as np
from lib.vf import Prop, st, require, scratch
from lib import gen

P = Prop('M02', 'Random model specifications. handles: equations are declared with the returned symbols or with symbols read back by name, '
         'then a random expression is written after setup with original handles, name handles or element handles and must evaluate '
         '(also inside a controller objective) to the value of its tree. pickle: 1-3 pickle round trips (memory or file) of a set-up SX model; '
         'restored model must have equal labels, sizes, functions, linearization and simulator step. Non-trivial: at least two variable '
         'elements in the probed expression / in the equations.',
         ['casadi evaluates elementary functions correctly'])
ARGS = ('x', 'u', 'z', 'tvp', 'p')


@st.composite
def hcase(draw):
    spec = draw(gen.model_spec(wide=True))
    lv = gen.elements(spec, gen.KINDS)
    return dict(spec=spec, ko=draw(st.permutations(list(gen.KINDS))), by_name=draw(st.booleans()), long=draw(st.booleans()),
                probe=draw(gen.exprs(lv, 8)), mix=draw(st.lists(st.sampled_from(['orig', 'name', 'item', 'elem']), min_size=5, max_size=5)),
                pt=draw(gen.point(spec)))


def rhandles(case):
    import casadi as ca, do_mpc
    spec = case['spec']
    hf = (lambda m, hs: {k: {n: getattr(m, k)[n] for n, _ in spec[k]} for k in gen.KINDS}) if case['by_name'] else None
    m, hs = gen.build(spec, tuple(case['ko']), long=case['long'], handles=hf)
    pt = case['pt']; env = gen.env_of(spec, pt)
    a = [np.array(pt[k]).reshape(-1, 1) for k in ARGS]
    require(gen.close(m._rhs_fun(*a, m._w(0)).full(), gen.ref_rhs(spec, env), 1e-9, 1e-8), 'rhs declared with %s handles evaluates wrong',
            'named' if case['by_name'] else 'returned')
    # handles after setup
    use = {}
    for kd, how in zip(gen.KINDS, case['mix']):
        use[kd] = {}
        for n, sh in spec[kd]:
            h = hs[kd][n] if how == 'orig' else getattr(m, kd)[n] if how in ('name', 'elem') else m[kd][n]
            require(tuple(h.shape) == tuple(sh), 'handle %s of %s has shape %s, declared %s', how, n, h.shape, sh)
            use[kd][n] = h
    T = ca.SX if spec['sym'] == 'SX' else ca.MX
    sizes = dict((kd, dict((n, sh) for n, sh in spec[kd])) for kd in gen.KINDS)
    e = T(gen.sy(case['probe'], use))
    want = gen.ev(case['probe'], env)
    f = ca.Function('f', [m[k] for k in ARGS], [e])
    got = float(f(*a))
    require(gen.close(got, want, 1e-9, 1e-8), 'expression with handles %s evaluates to %s instead of %s', case['mix'], got, want)
    # single handles evaluate to their own variable; element handles as well
    for kd in gen.KINDS:
        for n, sh in spec[kd]:
            for h in (hs[kd][n], getattr(m, kd)[n]):
                g = ca.Function('g', [m[k] for k in ARGS], [h])(*a).full().ravel(order='F')
                require(gen.close(g, env[kd][n]), 'handle of %s %s reads %s, value is %s', kd, n, g, env[kd][n])
            if sh[1] == 1:
                i = sh[0] - 1
                g = float(ca.Function('g', [m[k] for k in ARGS], [getattr(m, kd)[n, i]])(*a))
                require(gen.close(g, env[kd][n][i]), 'element handle %s[%d] reads %s, value is %s', n, i, g, env[kd][n][i])
    for n, sh, tr in spec['aux']:
        g = ca.Function('g', [m[k] for k in ARGS], [m.aux[n]])(*a).full().ravel(order='F')
        require(gen.close(g, [gen.ev(t, env) for t in tr], 1e-9, 1e-8), 'aux handle %s reads %s', n, g)
    mpc = do_mpc.controller.MPC(m)
    xe = T(gen.sy(case['probe'], use))
    mpc.set_objective(mterm=T(0) * 0, lterm=xe)
    require(gen.close(float(mpc.lterm_fun(*a)), want, 1e-9, 1e-8), 'controller stage cost written with handles evaluates wrong')
    u = gen.used(case['probe'])
    return dict(nontrivial=len(u) >= 2, labels=[spec['sym'], 'by_name' if case['by_name'] else 'returned'])


P.test('handles', hcase(), 500, 12000)(rhandles)


@st.composite
def pcase(draw):
    spec = draw(gen.model_spec(syms=('SX',)))
    return dict(spec=spec, pts=[draw(gen.point(spec)) for _ in range(2)], rounds=draw(st.integers(1, 3)),
                proto=draw(st.sampled_from([2, 4, 5])), via_file=draw(st.booleans()), copy=draw(st.booleans()),
                linear=draw(st.booleans()))


def rpickle(case):
    import casadi as ca, do_mpc
    spec = case['spec']
    m, hs = gen.build(spec)
    r = m
    for _ in range(case['rounds']):
        if case['via_file']:
            with scratch() as d:
                f = os.path.join(d, 'model.pkl')
                with open(f, 'wb') as fh:
                    pickle.dump(r, fh, protocol=case['proto'])
                with open(f, 'rb') as fh:
                    r = pickle.load(fh)
        else:
            r = pickle.loads(pickle.dumps(r, protocol=case['proto']))
    if case['copy']:
        r = copy.deepcopy(r)
    require(r.model_type == m.model_type and r.symvar_type == m.symvar_type, 'model type changed')
    require(r.flags['setup'] is True, 'restored model is not set up')
    for k in ('x', 'u', 'z', 'tvp', 'p', 'y', 'w', 'v', 'aux'):
        require(getattr(r, k).labels() == getattr(m, k).labels(), 'labels of %s changed', k)
        require(list(getattr(r, k).keys()) == list(getattr(m, k).keys()), 'keys of %s changed', k)
    for k in ('n_x', 'n_u', 'n_z', 'n_p', 'n_tvp', 'n_w', 'n_v', 'n_y', 'n_aux'):
        require(getattr(r, k) == getattr(m, k), '%s changed', k)
    shp = dict((n, tuple(sh)) for n, sh in spec['x'])
    for pt in case['pts']:
        env = gen.env_of(spec, pt)
        a = [np.array(pt[k]).reshape(-1, 1) for k in ARGS]
        w = np.linspace(-.5, 1, m.n_w).reshape(-1, 1) if m.n_w else np.zeros((0, 1))
        v = np.linspace(-.5, 1, m.n_v).reshape(-1, 1) if m.n_v else np.zeros((0, 1))
        for fn, extra in (('_rhs_fun', [w]), ('_alg_fun', [w]), ('_aux_expression_fun', []), ('_meas_fun', [v]), ('A_fun', [w]),
                          ('B_fun', [w]), ('C_fun', [v]), ('D_fun', [v])):
            g0 = getattr(m, fn)(*a, *extra).full(); g1 = getattr(r, fn)(*a, *extra).full()
            require(g0.shape == g1.shape and np.allclose(g0, g1, rtol=1e-12, atol=1e-12, equal_nan=True), 'restored %s differs', fn)
        require(gen.close(r._rhs_fun(*a, r._w(0)).full(), gen.ref_rhs(spec, env), 1e-9, 1e-8), 'restored rhs differs from the declared equations')
        # the restored symbolic expressions live on the restored variables
        for k, want in (('_rhs', gen.ref_rhs(spec, env)), ('_aux_expression', gen.ref_aux(spec, env)), ('_alg', gen.ref_alg(spec, env)),
                        ('_y_expression', gen.ref_meas(spec, env))):
            f = ca.Function('f', [r[q] for q in ARGS] + [r.w, r.v], [getattr(r, k)])
            g = f(*a, r._w(0), r._v(0)).full().ravel()
            require(gen.close(g, want, 1e-9, 1e-8), 'restored expression %s evaluates to %s, want %s', k, g, want)
        for n, sh, tr in spec['aux']:
            g = ca.Function('g', [r[k] for k in ARGS], [r.aux[n]])(*a).full().ravel(order='F')
            require(gen.close(g, [gen.ev(t, env) for t in tr], 1e-9, 1e-8), 'restored aux handle %s reads %s', n, g)
        # the restored model is usable: simulator step, linear matrices
        if spec['type'] == 'discrete' and not spec['z']:
            outs = []
            for mod in (m, r):
                sim = do_mpc.simulator.Simulator(mod)
                sim.set_param(t_step=1.0)
                tt = sim.get_tvp_template(); tt.master = ca.DM(a[3]) if mod.n_tvp else tt.master
                pp = sim.get_p_template(); pp.master = ca.DM(a[4]) if mod.n_p else pp.master
                sim.set_tvp_fun(lambda t: tt); sim.set_p_fun(lambda t: pp)
                sim.setup()
                sim.x0 = a[0]
                sim.make_step(a[1] if mod.n_u else None)
                outs.append(sim.x0.cat.full().ravel())
            require(gen.close(outs[0], outs[1], 1e-12, 1e-12), 'simulator on the restored model differs')
        M0 = m.get_linear_system_matrices(*[a[i] for i in (0, 1, 2, 3, 4)])
        M1 = r.get_linear_system_matrices(*[a[i] for i in (0, 1, 2, 3, 4)])
        for A0, A1 in zip(M0, M1):
            require(np.allclose(np.array(ca.DM(A0)), np.array(ca.DM(A1)), equal_nan=True), 'linear matrices of the restored model differ')
    us = set()
    for tr in spec['rhs'].values():
        for t in tr:
            gen.used(t, us)
    return dict(nontrivial=len(us) >= 2, labels=['rounds%d' % case['rounds'], spec['type']])


P.test('pickle', pcase(), 300, 6000)(rpickle)
if __name__ == '__main__':
    P.main()
