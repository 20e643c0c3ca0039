"""S03: initialization of algebraic variables."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen
from lib.common import fill, pack

P = Prop('S03', 'Test "consistent": random DAE models (discrete and continuous, SX and MX, vector-valued algebraic states, parameters and time-varying parameters '
         'which depend on the time) with one solution of the algebraic equations; a history of assignments of x0, u0, z0, t0, simulation steps and calls of '
         'init_algebraic_variables. After every call the returned values, z0 and the values used by the next step must solve the declared equations '
         '(own root search) for the current state, input and time, and nothing else may have changed. Test "branch": every algebraic state has two solutions '
         '+-sqrt(1+e^2): the solution close to z0 must be found and the following step must stay on this branch. Non-trivial: the guess violates the equations by '
         'more than 1e-2 and (branch) both signs occur or one is negative.', ['the generated equations are triangular and monotone or have known roots'])


@st.composite
def case(draw, branch):
    spec = draw(gen.tame_spec(max_x=2, max_meas=1, max_aux=1))
    if not spec['z']:
        spec['z'] = [['zz', draw(st.sampled_from([[1, 1], [2, 1]]))]]
        spec['alg'] = [['alg_zz', [['-', ['v', 'z', 'zz', k], ['tanh', ['v', 'x', spec['x'][0][0], 0]]] for k in range(gen.size(spec['z'][0][1]))]]]
    if branch:
        base = gen.elements(spec, ('x', 'u', 'tvp', 'p'))
        alg = []
        for n, sh in spec['z']:
            rows = []
            for k in range(gen.size(sh)):
                rows.append(['-', ['sq', ['v', 'z', n, k]], ['+', ['c', 1.0], ['sq', ['tanh', draw(gen.exprs(base, 3))]]]])
            alg.append(['alg_' + n, rows])
        spec['alg'] = alg
    d = gen.dims(spec)
    V = lambda k: st.lists(gen.nice(), min_size=k, max_size=k)
    Z = st.lists(st.one_of(gen.nice(1.0, 1.5), gen.nice(-1.5, -1.0)), min_size=d['z'], max_size=d['z']) if branch else V(d['z'])
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(['x0', 'u0', 't0', 'z0', 'z0', 'step', 'init', 'init']))
        val = dict(x0=V(d['x']), u0=V(d['u']), z0=Z, t0=st.sampled_from([0.0, 1.0, 2.5]), init=st.none(), step=st.none())[k]
        ops.append([k, draw(val), draw(st.sampled_from(['np', 'dm', 'struct']))])
    ops = [['z0', draw(Z), 'np']] + ops + [['init', None, 'np']] + ([['step', None, 'np']] if draw(st.booleans()) else [])
    return dict(spec=spec, dt=draw(st.sampled_from([0.1, 0.5, 1.0, 1 / 3])), x0=draw(V(d['x'])), u0=draw(V(d['u'])), ops=ops, branch=branch,
                setup=draw(st.booleans()),
                tvp=[[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['tvp'])],
                p=[[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['p'])])


def run(case):
    import do_mpc
    spec = case['spec']
    m, _ = gen.build(spec)
    sim = do_mpc.simulator.Simulator(m)
    sim.set_param(t_step=case['dt'])
    if spec['type'] == 'continuous':
        sim.set_param(integration_tool='idas')
    if spec['tvp']:
        sim.set_tvp_fun(lambda t: fill(sim.get_tvp_template(), spec['tvp'], gen.affine(case['tvp'], t)))
    if spec['p']:
        sim.set_p_fun(lambda t: fill(sim.get_p_template(), spec['p'], gen.affine(case['p'], t)))
    sim.setup()
    sim.x0 = np.array(case['x0'], float)
    if m.n_u:
        sim.u0 = np.array(case['u0'], float)
    t, u = 0.0, list(case['u0'])
    guess, sol, nontriv, labels = None, None, False, [spec['type'], spec.get('sym', '')]

    def env():
        return gen.env_of(spec, dict(x=sim.x0.cat.full().ravel(), u=u, z=[0.0] * m.n_z, tvp=gen.affine(case['tvp'], t), p=gen.affine(case['p'], t)))

    for i, (op, val, kind) in enumerate(case['ops']):
        if op in ('x0', 'u0', 'z0'):
            if val:
                setattr(sim, op, pack(kind, getattr(m, '_' + op[0]), val))
            if op == 'u0':
                u = list(val)
            if op == 'z0':
                guess = np.array(val, float)
            sol = None
        elif op == 't0':
            sim.t0 = val; t = float(val); sol = None
        elif op == 'init':
            before = (sim.x0.cat.full().copy(), sim.u0.cat.full().copy(), float(np.asarray(sim.t0).ravel()[0]), sim.data['_time'].shape[0])
            g = sim.z0.cat.full().ravel().copy()
            out = sim.init_algebraic_variables()
            e = env()
            if case['branch']:
                e['z'] = gen.split(spec, 'z', g)
                ref = np.sqrt(np.maximum(g ** 2 - np.asarray(gen.ref_alg(spec, e), float), 0)) * np.sign(g)
            else:
                ref = gen.solve_z(spec, e)
            if case['branch'] and (np.abs(g) < 0.9).any():
                return dict(nontrivial=False, labels=['small'])
            require(isinstance(out, np.ndarray) and out.shape == (m.n_z, 1), 'operation %d: init_algebraic_variables returns %s of shape %s', i, type(out), getattr(out, 'shape', None))
            for nm, v in (('returned', out), ('z0', sim.z0.cat.full()), ('initial guess of the next step', sim.sim_z_num.cat.full())):
                require(gen.close(v.ravel(), ref, 1e-5, 1e-5), 'operation %d: %s %s does not solve the algebraic equations next to the guess %s (solution %s) at time %s',
                        i, nm, v.ravel(), g, ref, t)
            after = (sim.x0.cat.full(), sim.u0.cat.full(), float(np.asarray(sim.t0).ravel()[0]), sim.data['_time'].shape[0])
            require(all(np.array_equal(a, b) for a, b in zip(before, after)), 'operation %d: state, input, time or record changed: %s, %s', i, before, after)
            sol = ref
            nontriv = nontriv or (float(np.max(np.abs(ref - g))) > 1e-2 and (not case['branch'] or (g < 0).any()))
        else:
            if sol is None:            # a step only follows a consistent initialization
                continue
            y = sim.make_step(np.array(u, float).reshape(-1, 1)) if m.n_u else sim.make_step()
            z1 = sim.sim_z_num.cat.full().ravel()
            require(np.all(np.isfinite(z1)), 'operation %d: algebraic states %s after the step', i, z1)
            require(gen.close(sim.data['_z'][-1], sol, 1e-5, 1e-5) or spec['type'] == 'discrete' or gen.close(sim.data['_z'][-1], z1, 1e-6, 1e-6),
                    'operation %d: recorded algebraic states %s, initialized to %s', i, sim.data['_z'][-1], sol)
            tt = t + case['dt']
            if spec['type'] == 'continuous':
                e = env(); e['z'] = gen.split(spec, 'z', z1)
                res = np.asarray(gen.ref_alg(spec, e), float)
                require(np.max(np.abs(res)) < 1e-4, 'operation %d: residual %s of the algebraic equations after the step', i, res)
            if case['branch']:
                require((np.sign(z1) == np.sign(sol)).all(), 'operation %d: the step left the branch: %s, initialized to %s', i, z1, sol)
            t = tt; sol = None; labels.append('step')
    if any(gen.size(sh) > 1 for _, sh in spec['z']):
        labels.append('vector')
    if len(spec['z']) > 1:
        labels.append('several')
    return dict(nontrivial=nontriv, labels=[l for l in labels if l])


P.test('consistent', case(False), 500, 8000)(run)
P.test('branch', case(True), 350, 6000)(run)

if __name__ == '__main__':
    P.main()
