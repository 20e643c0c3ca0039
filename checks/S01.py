"""S01: simulator step == true solution."""
import numpy as np
from lib.vf import Prop, st, require, Inconclusive
from lib import gen

P = Prop('S01', 'Random smooth models (discrete / ODE / DAE / discrete DAE; random names, shapes, expression trees, noise, SX/MX) with random '
         'state, input, parameters, time-varying parameters at the current time, process and measurement noise, sampling time, integration '
         'tool and input container type; 1-3 steps are compared with an independent integration (scipy DOP853 at 1e-10) or map evaluation '
         'and with the declared measurement equation. Non-trivial: the state changes by more than 1e-3 over the steps.',
         ['scipy DOP853 at rtol 1e-10 is exact to 1e-7 on these bounded smooth right-hand sides'])


@st.composite
def case(draw):
    spec = draw(gen.tame_spec(max_x=2, max_meas=2))
    d = gen.dims(spec)
    n = draw(st.integers(1, 3 if spec['type'] == 'discrete' else 2))
    V = lambda k: st.lists(gen.nice(), min_size=k, max_size=k)
    return dict(spec=spec, dt=draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 1.5, 1 / 3, 0.002])), t0=draw(st.sampled_from([0, 0, 1.0, 2.5, 0.37])),
                x0=draw(V(d['x'])), z0=draw(V(d['z'])), setz=draw(st.booleans()),
                us=[draw(V(d['u'])) for _ in range(n)],
                tvp=[[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['tvp'])],
                p=[[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['p'])],
                w=draw(st.lists(gen.nice(-.5, .5), min_size=30, max_size=30)), v=draw(st.lists(gen.nice(-1, 1), min_size=30, max_size=30)),
                usew=draw(st.booleans()), usev=draw(st.booleans()),
                tool=draw(st.sampled_from(['default', 'cvodes', 'idas', 'collocation'])),
                container=draw(st.sampled_from(['np', 'dm', 'struct'])), via_settings=draw(st.booleans()))


def make_sim(case, m):
    import do_mpc
    spec = case['spec']
    sim = do_mpc.simulator.Simulator(m)
    dt = case['dt'] if spec['type'] == 'continuous' else case['dt']
    if case['via_settings']:
        sim.settings.t_step = dt
    else:
        sim.set_param(t_step=dt)
    tool = case['tool']
    if spec['type'] == 'continuous':
        if tool == 'default' or (tool == 'cvodes' and spec['z']):
            tool = 'idas' if spec['z'] else 'default'
        if tool != 'default':
            if case['via_settings']:
                sim.settings.integration_tool = tool
            else:
                sim.set_param(integration_tool=tool)
    tt, pt = sim.get_tvp_template(), sim.get_p_template()

    def tvp_fun(t):
        o = 0
        vals = gen.affine(case['tvp'], t)
        for n, sh in spec['tvp']:
            tt[n] = np.array(vals[o:o + gen.size(sh)]).reshape(sh, order='F'); o += gen.size(sh)
        return tt

    def p_fun(t):
        o = 0
        vals = gen.affine(case['p'], t)
        for n, sh in spec['p']:
            pt[n] = np.array(vals[o:o + gen.size(sh)]).reshape(sh, order='F'); o += gen.size(sh)
        return pt
    if spec['tvp']:
        sim.set_tvp_fun(tvp_fun)
    if spec['p']:
        sim.set_p_fun(p_fun)
    sim.setup()
    return sim, tool


def pack(kind, struct, vals):
    import casadi as ca
    a = np.array(vals, float).reshape(-1, 1)
    return a if kind == 'np' else ca.DM(a) if kind == 'dm' else struct(a)


def run(case):
    spec = case['spec']
    m, hs = gen.build(spec)
    sim, tool = make_sim(case, m)
    shp = dict((n, tuple(sh)) for n, sh in spec['x'])
    wn = [n for n in spec['rhs_order'] if n in spec['w']]
    nw = m.n_w; nv = m.n_v
    sim.t0 = case['t0']
    sim.x0 = pack(case['container'], m._x, case['x0'])
    if case['setz'] and spec['z']:
        sim.z0 = pack(case['container'], m._z, case['z0'])
        sim.set_initial_guess()
    x = np.array(case['x0'], float); t = float(case['t0'])
    vn = [(n, gen.size(sh)) for n, sh, _, noisy in spec['meas'] if noisy] if spec['meas'] else [(n, gen.size(sh)) for n, sh in spec['x']]
    moved = 0.0
    wtol = 2e-4 if tool == 'collocation' else 2e-6
    for k, u in enumerate(case['us']):
        w = (case['w'][k:] + case['w'])[:nw] if case['usew'] else [0.0] * nw
        v = (case['v'][k:] + case['v'])[:nv] if case['usev'] else [0.0] * nv
        wd, vd, o = {}, {}, 0
        for n in wn:
            wd[n] = w[o:o + gen.size(shp[n])]; o += gen.size(shp[n])
        o = 0
        for n, q in vn:
            vd[n] = v[o:o + q]; o += q
        kw = {}
        if case['usew']:
            kw['w0'] = pack(case['container'], m._w, w)
        if case['usev']:
            kw['v0'] = pack(case['container'], m._v, v)
        tvp, p = gen.affine(case['tvp'], t), gen.affine(case['p'], t)
        y = sim.make_step(pack(case['container'], m._u, u), **kw) if m.n_u else sim.make_step(**kw)
        xn, z0, z1 = gen.ref_step(spec, x, u, tvp, p, wd, case['dt'])
        got = sim.x0.cat.full().ravel()
        require(gen.close(got, xn, wtol, wtol), 'step %d: next state %s, true solution %s (dt %s, tool %s)', k, got, xn, case['dt'], tool)
        zg = sim.sim_z_num.cat.full().ravel()
        if spec['z']:
            ztrue = z1 if spec['type'] == 'continuous' else z0
            require(gen.close(zg, ztrue, 5e-4 if tool == 'collocation' else 2e-5, 5e-4 if tool == 'collocation' else 2e-5),
                    'step %d: algebraic state %s does not satisfy its equations (%s)', k, zg, ztrue)
        env = gen.env_of(spec, dict(x=got, u=u, z=zg, tvp=tvp, p=p))
        yw = gen.ref_meas(spec, env, vd)
        require(isinstance(y, np.ndarray) and y.shape == (len(yw), 1), 'measurement has type/shape %s', getattr(y, 'shape', type(y)))
        require(gen.close(y, yw, 1e-8, 1e-8), 'step %d: measurement %s, measurement equation gives %s', k, y.ravel(), yw)
        moved = max(moved, float(np.max(np.abs(got - x))))
        t += case['dt']
        require(abs(float(np.asarray(sim.t0).ravel()[0]) - t) < 1e-9, 'time is %s after step %d, expected %s', sim.t0, k, t)
        x = got                      # continue from the simulator's own state
    lab = [spec['type'], tool if spec['type'] == 'continuous' else 'map']
    lab += ['dae'] if spec['z'] else []
    lab += ['w'] if wn and case['usew'] else []
    lab += ['tvp'] if spec['tvp'] else []
    lab += ['p'] if spec['p'] else []
    return dict(nontrivial=moved > 1e-3, labels=lab)


P.test('step', case(), 700, 12000)(run)
if __name__ == '__main__':
    P.main()
