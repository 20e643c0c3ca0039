"""S02: simulator histories."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen
from lib.common import pack, fill

P = Prop('S02', 'Random models (mostly discrete, some ODE) and random operation sequences (steps with inputs/noise in several container types, '
         'reset_history, assignment of x0/u0/z0/t0, replacement of the tvp/p callbacks, element-wise x0 assignment) applied to the '
         'simulator and to a list-of-rows model; state, clock, callback times and every recorded field are compared after every operation. '
         'Non-trivial: at least two steps and one other operation.',
         ['reference next state as in S01; the auxiliary row of a step is accepted with the input before or after the switch at that instant'])


@st.composite
def case(draw):
    spec = draw(gen.tame_spec(types=('discrete', 'discrete', 'discrete', 'continuous'), max_x=2, max_u=2, max_meas=2, with_z=draw(st.booleans()), max_leaves=3, wide=True))
    d = gen.dims(spec)
    V = lambda k, r=gen.nice(): st.lists(r, min_size=k, max_size=k)
    cont = st.sampled_from(['np', 'dm', 'struct', 'flat'])
    AB = lambda k: st.lists(st.tuples(gen.nice(), gen.nice(-.5, .5)).map(list), min_size=k, max_size=k)
    ops = [st.tuples(st.just('step'), V(d['u']), V(12, gen.nice(-.5, .5)), V(12, gen.nice(-.5, .5)), st.booleans(), st.booleans(), st.sampled_from(['np', 'dm', 'struct'])).map(list)]
    others = [st.just(['reset']), st.tuples(st.just('x0'), V(d['x']), cont).map(list), st.tuples(st.just('t0'), st.sampled_from([0, 1.5, 3, 10.0, 0.37]), st.sampled_from(['float', 'np', 'dm'])).map(list),
            st.tuples(st.just('tvp'), AB(d['tvp'])).map(list), st.tuples(st.just('p'), AB(d['p'])).map(list), st.tuples(st.just('u0'), V(d['u']), cont).map(list),
            st.tuples(st.just('x0e'), st.integers(0, max(d['x'] - 1, 0)), gen.nice()).map(list), st.tuples(st.just('z0'), V(d['z']), cont).map(list)]
    return dict(spec=spec, dt=draw(st.sampled_from([0.1, 0.5, 1.0, 1 / 3, 0.002])), tvp=draw(AB(d['tvp'])), p=draw(AB(d['p'])), x0=draw(V(d['x'])),
                ops=draw(gen.seq(4, 10, gen.weighted((9, ops[0]), *[(2 if i == 0 else 1, o) for i, o in enumerate(others)]))))


def run(case):
    import casadi as ca, do_mpc
    spec = case['spec']; m, hs = gen.build(spec)
    sim = do_mpc.simulator.Simulator(m)
    sim.set_param(t_step=case['dt'])
    if spec['type'] == 'continuous' and spec['z']:
        sim.set_param(integration_tool='idas')
    cur = dict(tvp=case['tvp'], p=case['p']); calls = []

    def mk(kind):
        coef = cur[kind]                       # a fresh callback for fixed coefficients
        tmpl = sim.get_tvp_template() if kind == 'tvp' else sim.get_p_template()

        def fun(t):
            calls.append((kind, float(np.asarray(t).ravel()[0])))
            return fill(tmpl, spec[kind], gen.affine(coef, t))
        return fun
    if spec['tvp']:
        sim.set_tvp_fun(mk('tvp'))
    if spec['p']:
        sim.set_p_fun(mk('p'))
    sim.setup()
    sim.x0 = pack('np', m._x, case['x0'])
    d = gen.dims(spec)
    x = np.array(case['x0'], float); t = 0.0; rows = []; first = True; prev_u = None; prev_par = None; zlast = None; rowz = []
    n_steps = n_other = 0
    wn = [n for n in spec['rhs_order'] if n in spec['w']]; shp = dict((n, tuple(sh)) for n, sh in spec['x'])
    vn = [(n, gen.size(sh)) for n, sh, _, noisy in spec['meas'] if noisy] if spec['meas'] else [(n, gen.size(sh)) for n, sh in spec['x']]

    def check():
        D = sim.data
        want_t = np.array([r['t'] for r in rows])
        require(D['_time'].shape == (len(rows), 1), '_time has shape %s for %d recorded steps', D['_time'].shape, len(rows))
        require(gen.close(D['_time'], want_t), 'recorded times %s, executed %s', D['_time'].ravel(), want_t)
        for f, key in (('_x', 'x'), ('_u', 'u'), ('_tvp', 'tvp'), ('_p', 'p'), ('_y', 'y'), ('_z', 'z')):
            n = {'_y': m.n_y}.get(f, d.get(key, 0))
            require(D[f].shape == (len(rows), n), '%s has shape %s for %d recorded steps of %d values', f, D[f].shape, len(rows), n)
            for i, r in enumerate(rows):
                if r.get(key) is not None and n:
                    require(gen.close(D[f][i], r[key], 1e-6 if f == '_z' else 1e-8, 2e-5 if f == '_z' else 1e-8), '%s row %d is %s, executed %s', f, i, D[f][i], r[key])
        require(D['_aux'].shape == (len(rows), m.n_aux), '_aux shape %s', D['_aux'].shape)
        for i, r in enumerate(rows):
            require(any(gen.close(D['_aux'][i], a, 1e-4, 1e-4) for a in r['aux']), '_aux row %d is %s, expressions give %s', i, D['_aux'][i], r['aux'])
        for n, sh in spec['x']:
            got = D['_x', n]
            o = 0
            for n2, s2 in spec['x']:
                if n2 == n:
                    break
                o += gen.size(s2)
            for i, r in enumerate(rows):
                require(gen.close(np.asarray(got)[i].ravel(), r['x'][o:o + gen.size(sh)]), 'data[_x,%s] row %d is %s, executed %s', n, i, np.asarray(got)[i], r['x'])
        require(gen.close(sim.x0.cat.full(), x), 'x0 is %s, expected %s', sim.x0.cat.full().ravel(), x)
        require(abs(float(np.asarray(sim.t0).ravel()[0]) - t) < 1e-9, 't0 is %s, expected %s', sim.t0, t)
    for op in case['ops']:
        k = op[0]
        if k == 'step':
            n_steps += 1
            u = op[1]; w = list(np.resize(op[2], m.n_w)) if op[4] else [0.0] * m.n_w; v = list(np.resize(op[3], m.n_v)) if op[5] else [0.0] * m.n_v
            wd, vd, o = {}, {}, 0
            for n in wn:
                wd[n] = w[o:o + gen.size(shp[n])]; o += gen.size(shp[n])
            o = 0
            for n, q in vn:
                vd[n] = v[o:o + q]; o += q
            kw = {}
            if op[4]:
                kw['w0'] = pack(op[6], m._w, w)
            if op[5]:
                kw['v0'] = pack(op[6], m._v, v)
            tvp, p = gen.affine(cur['tvp'], t), gen.affine(cur['p'], t)
            calls.clear()
            y = sim.make_step(pack(op[6], m._u, u), **kw) if m.n_u else sim.make_step(**kw)
            require(all(abs(tc - t) < 1e-9 for _, tc in calls), 'callbacks evaluated at %s for the step at t=%s', calls, t)
            xn, z0, z1 = gen.ref_step(spec, x, u, tvp, p, wd, case['dt'])
            got = sim.x0.cat.full().ravel()
            require(gen.close(got, xn, 2e-6, 2e-6), 'step from %s at t=%s with u=%s, tvp=%s, p=%s, w=%s reached %s, true next state %s', x, t, u, tvp, p, w, got, xn)
            zend = z1 if spec['type'] == 'continuous' else z0
            env = gen.env_of(spec, dict(x=got, u=u, z=zend, tvp=tvp, p=p))
            yw = gen.ref_meas(spec, env, vd)
            require(gen.close(y, yw, 1e-4, 1e-4), 'measurement %s, expected %s', y.ravel(), yw)
            # auxiliary row: expressions at the state of this row, input before or after the switch
            aux = []
            e1 = gen.env_of(spec, dict(x=x, u=u, z=[0.0] * d['z'], tvp=tvp, p=p)); gen.solve_z(spec, e1)
            aux.append(gen.ref_aux(spec, e1))
            if zlast is not None:
                aux.append(gen.ref_aux(spec, gen.env_of(spec, dict(x=x, u=prev_u, z=zlast, tvp=prev_par[0], p=prev_par[1]))))
                aux.append(gen.ref_aux(spec, gen.env_of(spec, dict(x=x, u=u, z=zlast, tvp=tvp, p=p))))
                aux.append(gen.ref_aux(spec, gen.env_of(spec, dict(x=lastx, u=prev_u, z=zlast, tvp=prev_par[0], p=prev_par[1]))))
            elif d['z']:
                aux.append(gen.ref_aux(spec, gen.env_of(spec, dict(x=x, u=u, z=zguess if zguess is not None else [0.0] * d['z'], tvp=tvp, p=p))))
            rows.append(dict(t=t, x=list(x), u=u, tvp=tvp, p=p, y=list(y.ravel()), z=None if zlast is None else list(zlast), aux=aux))
            prev_u, prev_par, zlast = u, (tvp, p), zend
            x = got; lastx = got; t += case['dt']
        else:
            n_other += 1
            if k == 'reset':
                sim.reset_history(); rows = []; t = 0.0
            elif k == 'x0':
                sim.x0 = pack(op[2], m._x, op[1]); x = np.array(op[1], float)
            elif k == 'x0e':
                lab = [(n, i) for n, sh in spec['x'] for i in range(gen.size(sh))][op[1]]
                sh = shp[lab[0]]
                sim.x0[(lab[0], lab[1]) if sh[1] == 1 else (lab[0], lab[1] % sh[0], lab[1] // sh[0])] = op[2]
                x = x.copy(); x[op[1]] = op[2]
            elif k == 't0':
                sim.t0 = op[1] if op[2] == 'float' else np.array([op[1]]) if op[2] == 'np' else ca.DM(op[1]); t = float(op[1])
            elif k == 'u0':
                sim.u0 = pack(op[2], m._u, op[1])
            elif k == 'z0':
                sim.z0 = pack(op[2], m._z, op[1])
            elif k in ('tvp', 'p'):
                cur[k] = op[1]
                if spec[k]:
                    (sim.set_tvp_fun if k == 'tvp' else sim.set_p_fun)(mk(k))
        check()
    return dict(nontrivial=n_steps >= 2 and n_other >= 1, labels=[spec['type']] + sorted({o[0] for o in case['ops']}) + (['reset_then_step'] if any(a[0] == 'reset' and any(b[0] == 'step' for b in case['ops'][i:]) for i, a in enumerate(case['ops'])) else []))


zguess = None
P.test('history', case(), 700, 15000)(run)
if __name__ == '__main__':
    P.main()
