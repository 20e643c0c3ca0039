"""M01: set-up model == declared equations."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen

P = Prop('M01', 'Random model specification (variables with names/shapes, expression trees for rhs/alg/aux/meas, noise flags, '
         'declaration order, SX/MX, discrete/continuous) built through the public declaration calls; every model function is '
         'evaluated at 2 random points with random noise and compared with a plain-Python evaluation of the trees. Non-trivial: '
         'the equations use at least two different variable elements.',
         ['casadi evaluates elementary functions correctly'])


@st.composite
def case(draw):
    spec = draw(gen.model_spec(wide=True))
    ko = draw(st.permutations(list(gen.KINDS)))
    pts = [draw(gen.point(spec)) for _ in range(2)]
    nw = sum(gen.size(dict((n, sh) for n, sh in spec['x'])[n]) for n in spec['w'])
    return dict(spec=spec, ko=ko, long=draw(st.booleans()), ints=draw(st.booleans()), pts=pts,
                w=draw(st.lists(gen.nice(), min_size=40, max_size=40)), v=draw(st.lists(gen.nice(), min_size=40, max_size=40)))


def run(case):
    spec = case['spec']
    m, hs = gen.build(spec, tuple(case['ko']), long=case['long'], intshape=case['ints'])
    d = gen.dims(spec)
    shp = dict((n, tuple(sh)) for n, sh in spec['x'])
    wn = [n for n in spec['rhs_order'] if n in spec['w']]
    if spec['meas']:
        vn = [(n, gen.size(sh)) for n, sh, _, noisy in spec['meas'] if noisy]
        ny = sum(gen.size(sh) for _, sh, _, _ in spec['meas'])
    else:
        vn = [(n, gen.size(sh)) for n, sh in spec['x']]
        ny = d['x']
    vshp = dict((n, tuple(sh)) for n, sh, _, _ in spec['meas']) if spec['meas'] else shp
    nw = sum(gen.size(shp[n]) for n in wn); nv = sum(k for _, k in vn)
    naux = 1 + sum(gen.size(sh) for _, sh, _ in spec['aux'])
    for att, want in (('n_x', d['x']), ('n_u', d['u']), ('n_z', d['z']), ('n_p', d['p']), ('n_tvp', d['tvp']), ('n_w', nw),
                      ('n_v', nv), ('n_y', ny), ('n_aux', naux)):
        require(getattr(m, att) == want, '%s is %s, declared %s', att, getattr(m, att), want)
    for kd in gen.KINDS:
        names = [k for k in getattr(m, kd).keys() if k != 'default']
        require(names == [n for n, _ in spec[kd]], 'names of %s: %s', kd, names)
        for n, sh in spec[kd]:
            require(tuple(getattr(m, kd)[n].shape) == tuple(sh), 'shape of %s %s is %s, declared %s', kd, n, getattr(m, kd)[n].shape, sh)
    for pt in case['pts']:
        env = gen.env_of(spec, pt)
        a = [np.array(pt[k]).reshape(-1, 1) for k in ('x', 'u', 'z', 'tvp', 'p')]
        w, v = {}, {}
        wf = list(case['w'])[:nw]; vf_ = list(case['v'])[:nv]
        o = 0
        for n in wn:
            w[n] = wf[o:o + gen.size(shp[n])]; o += gen.size(shp[n])
        o = 0
        for n, k in vn:
            v[n] = vf_[o:o + k]; o += k
        # noise is addressed by its documented name
        W, V = m.w(0), m.v(0)
        for n in wn:
            W[n + '_noise'] = np.array(w[n]).reshape(shp[n], order='F')
        for n, k in vn:
            V[n + '_noise'] = np.array(v[n]).reshape(vshp[n], order='F')
        got = dict(rhs=m._rhs_fun(*a, W), alg=m._alg_fun(*a, W), aux=m._aux_expression_fun(*a), meas=m._meas_fun(*a, V))
        want = dict(rhs=gen.ref_rhs(spec, env, w), alg=gen.ref_alg(spec, env), aux=gen.ref_aux(spec, env), meas=gen.ref_meas(spec, env, v))
        for k in want:
            g = np.array(got[k].full()).ravel()
            require(gen.close(g, want[k], 1e-9, 1e-8), '%s evaluates to %s, declared equations give %s (point %s, w %s, v %s)', k, g, want[k], pt, w, v)
    us = set()
    for tr in spec['rhs'].values():
        for t in tr:
            gen.used(t, us)
    lab = [spec['type'], spec['sym']]
    lab += ['w'] if wn else []
    lab += ['z'] if d['z'] else []
    lab += ['matrix'] if any(sh[1] > 1 for k in gen.KINDS for _, sh in spec[k]) else []
    lab += ['default_meas'] if not spec['meas'] else []
    lab += ['reordered_rhs'] if spec['rhs_order'] != [n for n, _ in spec['x']] else []
    return dict(nontrivial=len(us) >= 2, labels=lab)


P.test('declared_equations', case(), 900, 30000)(run)
if __name__ == '__main__':
    P.main()
