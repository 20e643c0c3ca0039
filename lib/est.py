"""Reference estimation problem and the generator of MHE cases (companion of ocp.py; same KKT test, no call of do_mpc except make_mhe)."""
import math
import copy
import numpy as np
from .vf import st, require, Inconclusive, harness
from . import gen, ocp
from .gen import ev, sy, size
from .ocp import RefOCP, SymModel, coll_points, lagrange


def wnames(spec):
    shp = dict((n, sh) for n, sh in spec['x'])
    return [[n, shp[n]] for n in spec['rhs_order'] if n in spec['w']]


def vnames(spec):
    if not spec['meas']:
        return [[n, sh] for n, sh in spec['x']]
    return [[n, sh] for n, sh, _, noisy in spec['meas'] if noisy]


def nsum(ent):
    return sum(size(sh) for _, sh in ent)


def p_split(spec, est):
    """index lists of the estimated and the set parameters in the flat parameter vector (declaration order)"""
    e, s, o = [], [], 0
    for n, sh in spec['p']:
        (e if n in est else s).extend(range(o, o + size(sh))); o += size(sh)
    return e, s


class RefMHE(RefOCP):
    """Documented estimation problem; parameters: x_prev, p_prev (estimated), p_set, tvp (N), y (N)."""

    def __init__(self, cfg):
        import casadi as ca
        self.cfg, spec = cfg, cfg['spec']
        self.N = N = cfg['N']
        self.m = M = SymModel(spec); d = M.d
        self.cont = spec['type'] == 'continuous'
        self.deg, self.ni = (cfg['deg'], cfg['ni']) if self.cont else (0, 0)
        self.nc = (self.deg + 1) * self.ni
        self.W, self.V = wnames(spec), vnames(spec)
        nw, nv = nsum(self.W), nsum(self.V)
        self.ie, self.is_ = p_split(spec, cfg['est'])
        w, self.index, off = [], {}, [0]

        def var(key, n):
            s = ca.SX.sym('_'.join(str(k) for k in key), n)
            w.append(s); self.index[key] = (off[0], n); off[0] += n
            return s
        X = [var(('x', k), d['x']) for k in range(N + 1)]
        U = [var(('u', k), d['u']) for k in range(N)]
        WW = [var(('w', k), nw) for k in range(N)]
        VV = [var(('v', k), nv) for k in range(N)]
        Z = {(k, i): var(('z', k, i), d['z']) for k in range(N) for i in range(max(self.nc, 1))}
        XC = {(k, i): var(('xc', k, i), d['x']) for k in range(N) for i in range(self.nc)}
        soft = [c for c in cfg['nlc'] if c['soft']]
        self.neps = sum(len(c['expr']) for c in soft)
        E = [var(('e', k), self.neps) for k in range(1 if cfg['single_slack'] else N)]
        PE = var(('pe',), len(self.ie))
        Pxp, Ppp, Pps = ca.SX.sym('xp', d['x']), ca.SX.sym('pp', len(self.ie)), ca.SX.sym('ps', len(self.is_))
        Pt = [ca.SX.sym('tv%d' % k, d['tvp']) for k in range(N)]
        ny = len(gen.meas_trees(spec))
        Py = [ca.SX.sym('y%d' % k, ny) for k in range(N)]
        p = [None] * d['p']
        for i, j in enumerate(self.ie):
            p[j] = PE[i]
        for i, j in enumerate(self.is_):
            p[j] = Pps[i]
        p = ca.vertcat(*p) if p else ca.SX(0, 1)

        def named(ent, v):
            out, o = {}, 0
            for n, sh in ent:
                out[n] = [v[o + i] for i in range(size(sh))]; o += size(sh)
            return out
        eq, H = [], []
        self.hpts = []
        peent = [[n, sh] for n, sh in spec['p'] if n in cfg['est']]
        h0 = M.hs(X[0], U[0], Z[0, 0], Pt[0], p)
        h0['xp'] = named(spec['x'], Pxp); h0['pp'] = named(peent, Ppp)
        f = sy(cfg['arrival'], h0) + ca.SX(0)
        if self.cont:
            tau = np.concatenate([[0.0], coll_points(cfg['coll'], self.deg)]); C, D = lagrange(tau)
            h = cfg['dt'] / self.ni
        # noise enters the right-hand side of the named states
        pos, o = {}, 0
        for n, sh in spec['x']:
            pos[n] = o; o += size(sh)
        G = np.zeros((d['x'], nw)); o = 0
        for n, sh in self.W:
            for i in range(size(sh)):
                G[pos[n] + i, o] = 1; o += 1
        R = np.zeros((ny, nv)); o = r = 0
        for n, sh, noisy in ([(n, sh, True) for n, sh in spec['x']] if not spec['meas'] else [(n, sh, q) for n, sh, _, q in spec['meas']]):
            for i in range(size(sh)):
                if noisy:
                    R[r, o] = 1; o += 1
                r += 1
        for k in range(N):
            u, tv, nz = U[k], Pt[k], ca.mtimes(ca.DM(G), WW[k]) if nw else 0
            pts = [(X[k], Z[k, 0])]
            if self.cont:
                xs = {(0, 0): X[k]}
                seq = [(e, j) for e in range(self.ni) for j in range(self.deg + 1)]
                for i, ej in enumerate(seq[1:]):
                    xs[ej] = XC[k, i]
                pts = [(xs[ej], Z[k, i]) for i, ej in enumerate(seq)]
                eq.append(XC[k, self.nc - 1] - X[k + 1])
                for e in range(self.ni):
                    for j in range(self.deg + 1):
                        hz = M.hs(xs[e, j], u, Z[k, e * (self.deg + 1) + j], tv, p)
                        eq.append(M.alg(hz))
                        if j:
                            eq.append(sum(C[q, j] * xs[e, q] for q in range(self.deg + 1)) - h * (M.rhs(hz) + nz))
                    end = X[k + 1] if e == self.ni - 1 else xs[e + 1, 0]
                    eq.append(end - sum(D[q] * xs[e, q] for q in range(self.deg + 1)))
            else:
                hz = M.hs(X[k], u, Z[k, 0], tv, p)
                eq.append(M.alg(hz)); eq.append(X[k + 1] - M.rhs(hz) - nz)
            hy = M.hs(X[k + 1], u, Z[k, max(self.nc, 1) - 1], tv, p)
            yk = M.vec(gen.meas_trees(spec), hy)
            eq.append(yk + (ca.mtimes(ca.DM(R), VV[k]) if nv else 0) - Py[k])
            hs_ = M.hs(X[k], u, Z[k, 0], tv, p)
            hs_['w'] = named(self.W, WW[k]); hs_['v'] = named(self.V, VV[k])
            f += sy(cfg['stage'], hs_)
            e = E[0 if cfg['single_slack'] else k] if self.neps else None
            o = 0
            for con in soft:
                f += con['pen'] * sum(e[o + i] for i in range(len(con['expr']))); o += len(con['expr'])
            for xx, zz in (pts if cfg['nlc_colloc'] and self.cont else pts[:1]):
                o = 0
                hh = M.hs(xx, u, zz, tv, p)
                for q, con in enumerate(cfg['nlc']):
                    for t in con['expr']:
                        g = sy(t, hh)
                        if con['soft']:
                            g = g - e[o]; o += 1
                        H.append(g); self.hpts.append(q)
        self.w = ca.vertcat(*w); self.nw = off[0]
        self.par = [Pxp, Ppp, Pps, ca.vertcat(*Pt), ca.vertcat(*Py)]
        self.f = f; self.eq = ca.vertcat(*eq); self.H = ca.vertcat(*[ca.SX(g) for g in H]) if H else ca.SX(0, 1)
        self.fun = ca.Function('ref', [self.w] + self.par,
                               [self.f, self.eq, self.H, ca.gradient(self.f, self.w), ca.jacobian(self.eq, self.w), ca.jacobian(self.H, self.w)])
        self.short = ca.Function('refs', [self.w] + self.par, [self.f, self.eq, self.H])

    def bounds(self, B):
        lb, ub = np.full(self.nw, -np.inf), np.full(self.nw, np.inf)
        cc = self.cfg['cons_colloc']
        eps_ub = [c['maxv'] for c in self.cfg['nlc'] if c['soft'] for _ in c['expr']]
        for key, (o, n) in self.index.items():
            t = key[0]
            b = None
            if t == 'x' or (t == 'xc' and cc):
                b = B['x']
            elif t == 'z' and (cc or key[2] == 0):
                b = B['z']
            elif t == 'u':
                b = B['u']
            elif t == 'pe':
                b = B['pe']
            elif t == 'e':
                b = ([0.0] * self.neps, eps_ub)
            if b is not None:
                lb[o:o + n], ub[o:o + n] = b[0], b[1]
        return lb, ub

    def params(self, xp, pp, ps, tvps, ys):
        cat = lambda l: np.array([v for q in l for v in q], float)
        return [np.array(xp, float), np.array(pp, float), np.array(ps, float), cat(tvps), cat(ys)]

    @staticmethod
    def _slot(key):
        t = key[0]
        return ('_x', key[1], -1) if t == 'x' else ('_x', key[1] + 1, key[2]) if t == 'xc' else ('_z', key[1], key[2]) if t == 'z' else \
            ('_u', key[1]) if t == 'u' else ('_w', key[1]) if t == 'w' else ('_v', key[1]) if t == 'v' else ('_eps', key[1]) if t == 'e' else ('_p_est',)

    def read(self, S):
        w = np.zeros(self.nw)
        for key, (o, n) in self.index.items():
            if n:
                v = S[self._slot(key)]
                w[o:o + n] = v.cat.full().ravel() if hasattr(v, 'cat') else np.asarray(v, float).ravel(order='F')
        return w

    def write(self, S, w, scal):
        for key, (o, n) in self.index.items():
            if n:
                sc = scal.get({'xc': 'x'}.get(key[0], key[0]), 1.0)
                S[self._slot(key)] = w[o:o + n] / sc

    def rollout(self, x0, us, tvps, p, ys=None):
        """True trajectory of the discretised model (w = 0) from x0; v from the data if given."""
        c = dict(self.cfg, nlc=[], rexpr=None, rterm=[0.0] * self.m.d['u'], lterm=['c', 0.0], mterm=['c', 0.0])
        key = id(self)
        if not hasattr(self, '_roll'):
            self._roll = RefOCP(c, 1)
        r = self._roll
        wr = r.rollout(x0, us, list(tvps) + [tvps[-1]], [p])
        w = np.zeros(self.nw)
        for k, (o, n) in self.index.items():
            if not n:
                continue
            if k[0] in ('x', 'u'):
                w[o:o + n] = r.get(wr, k[0], k[1], 0)
            elif k[0] in ('z', 'xc'):
                w[o:o + n] = r.get(wr, k[0], k[1], 0, k[2])
            elif k[0] == 'pe':
                w[o:o + n] = np.array(p, float)[self.ie]
        if ys is not None:
            self.residual_noise(w, ys, tvps, p)
        return w

    def measure(self, w, k, tvp, p):
        env = gen.env_of(self.cfg['spec'], dict(x=self.get(w, 'x', k + 1), u=self.get(w, 'u', k), z=self.get(w, 'z', k, max(self.nc, 1) - 1), tvp=tvp, p=p))
        return gen.ref_meas(self.cfg['spec'], env)

    def residual_noise(self, w, ys, tvps, p):
        spec = self.cfg['spec']
        noisy = [q for n, sh, q in ([(n, sh, True) for n, sh in spec['x']] if not spec['meas'] else [(n, sh, q) for n, sh, _, q in spec['meas']]) for _ in range(size(sh))]
        for k in range(self.N):
            r = np.array(ys[k]) - self.measure(w, k, tvps[k], p)
            o, n = self.index['v', k]
            w[o:o + n] = r[np.array(noisy, bool)] if len(noisy) else []


# ---------------------------------------------------------------------------------------------------------- generation
@st.composite
def weight(draw, n, kind):
    """Positive definite matrix (list of rows); diagonal or full."""
    if n == 0:
        return []
    dg = [draw(st.sampled_from(kind)) for _ in range(n)]
    A = np.diag(np.sqrt(dg))
    if n > 1 and draw(st.booleans()):
        L = np.eye(n)
        for i in range(1, n):
            L[i, draw(st.integers(0, i - 1))] = draw(st.sampled_from([0.5, -0.5, 0.25]))
        A = A @ L
    P = A.T @ A
    return [[float(v) for v in r] for r in P]


def quadform(P, ent, kind, other=None, fac=None):
    """Tree of d^T P d with d = element (minus element of the other struct); fac: tree multiplying everything."""
    el = [[kind, n, k] for n, sh in ent for k in range(size(sh))]
    d = [['v'] + e for e in el]
    if other:
        d = [['-', a, ['v', other] + e[1:]] for a, e in zip(d, el)]
    t = ['c', 0.0]
    for i in range(len(d)):
        for j in range(len(d)):
            if P[i][j]:
                t = ['+', t, ['*', ['c', P[i][j]], ['*', d[i], d[j]]]]
    return t if fac is None else ['*', fac, t]


@st.composite
def mhe_cfg(draw, types=('discrete', 'continuous'), syms=('SX', 'MX'), max_N=4, scaling=True, scales=(1.0, 1.0, 0.5, 4.0, 10.0), constraints=True, tight=False, linear=False,
            coll=True, noise=True, with_z=True, max_p=2, min_p=0, max_x=2, max_u=2, negligible=False, custom=True, shapes=gen.VSHAPES, all_meas=False, min_u=0, full_y=False, max_tvp=1, min_tvp=0, estimate=True):
    spec = draw(gen.tame_spec(types=types, syms=syms, with_z=with_z, max_x=max_x, max_u=max_u, max_p=max_p, max_tvp=max_tvp, min_tvp=min_tvp, min_p=min_p, max_aux=1, max_meas=2, min_u=min_u,
                              shapes=shapes, noise=noise, default_meas=False))
    if draw(st.integers(0, 3)) and spec['p']:      # matrix-valued parameters
        pass
    if linear:
        ocp.linearise(draw, spec)
    d = gen.dims(spec)
    el = lambda kd: gen.elements(spec, (kd,))
    # measurements: noisy functions of the states (and more), inputs mostly measured
    for mm in spec['meas']:
        mm[2] = [['+', ['v'] + draw(st.sampled_from(el('x'))), ['*', ['c', 0.5], ['tanh', t]]] if not linear else
                 ['+', ['v'] + draw(st.sampled_from(el('x'))), ['*', ['c', draw(st.sampled_from([0.0, 0.5]))], ['v'] + draw(st.sampled_from(gen.elements(spec, gen.KINDS)))]] for t in mm[2]]
        mm[3] = True
    if full_y:
        spec['meas'] = [['my_' + n, sh, [['v', 'x', n, k] for k in range(size(sh))], True] for n, sh in spec['x']]
    for n, sh in spec['u']:
        if all_meas or draw(st.integers(0, 4)):
            spec['meas'].insert(draw(st.integers(0, len(spec['meas']))), ['um_' + n, sh, [['v', 'u', n, k] for k in range(size(sh))], draw(st.integers(0, 2)) == 0])
    N = draw(st.sampled_from([n for n in (2, 3, 1, 4, 2, 3) if n <= max_N]))
    cfg = dict(spec=spec, N=N, dt=draw(st.sampled_from(gen.STEPS)), coll=draw(st.sampled_from(['radau', 'radau', 'legendre'])) if coll else 'radau',
               deg=draw(st.sampled_from([2, 2, 1, 3])) if coll else 2, ni=draw(st.sampled_from([1, 1, 2])) if coll else 1)
    cfg['est'] = [n for n, _ in spec['p'] if estimate and draw(st.integers(0, 2))]
    V = lambda k, r=gen.nice(): draw(st.lists(r, min_size=k, max_size=k))
    pe = [[n, sh] for n, sh in spec['p'] if n in cfg['est']]
    W, VN = wnames(spec), vnames(spec)
    small = [1e-6] if negligible else [0.1, 1.0, 4.0]
    Px, Pp = draw(weight(d['x'], small)), draw(weight(nsum(pe), small))
    Pv, Pw = draw(weight(nsum(VN), [1.0, 4.0, 20.0, 0.25])), draw(weight(nsum(W), [1.0, 5.0, 20.0]))
    cfg.update(Px=Px, Pp=Pp, Pv=Pv, Pw=Pw)
    # weights depending on parameters: factor 1 + e^2 on one of the quadratic forms of the stage
    fac = {}
    dep = el('tvp') + el('p')
    for q in ('v', 'w'):
        fac[q] = None
        if dep and not linear and draw(st.integers(0, 1)):
            e = draw(st.sampled_from(dep))
            if e[0] == 'tvp' or e[1] not in cfg['est'] or custom:
                fac[q] = ['+', ['c', 0.5], ['sq', ['v'] + e]]
    cfg['fac'] = fac
    st_ = [['c', 0.0]]
    if VN:
        st_.append(quadform(Pv, VN, 'v', None, fac['v']))
    if W:
        st_.append(quadform(Pw, W, 'w', None, fac['w']))
    ar = [quadform(Px, spec['x'], 'x', 'xp')]
    if pe:
        ar.append(quadform(Pp, pe, 'p', 'pp'))
    cfg['custom'] = bool(custom and draw(st.integers(0, 2)) == 0)
    if cfg['custom'] and not linear:
        lv = [['v', n, k] for n, sh in VN for k in range(size(sh))] + [['w', n, k] for n, sh in W for k in range(size(sh))] + dep
        if lv and draw(st.booleans()):
            st_.append(['*', ['c', 0.3], ['tanh', draw(gen.exprs(lv, 4))]])
        lv = el('x') + [['xp'] + e[1:] for e in el('x')] + el('p') + [['pp', n, k] for n, sh in pe for k in range(size(sh))]
        if draw(st.booleans()):
            ar.append(['*', ['c', 0.2], ['tanh', draw(gen.exprs(lv, 4))]])
    cfg['stage'], cfg['arrival'] = ocp.add(*st_), ocp.add(*ar)
    B = {}
    n_ = dict(x=d['x'], u=d['u'], z=d['z'], pe=nsum(pe))
    for kd in ('x', 'u', 'z', 'pe'):
        pr = ([0.01, 0.05, 0.2, None] if tight else [None, 0.05, 0.3, None, 0.5]) if constraints else [None]
        B[kd] = [[draw(st.sampled_from(pr)) for _ in range(n_[kd])] for _ in range(2)]
    # inputs that nobody measures stay bounded
    if not negligible:
        meas_u = {n[3:] for n, _, _, _ in spec['meas'] if n.startswith('um_')}
        o = 0
        for n, sh in spec['u']:
            for i in range(size(sh)):
                if n not in meas_u:
                    for s in (0, 1):
                        B['u'][s][o] = 0.5 if B['u'][s][o] is None else B['u'][s][o]
                o += 1
    cfg['B'] = B
    cfg['nlc'] = []
    if constraints:
        for i in range(draw(st.sampled_from([0, 1, 2, 1]))):
            ex = []
            for _ in range(draw(st.sampled_from([1, 1, 2]))):
                t = ['*', ['c', draw(st.sampled_from([-1.0, 1.0]))], ['v'] + draw(st.sampled_from(el('x') + el('z') + el('u')))]
                if not linear and draw(st.booleans()):
                    t = ['+', t, ['*', ['c', 0.5], ['tanh', draw(gen.exprs(gen.elements(spec, gen.KINDS), 3))]]]
                ex.append(t)
            soft = draw(st.booleans())
            cfg['nlc'].append(dict(expr=ex, soft=soft, margin=draw(st.sampled_from([0.05, 0.2])) if not soft else draw(st.sampled_from([-0.3, -0.1, 0.1])),
                                   pen=draw(st.sampled_from([0.5, 1, 10.0, 0.02])), maxv=draw(st.sampled_from([None, None, 0.5, 1.0, 'tight'])) if soft else None, arr=draw(st.booleans())))
    cfg['single_slack'] = bool(constraints and draw(st.integers(0, 3)) == 0)
    cfg['nlc_colloc'] = bool(constraints and draw(st.integers(0, 2)) == 0)
    cfg['cons_colloc'] = not (constraints and draw(st.integers(0, 2)) == 0)
    sv = list(scales) if scaling else [1.0]
    cfg['scaling'] = {kd: [draw(st.sampled_from(sv)) for _ in range(n_[kd])] for kd in ('x', 'u', 'z', 'pe')}
    # numbers: the truth, the data, the prior
    cfg['x_true'] = V(d['x']); cfg['p_true'] = V(d['p'])
    cfg['us'] = [V(d['u'], gen.nice(-1, 1)) for _ in range(max_N + 6)]
    cfg['v'] = V(40, gen.nice(-.75, .75))
    cfg['xp'] = V(d['x'], gen.nice(-.5, .5)); cfg['pp'] = V(d['p'], gen.nice(-.5, .5))       # deviation of the prior from the truth
    cfg['tvp'] = [[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['tvp'])]
    cfg['pdrift'] = [draw(gen.nice(-.5, .5)) for _ in range(d['p'])]
    cfg['t0'] = draw(st.sampled_from([0, 0, 1.0, 2.5, 0.37]))
    cfg['handle'] = draw(st.booleans())
    return cfg


def tvp_win(cfg, t):
    """values of the N intervals of the window ending one step after t"""
    return [gen.affine(cfg['tvp'], t + (k - cfg['N'] + 1) * cfg['dt']) for k in range(cfg['N'])]


def p_vals(cfg, t, drift=True):
    """full parameter vector at time t: estimated ones constant, set ones may drift"""
    e, s = p_split(cfg['spec'], cfg['est'])
    p = np.array(cfg['p_true'], float)
    if drift:
        for j in s:
            p[j] += cfg['pdrift'][j] * t
    return p


@harness
def prepare(cfg, noise=True, t=None):
    """Reference, bounds, the window of data of one estimation at time t, feasible vector."""
    t = cfg['t0'] if t is None else t
    ref0 = RefMHE(dict(cfg, nlc=[]))
    tv = tvp_win(cfg, t); p = p_vals(cfg, t)
    w = ref0.rollout(cfg['x_true'], cfg['us'][:cfg['N']], tv, p)
    if not np.all(np.isfinite(w)) or np.abs(w).max() > 50:
        raise Inconclusive('trajectory not bounded')
    ys = []
    o = 0
    spec = cfg['spec']
    for k in range(cfg['N']):
        y = ref0.measure(w, k, tv[k], p)
        if noise:
            i = 0
            for n, sh, q in ([(n, sh, True) for n, sh in spec['x']] if not spec['meas'] else [(n, sh, q) for n, sh, _, q in spec['meas']]):
                for _ in range(size(sh)):
                    if q:
                        y[i] += cfg['v'][o % len(cfg['v'])]; o += 1
                    i += 1
        ys.append([float(v) for v in y])
    ref0.residual_noise(w, ys, tv, p)
    B = place(cfg, ref0, w)
    nlc_place(cfg, ref0, w, tv, p)
    ref = RefMHE(cfg) if cfg['nlc'] else ref0
    w2 = np.zeros(ref.nw)
    for key, (o, n) in ref.index.items():
        if key[0] == 'e':
            w2[o:o + n] = 0.31
        elif n:
            w2[o:o + n] = ref0.get(w, *key)
    return ref, B, w2, ys


def place(cfg, ref, w):
    B = {}
    for kd in ('x', 'u', 'z', 'pe'):
        n = len(cfg['scaling'][kd])
        keys = [k for k in ref.index if (k[0] in ('x', 'xc') if kd == 'x' else k[0] == kd)]
        vals = np.array([w[ref.index[k][0]:ref.index[k][0] + n] for k in keys]).reshape(len(keys), n)
        lo, hi = (vals.min(0), vals.max(0)) if n else ([], [])
        B[kd] = ([(-np.inf if m is None else float(l - m)) for m, l in zip(cfg['B'][kd][0], lo)],
                 [(np.inf if m is None else float(h + m)) for m, h in zip(cfg['B'][kd][1], hi)])
    return B


def nlc_place(cfg, ref, w, tv, p):
    vals = [[] for _ in cfg['nlc']]
    for k in range(ref.N):
        pts = [(ref.get(w, 'x', k), ref.get(w, 'z', k, 0))] + [(ref.get(w, 'xc', k, i - 1), ref.get(w, 'z', k, i)) for i in range(1, ref.nc)]
        for x, z in pts:
            env = gen.env_of(cfg['spec'], dict(x=x, u=ref.get(w, 'u', k), z=z, tvp=tv[k], p=p))
            for q, con in enumerate(cfg['nlc']):
                vals[q].append([ev(t, env) for t in con['expr']])
    for con, v in zip(cfg['nlc'], vals):
        con['ub'] = [float(b + con['margin']) for b in np.max(np.array(v), axis=0)]
        if not con['arr']:
            con['ub'] = [max(con['ub'])] * len(con['ub'])
        if con['maxv'] == 'tight':
            con['maxv'] = max(0.0, -con['margin']) + 0.02
        con['maxv_in'] = con['maxv']
        con['maxv'] = math.inf if con['maxv'] is None else con['maxv']


def mat(P, sym, hs, fac):
    import casadi as ca
    M = np.array(P, float).reshape(len(P), len(P))
    if fac is None:
        return M
    T = ca.SX if sym == 'SX' else ca.MX
    return T(sy(fac, hs)) * T(ca.DM(M))


def make_mhe(cfg, B, win=None, model=None, store=False, opts=None, settings=True):
    """Configure an estimator through the public interface.  win: object with attribute ``y`` (list of N measurements) read by the
    measurement function, or None for the default one."""
    import do_mpc, casadi as ca
    spec = cfg['spec']
    m, hs = gen.build(spec) if model is None else model
    mhe = do_mpc.estimator.MHE(m, list(cfg['est']))
    late = cfg.get('late') or []              # bounds that are set between prepare_nlp and create_nlp

    def put_bounds(kd, name, ent):
        for bt, i in (('lower', 0), ('upper', 1)):
            ocp.struct_set(mhe.bounds, [bt, name], ent, B[kd][i])
    kw = dict(n_horizon=cfg['N'], t_step=cfg['dt'], meas_from_data=win is None, nl_cons_check_colloc_points=bool(cfg['nlc_colloc']),
              nl_cons_single_slack=bool(cfg['single_slack']), cons_check_colloc_points=bool(cfg['cons_colloc']), store_full_solution=store)
    if spec['type'] == 'continuous':
        kw.update(collocation_type=cfg['coll'], collocation_deg=cfg['deg'], collocation_ni=cfg['ni'])
    kw['nlpsol_opts'] = dict({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0, 'ipopt.max_iter': 500}, **(opts or {}))
    if settings:
        for k, v in kw.items():
            setattr(mhe.settings, k, v)
    else:
        mhe.set_param(**kw)
    T = ca.SX if spec['sym'] == 'SX' else ca.MX
    pe = [[n, sh] for n, sh in spec['p'] if n in cfg['est']]
    if cfg['custom']:
        h2 = dict(hs)
        if cfg['handle']:                     # parameters through the estimator's own structures
            h2['p'] = {n: (mhe._p_est[n] if n in cfg['est'] else mhe._p_set[n]) for n, _ in spec['p']}
        h2['w'] = {n: mhe._w[n + '_noise'] for n, _ in wnames(spec)}
        h2['v'] = {n: mhe._v[n + '_noise'] for n, _ in vnames(spec)}
        h2['x'] = {n: mhe._x[n] for n, _ in spec['x']}
        h2['xp'] = {n: mhe._x_prev[n] for n, _ in spec['x']}
        h2['pp'] = {n: mhe._p_est_prev[n] for n, _ in pe}
        mhe.set_objective(T(sy(cfg['stage'], h2)), T(sy(cfg['arrival'], h2)))
    else:
        kw = {}
        if nsum(vnames(spec)):
            kw['P_v'] = mat(cfg['Pv'], spec['sym'], hs, cfg['fac']['v'])
        if nsum(wnames(spec)):
            kw['P_w'] = mat(cfg['Pw'], spec['sym'], hs, cfg['fac']['w'])
        if pe:
            kw['P_p'] = mat(cfg['Pp'], spec['sym'], hs, None)
        mhe.set_default_objective(P_x=mat(cfg['Px'], spec['sym'], hs, None), **kw)
    for kd, name, ent in (('x', '_x', spec['x']), ('u', '_u', spec['u']), ('z', '_z', spec['z']), ('pe', '_p_est', pe)):
        sc = cfg['scaling'][kd]
        if any(v != 1.0 for v in sc):
            ocp.struct_set(mhe.scaling, [name], ent, sc)
        if kd not in late:
            put_bounds(kd, name, ent)
    for i, con in enumerate(cfg['nlc']):
        kw = dict(ub=np.array(con['ub']).reshape(-1, 1) if con['arr'] and len(con['ub']) > 1 else float(con['ub'][0]))
        if con['soft']:
            kw.update(soft_constraint=True, penalty_term_cons=con['pen'])
            if con.get('maxv_in') is not None:
                kw['maximum_violation'] = con['maxv_in']
        mhe.set_nl_cons('con%d' % i, gen.vec(con['expr'], hs, spec['sym']), **kw)
    if spec['tvp']:
        tt = mhe.get_tvp_template()

        def tvp_fun(t):
            t = float(np.asarray(t).ravel()[0])
            for k in range(cfg['N'] + 1):
                v = gen.affine(cfg['tvp'], t + (k - cfg['N'] + 1) * cfg['dt']); o = 0
                for n, sh in spec['tvp']:
                    tt['_tvp', k, n] = np.array(v[o:o + size(sh)]).reshape(tuple(sh), order='F'); o += size(sh)
            return tt
        mhe.set_tvp_fun(tvp_fun)
    ps = [[n, sh] for n, sh in spec['p'] if n not in cfg['est']]
    if ps:
        pt = mhe.get_p_template()

        def p_fun(t):
            v = p_vals(cfg, float(np.asarray(t).ravel()[0])); o = 0
            for n, sh in spec['p']:
                if n not in cfg['est']:
                    pt[n] = np.array(v[o:o + size(sh)]).reshape(tuple(sh), order='F')
                o += size(sh)
            return pt
        mhe.set_p_fun(p_fun)
    if win is not None:
        yt = mhe.get_y_template()
        yent = [[n, sh] for n, sh in spec['x']] if not spec['meas'] else [[n, sh] for n, sh, _, _ in spec['meas']]

        def y_fun(t):
            for k in range(cfg['N']):
                o = 0
                for n, sh in yent:
                    nn = n if spec['meas'] else n
                    yt['y_meas', k, nn] = np.array(win.y[k][o:o + size(sh)]).reshape(tuple(sh), order='F'); o += size(sh)
            return yt
        mhe.set_y_fun(y_fun)
    if late:
        mhe.prepare_nlp()
        for kd, name, ent in entries(cfg):
            if kd in late:
                put_bounds(kd, name, ent)
        mhe.create_nlp()
    else:
        mhe.setup()
    return mhe


class Win:
    """Measurement window handed to the user-supplied measurement function."""
    def __init__(self, y):
        self.y = y


def start(mhe, cfg, ref, xp, pp, u=None, z=None):
    """Initial guess = prior."""
    col = lambda v: np.array(v, float).reshape(-1, 1)
    mhe.x0 = col(xp)
    if ref.m.d['u']:
        mhe.u0 = col(cfg['us'][0] if u is None else u)
    if ref.m.d['z']:
        mhe.z0 = col([0.0] * ref.m.d['z'] if z is None else z)
    if ref.ie:
        mhe.p_est0 = col(pp)
    mhe.set_initial_guess()


def scal(cfg):
    return {k: np.array(v) for k, v in cfg['scaling'].items()}


def entries(cfg):
    spec = cfg['spec']
    pe = [[n, sh] for n, sh in spec['p'] if n in cfg['est']]
    return (('x', '_x', spec['x']), ('u', '_u', spec['u']), ('z', '_z', spec['z']), ('pe', '_p_est', pe))


def change_bound(mhe, ref, cfg, B, w, pick, side, delta):
    """Set one bound at run time close to the last estimate w; returns the bounds which now apply and a description."""
    cand = []
    for kd, name, ent in entries(cfg):
        o = 0
        for n, sh in ent:
            cand.append((kd, name, n, sh, o)); o += size(sh)
    kd, name, n, sh, o = cand[pick % len(cand)]
    k = size(sh)
    keys = [q for q in ref.index if q[0] in ((kd, 'xc') if kd == 'x' else (kd,)) and ref.index[q][1]]
    vals = np.array([w[ref.index[q][0] + o:ref.index[q][0] + o + k] for q in keys]).reshape(len(keys), k)
    other = np.array(B[kd][1 - side][o:o + k])
    new = np.minimum(vals.min(0) - delta, other - 0.02) if side == 0 else np.maximum(vals.max(0) + delta, other + 0.02)
    B2 = dict(B); B2[kd] = (list(B[kd][0]), list(B[kd][1]))
    B2[kd][side][o:o + k] = [float(v) for v in new]
    bt = ('lower', 'upper')[side]
    mhe.bounds[bt, name, n] = new.reshape(tuple(sh), order='F') if k > 1 else float(new[0])
    return B2, '%s bound of %s %s at run time' % (bt, name, n)
