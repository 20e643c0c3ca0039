"""Reference optimal control problem (own scenario tree, own collocation, own KKT test) and the generator of MPC cases.

Nothing here calls do_mpc except ``make_mpc``, which configures the controller through its public interface.  The solution of
the controller is read through the documented structure ``opt_x_num_unscaled`` and judged by ``check``: equality constraints,
inequalities and the existence of Lagrange multipliers (Karush-Kuhn-Tucker conditions) of the reference problem."""
import math
import numpy as np
from .vf import st, require, Violation, Inconclusive, harness
from . import gen
from .gen import ev, sy, size

TOL_EQ = 2e-6
TOL_IN = 2e-6


# --------------------------------------------------------------------------------------------- collocation
def coll_points(kind, deg):
    """Collocation points in (0,1] from the orthogonal polynomials (own computation)."""
    P = np.polynomial.legendre.Legendre
    if kind == 'legendre':
        r = P.basis(deg).roots()
    else:                                # Radau (right end included): P_n - P_{n-1}
        r = (P.basis(deg) - P.basis(deg - 1)).roots()
    return np.sort((np.real(r) + 1) / 2)


def lagrange(tau):
    """C[r, j] = derivative of basis r at tau_j, D[r] = value of basis r at 1."""
    n = len(tau); C = np.zeros((n, n)); D = np.zeros(n)
    for r in range(n):
        p = np.polynomial.Polynomial([1.0])
        for q in range(n):
            if q != r:
                p = p * np.polynomial.Polynomial([-tau[q], 1.0]) / (tau[r] - tau[q])
        D[r] = p(1.0)
        d = p.deriv()
        C[r] = [d(t) for t in tau]
    return C, D


# --------------------------------------------------------------------------------------------- symbolic model
class SymModel:
    """Functions of a spec over fresh casadi symbols (independent of do_mpc)."""

    def __init__(self, spec):
        self.spec = spec; self.d = gen.dims(spec)

    def hs(self, x, u, z, tvp, p, extra=None):
        import casadi as ca
        out = {}
        for k, v in zip(gen.KINDS, (x, u, z, tvp, p)):
            out[k], o = {}, 0
            for n, sh in self.spec[k]:
                out[k][n] = [v[o + i] for i in range(size(sh))]; o += size(sh)
        if extra:
            for k, v in extra.items():
                out[k], o = {}, 0
                for n, sh in self.spec['u'] if k == 'up' else self.spec[k]:
                    out[k][n] = [v[o + i] for i in range(size(sh))]; o += size(sh)
        return out

    def vec(self, trees, hs):
        import casadi as ca
        return ca.vertcat(*[ca.SX(sy(t, hs)) for t in trees]) if trees else ca.SX(0, 1)

    def rhs(self, h):
        return self.vec(gen.rhs_trees(self.spec), h)

    def alg(self, h):
        return self.vec([t for _, tr in self.spec['alg'] for t in tr], h)


def tree_of(N, n_comb, n_rob):
    """Scenario tree: list of stages, each a list of (parent index, parameter index); plus the node path of every scenario."""
    stages = [[(None, None)]]
    for k in range(N):
        nxt = []
        for i, (_, p) in enumerate(stages[k]):
            if k < n_rob:
                nxt += [(i, c) for c in range(n_comb)]
            else:
                nxt.append((i, 0 if n_rob == 0 else p))
        stages.append(nxt)
    paths = []
    for j in range(len(stages[-1])):
        path = [j]
        for k in range(N, 0, -1):
            path.insert(0, stages[k][path[0]][0])
        paths.append(path)
    return stages, paths


class RefOCP:
    """The documented problem as an NLP in physical variables; parameters: x0, uprev, tvp (N+1), p (n_comb)."""

    def __init__(self, cfg, n_comb):
        import casadi as ca
        self.cfg, spec = cfg, cfg['spec']
        self.N, self.n_comb = cfg['N'], n_comb
        self.m = M = SymModel(spec); d = M.d
        self.cont = spec['type'] == 'continuous'
        self.stages, self.paths = tree_of(self.N, n_comb, cfg.get('n_robust', 0))
        self.deg, self.ni = (cfg['deg'], cfg['ni']) if self.cont else (0, 0)
        self.nc = (self.deg + 1) * self.ni
        w, names = [], []
        self.index = {}                     # key -> (offset, n)
        off = [0]

        def var(key, n):
            s = ca.SX.sym('_'.join(str(k) for k in key), n)
            w.append(s); self.index[key] = (off[0], n); off[0] += n
            return s
        N = self.N
        X, U, Z, XC, E = {}, {}, {}, {}, {}
        for k in range(N + 1):
            for s in range(len(self.stages[k])):
                X[k, s] = var(('x', k, s), d['x'])
        for k in range(N):
            for s in range(1 if cfg.get('open_loop') else len(self.stages[k])):
                U[k, s] = var(('u', k, s), d['u'])
            for c in range(len(self.stages[k + 1])):
                nz = max(self.nc, 1)
                for i in range(nz):
                    Z[k, c, i] = var(('z', k, c, i), d['z'])
                for i in range(self.nc):
                    XC[k, c, i] = var(('xc', k, c, i), d['x'])
        ne = 1 if cfg.get('single_slack') else N
        soft = [c for c in cfg['nlc'] if c['soft']]
        self.neps = sum(len(c['expr']) for c in soft)
        for k in range(ne):
            stg = N if cfg.get('single_slack') else k
            for s in range(len(self.stages[min(stg, N - 1)]) if not cfg.get('single_slack') else max(len(self.stages[q]) for q in range(N))):
                E[k, s] = var(('e', k, s), self.neps)
        P_x0 = ca.SX.sym('x0', d['x']); P_up = ca.SX.sym('up', d['u'])
        P_tvp = [ca.SX.sym('tvp%d' % k, d['tvp']) for k in range(N + 1)]
        P_p = [ca.SX.sym('p%d' % k, d['p']) for k in range(n_comb)]
        eq = [X[0, 0] - P_x0]
        f = ca.SX(0)
        H = []                              # nonlinear constraints (<= ub), list of (expr, label)
        self.h_ub = []
        sc_u = np.array(cfg['scaling']['u'] if cfg.get('scaling') else [1.0] * d['u'])
        tau = None
        if self.cont:
            tau = np.concatenate([[0.0], coll_points(cfg['coll'], self.deg)]); C, D = lagrange(tau)
            h = cfg['dt'] / self.ni
        self.hpts = []
        for k in range(N):
            nn = len(self.stages[k + 1])
            om = 1.0 / nn
            for c, (s, pi) in enumerate(self.stages[k + 1]):
                u = U[k, 0 if cfg.get('open_loop') else s]
                up = P_up if k == 0 else U[k - 1, 0 if cfg.get('open_loop') else self.stages[k][s][0]]
                tv, p = P_tvp[k], P_p[pi]
                z0 = Z[k, c, 0]
                pts = [(X[k, s], z0)]
                if self.cont:
                    xs = {(0, 0): X[k, s]}
                    seq = [(e, j) for e in range(self.ni) for j in range(self.deg + 1)]
                    for i, ej in enumerate(seq[1:]):
                        xs[ej] = XC[k, c, i]
                    pts = [(xs[ej], Z[k, c, i]) for i, ej in enumerate(seq)]
                    eq.append(XC[k, c, self.nc - 1] - X[k + 1, c])
                    for e in range(self.ni):
                        for j in range(self.deg + 1):
                            hz = M.hs(xs[e, j], u, Z[k, c, e * (self.deg + 1) + j], tv, p)
                            eq.append(M.alg(hz))
                            if j:
                                eq.append(sum(C[r, j] * xs[e, r] for r in range(self.deg + 1)) - h * M.rhs(hz))
                        end = X[k + 1, c] if e == self.ni - 1 else xs[e + 1, 0]
                        eq.append(end - sum(D[r] * xs[e, r] for r in range(self.deg + 1)))
                else:
                    hz = M.hs(X[k, s], u, z0, tv, p)
                    eq.append(M.alg(hz)); eq.append(X[k + 1, c] - M.rhs(hz))
                hz = M.hs(X[k, s], u, z0, tv, p, dict(up=up))
                f += om * sy(cfg['lterm'], hz)
                if k == N - 1:
                    f += om * sy(cfg['mterm'], M.hs(X[N, c], u, z0, P_tvp[N], p))
                if cfg['rexpr'] is not None:
                    f += sy(cfg['rexpr'], hz)
                else:
                    for i in range(d['u']):
                        f += cfg['rterm'][i] * ((u[i] - up[i]) / sc_u[i]) ** 2
                e = E[0 if cfg.get('single_slack') else k, s] if self.neps else None
                o = 0
                for con in soft:
                    f += con['pen'] * sum(e[o + i] for i in range(len(con['expr']))); o += len(con['expr'])
                for xx, zz in (pts if cfg.get('nlc_colloc') and self.cont else pts[:1]):
                    o = 0
                    hh = M.hs(xx, u, zz, tv, p)
                    for q, con in enumerate(cfg['nlc']):
                        for i, t in enumerate(con['expr']):
                            g = sy(t, hh)
                            if con['soft']:
                                g = g - e[o]; o += 1
                            H.append(g); self.hpts.append(q)
        self.w = ca.vertcat(*w); self.nw = off[0]
        self.par = [P_x0, P_up, ca.vertcat(*P_tvp), ca.vertcat(*P_p)]
        self.f = f; self.eq = ca.vertcat(*eq); self.H = ca.vertcat(*[ca.SX(g) for g in H]) if H else ca.SX(0, 1)
        self.fun = ca.Function('ref', [self.w] + self.par,
                               [self.f, self.eq, self.H, ca.gradient(self.f, self.w), ca.jacobian(self.eq, self.w), ca.jacobian(self.H, self.w)])
        self.short = ca.Function('refs', [self.w] + self.par, [self.f, self.eq, self.H])

    def extend(self, terms, eqs, ineqs):
        """Add terms to the objective, equations (= 0) and inequalities [(expr, ub)]; expressions are functions of (w, par)."""
        import casadi as ca
        self.f = self.f + sum([t(self.w, self.par) for t in terms], ca.SX(0))
        self.eq = ca.vertcat(self.eq, *[g(self.w, self.par) for g in eqs])
        self.H = ca.vertcat(self.H, *[g(self.w, self.par) for g, _ in ineqs])
        self.h_extra = [float(b) for _, b in ineqs]
        self.fun = ca.Function('ref', [self.w] + self.par,
                               [self.f, self.eq, self.H, ca.gradient(self.f, self.w), ca.jacobian(self.eq, self.w), ca.jacobian(self.H, self.w)])
        self.short = ca.Function('refs', [self.w] + self.par, [self.f, self.eq, self.H])

    # ---------------------------------------------------------------- parameters, bounds
    def bounds(self, B):
        """B: dict x,u,z -> (lb, ub) flat; tb -> (lb, ub) or None (no terminal bounds). Returns lb, ub of w."""
        lb, ub = np.full(self.nw, -np.inf), np.full(self.nw, np.inf)
        cc = self.cfg.get('cons_colloc', True)
        eps_ub = [c['maxv'] for c in self.cfg['nlc'] if c['soft'] for _ in c['expr']]

        def put(key, b):
            o, n = self.index[key]
            lb[o:o + n], ub[o:o + n] = b[0], b[1]
        for key in self.index:
            t = key[0]
            if t == 'x':
                if 1 <= key[1] < self.N:
                    put(key, B['x'])
                elif key[1] == self.N and B.get('tb') is not None:
                    put(key, B['tb'])
            elif t == 'xc':
                if cc and key[1] + 1 < self.N:
                    put(key, B['x'])
            elif t == 'z':
                if cc or key[3] == 0:
                    put(key, B['z'])
            elif t == 'u':
                put(key, B['u'])
            else:
                put(key, ([0.0] * self.neps, eps_ub))
        return lb, ub

    def h_upper(self):
        out = []
        n = len(self.hpts)
        i = 0
        while i < n:
            for con in self.cfg['nlc']:
                for k in range(len(con['expr'])):
                    out.append(con['ub'][k]); i += 1
        return np.array(out + getattr(self, 'h_extra', []))

    def params(self, x0, up, tvps, ps):
        return [np.array(x0, float), np.array(up, float), np.array([v for t in tvps for v in t], float), np.array([v for q in ps for v in q], float)]

    # ---------------------------------------------------------------- reading do_mpc's solution
    def read(self, S):
        """Vector w from the structure opt_x_num_unscaled."""
        w = np.zeros(self.nw)
        for key, (o, n) in self.index.items():
            if not n:
                continue
            t = key[0]
            if t == 'x':
                v = S['_x', key[1], key[2], -1]
            elif t == 'xc':
                v = S['_x', key[1] + 1, key[2], key[3]]
            elif t == 'z':
                v = S['_z', key[1], key[2], key[3]]
            elif t == 'u':
                v = S['_u', key[1], key[2]]
            else:
                v = S['_eps', key[1], key[2]]
            w[o:o + n] = np.asarray(getattr(v, 'cat', v), float).ravel(order='F') if not hasattr(v, 'cat') else v.cat.full().ravel()
        return w

    def write(self, S, w, scal):
        for key, (o, n) in self.index.items():
            if not n:
                continue
            t = key[0]; v = w[o:o + n]
            if t == 'x':
                S['_x', key[1], key[2], -1] = v / scal['x']
            elif t == 'xc':
                S['_x', key[1] + 1, key[2], key[3]] = v / scal['x']
            elif t == 'z':
                S['_z', key[1], key[2], key[3]] = v / scal['z']
            elif t == 'u':
                S['_u', key[1], key[2]] = v / scal['u']
            else:
                S['_eps', key[1], key[2]] = v

    def get(self, w, *key):
        o, n = self.index[key]
        return w[o:o + n]

    # ---------------------------------------------------------------- feasible plan by simulation of the discretised model
    def rollout(self, x0, us, tvps, ps):
        """Simulate every node of the tree under the inputs us[k]; fills w (eps = 0)."""
        import casadi as ca
        cfg, spec, M, d = self.cfg, self.cfg['spec'], self.m, self.m.d
        w = np.zeros(self.nw)

        def put(key, v):
            o, n = self.index[key]
            w[o:o + n] = v
        put(('x', 0, 0), x0)
        if self.cont:
            if not hasattr(self, '_rf'):
                nv = self.nc * (d['x'] + d['z'])
                v = ca.SX.sym('v', nv); xk = ca.SX.sym('xk', d['x']); u = ca.SX.sym('u', d['u']); tv = ca.SX.sym('t', d['tvp']); p = ca.SX.sym('p', d['p'])
                tau = np.concatenate([[0.0], coll_points(cfg['coll'], self.deg)]); C, D = lagrange(tau); h = cfg['dt'] / self.ni
                xs = {(0, 0): xk}; zs = {}
                seq = [(e, j) for e in range(self.ni) for j in range(self.deg + 1)]
                for i, ej in enumerate(seq[1:]):
                    xs[ej] = v[i * d['x']:(i + 1) * d['x']]
                end = v[(self.nc - 1) * d['x']:self.nc * d['x']]; o = self.nc * d['x']
                for i, ej in enumerate(seq):
                    zs[ej] = v[o + i * d['z']:o + (i + 1) * d['z']]
                R = []
                for e in range(self.ni):
                    for j in range(self.deg + 1):
                        hz = M.hs(xs[e, j], u, zs[e, j], tv, p); R.append(M.alg(hz))
                        if j:
                            R.append(sum(C[r, j] * xs[e, r] for r in range(self.deg + 1)) - h * M.rhs(hz))
                    R.append((end if e == self.ni - 1 else xs[e + 1, 0]) - sum(D[r] * xs[e, r] for r in range(self.deg + 1)))
                par = ca.vertcat(xk, u, tv, p); R = ca.vertcat(*R)
                self._rf = ca.Function('R', [v, par], [R, ca.jacobian(R, v)]); self._nv = nv
            for k in range(self.N):
                for c, (s, pi) in enumerate(self.stages[k + 1]):
                    xk = self.get(w, 'x', k, s)
                    par = np.concatenate([xk, us[k], tvps[k], ps[pi]])
                    v = np.concatenate([np.tile(xk, self.nc), np.zeros(self.nc * d['z'])])
                    ok = False
                    for it in range(60):
                        r, J = [a.full() for a in self._rf(v, par)]
                        nr = np.abs(r).max() if r.size else 0
                        if nr < 1e-11:
                            ok = True; break
                        try:
                            dv = np.linalg.solve(J, -r.ravel())
                        except np.linalg.LinAlgError:
                            break
                        a = 1.0
                        while a > 1e-3:
                            rn = np.abs(self._rf(v + a * dv, par)[0].full()).max()
                            if rn < nr or rn < 1e-11:
                                break
                            a /= 2
                        v = v + a * dv
                    if not ok and nr > 1e-8:
                        raise Inconclusive('collocation equations not solved')
                    for i in range(self.nc):
                        put(('xc', k, c, i), v[i * d['x']:(i + 1) * d['x']])
                        o = self.nc * d['x'] + i * d['z']
                        put(('z', k, c, i), v[o:o + d['z']])
                    put(('x', k + 1, c), v[(self.nc - 1) * d['x']:self.nc * d['x']])
        else:
            for k in range(self.N):
                for c, (s, pi) in enumerate(self.stages[k + 1]):
                    xn, z0, _ = gen.ref_step(spec, self.get(w, 'x', k, s), us[k], tvps[k], ps[pi])
                    put(('x', k + 1, c), xn); put(('z', k, c, 0), z0)
        for key in self.index:
            if key[0] == 'u':
                put(key, us[key[1]])
        return w

    # ---------------------------------------------------------------- KKT test
    def residuals(self, w, par, lb, ub):
        f, e, h = self.short(w, *par)
        e, h = e.full().ravel(), h.full().ravel()
        hu = self.h_upper() if len(h) else np.zeros(0)
        viol = max([0.0] + list(np.abs(e)))
        iv = max([0.0] + list(np.maximum(lb - w, 0)) + list(np.maximum(w - ub, 0)) + list(np.maximum(h - hu, 0)))
        return float(f), viol, iv, e, h - hu

    def describe(self, i):
        for key, (o, n) in self.index.items():
            if o <= i < o + n:
                return '%s[%d]' % (key, i - o)
        return str(i)

    def check(self, w, par, lb, ub, what='MPC', kkt_tol=1e-4, act=1e-4):
        """Raise Violation unless w is feasible and a KKT point. Returns info (labels of active constraints)."""
        require(np.all(np.isfinite(w)), '%s: solution is not finite', what)
        f, e, h, g, Je, Jh = [a.full() for a in self.fun(w, *par)]
        e, h, g = e.ravel(), h.ravel(), g.ravel()
        sc = max(1.0, np.abs(w).max()) * getattr(self, 'tolf', 1.0)
        scl = [abs(v) for k in ('x', 'u', 'z', 'pe') for v in (self.cfg.get('scaling') or {}).get(k, [])] + [1.0]
        kkt_tol = kkt_tol * min(20.0, max(1.0, max(scl) / min(scl) / 10))     # the solver's tolerances act on scaled quantities
        if e.size:
            i = int(np.argmax(np.abs(e)))
            require(abs(e[i]) <= TOL_EQ * sc, '%s: dynamics / initial condition violated by %.3g (equation %d of the reference problem)', what, e[i], i)
        for v, nm in ((lb - w, 'lower'), (w - ub, 'upper')):
            i = int(np.argmax(v))
            require(v[i] <= TOL_IN * sc, '%s: %s bound of %s violated by %.3g (value %.6g)', what, nm, self.describe(i), v[i], w[i])
        hu = self.h_upper() if h.size else np.zeros(0)
        if h.size:
            i = int(np.argmax(h - hu))
            require(h[i] - hu[i] <= TOL_IN * sc * 5, '%s: nonlinear constraint %d violated by %.3g', what, self.hpts[i] if i < len(self.hpts) else -1, h[i] - hu[i])
        cols, free, lab = [Je.T], Je.shape[0], set()
        I = np.eye(self.nw)
        al = np.flatnonzero(w - lb < act * sc); au = np.flatnonzero(ub - w < act * sc)
        ah = np.flatnonzero(hu - h < act * sc) if h.size else np.zeros(0, int)
        for i in list(al) + list(au):
            for key, (o, n) in self.index.items():
                if o <= i < o + n:
                    lab.add('active-' + key[0])
        if len(ah):
            lab.add('active-nlc')
        M = [-I[:, al], I[:, au]]
        if h.size:
            M.append(Jh.T[:, ah])
        A_in = np.hstack(M)
        res, y, y_in = kkt_residual(Je.T, A_in, -g)
        gn = max(1.0, np.abs(g).max())
        # quality of the first-order conditions relative to the size of the gradient
        r = np.abs(res).max() / gn if res.size else 0.0
        i = int(np.argmax(np.abs(res))) if res.size else 0
        if r > kkt_tol:
            # small multipliers: the constraint keeps a distance with (multiplier * distance) below the complementarity tolerance of the solver
            near = 2e-3 * sc
            bl = np.flatnonzero(w - lb < near); bu = np.flatnonzero(ub - w < near); bh = np.flatnonzero(hu - h < near) if h.size else np.zeros(0, int)
            N = [-I[:, bl], I[:, bu]] + ([Jh.T[:, bh]] if h.size else [])
            dist = np.maximum(np.concatenate([(w - lb)[bl], (ub - w)[bu]] + ([(hu - h)[bh]] if h.size else [])), 0)
            if dist.size > A_in.shape[1]:
                try:
                    res2, _, m2 = kkt_residual(np.vstack([Je.T, np.zeros((dist.size, Je.shape[0]))]), np.vstack([np.hstack(N), np.diag(dist * 1e3)]), np.concatenate([-g, np.zeros(dist.size)]))
                    if np.abs(res2[:len(g)]).max() / gn <= kkt_tol and float(m2 @ dist) <= 1e-6 * gn:
                        r = 0.0
                except Inconclusive:
                    pass
        if r > kkt_tol:
            # almost active constraints with degenerate multipliers: the reference solver has to stay at the same point
            try:
                ok, wr, fr = self.solve(w, par, lb, ub)
            except RuntimeError:
                ok = False
            fw = float(f.ravel()[0])
            if ok and abs(fw - fr) <= 1e-6 * max(1.0, abs(fr)) and np.abs(wr - w).max() <= 1e-5 * sc:
                r = 0.0
        require(r <= kkt_tol, '%s: the solution is not optimal: residual of the optimality conditions %.3g (relative) at %s', what, r, self.describe(i))
        self.active = lab
        # bound multipliers and whether the gradient is non-trivial
        return dict(f=float(f.ravel()[0]), labels=sorted(lab), gnorm=float(np.abs(g).max()))

    def several_optima(self, wa, wb, par, lb, ub, tol, what):
        """Two answers to one convex problem differ: a violation unless both are optimal with the same value (flat direction)."""
        fa = self.check(wa, par, lb, ub, what=what + ' (first)')['f']
        fb = self.check(wb, par, lb, ub, what=what + ' (second)')['f']
        return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))

    # ---------------------------------------------------------------- reference solver
    def solve(self, w0, par, lb, ub):
        import casadi as ca
        if not hasattr(self, '_S'):
            nlp = {'x': self.w, 'f': self.f, 'g': ca.vertcat(self.eq, self.H), 'p': ca.vertcat(*self.par)}
            self._S = ca.nlpsol('refS', 'ipopt', nlp, {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.max_iter': 500})
        ne, nh = self.eq.shape[0], self.H.shape[0]
        hu = self.h_upper() if nh else np.zeros(0)
        r = self._S(x0=w0, lbx=lb, ubx=ub, lbg=np.concatenate([np.zeros(ne), np.full(nh, -np.inf)]), ubg=np.concatenate([np.zeros(ne), hu]),
                    p=np.concatenate(par))
        return bool(self._S.stats()['success']), r['x'].full().ravel(), float(r['f'])


def kkt_residual(A_eq, A_in, b):
    """min ||A_eq y + A_in m - b|| with m >= 0; returns residual vector and the multipliers."""
    from scipy.optimize import nnls, lsq_linear
    ne, ni = A_eq.shape[1], A_in.shape[1]
    A = np.hstack([A_eq, A_in])
    if A.shape[1] == 0:
        return -b, np.zeros(0), np.zeros(0)
    y = np.linalg.lstsq(A, b, rcond=None)[0]
    if ni == 0 or y[ne:].min() >= 0:
        return A @ y - b, y[:ne], y[ne:]
    # project on the orthogonal complement of the equality gradients, then nnls
    if ne:
        Q, s, _ = np.linalg.svd(A_eq, full_matrices=True)
        rank = int(np.sum(s > 1e-10 * max(1.0, s[0] if len(s) else 1)))
        Z = Q[:, rank:]
    else:
        Z = np.eye(len(b))
    if Z.shape[1] == 0:
        return np.zeros(len(b)), y[:ne], np.zeros(ni)
    B, c = Z.T @ A_in, Z.T @ b
    B[np.abs(B) < 1e-11] = 0.0; c[np.abs(c) < 1e-14] = 0.0
    best = None
    for k in range(3):                       # any non-negative multipliers with a small residual are a certificate
        try:
            if k == 0:
                m, _ = nnls(B, c, maxiter=50 * max(10, B.shape[1]))
            elif k == 1:
                m = np.maximum(lsq_linear(B, c, bounds=(0, np.inf), method='bvls', max_iter=500).x, 0)
            else:
                from scipy.optimize import linprog
                r_, c_ = B.shape
                A = np.vstack([np.hstack([B, -np.ones((r_, 1))]), np.hstack([-B, -np.ones((r_, 1))])])
                lp = linprog(np.append(np.zeros(c_), 1.0), A_ub=A, b_ub=np.append(c, -c), bounds=[(0, None)] * (c_ + 1), method='highs')
                if lp.x is None:
                    continue
                m = np.maximum(lp.x[:c_], 0)
        except (RuntimeError, np.linalg.LinAlgError, ValueError):
            continue
        v = np.abs(B @ m - c).max()
        if np.isfinite(v) and (best is None or v < best[0]):
            best = (v, m)
        if best is not None and best[0] <= 1e-7 * max(1.0, np.abs(c).max()):
            break
    if best is None:
        raise Inconclusive('multipliers not computed')
    m = best[1]
    yy = np.linalg.lstsq(A_eq, b - A_in @ m, rcond=None)[0] if ne else np.zeros(0)
    r = (A_eq @ yy if ne else 0) + A_in @ m - b
    return r, yy, m


# --------------------------------------------------------------------------------------------- generation
def quad(var, w, r):
    """w*(var-r)^2 as a tree."""
    return ['*', ['c', w], ['sq', ['-', var, ['c', r]]]]


def add(*ts):
    t = ts[0]
    for s in ts[1:]:
        t = ['+', t, s]
    return t


def linearise(draw, spec):
    """Replace the dynamics by (stable) affine ones."""
    def lin(kinds, lo=-.5, hi=.5, n=3):
        el = gen.elements(spec, kinds)
        t = ['c', 0.0]
        for _ in range(draw(st.integers(1, n))):
            if el:
                t = ['+', t, ['*', ['c', draw(gen.nice(lo, hi, .25))], ['v'] + draw(st.sampled_from(el))]]
        return t
    for n, sh in spec['x']:
        for k in range(size(sh)):
            c = draw(st.sampled_from([-1.0, -.5, -.25] if spec['type'] == 'continuous' else [.75, .5, .25]))
            u = gen.elements(spec, ('u',))
            t = ['+', ['*', ['c', c], ['v', 'x', n, k]], lin(gen.KINDS, -.25, .25)]
            if u:
                t = ['+', t, ['*', ['c', draw(st.sampled_from([1.0, .5, -1.0]))], ['v'] + draw(st.sampled_from(u))]]
            spec['rhs'][n][k] = t
    for n, rows in spec['alg']:
        for k in range(len(rows)):
            rows[k] = ['-', ['v', 'z', n[4:], k], lin(('x', 'u', 'tvp', 'p'))]


@st.composite
def mpc_cfg(draw, types=('discrete', 'continuous'), robust=False, scaling=True, max_N=4, syms=('SX', 'MX'), max_x=2, max_u=2, with_z=True,
            constraints=True, vary_p=False, min_tvp=0, min_u=1, coll=True, smooth_cost=True, max_aux=1, custom_r=True, convex=False, tight=False, force_rob=0, scales=(1.0, 1.0, 0.5, 4.0, 10.0), noise=False, many=False):
    spec = draw(gen.tame_spec(types=types, syms=syms, with_z=with_z, max_x=max_x, max_u=max_u, min_u=min_u, max_p=2, max_tvp=1 if not min_tvp else 2,
                              min_tvp=min_tvp, min_p=1 if robust else 0, max_aux=max_aux, max_meas=0, shapes=gen.VSHAPES, noise=noise))
    smooth_cost = smooth_cost and not convex; custom_r = custom_r and not convex
    d = gen.dims(spec)
    cont = spec['type'] == 'continuous'
    N = draw(st.sampled_from([n for n in ((2, 3, 1, 3, 2) if cont or robust else (2, 3, 4, 1, 3, 2)) if n <= max_N]))
    if force_rob:
        N = draw(st.sampled_from([3, 4]))
    if convex:
        linearise(draw, spec)
    cfg = dict(spec=spec, N=N, dt=draw(st.sampled_from(gen.STEPS)), coll=draw(st.sampled_from(['radau', 'radau', 'legendre'])) if coll else 'radau',
               deg=draw(st.sampled_from([2, 2, 1, 3])) if coll else 2, ni=draw(st.sampled_from([1, 1, 2])) if coll else 1)
    V = lambda k, r=gen.nice(): draw(st.lists(r, min_size=k, max_size=k))
    el = lambda kd: gen.elements(spec, (kd,))
    lv = gen.elements(spec, gen.KINDS)
    # ---- cost
    q = [draw(st.sampled_from([0.0, 0.5, 1.0, 4.0] if not tight else [1.0, 4.0, 10.0])) for _ in range(d['x'])]
    xr = V(d['x'])
    lt = [['c', 0.0]] + [quad(['v'] + e, qi, r) for e, qi, r in zip(el('x'), q, xr)]
    lt += [quad(['v'] + e, draw(st.sampled_from([0.05, 0.25, 1.0])), draw(gen.nice(-1, 1))) for e in el('u')]
    for e in el('z'):
        if draw(st.booleans()):
            lt.append(quad(['v'] + e, draw(st.sampled_from([0.25, 1.0])), draw(gen.nice())))
    for e in el('tvp') + el('p'):
        if draw(st.booleans()) and el('x'):
            lt.append(['*', ['c', draw(st.sampled_from([0.5, 1.0]))], ['sq', ['-', ['v'] + draw(st.sampled_from(el('x'))), ['v'] + e]]])
    if smooth_cost and draw(st.booleans()):
        lt.append(['*', ['c', 0.3], ['tanh', draw(gen.exprs(lv, 4))]])
    cfg['lterm'] = add(*lt)
    mt = [['c', 0.0]] + [quad(['v'] + e, draw(st.sampled_from([0.0, 1.0, 3.0])), draw(gen.nice())) for e in el('x')]
    for e in el('tvp') + el('p'):
        if draw(st.booleans()):
            mt.append(['sq', ['-', ['v'] + draw(st.sampled_from(el('x'))), ['v'] + e]])
    if smooth_cost and draw(st.integers(0, 2)) == 0:
        mt.append(['*', ['c', 0.3], ['tanh', draw(gen.exprs(gen.elements(spec, ('x', 'tvp', 'p')), 4))]])
    cfg['mterm'] = add(*mt)
    cfg['only'] = draw(st.sampled_from(['both'] * 8 + ['l', 'm', 'DM']))
    if cfg['only'] == 'l':
        cfg['mterm'] = ['c', 0.0]
    elif cfg['only'] == 'm':
        cfg['lterm'] = ['c', 0.0]
    elif cfg['only'] == 'DM':
        cfg['mterm'] = ['c', 2.0]
    cfg['rterm'] = [draw(st.sampled_from([0.0, 0.1, 1.0, 5.0])) for _ in range(d['u'])]
    # per-variable or per-element factors
    cfg['rvec'] = {}
    o = 0
    for n, sh in spec['u']:
        if size(sh) > 1 and not draw(st.booleans()):
            for i in range(size(sh)):
                cfg['rterm'][o + i] = cfg['rterm'][o]
            cfg['rvec'][n] = False
        else:
            cfg['rvec'][n] = size(sh) > 1
        o += size(sh)
    cfg['rexpr'] = None
    if custom_r and d['u'] and draw(st.integers(0, 3)) == 0:
        rt = [['c', 0.0]]
        for e in el('u'):
            du = ['-', ['v'] + e, ['v', 'up'] + e[1:]]
            rt.append(['*', ['c', draw(st.sampled_from([0.2, 1.0]))], ['sq', du]])
            if draw(st.booleans()):
                rt.append(['*', ['c', 0.3], ['*', du, ['tanh', draw(gen.exprs(lv, 3))]]])
        cfg['rexpr'] = add(*rt)
    # ---- constraints, relative to a feasible plan
    B = {}
    for kd in ('x', 'u', 'z', 'tb'):
        n = d['x'] if kd == 'tb' else d[kd]
        pr = ([0.02, 0.05, 0.02, 0.2, None] if tight else [None, 0.02, 0.05, 0.2, None, 0.5]) if constraints else [None]
        if tight and kd in 'xu':
            pr = [0.01, 0.02, 0.05, None] if kd == 'x' else [0.3, 0.6, 1.0]
        B[kd] = [[draw(st.sampled_from(pr)) for _ in range(n)] for _ in range(2)]
    if constraints:
        B['u'] = [[0.5 if v is None else v for v in B['u'][0]], [0.5 if v is None else v for v in B['u'][1]]]
    cfg['B'] = B
    cfg['use_tb'] = draw(st.booleans()); cfg['set_tb'] = draw(st.booleans())
    cfg['nlc'] = []
    if constraints:
        for i in range(draw(st.integers(0, 2))):
            # smooth expressions with a non-vanishing gradient in at least one variable
            ne = draw(st.sampled_from([1, 1, 2]))
            ex = []
            for _ in range(ne):
                base = ['v'] + draw(st.sampled_from(el('x') + el('u') + el('z')))
                t = ['*', ['c', draw(st.sampled_from([-1.0, 1.0]))], base]
                if not convex and draw(st.booleans()):
                    t = ['+', t, ['*', ['c', 0.5], ['tanh', draw(gen.exprs(lv, 3))]]]
                ex.append(t)
            soft = draw(st.booleans())
            cfg['nlc'].append(dict(expr=ex, soft=soft, margin=draw(st.sampled_from([0.05, 0.2])) if not soft else draw(st.sampled_from([-0.3, -0.1, 0.1])),
                                   pen=draw(st.sampled_from([0.5, 1, 10.0, 0.02])), maxv=draw(st.sampled_from([None, None, 0.5, 1.0, 'tight'])) if soft else None,
                                   arr=draw(st.booleans())))
    cfg['single_slack'] = bool(constraints and draw(st.integers(0, 3)) == 0)
    cfg['nlc_colloc'] = bool(constraints and draw(st.integers(0, 2)) == 0)
    cfg['cons_colloc'] = not (constraints and draw(st.integers(0, 2)) == 0)
    # ---- scaling
    sv = list(scales) if scaling else [1.0]
    cfg['scaling'] = {kd: [draw(st.sampled_from(sv)) for _ in range(d[kd])] for kd in ('x', 'u', 'z')}
    # ---- numbers
    cfg['x0'] = V(d['x']); cfg['uprev'] = V(d['u'], gen.nice(-1, 1)); cfg['uf'] = [V(d['u'], gen.nice(-1, 1)) for _ in range(N)]
    cfg['tvp'] = [[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['tvp'])]
    cfg['t0'] = draw(st.sampled_from([0, 0, 1.0, 2.5, 0.37]))
    # parameters: fixed values through the low-level or the high-level interface
    cfg['n_robust'], cfg['open_loop'] = 0, False
    if robust:
        cfg['n_robust'] = draw(st.sampled_from([1, 2, 0, N])) if not force_rob else draw(st.sampled_from([force_rob, N]))
        cfg['n_robust'] = min(cfg['n_robust'], N)
        cfg['open_loop'] = draw(st.booleans())
        pv, ncomb = {}, 1
        cfg['pmode'] = draw(st.sampled_from(['values', 'values', 'fun']))
        lim = (4 if cfg['n_robust'] <= 1 else 3) if N <= 2 or cfg['n_robust'] <= 1 else 2
        if many:
            cfg['n_robust'], lim = 1, 12
        if cfg['pmode'] == 'values':
            for n, sh in draw(st.permutations(spec['p'])):
                nv = draw(st.sampled_from([n for n in ((2, 3, 1) if not many else (11, 4, 12, 3, 1)) if n <= max(1, lim // ncomb)]))
                if size(sh) == 1:
                    pv[n] = draw(st.lists(gen.nice(), min_size=nv, max_size=nv))
                else:
                    pv[n] = [V(size(sh)) for _ in range(nv)]
                ncomb *= nv
                if draw(st.integers(0, 4)) == 0:
                    break
            cfg['pvals'] = [[n, v] for n, v in pv.items()]
        else:
            ncomb = draw(st.sampled_from([n for n in (2, 3, 1) if n <= lim] if not many else [11, 12]))
            cfg['pfun'] = [[[draw(gen.nice()), draw(gen.nice(-.5, .5))] for _ in range(d['p'])] for _ in range(ncomb)]
    elif d['p']:
        cfg['pmode'] = 'fun'
        cfg['pfun'] = [[[draw(gen.nice()), draw(gen.nice(-.5, .5)) if vary_p else 0.0] for _ in range(d['p'])]]
    else:
        cfg['pmode'] = 'none'
    return cfg


def p_list(cfg, t):
    """Parameter vectors of the combinations at time t (independent product)."""
    d = gen.dims(cfg['spec'])
    if cfg['pmode'] == 'none':
        return [[0.0] * d['p']]
    if cfg['pmode'] == 'fun':
        return [gen.affine(c, t) for c in cfg['pfun']]
    combos = [{}]
    for n, vals in cfg['pvals']:
        combos = [dict(c, **{n: v}) for c in combos for v in vals]
    out = []
    for c in combos:
        v = []
        for n, sh in cfg['spec']['p']:
            a = c.get(n, [0.0] * size(sh))
            v += list(a) if isinstance(a, list) else [a]
        out.append(v)
    return out


def tvp_list(cfg, t):
    return [gen.affine(cfg['tvp'], t + k * cfg['dt']) for k in range(cfg['N'] + 1)]


def place_bounds(cfg, ref, w):
    """Turn the relative margins of the case into numbers around the feasible plan w; fills cfg['nlc'][i]['ub'/'maxv']."""
    d = ref.m.d
    rng = {}
    for kd in ('x', 'u', 'z', 'tb'):
        n = d['x'] if kd == 'tb' else d[kd]
        keys = [k for k in ref.index if (k[0] in ('x', 'xc') if kd == 'x' else (k[0] == 'x' and k[1] == ref.N) if kd == 'tb' else k[0] == kd)]
        if kd == 'x' and ref.N > 1:         # only the points that are bounded
            cc = cfg.get('cons_colloc', True)
            dflt = cfg['use_tb'] and (not cfg['set_tb'] or any(all(v is None for v in b) for b in cfg['B']['tb']))
            keys = [k for k in keys if (k[0] == 'x' and 1 <= k[1] < ref.N + dflt) or (k[0] == 'xc' and cc and k[1] + 1 < ref.N)]
        vals = np.array([w[ref.index[k][0]:ref.index[k][0] + n] for k in keys]).reshape(len(keys), n)
        lo, hi = vals.min(0) if n else vals[:0].ravel(), vals.max(0) if n else vals[:0].ravel()
        lb = [(-np.inf if m is None else float(l - m)) for m, l in zip(cfg['B'][kd][0], lo)]
        ub = [(np.inf if m is None else float(h + m)) for m, h in zip(cfg['B'][kd][1], hi)]
        rng[kd] = (lb, ub)
    B = dict(x=rng['x'], u=rng['u'], z=rng['z'])
    if cfg['use_tb']:
        B['tb'] = list(rng['tb']) if cfg['set_tb'] else [None, None]
        # a terminal bound that is not set at all defaults to the state bound
        for i in (0, 1):
            if B['tb'][i] is None or all(math.isinf(v) for v in B['tb'][i]):
                B['tb'][i] = B['x'][i]
    else:
        B['tb'] = None
    B['tb_set'] = rng['tb'] if cfg['set_tb'] else None
    return B


def nlc_bounds(cfg, ref, w, tvps, ps):
    vals = [[] for _ in cfg['nlc']]
    for k in range(ref.N):
        for c, (s, pi) in enumerate(ref.stages[k + 1]):
            u = ref.get(w, 'u', k, 0 if cfg.get('open_loop') else s)
            pts = [(ref.get(w, 'x', k, s), ref.get(w, 'z', k, c, 0))] + [(ref.get(w, 'xc', k, c, i - 1), ref.get(w, 'z', k, c, i)) for i in range(1, ref.nc)]
            for x, z in pts:
                env = gen.env_of(cfg['spec'], dict(x=x, u=u, z=z, tvp=tvps[k], p=ps[pi]))
                for q, con in enumerate(cfg['nlc']):
                    vals[q].append([ev(t, env) for t in con['expr']])
    for con, v in zip(cfg['nlc'], vals):
        con['ub'] = [float(b + con['margin']) for b in np.max(np.array(v), axis=0)]
        if not con['arr']:
            con['ub'] = [max(con['ub'])] * len(con['ub'])
        if con['maxv'] == 'tight':            # just enough for the feasible plan
            con['maxv'] = max(0.0, -con['margin']) + 0.02
        con['maxv_in'] = con['maxv']
        con['maxv'] = math.inf if con['maxv'] is None else con['maxv']


# --------------------------------------------------------------------------------------------- do_mpc side
def struct_set(prop, head, entries, vals, only=None):
    """Assign values by variable name through an indexed property; skips non-finite blocks."""
    o = 0
    for n, sh in entries:
        v = np.array(vals[o:o + size(sh)], float); o += size(sh)
        if only is not None and n not in only:
            continue
        if np.any(np.isfinite(v)):
            prop[tuple(head) + (n,)] = v.reshape(tuple(sh), order='F') if size(sh) > 1 else float(v[0])


def make_mpc(cfg, B, model=None, store=False, opts=None):
    """Configure a controller through the public interface."""
    import do_mpc, casadi as ca
    spec = cfg['spec']
    if model is None:
        m, hs = gen.build(spec)
    else:
        m, hs = model
    mpc = do_mpc.controller.MPC(m)
    late = cfg.get('late') or []              # bounds that are set between prepare_nlp and create_nlp
    # terminal bounds that are not set before prepare_nlp default to the state bounds: late ones only if all are set
    if B['tb_set'] is None or not all(np.all(np.isfinite(v)) for v in B['tb_set']):
        late = [k for k in late if k != 'tb']

    def put_bounds(kd):
        for bt, i in (('lower', 0), ('upper', 1)):
            if kd != 'tb':
                struct_set(mpc.bounds, [bt, '_' + kd], spec[kd], B[kd][i])
            elif B['tb_set'] is not None:
                struct_set(mpc.terminal_bounds, [bt], spec['x'], B['tb_set'][i])
    s = mpc.settings
    s.n_horizon = cfg['N']; s.t_step = cfg['dt']; s.n_robust = cfg['n_robust']; s.open_loop = bool(cfg['open_loop'])
    if spec['type'] == 'continuous':
        s.collocation_type = cfg['coll']; s.collocation_deg = cfg['deg']; s.collocation_ni = cfg['ni']
    s.use_terminal_bounds = bool(cfg['use_tb']); s.nl_cons_check_colloc_points = bool(cfg['nlc_colloc'])
    s.nl_cons_single_slack = bool(cfg['single_slack']); s.cons_check_colloc_points = bool(cfg['cons_colloc'])
    s.store_full_solution = store
    s.nlpsol_opts = dict({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0, 'ipopt.max_iter': 500}, **(opts or {}))
    T = ca.SX if spec['sym'] == 'SX' else ca.MX
    kw = dict(mterm=T(sy(cfg['mterm'], hs)), lterm=T(sy(cfg['lterm'], hs)))
    if cfg.get('only') in ('l', 'm'):
        del kw['m' * (cfg['only'] == 'l') + 'l' * (cfg['only'] == 'm') + 'term']
    elif cfg.get('only') == 'DM':
        kw['mterm'] = ca.DM(2.0)
    mpc.set_objective(**kw)
    if cfg['rexpr'] is not None:
        h2 = dict(hs, up={n: mpc.u_prev[n] for n, _ in spec['u']})
        mpc.set_rterm(T(sy(cfg['rexpr'], h2)))
    else:
        o = 0; kw = {}
        for n, sh in spec['u']:
            k = size(sh); v = cfg['rterm'][o:o + k]; o += k
            kw[n] = np.array(v).reshape(tuple(sh), order='F') if cfg['rvec'].get(n) else float(v[0])
        if len(kw) > 1 and cfg['x0'][0] > 0:
            for n, v in kw.items():
                mpc.set_rterm(**{n: v})
        else:
            mpc.set_rterm(**kw)
    for kd in ('x', 'u', 'z'):
        sc = cfg['scaling'][kd]
        if any(v != 1.0 for v in sc):
            struct_set(mpc.scaling, ['_' + kd], spec[kd], sc)
        if kd not in late:
            put_bounds(kd)
    if 'tb' not in late:
        put_bounds('tb')
    for i, con in enumerate(cfg['nlc']):
        kw = dict(ub=np.array(con['ub']).reshape(-1, 1) if con['arr'] and len(con['ub']) > 1 else float(con['ub'][0]))
        if con['soft']:
            kw.update(soft_constraint=True, penalty_term_cons=con['pen'])
            if con.get('maxv_in') is not None:
                kw['maximum_violation'] = con['maxv_in']
        mpc.set_nl_cons('con%d' % i, gen.vec(con['expr'], hs, spec['sym']), **kw)
    if spec['tvp']:
        tt = mpc.get_tvp_template()

        def tvp_fun(t):
            tv = tvp_list(cfg, float(np.asarray(t).ravel()[0]))
            for k in range(cfg['N'] + 1):
                o = 0
                for n, sh in spec['tvp']:
                    tt['_tvp', k, n] = np.array(tv[k][o:o + size(sh)]).reshape(tuple(sh), order='F'); o += size(sh)
            return tt
        mpc.set_tvp_fun(tvp_fun)
    if cfg['pmode'] == 'values':
        kw = {}
        for n, vals in cfg['pvals']:
            kw[n] = np.array(vals) if not isinstance(vals[0], list) else [np.array(v) for v in vals]
        mpc.set_uncertainty_values(**kw)
    elif cfg['pmode'] == 'fun':
        pt = mpc.get_p_template(len(cfg['pfun']))

        def p_fun(t):
            for c, v in enumerate(p_list(cfg, float(np.asarray(t).ravel()[0]))):
                o = 0
                for n, sh in spec['p']:
                    pt['_p', c, n] = np.array(v[o:o + size(sh)]).reshape(tuple(sh), order='F'); o += size(sh)
            return pt
        mpc.set_p_fun(p_fun)
    if late:
        mpc.prepare_nlp()
        for kd in late:
            put_bounds(kd)
        mpc.create_nlp()
    else:
        mpc.setup()
    return mpc


@harness
def prepare(cfg, t=None):
    """Reference problem, parameters, bounds of a generated case."""
    t = cfg['t0'] if t is None else t
    ps = p_list(cfg, t)
    ref0 = RefOCP(dict(cfg, nlc=[]), len(ps))
    tvps = tvp_list(cfg, t)
    w = ref0.rollout(cfg['x0'], cfg['uf'], tvps, ps)
    if not np.all(np.isfinite(w)) or np.abs(w).max() > 50:
        raise Inconclusive('plan not bounded')
    B = place_bounds(cfg, ref0, w)
    nlc_bounds(cfg, ref0, w, tvps, ps)
    ref = RefOCP(cfg, len(ps)) if cfg['nlc'] else ref0
    w2 = np.zeros(ref.nw)
    for key, (o, n) in ref.index.items():
        if key[0] == 'e':
            w2[o:o + n] = 0.31
        elif n:
            w2[o:o + n] = ref0.get(w, *key)
    return ref, B, w2


def rejects(o, ref, w, scal, tol=1e-5):
    """Does the problem of the object (after a failed step) exclude w, which is feasible for the reference? False: the solver merely gave up."""
    import casadi as ca
    o.opt_x_num.master[:] = np.nan
    ref.write(o.opt_x_num, w, scal)
    x = o.opt_x_num.master.full().ravel(); x = x.copy(); m = np.isfinite(x)
    lb, ub = [ca.DM(b.master).full().ravel() for b in (o._lb_opt_x, o._ub_opt_x)]
    sc = max(1.0, np.abs(x[m]).max())
    x[~m] = 0.0
    o.opt_x_num.master[:] = x
    g = ca.Function('g', [o.opt_x, o.opt_p], [o.nlp_cons])(o.opt_x_num, o.opt_p_num).full().ravel()
    gl, gu = [ca.DM(b).full().ravel() for b in (o.nlp_cons_lb, o.nlp_cons_ub)]
    return bool((lb - x)[m].max() > tol * sc or (x - ub)[m].max() > tol * sc or np.max(gl - g) > tol * sc or np.max(g - gu) > tol * sc)


def step(mpc, ref, cfg, B, x0, t, uprev, wfeas, strict=True):
    """One make_step judged against the reference problem; returns (u0, w, info)."""
    ps, tvps = p_list(cfg, t), tvp_list(cfg, t)
    par = ref.params(x0, uprev, tvps, ps)
    lb, ub = ref.bounds(B)
    u0 = mpc.make_step(np.array(x0, float).reshape(-1, 1))
    ok = bool(mpc.solver_stats['success'])
    return u0, ok, par, lb, ub
