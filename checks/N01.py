"""N01: parametric sensitivities of NLP, MPC and MHE solutions."""
import copy, logging
import numpy as np
import casadi as ca
from casadi.tools import indexf
from lib.vf import Prop, st, require, Inconclusive, harness
from lib import gen, ocp, est

logging.disable(logging.CRITICAL)
P = Prop('N01', '(a) exact: NLPs constructed from a chosen solution, chosen multipliers and a chosen active set (bounds, one- and two-sided inequalities, equalities, unused variables and parameters); '
         'derivatives from the implicit function theorem, evaluated with own dense algebra; degenerate active sets (dependent constraints, zero multipliers) must be reported. (b) resolve: random NLPs solved with '
         'IPOPT, derivatives by differences of re-solved problems. (c) mpc / mhe: generated controllers and estimators (scaling, robust trees, DAE, runtime bound changes), sensitivities in physical units against '
         're-solved problems. Non-trivial: a regular solution with a non-zero sensitivity that was decided.',
         ['central differences with two step sizes agree; otherwise undecided'])
SOLVERS = ['casadi', 'scipy', 'lstsq']
TIGHT = {'ipopt.tol': 1e-11, 'ipopt.bound_relax_factor': 0.0, 'ipopt.acceptable_iter': 0, 'ipopt.constr_viol_tol': 1e-10, 'ipopt.dual_inf_tol': 1e-9, 'ipopt.compl_inf_tol': 1e-10,
         'ipopt.nlp_scaling_method': 'none'}


def dense(a):
    return np.array(a.toarray() if hasattr(a, 'toarray') else a, float)


def make(nlp, bounds, how, settings, late):
    from do_mpc.differentiator import NLPDifferentiator
    conv = {'dm': lambda v: ca.DM(v), 'col': lambda v: np.array(v).reshape(-1, 1), 'flat': lambda v: np.array(v)}[how]
    b = {k: conv(v) for k, v in bounds.items()}
    if late:
        D = NLPDifferentiator(nlp, b)
        for k, v in explicit(settings).items():
            setattr(D.settings, k, v)
    else:
        D = NLPDifferentiator(nlp, b, **explicit(settings))
    return D


DEFAULTS = dict(lin_solver='casadi', set_lam_zero=False, check_rank=False, check_LICQ=True, check_SC=True, track_residuals=True, lstsq_fallback=False)


def explicit(se):
    """the documented defaults are not passed"""
    return {} if se == DEFAULTS else se


@st.composite
def settings(draw):
    if draw(st.integers(0, 3)) == 0:
        return dict(DEFAULTS)
    return dict(lin_solver=draw(st.sampled_from(SOLVERS)), set_lam_zero=draw(st.booleans()), check_rank=draw(st.booleans()), check_LICQ=draw(st.integers(0, 3)) > 0,
                check_SC=draw(st.integers(0, 3)) > 0, track_residuals=draw(st.booleans()), lstsq_fallback=draw(st.booleans()))


# ---------------------------------------------------------------------------------------------------------------- exact
@st.composite
def exact_cases(draw):
    n, m, k = draw(st.integers(1, 5)), draw(st.integers(0, 3)), draw(st.integers(1, 3))
    xa = [draw(st.sampled_from(['free', 'in', 'lo', 'up', 'fix'])) for _ in range(n)]
    ga = [draw(st.sampled_from(['eq', 'lo', 'up', 'in', 'eq'])) for _ in range(m)]
    return dict(n=n, m=m, k=k, seed=draw(st.integers(0, 10 ** 6)), xa=xa, ga=ga, unused_x=[draw(st.integers(0, 5)) == 0 for _ in range(n)] if n > 1 else [False],
                unused_p=[draw(st.integers(0, 4)) == 0 for _ in range(k)] if k > 1 else [False], degen=draw(st.sampled_from([None, None, None, 'dup', 'zero', 'eqzero'])),
                two=[draw(st.booleans()) for _ in range(n + m)], smooth=draw(st.booleans()), settings=draw(settings()), how=draw(st.sampled_from(['dm', 'col', 'flat'])), late=draw(st.booleans()),
                pform=draw(st.sampled_from(['dm', 'np', 'np1'])), again=draw(st.booleans()))


@harness
def construct(case):
    rng = np.random.default_rng(case['seed'])
    n, m, k = case['n'], case['m'], case['k']
    r = lambda *s: np.round(rng.uniform(-1, 1, s) * 8) / 8
    ux, upar = np.array(case['unused_x'], bool), np.array(case['unused_p'], bool)
    if ux.all():
        ux[0] = False
    x = ca.SX.sym('x', n); p = ca.SX.sym('p', k)
    xs, ps = r(n), r(k)
    M = r(n, n); Q = M @ M.T + np.eye(n)
    C = r(n, k); Cx = 0.2 * r(n, k)              # bilinear terms p_j x_i^2
    A = r(m, n); Dg = r(m, k); S = 0.3 * r(m, n)   # g = A x + D p + S sin(x) + coupling x_0 p_0
    W = 0.4 * r(m)
    for a in (C, Cx):
        a[:, upar] = 0; a[ux] = 0
    Dg[:, upar] = 0; A[:, ux] = 0; S[:, ux] = 0; Q[ux] = 0; Q[:, ux] = 0
    if ux[0] or upar[0]:
        W[:] = 0
    xa, ga = list(case['xa']), list(case['ga'])
    for i in range(n):
        if ux[i]:
            xa[i] = 'in' if case['two'][i] else 'free'
    if case['degen'] == 'dup' and m >= 2:
        A[1] = 2 * A[0]; S[1] = 2 * S[0]; W[1] = 2 * W[0]; Dg[1] = 2 * Dg[0]; ga[0] = ga[1] = 'eq' if case['two'][0] else 'up'
        if not np.any(np.abs(A[0]) + np.abs(S[0])):
            A[0, np.where(~ux)[0][0]] = 1; A[1] = 2 * A[0]
    # expressions
    e4 = 0.1 if case['smooth'] else 0.0
    q4 = np.where(ux, 0, e4)
    pq = np.where(upar, 0, 1.0)

    def f0(x, p, s):       # objective without the linear term chosen below
        xx = x
        return 0.5 * ca.mtimes([xx.T, ca.DM(Q), xx]) + ca.mtimes([xx.T, ca.DM(C), p]) + ca.dot(ca.mtimes(ca.DM(Cx), p), xx ** 2) * 0.5 + ca.dot(ca.DM(q4), xx ** 4) + ca.dot(ca.DM(0.3 * pq), p ** 2)

    # numbers by hand
    gnum = lambda xv, pv: A @ xv + Dg @ pv + S @ np.sin(xv) + W * xv[0] * pv[0]
    gx = lambda xv, pv: A + S * np.cos(xv)[None, :] + np.outer(W * pv[0], np.eye(n)[0])
    gp = lambda xv, pv: Dg + np.outer(W * xv[0], np.eye(k)[0])
    fx = lambda xv, pv: Q @ xv + C @ pv + (Cx @ pv) * xv + 4 * q4 * xv ** 3
    fxx = lambda xv, pv, lam: Q + np.diag(Cx @ pv + 12 * q4 * xv ** 2 - (lam @ S if m else 0) * np.sin(xv))
    fxp = lambda xv, pv, lam: C + Cx * xv[:, None] + (np.outer(np.eye(n)[0], np.eye(k)[0]) * float(lam @ W) if m else 0)
    gs = gnum(xs, ps)
    lam_g, lam_x = np.zeros(m), np.zeros(n)
    lbg, ubg, lbx, ubx = np.full(m, -np.inf), np.full(m, np.inf), np.full(n, -np.inf), np.full(n, np.inf)
    mag = lambda: float(rng.choice([0.125, 0.5, 1.0, 2.0]))
    zero = None

    def place(kind, i, val, lb, ub, lam, two):
        if kind in ('eq', 'fix'):
            lb[i] = ub[i] = val; lam[i] = mag() * rng.choice([-1, 1])
        elif kind == 'lo':
            lb[i] = val; lam[i] = -mag(); ub[i] = val + mag() if two else np.inf
        elif kind == 'up':
            ub[i] = val; lam[i] = mag(); lb[i] = val - mag() if two else -np.inf
        elif kind == 'in':
            ub[i] = val + mag()
            lb[i] = val - mag() if two else -np.inf
    for i in range(m):
        place(ga[i], i, gs[i], lbg, ubg, lam_g, case['two'][n + i])
    for i in range(n):
        place(xa[i], i, xs[i], lbx, ubx, lam_x, case['two'][i])
    acts = [(lam_g, i, ga[i]) for i in range(m) if ga[i] != 'in'] + [(lam_x, i, xa[i]) for i in range(n) if xa[i] not in ('free', 'in')]
    if case['degen'] == 'zero':
        c = [a for a in acts if a[2] in ('lo', 'up')]
        if c:
            c[0][0][c[0][1]] = 0.0; zero = True
    if case['degen'] == 'eqzero':
        c = [a for a in acts if a[2] in ('eq', 'fix')]
        if c:
            c[0][0][c[0][1]] = 0.0; zero = False
    GX = gx(xs, ps)
    c = -(fx(xs, ps) + (GX.T @ lam_g if m else 0) + lam_x)
    c[ux] = 0
    f = f0(x, p, None) + ca.dot(ca.DM(c), x)
    g = ca.mtimes(ca.DM(A), x) + ca.mtimes(ca.DM(Dg), p) + ca.mtimes(ca.DM(S), ca.sin(x)) + ca.DM(W) * x[0] * p[0] if m else ca.SX(0, 1)
    g = ca.sparsify(g) if m else g
    f = ca.simplify(f)
    act_g = [i for i in range(m) if ga[i] != 'in']; act_x = [i for i in range(n) if xa[i] not in ('free', 'in')]
    J = np.vstack([GX[act_g], np.eye(n)[act_x]]).reshape(-1, n)
    na = J.shape[0]
    det = np.where(~ux)[0]
    sv = np.linalg.svd(J[:, det], compute_uv=False) if na else np.array([1.0])
    licq = na <= len(det) and (na == 0 or sv.min() > 1e-6)
    dep = na > len(det) or (na and sv.min() < 1e-12)
    H = fxx(xs, ps, lam_g)
    K = np.block([[H, J.T], [J, np.zeros((na, na))]])
    keep = [i for i in range(n + na) if i >= n or not ux[i]]
    K = K[np.ix_(keep, keep)]
    R = -np.vstack([fxp(xs, ps, lam_g), gp(xs, ps)[act_g], np.zeros((len(act_x), k))])[keep]
    ks = np.linalg.svd(K, compute_uv=False)
    reg = licq and ks.min() > 1e-3
    dx, dl = np.zeros((n, k)), np.zeros((m + n, k))
    if reg:
        sol = np.linalg.solve(K, R)
        dx[det] = sol[:len(det)]
        dl[[*act_g, *[m + i for i in act_x]]] = sol[len(det):]
    # second-order condition: reduced Hessian positive definite
    return dict(nlp=dict(x=x, p=p, f=f, g=g), bounds=dict(lbx=lbx, ubx=ubx, lbg=lbg, ubg=ubg), sol=dict(x=ca.DM(xs), lam_g=ca.DM(lam_g.reshape(-1, 1)), lam_x=ca.DM(lam_x), g=ca.DM(gs.reshape(-1, 1)), f=ca.DM(0)),
                ps=ps, reg=bool(reg), licq=bool(licq), dep=bool(dep), zero=zero, dx=dx, dl=dl, ks=ks, na=na, gap=sv.min())


def exact(case):
    c = construct(case)
    se = case['settings']
    D = make(c['nlp'], c['bounds'], case['how'], se, case['late'])
    pv = {'dm': lambda: ca.DM(c['ps']), 'np': lambda: c['ps'].reshape(-1, 1).copy(), 'np1': lambda: c['ps'].copy()}[case['pform']]()
    keep = {q: np.array(v) for q, v in c['sol'].items()}; bk = {q: v.copy() for q, v in c['bounds'].items()}
    if case['again']:           # an earlier call for another point does not influence this one
        s2 = dict(c['sol']); s2['x'] = s2['x'] + 0.01; s2['g'] = s2['g'] + 0.01
        D.differentiate(s2, pv)
    dx, dl = D.differentiate(c['sol'], pv)
    dx, dl = dense(dx), dense(dl)
    lab = ['regular' if c['reg'] else 'singular', se['lin_solver']]
    n, m, k = case['n'], case['m'], case['k']
    require(dx.shape == (n, k) and dl.shape == (n + m, k), 'shapes of the sensitivities %s, %s for n=%d m=%d p=%d', dx.shape, dl.shape, n, m, k)
    for q, v in keep.items():
        require(np.array_equal(np.array(c['sol'][q]), v), 'differentiate changed the passed solution entry %s', q)
    for q, v in bk.items():
        require(np.array_equal(c['bounds'][q], v), 'differentiate changed the passed bounds %s', q)
    S = D.status
    fin = np.all(np.isfinite(dx)) and np.all(np.isfinite(dl))
    require(fin or not S.lse_solved, 'non-finite sensitivities although the linear system is reported as solved')
    if c['reg']:
        require(fin and S.lse_solved, 'no sensitivities at a regular solution (smallest singular value %.1e)', c['ks'].min())
        tol = 1e-7 * max(1, c['ks'].max() / c['ks'].min())
        require(np.abs(dx - c['dx']).max() <= tol * max(1, np.abs(c['dx']).max()), 'dx/dp = %s, implicit function theorem %s', np.round(dx, 5).tolist(), np.round(c['dx'], 5).tolist())
        require(np.abs(dl - c['dl']).max() <= tol * max(1, np.abs(c['dl']).max()), 'dlam/dp = %s, implicit function theorem %s', np.round(dl, 5).tolist(), np.round(c['dl'], 5).tolist())
        if se['check_rank']:
            require(S.full_rank, 'regular KKT matrix reported as rank deficient')
        if se['track_residuals']:
            require(float(np.array(S.residuals).ravel()[0]) <= 1e-6 * max(1, c['ks'].max()), 'residual %s of a solved linear system', S.residuals)
    if se['check_LICQ']:
        if c['licq']:
            require(S.LICQ, 'LICQ holds (smallest singular value %.2e of %d active gradients) but is reported as violated', c['gap'], c['na'])
        elif c['dep']:
            require(S.LICQ is not None and not S.LICQ, 'linearly dependent active constraints, LICQ reported as %s', S.LICQ)
            lab.append('LICQ')
    elif not case['late'] and not case['again']:
        require(S.LICQ is None, 'LICQ is %s although not checked', S.LICQ)
    if se['check_SC']:
        if c['zero']:
            require(S.SC is not None and not S.SC, 'active inequality with zero multiplier, strict complementarity reported as %s', S.SC); lab.append('SC')
        else:
            require(S.SC, 'strict complementarity holds but is reported as violated (equality multipliers may vanish: %s)', c['zero'] is False)
    if c['dep'] and se['check_rank']:
        require(not S.full_rank, 'singular KKT matrix reported as full rank')
    return dict(nontrivial=bool(c['reg'] and np.abs(c['dx']).max() > 1e-3), labels=lab + (['reduced'] if S.reduced_nlp else []), inconclusive=None)


P.test('exact', exact_cases(), 3000, 60000)(exact)


# ---------------------------------------------------------------------------------------------------------------- re-solved
class Undecided(Inconclusive):
    pass


@harness
def kkt_margins(x, g, lam_x, lam_g, b):
    """Active set with margins; raises Undecided when the solution is (nearly) degenerate."""
    act = []
    for v, l, lb, ub, nm in ((x, lam_x, b['lbx'], b['ubx'], 'x'), (g, lam_g, b['lbg'], b['ubg'], 'g')):
        v, l, lb, ub = (np.asarray(a, float).ravel() for a in (v, l, lb, ub))
        for i in range(v.size):
            if lb[i] == ub[i]:
                act.append((nm, i)); continue
            dist = min(v[i] - lb[i], ub[i] - v[i])
            if dist < 1e-6:
                if abs(l[i]) < 1e-3:
                    raise Undecided('weakly active')
                act.append((nm, i))
            elif dist < 1e-3:
                raise Undecided('close to a bound')
            elif abs(l[i]) > 1e-5:
                raise Undecided('inaccurate multiplier')
    return act


@harness
def differences(solve, p0, cols, act0, h=2e-4):
    """solve(p) -> (x, lam, act); central differences for the listed columns, None where undecided."""
    out = {}
    for j in cols:
        e = np.zeros_like(p0); e[j] = 1.0
        hh = h * max(1.0, abs(p0[j]))
        try:
            D = []
            for s in (hh, 2 * hh):
                a, b = solve(p0 + s * e), solve(p0 - s * e)
                if a[2] != act0 or b[2] != act0:
                    raise Undecided('active set changes')
                D.append([(a[q] - b[q]) / (2 * s) for q in (0, 1)])
        except Undecided:
            continue
        r = [(4 * D[0][q] - D[1][q]) / 3 for q in (0, 1)]
        err = [np.abs(D[0][q] - D[1][q]).max(initial=0) for q in (0, 1)]
        if max(err) > 1e-2 * max(1, np.abs(r[0]).max(initial=0), np.abs(r[1]).max(initial=0)):
            continue
        out[j] = (r[0], r[1], err[0], err[1])
    return out


def compare(dx, dl, out, what, with_l=True):
    for j, (fx, fl, ex, el) in out.items():
        tx = 2e-4 * max(1, np.abs(fx).max(initial=0)) + ex
        require(np.abs(dx[:, j] - fx).max(initial=0) <= tx, '%s: dx/dp[%d] = %s, re-solved problem %s', what, j, np.round(dx[:, j], 5).tolist(), np.round(fx, 5).tolist())
        if with_l:
            tl = 2e-3 * max(1, np.abs(fl).max(initial=0)) + el
            require(np.abs(dl[:, j] - fl).max(initial=0) <= tl, '%s: dlam/dp[%d] = %s, re-solved problem %s', what, j, np.round(dl[:, j], 5).tolist(), np.round(fl, 5).tolist())


@st.composite
def resolve_cases(draw):
    n, m, k = draw(st.integers(2, 5)), draw(st.integers(0, 3)), draw(st.integers(1, 3))
    return dict(n=n, m=m, k=k, seed=draw(st.integers(0, 10 ** 6)), gk=[draw(st.sampled_from(['eq', 'up', 'lo', 'both', 'up'])) for _ in range(m)],
                xk=[draw(st.sampled_from(['free', 'up', 'lo', 'both', 'tight'])) for _ in range(n)], settings=draw(settings()), how=draw(st.sampled_from(['dm', 'col', 'flat'])),
                nonlin=draw(st.booleans()), unused=draw(st.booleans()))


@harness
def random_nlp(case):
    rng = np.random.default_rng(case['seed'])
    r = lambda *s: rng.uniform(-1, 1, s)
    n, m, k = case['n'], case['m'], case['k']
    nn, kk = (n + 1, k + 1) if case['unused'] else (n, k)
    X = ca.SX.sym('x', nn); Pm = ca.SX.sym('p', kk)
    pos = int(rng.integers(0, nn)) if case['unused'] else None
    ppos = int(rng.integers(0, kk)) if case['unused'] else None
    xi = [i for i in range(nn) if i != pos]; pi = [i for i in range(kk) if i != ppos]
    x = X[xi]; p = Pm[pi]
    M = r(n, n); Q = M @ M.T + 0.5 * np.eye(n)
    f = 0.5 * ca.mtimes([x.T, ca.DM(Q), x]) + ca.mtimes([x.T, ca.DM(2 * r(n, k)), p]) + ca.dot(ca.DM(3 * r(n)), x)
    if case['nonlin']:
        f += 0.1 * ca.sumsqr(x * x) + 0.5 * ca.log(1 + ca.exp(x[0] * p[0] - p[-1])) + 0.2 * ca.sin(p[0]) * x[1] ** 2
    xf = 0.5 * r(n); ps = r(k)
    gs, lbg, ubg = [], [], []
    for i in range(m):
        e = ca.dot(ca.DM(r(n)), x) + ca.dot(ca.DM(r(k)), p)
        if case['nonlin']:
            e += 0.3 * ca.sin(x[i % n] + p[0]) + 0.2 * x[0] * p[-1]
        v = float(ca.Function('e', [X, Pm], [e])(np.insert(xf, pos, 0) if pos is not None else xf, np.insert(ps, ppos, 0) if ppos is not None else ps))
        gs.append(e); kd = case['gk'][i]; mg = float(rng.choice([0.0, 0.1, 0.5]))
        lbg.append(v if kd == 'eq' else v - mg if kd in ('lo', 'both') else -np.inf)
        ubg.append(v if kd == 'eq' else v + mg + 0.05 if kd in ('up', 'both') else np.inf)
    lbx, ubx = np.full(nn, -np.inf), np.full(nn, np.inf)
    for q, i in enumerate(xi):
        kd = case['xk'][q]; mg = 0.05 if kd == 'tight' else 0.5
        if kd in ('lo', 'both', 'tight'):
            lbx[i] = xf[q] - mg
        if kd in ('up', 'both', 'tight'):
            ubx[i] = xf[q] + mg
    pv = np.insert(ps, ppos, 0.3) if ppos is not None else ps
    return dict(x=X, p=Pm, f=f, g=ca.vertcat(*gs) if gs else ca.SX(0, 1)), dict(lbx=lbx, ubx=ubx, lbg=np.array(lbg), ubg=np.array(ubg)), pv, np.insert(xf, pos, 0.0) if pos is not None else xf


@harness
def solver_of(nlp, b, x0, base=None):
    S = ca.nlpsol('S', 'ipopt', nlp, dict({'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0}, **TIGHT))

    def solve(p, full=False):
        r = S(x0=x0, p=p, lbx=b['lbx'], ubx=b['ubx'], lbg=b['lbg'], ubg=b['ubg'])
        if not S.stats()['success']:
            raise Undecided('not solved')
        act = kkt_margins(r['x'], r['g'], r['lam_x'], r['lam_g'], b)
        return np.array(r['x']).ravel(), np.array(ca.vertcat(r['lam_g'], r['lam_x'])).ravel(), act, (r if full else None)
    return solve


def resolve(case):
    nlp, b, pv, xf = random_nlp(case)
    solve = solver_of(nlp, b, xf)
    try:
        x, lam, act, r = solve(pv, True)
        J = np.array(ca.Function('J', [nlp['x'], nlp['p']], [ca.jacobian(nlp['g'], nlp['x'])])(x, pv)) if case['m'] else np.zeros((0, x.size))
        A = np.vstack([J[i] if nm == 'g' else np.eye(x.size)[i] for nm, i in act]) if act else np.zeros((0, x.size))
        if A.shape[0] and (A.shape[0] > A.shape[1] or np.linalg.svd(A, compute_uv=False).min() < 1e-3):
            raise Undecided('no LICQ')
    except Undecided as e:
        raise Inconclusive(str(e))
    D = make(nlp, b, case['how'], case['settings'], False)
    dx, dl = (dense(v) for v in D.differentiate(r, ca.DM(pv)))
    require(D.status.lse_solved, 'linear system not solved at a regular solution')
    se = case['settings']
    if se['check_LICQ']:
        require(D.status.LICQ, 'LICQ reported as violated at a regular solution')
    if se['check_SC']:
        require(D.status.SC, 'strict complementarity reported as violated at a regular solution')
    out = differences(solve, pv, range(pv.size), act)
    idle = [i for i in range(x.size) if not ca.depends_on(ca.vertcat(nlp['f'], nlp['g']), nlp['x'][i])]
    require(np.all(dx[idle] == 0), 'sensitivity of an unused variable')
    for v in out.values():
        v[0][idle] = 0
    compare(dx, dl, out, 'NLP')
    if not out:
        raise Inconclusive('differences undecided')
    return dict(nontrivial=max(np.abs(o[0]).max() for o in out.values()) > 1e-3, labels=['act%d' % min(len(act), 4), se['lin_solver']], inconclusive=None)


P.test('resolve', resolve_cases(), 300, 6000)(resolve)


# ---------------------------------------------------------------------------------------------------------------- MPC / MHE
@st.composite
def mpc_cases(draw):
    cfg = draw(ocp.mpc_cfg(syms=('SX',), robust=draw(st.integers(0, 3)) == 0, max_N=3, scales=(1.0, 1.0, 0.5, 4.0, 10.0)))
    for con in cfg['nlc']:
        pass
    return dict(cfg=cfg, settings=draw(settings()), steps=draw(st.integers(1, 2)), dx=draw(st.lists(gen.nice(-.3, .3), min_size=4, max_size=4)),
                change=[draw(st.booleans()), draw(st.integers(0, 1)), draw(st.integers(0, 3)), draw(st.sampled_from([0.02, 0.1, 0.3]))], cols=draw(st.integers(0, 10 ** 6)))


def optimizer_reference(o, case, regular):
    """Re-solving the optimizer's own problem with the numbers of the last call."""
    b = dict(lbx=np.array(ca.vertcat(o._lb_opt_x)).ravel(), ubx=np.array(ca.vertcat(o._ub_opt_x)).ravel(), lbg=np.array(o.nlp_cons_lb).ravel(), ubg=np.array(o.nlp_cons_ub).ravel())
    x0 = np.array(ca.vertcat(o.opt_x_num)).ravel()
    lg, lx = o.lam_g_num, o.lam_x_num

    def solve(p, full=False):
        r = o.S(x0=x0, lam_g0=lg, lam_x0=lx, p=p, lbx=b['lbx'], ubx=b['ubx'], lbg=b['lbg'], ubg=b['ubg'])
        if not o.S.stats()['success']:
            raise Undecided('not solved')
        act = kkt_margins(r['x'], r['g'], r['lam_x'], r['lam_g'], b)
        return np.array(r['x']).ravel(), np.array(ca.vertcat(r['lam_g'], r['lam_x'])).ravel(), act, r
    return solve, b


@harness
def regularity(o, b, act, x, p, lam):
    """Own check of LICQ and of a non-singular KKT matrix."""
    X, Pm = ca.vertcat(o.opt_x), ca.vertcat(o.opt_p)
    J = ca.jacobian(o.nlp_cons, X)
    lg = ca.SX.sym('lg', o.nlp_cons.shape[0])
    H = ca.hessian(o.nlp_obj + ca.dot(lg, o.nlp_cons), X)[0]
    F = ca.Function('F', [X, Pm, lg], [J, H])
    Jn, Hn = (np.array(ca.densify(v)) for v in F(x, p, lam[:o.nlp_cons.shape[0]]))
    used = np.where(np.any(Jn != 0, axis=0) | np.any(Hn != 0, axis=0) | (np.array([any(nm == 'x' and i == q for nm, i in act) for q in range(x.size)])))[0]
    A = np.vstack([Jn[i] if nm == 'g' else np.eye(x.size)[i] for nm, i in act]) if act else np.zeros((0, x.size))
    A = A[:, used]
    if A.shape[0] > A.shape[1] or (A.shape[0] and np.linalg.svd(A, compute_uv=False).min() < 1e-5):
        raise Undecided('no LICQ')
    K = np.block([[Hn[np.ix_(used, used)], A.T], [A, np.zeros((A.shape[0],) * 2)]])
    s = np.linalg.svd(K, compute_uv=False)
    if s.min() < 1e-5:
        raise Undecided('singular')
    return used


def diff_optimizer(o, D, case, what, sel):
    """Differentiator of an optimizer against its re-solved problem; returns (labels, nonzero, dxdp, FD) or raises Undecided."""
    p0 = np.array(ca.vertcat(o.opt_p_num)).ravel()
    solve, b = optimizer_reference(o, case, None)
    x, lam, act, _ = solve(p0)
    if np.abs(x - np.array(ca.vertcat(o.opt_x_num)).ravel()).max() > 1e-5 * max(1.0, np.abs(x).max()):
        raise Undecided('the reference arrives at another local optimum')
    used = regularity(o, b, act, x, p0, lam)
    dx, dl = D.differentiate()
    dx, dl = dense(dx), dense(dl)
    require(D.status.lse_solved, '%s: linear system not solved at a regular solution', what)
    se = case['settings']
    if se['check_LICQ']:
        require(D.status.LICQ, '%s: LICQ reported as violated at a regular solution', what)
    if se['check_SC']:
        require(D.status.SC, '%s: strict complementarity reported as violated at a regular solution', what)
    out = differences(solve, p0, sel, act)
    sc = np.array(ca.vertcat(o.opt_x_scaling)).ravel()
    idle = np.setdiff1d(np.arange(x.size), used)          # variables without any influence are not determined by the problem
    require(np.all(dx[idle] == 0), '%s: sensitivity of an unused variable', what)
    for v in out.values():
        v[0][idle] = 0
    out = {j: (v[0] * sc, v[1], v[2] * sc.max(), v[3]) for j, v in out.items()}
    compare(dx, dl, out, what)
    return dx, out, act


def mpc_run(case):
    from do_mpc.differentiator import DoMPCDifferentiator
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf = ocp.prepare(cfg)
    d, spec = ref.m.d, cfg['spec']
    mpc = ocp.make_mpc(cfg, B, opts=TIGHT)
    col = lambda v: np.array(v, float).reshape(-1, 1)
    mpc.t0 = float(cfg['t0']); mpc.u0 = col(cfg['uprev']); mpc.x0 = col(cfg['x0']); mpc.set_initial_guess()
    D = DoMPCDifferentiator(mpc, **explicit(case['settings']))
    x = np.array(cfg['x0'], float)
    labs, nz, dec = set(), False, 0
    rng = np.random.default_rng(case['cols'])
    for k in range(case['steps']):
        if k == 1 and case['change'][0] and d['u']:
            labs.add('bound')
            _, side, q, amt = case['change']
            n, sh = spec['u'][q % len(spec['u'])]
            cur = np.array(mpc.u0[n]).ravel(); kind = ('lower', 'upper')[side]
            lo, up = np.array(mpc.bounds['lower', '_u', n]).ravel(), np.array(mpc.bounds['upper', '_u', n]).ravel()
            v = np.minimum(cur - amt, up - 0.05) if side == 0 else np.maximum(cur + amt, lo + 0.05)
            mpc.bounds[kind, '_u', n] = v.reshape(tuple(sh), order='F') if gen.size(sh) > 1 else float(v[0])
        up = np.array(mpc.u0.cat).ravel(); t = float(np.asarray(mpc.t0).ravel()[0])
        u = mpc.make_step(col(x))
        if not mpc.solver_stats['success']:
            raise Inconclusive('not solved')
        P_ = mpc.opt_p
        names = {'_x0': range(d['x']), '_u_prev': range(d['u'])}
        lab_p = P_.labels()
        sel = [i for i, s in enumerate(lab_p) if s.startswith('[_x0') or s.startswith('[_u_prev')]
        rest = [i for i, s in enumerate(lab_p) if i not in sel]
        sel = list(rng.permutation(sel)[:4]) + list(rng.permutation(rest)[:4])
        try:
            dx, out, act = diff_optimizer(mpc, D, case, 'step %d' % k, [int(i) for i in sel])
        except Undecided as e:
            labs.add(str(e))
            x = ref.get(ref.read(mpc.opt_x_num_unscaled), 'x', 1, 0) + 0.3 * np.resize(np.array(case['dx']), d['x'])
            continue
        if out:
            dec += 1
        nz |= any(np.abs(v[0]).max() > 1e-3 for v in out.values())
        labs.add('act%d' % min(3, sum(nm == 'x' for nm, _ in act)))
        # power indices of the documented structure
        du = np.array(D.sens_num['dxdp', indexf['_u', 0, 0], indexf['_x0']])
        o = mpc.opt_x; iu = [i for i, s in enumerate(o.labels()) if s.startswith('[_u,0,0,') or s.startswith('[_u,0,0')]
        ix = [i for i, s in enumerate(lab_p) if s.startswith('[_x0')]
        require(gen.close(du, dx[np.ix_(iu, ix)], 1e-12, 1e-12), 'sens_num of the first input is %s, matrix rows %s', du, dx[np.ix_(iu, ix)])
        # physical units end to end: the same controller configured once more and called from perturbed states
        if k == 0 and out:
            j = int(rng.integers(0, d['x'])); h = 1e-4
            us = []
            tw = ocp.make_mpc(cfg, B, opts=TIGHT)
            for s in (h, -h, 2 * h, -2 * h):
                tw.reset_history(); tw.t0 = t; tw.u0 = col(up); tw.x0 = col(x); tw.set_initial_guess()
                tw.opt_x_num.master = ca.DM(mpc.opt_x_num.cat)
                e = np.zeros(d['x']); e[j] = s
                us.append(tw.make_step(col(x + e)).ravel())
                if not tw.solver_stats['success']:
                    us = None; break
            if us is not None:
                f1, f2 = (us[0] - us[1]) / (2 * h), (us[2] - us[3]) / (4 * h)
                if np.abs(f1 - f2).max(initial=0) <= 1e-3 * max(1, np.abs(f1).max(initial=0)) and ix[j] in out:
                    require(np.abs(du[:, j] - f1).max(initial=0) <= 1e-3 * max(1, np.abs(f1).max(initial=0)), 'du0/dx0[%d] = %s, perturbed closed loop %s', j, du[:, j], f1)
                    labs.add('physical')
        x = ref.get(ref.read(mpc.opt_x_num_unscaled), 'x', 1, 0) + 0.3 * np.resize(np.array(case['dx']), d['x'])
    if not dec:
        raise Inconclusive('no regular solution')
    return dict(nontrivial=bool(nz), labels=sorted(labs) + (['scaled'] if any(v != 1 for kd in 'xuz' for v in cfg['scaling'][kd]) else []) + ([] if cfg['n_robust'] == 0 else ['robust']), inconclusive=None)


P.test('mpc', mpc_cases(), 120, 3000)(mpc_run)


@st.composite
def mhe_cases(draw):
    cfg = draw(est.mhe_cfg(syms=("SX",), max_N=3, custom=False, constraints=draw(st.booleans())))
    return dict(cfg=cfg, settings=draw(settings()), cols=draw(st.integers(0, 10 ** 6)))


def mhe_run(case):
    from do_mpc.differentiator import DoMPCDifferentiator
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf, ys = est.prepare(cfg)
    xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
    win = est.Win(ys)
    mhe = est.make_mhe(cfg, B, win=win, opts=TIGHT)
    mhe.t0 = cfg['t0']
    est.start(mhe, cfg, ref, xp, pp)
    D = DoMPCDifferentiator(mhe, **explicit(case['settings']))
    mhe.make_step(np.array(ys[-1], float).reshape(-1, 1))
    if not mhe.solver_stats['success']:
        raise Inconclusive('not solved')
    rng = np.random.default_rng(case['cols'])
    sel = [int(i) for i in rng.permutation(np.array(ca.vertcat(mhe.opt_p_num)).size)[:6]]
    try:
        dx, o, act = diff_optimizer(mhe, D, case, 'MHE', sel)
    except Undecided as e:
        raise Inconclusive(str(e))
    if not o:
        raise Inconclusive('differences undecided')
    return dict(nontrivial=any(np.abs(v[0]).max() > 1e-3 for v in o.values()), labels=['act%d' % min(3, sum(nm == 'x' for nm, _ in act))], inconclusive=None)


P.test('mhe', mhe_cases(), 60, 1500)(mhe_run)
if __name__ == '__main__':
    P.main()
