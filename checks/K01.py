"""K01: LQR gains are those of the declared problem."""
import numpy as np
from lib.vf import Prop, st, require, harness, Inconclusive
from lib import gen
from checks.L02 import linspec, nel, mat, expm

P = Prop('K01', 'Random discrete linear models (stable, unstable, integrating, singular A; names and shapes random; declared directly, by equations '
         'or by discretizing a continuous model), positive (semi)definite weights, finite (1-8) and infinite horizons, with and without terminal weight '
         'and input-rate penalization, order of the configuration calls random. Oracle: the returned input for random states equals the first input of '
         'the minimiser of the declared cost, computed as one dense least-squares problem over the whole input sequence (infinite horizon: long horizon '
         'closed by the converged own Riccati iteration), and the closed loop is stable. Non-trivial: the gain is not zero.',
         ['the infinite-horizon problem is stabilizable and detectable by a margin (checked by convergence of the own recursion)'])


def psd(draw, n, kind):
    L = np.array(mat(draw, n, n))
    if kind == 'diag':
        M = np.diag(np.abs(np.diag(L)))
    else:
        M = L @ L.T
    return M


@st.composite
def case(draw, horizons=(None, None, 1, 2, 3, 5, 8)):
    sp = draw(linspec())
    nx, nu = nel(sp['x']), nel(sp['u'])
    A = np.array(mat(draw, nx, nx))
    kind = draw(st.sampled_from(['any', 'any', 'singular', 'integrator', 'unstable']))
    if kind == 'singular':
        A[-1] = 0
    if kind == 'integrator':
        A = np.triu(A, 1) * .5 + np.eye(nx)
    if kind == 'unstable':
        A = A * .3 + 1.2 * np.eye(nx)
    B = np.array(mat(draw, nx, nu))
    N = draw(st.sampled_from(list(horizons)))
    Q = psd(draw, nx, draw(st.sampled_from(['diag', 'full'])))
    if N is None or draw(st.booleans()):
        Q = Q + .25 * np.eye(nx)
    R = psd(draw, nu, draw(st.sampled_from(['diag', 'full']))) + .125 * np.eye(nu)
    rate = draw(st.booleans())
    return dict(sp=sp, A=A.tolist(), B=B.tolist(), Q=Q.tolist(), R=R.tolist(), N=N,
                P=psd(draw, nx, draw(st.sampled_from(['diag', 'full']))).tolist() if draw(st.booleans()) else None,
                dR=(psd(draw, nu, 'full') + draw(st.sampled_from([.1, 1., 10.])) * np.eye(nu)).tolist() if rate else None,
                order=draw(st.permutations(['N', 'obj', 'rterm'])), how=draw(st.sampled_from(['direct', 'direct', 'eq', 'cont'])),
                via=draw(st.sampled_from(['settings', 'set_param'])), dt=draw(st.sampled_from([.1, .5, 1., 1 / 3])),
                xs=draw(st.lists(st.lists(gen.nice(), min_size=nx, max_size=nx), min_size=1, max_size=3)))


def model(case):
    """Discrete LinearModel and its true matrices."""
    import do_mpc
    import casadi as ca
    A, B = np.array(case['A'], float), np.array(case['B'], float)
    sp = case['sp']
    if case['how'] == 'cont':
        lm = do_mpc.model.LinearModel('continuous')
    else:
        lm = do_mpc.model.LinearModel('discrete')
    hs = {}
    for k in ('x', 'u'):
        for n, s in sp[k]:
            hs[k, n] = lm.set_variable('_' + k, n, tuple(s))
    if case['how'] == 'direct':
        lm.setup(A, B)
    elif case['how'] == 'eq':
        X = ca.vertcat(*[ca.vec(hs['x', n]) for n, _ in sp['x']])
        U = ca.vertcat(*[ca.vec(hs['u', n]) for n, _ in sp['u']]) if sp['u'] else ca.SX(0, 1)
        f = ca.DM(A) @ X + ca.DM(B) @ U
        o = 0
        for n, s in sp['x']:
            lm.set_rhs(n, ca.reshape(f[o:o + gen.size(s)], *s)); o += gen.size(s)
        lm.setup()
    else:
        lm.setup(A, B)
        lm = lm.discretize(case['dt'])
        nx = len(A)
        M = expm(np.block([[A, B], [np.zeros((B.shape[1], nx + B.shape[1]))]]) * case['dt'])
        A, B = M[:nx, :nx], M[:nx, nx:]
    return lm, A, B


def make(case, lm):
    import do_mpc
    lqr = do_mpc.controller.LQR(lm)
    par = dict(t_step=case['dt'])
    if case['via'] == 'settings':
        lqr.settings.t_step = case['dt']
    else:
        lqr.set_param(t_step=case['dt'])
    for o in case['order']:
        if o == 'N' and case['N'] is not None:
            if case['via'] == 'settings':
                lqr.settings.n_horizon = case['N']
            else:
                lqr.set_param(n_horizon=case['N'])
        if o == 'obj':
            kw = {} if case['P'] is None else dict(P=np.array(case['P'], float))
            lqr.set_objective(Q=np.array(case['Q'], float), R=np.array(case['R'], float), **kw)
        if o == 'rterm' and case['dR'] is not None:
            lqr.set_rterm(np.array(case['dR'], float))
    lqr.setup()
    return lqr


def blkdiag(a, b):
    return np.block([[a, np.zeros((len(a), len(b)))], [np.zeros((len(b), len(a))), b]])


def sq(M):
    w, V = np.linalg.eigh((M + M.T) / 2)
    return np.sqrt(np.clip(w, 0, None))[:, None] * V.T


@harness
def reference(case, A, B):
    """Linear map z -> first decision of the minimiser; z = x (standard) or (x, u_prev) (rate)."""
    Q, R = np.array(case['Q'], float), np.array(case['R'], float)
    Pt = Q if case['P'] is None else np.array(case['P'], float)
    nx, nu = B.shape
    if case['dR'] is not None:
        A, B = np.block([[A, B], [np.zeros((nu, nx)), np.eye(nu)]]), np.block([[B], [np.eye(nu)]])
        Q, Pt, R = blkdiag(Q, R), blkdiag(Pt, R), np.array(case['dR'], float)
    N = case['N']
    S = None
    if N is None:
        S = Q + np.eye(len(A))          # own value iteration, converges to the stabilizing solution
        for _ in range(20000):
            S2 = Q + A.T @ S @ A - A.T @ S @ B @ np.linalg.solve(R + B.T @ S @ B, B.T @ S @ A)
            S2 = (S2 + S2.T) / 2
            if np.abs(S2).max() > 1e7:
                raise Inconclusive('not stabilizable (value iteration diverges)')
            if np.abs(S2 - S).max() < 1e-13 * max(1, np.abs(S).max()):
                break
            S = S2
        else:
            raise Inconclusive('slow value iteration')
        Pt, N = S, 6
    n, m = B.shape
    # z_k = Phi_k z0 + Gam_k U
    Phi, Gam = np.eye(n), np.zeros((n, N * m))
    rows, rhs = [], []
    for k in range(N):
        rows += [sq(Q) @ Gam]; rhs += [-sq(Q) @ Phi]
        E = np.zeros((m, N * m)); E[:, k * m:(k + 1) * m] = np.eye(m)
        rows += [sq(R) @ E]; rhs += [np.zeros((m, n))]
        Phi, Gam = A @ Phi, A @ Gam + B @ E
    rows += [sq(Pt) @ Gam]; rhs += [-sq(Pt) @ Phi]
    F = np.linalg.lstsq(np.vstack(rows), np.vstack(rhs), rcond=None)[0][:m]
    return F, A, B, S


def run(case):
    lm, A, B = model(case)
    F, Aa, Ba, S = reference(case, A, B)
    lqr = make(case, lm)
    K = np.array(lqr.K, float)
    scale = 1 + np.abs(F).max() * (1 + 0 if S is None else 1)
    tol = 1e-6 * scale * (1 if S is None else 1 + np.log10(1 + np.abs(S).max()))
    if S is not None and np.linalg.cond(S) > 1e9:
        raise Inconclusive('ill-conditioned Riccati solution')
    require(K.shape == F.shape, 'gain has shape %s, expected %s', K.shape, F.shape)
    require(np.allclose(K, F, atol=tol, rtol=1e-6), 'gain %s differs from the minimiser of the declared cost %s', K.tolist(), F.tolist())
    if case['N'] is None:
        rho = np.abs(np.linalg.eigvals(Aa + Ba @ K)).max()
        require(rho < 1 + 1e-9, 'infinite-horizon closed loop is not stable: spectral radius %g', rho)
    # discrete_gain for explicitly passed matrices
    K2 = np.array(lqr.discrete_gain(Aa, Ba), float)
    require(np.allclose(K2, F, atol=tol, rtol=1e-6), 'discrete_gain(A,B) %s differs from %s', K2.tolist(), F.tolist())
    # the steps apply it (zero set-point, previous input starts at zero)
    up = np.zeros(B.shape[1])
    for x in case['xs']:
        x = np.array(x, float)
        u = np.array(lqr.make_step(x.reshape(-1, 1)), float).ravel()
        ref = up + F @ np.concatenate([x, up]) if case['dR'] is not None else F @ x
        require(np.allclose(u, ref, atol=tol * (1 + np.abs(x).max()) * 10, rtol=1e-6), 'input %s for state %s, optimal %s', u.tolist(), x.tolist(), ref.tolist())
        up = u
    return dict(nontrivial=bool(np.abs(F).max() > 1e-3), labels=['inf' if case['N'] is None else 'finite', 'rate' if case['dR'] else 'standard', case['how'],
                'P' if case['P'] else 'noP', 'P-before-N' if case['order'].index('obj') < case['order'].index('N') else 'N-first'])


P.test('gain', case(), 500, 12000)(run)

if __name__ == '__main__':
    P.main()
