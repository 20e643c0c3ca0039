"""L02: discretization of linear models."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen

P = Prop('L02', 'Random continuous LinearModels (1-3 states with random names/shapes, stable, unstable, singular and zero A, 0-2 inputs, with or '
         'without C and D) are discretized with every conversion method and random sampling times. zoh: matrices against an independent '
         'Taylor/squaring matrix exponential of the block system, and simulated trajectories of both models under random held inputs. Other '
         'methods: the textbook formula of the method, foh: outputs under linearly interpolated inputs. Non-trivial: A and B are not zero.',
         ['Taylor/squaring expm is accurate to 1e-10 on matrices with norm below 12'])
METHODS = ['zoh', 'zoh', 'zoh', 'default', 'euler', 'backward_diff', 'bilinear', 'tustin', 'foh', 'impulse']


def expm(M):
    M = np.asarray(M, float); n = max(0, int(np.ceil(np.log2(max(np.abs(M).sum(), 1e-9)))) + 4)
    X = M / 2.0 ** n; E = np.eye(len(M)); T = np.eye(len(M))
    for k in range(1, 25):
        T = T @ X / k; E = E + T
    for _ in range(n):
        E = E @ E
    return E


@st.composite
def linspec(draw, max_x=2, min_u=1):
    return dict(x=draw(gen.variables(1, max_x, gen.VSHAPES)), u=draw(gen.variables(min_u, 2, gen.VSHAPES[:3])))


def nel(v):
    return sum(gen.size(s) for _, s in v)


def mat(draw, r, c, rng=gen.nice(-1, 1, .25)):
    return draw(st.lists(st.lists(rng, min_size=c, max_size=c), min_size=r, max_size=r))


@st.composite
def case(draw):
    sp = draw(linspec())
    nx, nu = nel(sp['x']), nel(sp['u'])
    A = np.array(mat(draw, nx, nx))
    kind = draw(st.sampled_from(['any', 'any', 'singular', 'zero', 'decay']))
    if kind == 'singular':
        A[-1] = 0
    if kind == 'zero':
        A = A * 0
    if kind == 'decay':
        A = A - 2 * np.eye(nx)
    out = draw(st.sampled_from(['default', 'C', 'CD', 'CD', 'I', 'ID']))
    ny = nx if out in ('default', 'I', 'ID') else draw(st.integers(1, 3))
    C = mat(draw, ny, nx) if out in ('C', 'CD') else np.eye(nx).tolist()
    D = mat(draw, ny, nu) if out in ('CD', 'ID') else np.zeros((ny, nu)).tolist()
    return dict(sp=sp, A=A.tolist(), B=mat(draw, nx, nu), C=C, D=D, out=out, dt=draw(st.sampled_from([0.05, 0.1, 0.3, 1.0, 1.7, 0.002])),
                method=draw(st.sampled_from(METHODS)), x0=draw(st.lists(gen.nice(), min_size=nx, max_size=nx)),
                us=draw(st.lists(st.lists(gen.nice(), min_size=nu, max_size=nu), min_size=3, max_size=3)), sim=draw(st.integers(0, 2)) == 0)


def model(case, tp='continuous'):
    import do_mpc
    lm = do_mpc.model.LinearModel(tp)
    for k in ('x', 'u'):
        for n, s in case['sp'][k]:
            lm.set_variable('_' + k, n, tuple(s))
    A, B, C, D = [np.array(case[k], float) for k in 'ABCD']
    o = case['out']
    if o == 'default':
        lm.setup(A, B)
    elif o in ('C', 'I'):
        lm.setup(A, B, C)
    else:
        lm.setup(A, B, C, D)
    return lm


def run(case):
    import do_mpc
    lm = model(case); A, B, C, D = [np.array(case[k], float) for k in 'ABCD']
    nx, nu = B.shape; dt = case['dt']; me = case['method']
    if me == 'impulse' and np.any(D):
        me = 'zoh'
    dm = lm.discretize(dt) if me == 'default' else lm.discretize(dt, me)
    require(dm.model_type == 'discrete', 'discretized model has type %s', dm.model_type)
    require(lm.model_type == 'continuous' and gen.close(lm.sys_A, A), 'discretize changed the continuous model')
    for k in ('x', 'u'):
        require(getattr(dm, k).labels() == getattr(lm, k).labels(), 'labels of %s changed: %s -> %s', k, getattr(lm, k).labels(), getattr(dm, k).labels())
    g = [dm.sys_A, dm.sys_B, dm.sys_C, dm.sys_D]
    I = np.eye(nx)
    if me in ('zoh', 'default', 'impulse'):
        E = expm(np.block([[A, B], [np.zeros((nu, nx + nu))]]) * dt)
        w = [E[:nx, :nx], E[:nx, nx:], C, D]
        if me == 'impulse':
            w = [w[0], w[0] @ B * dt, C, C @ B * dt]
    elif me in ('euler', 'backward_diff', 'bilinear', 'tustin'):
        al = {'euler': 0, 'backward_diff': 1}.get(me, .5)
        M = I - al * dt * A
        if abs(np.linalg.det(M)) < 1e-3:
            return dict(nontrivial=False, labels=['singular pencil'])
        Mi = np.linalg.inv(M); Bd = Mi @ B * dt
        w = [Mi @ (I + (1 - al) * dt * A), Bd, C @ Mi, D + al * C @ Bd]
    else:
        w = None
    if w is not None:
        for nm, a, b in zip('ABCD', g, w):
            require(a.shape == b.shape, '%s: sys_%s has shape %s, expected %s', me, nm, a.shape, b.shape)
            require(gen.close(a, b, 1e-8, 1e-8), '%s, t_step %s: sys_%s is %s, expected %s', me, dt, nm, a.tolist(), nm and b.tolist())
    else:
        # first order hold: exact outputs for inputs interpolated linearly between the samples (starting at rest with u=0)
        us = [np.zeros(nu)] + [np.array(u) for u in case['us']]
        xd = np.zeros(nx); xc = np.zeros(nx)
        for k, u in enumerate(us):
            y = g[2] @ xd + g[3] @ u
            if k:
                s = (u - us[k - 1]) / dt
                Z = np.zeros((nx + 2 * nu, nx + 2 * nu)); Z[:nx, :nx] = A; Z[:nx, nx:nx + nu] = B; Z[nx:nx + nu, nx + nu:] = np.eye(nu)
                xc = (expm(Z * dt) @ np.concatenate([xc, us[k - 1], s]))[:nx]
            require(gen.close(y, C @ xc + D @ u, 1e-7, 1e-7), 'foh: output %s at sample %d, continuous output %s', y, k, C @ xc + D @ u)
            xd = g[0] @ xd + g[1] @ u
    lab = [me, case['out']]
    if case['sim'] and me in ('zoh', 'default'):
        lab.append('simulated')
        sims = []
        for mm in (lm, dm):
            s = do_mpc.simulator.Simulator(mm); s.set_param(t_step=dt)
            if mm is lm:
                s.set_param(abstol=1e-10, reltol=1e-10)
            s.setup(); s.x0 = np.array(case['x0']).reshape(-1, 1)
            sims.append(s)
        for u in case['us']:
            ys = [s.make_step(np.array(u).reshape(-1, 1)) for s in sims]
            a, b = [s.x0.cat.full().ravel() for s in sims]
            sc = max(1, np.abs(a).max())
            require(gen.close(a / sc, b / sc, 1e-5, 1e-5), 'simulated continuous state %s, discretized model %s', a, b)
            sc = max(1, np.abs(ys[0]).max())
            require(gen.close(ys[0] / sc, ys[1] / sc, 1e-4, 1e-4), 'measurement of continuous model %s, discretized model %s', ys[0], ys[1])
    return dict(nontrivial=bool(np.any(A) and np.any(B)), labels=lab)


P.test('discretize', case(), 500, 12000)(run)
if __name__ == '__main__':
    P.main()
