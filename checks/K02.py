"""K02: LQR step histories."""
import numpy as np
from lib.vf import Prop, st, require, harness, Inconclusive
from lib import gen
from lib.common import pack
from checks import K01
from checks.L02 import nel

P = Prop('K02', 'Random LQR controllers (generator of K01, standard and rate mode, finite and infinite horizon) driven by random histories of steps, '
         'full/partial/repeated set-point changes, resets and assigned previous inputs, compared step by step with a reference of set-point, previous '
         'input, clock and record. A second test regulates the model to a random equilibrium: it must stay there, and a stabilizing loop converges to it. '
         'Non-trivial: at least two steps with a set-point that is not zero.', [])


@st.composite
def case(draw):
    c = draw(K01.case())
    nx, nu = nel(c['sp']['x']), nel(c['sp']['u'])
    V = lambda n: st.lists(gen.nice(), min_size=n, max_size=n)
    ops = []
    for _ in range(draw(st.sampled_from([6, 8, 10, 4, 3]))):
        k = draw(st.sampled_from(['step', 'step', 'step', 'sp', 'sp', 'reset', 'u0', 'x0']))
        if k == 'step':
            ops.append(['step', draw(V(nx)), draw(st.sampled_from(['np', 'dm', 'struct']))])
        elif k == 'sp':
            ops.append(['sp', draw(st.one_of(st.none(), V(nx))), draw(st.one_of(st.none(), V(nu))), draw(st.booleans())])
        elif k == 'u0':
            ops.append(['u0', draw(V(nu))])
        elif k == 'x0':
            ops.append(['x0', draw(V(nx))])
        else:
            ops.append(['reset'])
    c['ops'] = ops
    return c


def run(case):
    lm, A, B = K01.model(case)
    nx, nu = B.shape
    if case['N'] is None:
        K01.reference(case, A, B)         # undecided if not stabilizable
    lqr = K01.make(case, lm)
    K = np.array(lqr.K, float).copy()
    xss, uss, up, t = np.zeros(nx), np.zeros(nu), np.zeros(nu), 0.0
    rec, n, changed = [], 0, False
    for op in case['ops']:
        if op[0] == 'step':
            x = np.array(op[1], float)
            u = np.array(lqr.make_step(pack(op[2], lm._x, op[1])), float)
            require(u.shape == (nu, 1), 'returned input has shape %s', u.shape)
            if case['dR'] is None:
                ref = uss + K @ (x - xss)
            else:
                ref = up + K @ np.concatenate([x - xss, up - uss])
            s = 1 + np.abs(K).max() * 10
            require(np.allclose(u.ravel(), ref, atol=1e-9 * s, rtol=1e-9), 'input %s, expected %s (set-point %s %s, previous input %s, state %s)',
                    u.ravel().tolist(), ref.tolist(), xss.tolist(), uss.tolist(), up.tolist(), x.tolist())
            rec.append((t, x, ref)); up = ref; t += case['dt']; n += changed
            require(np.allclose(np.array(lqr.x0.cat).ravel(), x, atol=1e-12), 'x0 after the step is %s', lqr.x0)
            require(np.allclose(np.array(lqr.u0.cat).ravel(), up, atol=1e-9 * s), 'u0 after the step is %s', lqr.u0)
        elif op[0] == 'sp':
            kw = {}
            if op[1] is not None:
                xss = np.array(op[1], float); kw['xss'] = xss.reshape(-1, 1).copy()
            if op[2] is not None:
                uss = np.array(op[2], float); kw['uss'] = uss.reshape(-1, 1).copy()
            lqr.set_setpoint(**kw)
            if op[3]:                      # the caller goes on using the arrays
                for a in kw.values():
                    a += 17
            changed = changed or bool(np.abs(xss).max() + np.abs(uss).max(initial=0) > 0)
        elif op[0] == 'u0':
            up = np.array(op[1], float); lqr.u0 = up.reshape(-1, 1).copy()
        elif op[0] == 'x0':
            lqr.x0 = np.array(op[1], float).reshape(-1, 1)
        else:
            lqr.reset_history(); rec, t = [], 0.0
        require(abs(float(np.array(lqr.t0).ravel()[0]) - t) < 1e-9, 'clock is %s, expected %s', lqr.t0, t)
        T, X, U = lqr.data['_time'], lqr.data['_x'], lqr.data['_u']
        require(len(T) == len(X) == len(U) == len(rec), 'record has %s/%s/%s rows after %s steps', len(T), len(X), len(U), len(rec))
        if rec:
            require(np.allclose(np.array(T).ravel(), [r[0] for r in rec], atol=1e-9), 'recorded times %s', np.array(T).ravel())
            require(np.allclose(X, [r[1] for r in rec], atol=1e-12), 'recorded states %s, passed in %s', X.tolist(), rec)
            require(np.allclose(U, [r[2] for r in rec], atol=1e-9 * (1 + np.abs(U).max()), rtol=1e-9), 'recorded inputs %s, applied %s', U.tolist(), rec)
    return dict(nontrivial=n >= 2, labels=sorted({o[0] for o in case['ops']}) + ['rate' if case['dR'] else 'standard'])


P.test('history', case(), 800, 12000)(run)


@st.composite
def eq_case(draw):
    c = draw(K01.case(horizons=(None,)))
    nu = nel(c['sp']['u']); nx = nel(c['sp']['x'])
    c['uss'] = draw(st.lists(gen.nice(-1, 1), min_size=nu, max_size=nu))
    c['x'] = draw(st.lists(gen.nice(), min_size=nx, max_size=nx))
    c['pre'] = draw(st.booleans())
    return c


def run_eq(case):
    import do_mpc
    lm, A, B = K01.model(case)
    F, Aa, Ba, _ = K01.reference(case, A, B)
    M = np.eye(len(A)) - A
    if np.linalg.cond(M) > 1e3:
        return dict(nontrivial=False, labels=['no unique equilibrium'])
    uss = np.array(case['uss']); xss = np.linalg.solve(M, B @ uss)
    lqr = K01.make(case, lm)
    if case['pre']:                       # some other set-point first
        lqr.set_setpoint(xss=np.ones((len(A), 1)), uss=np.ones((B.shape[1], 1))); lqr.make_step(np.zeros((len(A), 1)))
    lqr.set_setpoint(xss=xss.reshape(-1, 1), uss=uss.reshape(-1, 1))
    lqr.u0 = uss.reshape(-1, 1)
    u = np.array(lqr.make_step(xss.reshape(-1, 1)), float).ravel()
    s = (1 + np.abs(F).max()) * (1 + np.abs(xss).max())
    require(np.allclose(u, uss, atol=1e-8 * s), 'at the set-point the input is %s instead of uss=%s', u.tolist(), uss.tolist())
    rho = np.abs(np.linalg.eigvals(Aa + Ba @ F)).max()
    n = int(np.ceil(np.log(1e-6) / np.log(max(rho, .1)))) if rho < .999 else 10 ** 9
    if n <= 150:
        sim = do_mpc.simulator.Simulator(lm); sim.settings.t_step = case['dt']; sim.setup()
        sim.x0 = np.array(case['x'], float).reshape(-1, 1)
        x = np.array(case['x'], float).reshape(-1, 1)
        d0 = 1 + np.abs(x.ravel() - xss).max()
        pk = 0.
        for _ in range(n + 30):
            u = lqr.make_step(x)
            sim.make_step(np.array(u, float)); x = np.array(sim.x0.cat, float).reshape(-1, 1)
            pk = max(pk, np.abs(x).max())
        require(np.allclose(x.ravel(), xss, atol=1e-2 * max(d0, pk)), 'closed loop ends at %s instead of the set-point %s', x.ravel().tolist(), xss.tolist())
        require(np.allclose(np.array(u).ravel(), uss, atol=1e-2 * max(d0, pk) * (1 + np.abs(F).max())), 'input ends at %s instead of uss %s', np.array(u).ravel().tolist(), uss.tolist())
    return dict(nontrivial=bool(np.abs(xss).max() > 1e-3), labels=['converged' if n <= 150 else 'slow', 'rate' if case['dR'] else 'standard'])


P.test('equilibrium', eq_case(), 250, 6000)(run_eq)

if __name__ == '__main__':
    P.main()
