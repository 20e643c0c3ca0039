"""E01: invalid calls are rejected and leave no trace."""
import os
import numpy as np
from lib.vf import Prop, st, require, Violation, HarnessError
from lib import gen
from checks.I01 import World, Actor, program, in_child, same, diff, snap, N

P = Prop('E01', 'Configuration and run programs of one simulator, MPC, MHE or LQR (test objects), of one model (test model) or one linear model (test linear) with 1-5 invalid calls injected at random positions: unknown names, wrong types '
         'and shapes, foreign symbols, setup with missing or inconsistent declarations, calls in the wrong phase. Each invalid call must raise, and every later valid call must show the same settings, bounds, results and records as '
         'in a run without the invalid calls. Non-trivial: at least one invalid call was applicable and a valid call followed it.',
         ['unknown keys of set_param only print a warning and attributes of settings are plain python attributes (by design, not counted as invalid calls)',
          'a second setup of simulator, MPC, MHE or LQR may be rejected or repeated without effect on the posed problem'])


# ------------------------------------------------------------------------------------------------- invalid calls
# name -> function(A, r): the invalid call (or a composite whose last statements restore valid data), None if not applicable here
ANY, PRE, POST = 'any', 'pre', 'post'
BAD = {}


def bad(phase, *kinds):
    def deco(f):
        for k in kinds:
            BAD.setdefault(k, {})[f.__name__] = (phase, f)
        return f
    return deco


OPT = ('mpc', 'mhe')
ALL = ('sim', 'mpc', 'mhe', 'lqr')


def nm(A, r, kinds=('x', 'u')):
    l = [(k, n, s) for k in kinds for n, s in A.spec[k]]
    return l[r % len(l)]


def setitem(o, attr, key, val):
    def f():
        getattr(o, attr)[key] = val
    return f


def getitem(o, attr, key):
    return lambda: getattr(o, attr)[key]


@bad(ANY, *OPT)
def bound_type(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', (['middle', 'Lower', 0][r % 3], '_' + k, n), .125)


@bad(ANY, *OPT)
def bound_kind(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', ('lower', ['_q', '_tvp', k][r % 3], n), .125)


@bad(ANY, *OPT)
def bound_name(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', (['lower', 'upper'][r % 2], '_' + k, 'nope'), .125)


@bad(ANY, *OPT)
def bound_query(A, r):
    k, n, s = nm(A, r)
    return getitem(A.o, 'bounds', [('lower', '_' + k, 'nope'), ('low', '_' + k, n), ('lower', '_q', n)][r % 3])


@bad(ANY, *OPT)
def bound_short(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', [('lower', '_' + k), ('lower',)][r % 2], .125)


@bad(ANY, *OPT)
def bound_shape(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', ('lower', '_' + k, n), np.full((gen.size(s) + 1 + r % 2, 1), -.125))


@bad(ANY, *OPT)
def bound_value(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'bounds', ('upper', '_' + k, n), ['abc', None, {}][r % 3])


@bad(PRE, *OPT)
def scaling_bad(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'scaling', [('_' + k, 'nope'), ('_q', n), ('_' + k,), (k, n)][r % 4], 3.)


@bad(PRE, *OPT)
def scaling_shape(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'scaling', ('_' + k, n), np.full((gen.size(s) + 1, 1), 3.))


@bad(POST, *OPT)
def scaling_late(A, r):
    k, n, s = nm(A, r)
    return setitem(A.o, 'scaling', ('_' + k, n), 3.)


@bad(ANY, 'mpc')
def terminal_bad(A, r):
    k, n, s = nm(A, r, ('x',))
    return setitem(A.o, 'terminal_bounds', [('lower', 'nope'), ('low', n), ('lower',), ('upper', '_x', n)][r % 4], .125)


@bad(ANY, *ALL)
def state_size(A, r):
    a = ['x0', 'u0', 'z0'][r % 3]
    n = A.m._x.size if a == 'x0' else A.m._u.size if a == 'u0' else A.m._z.size
    return lambda: setattr(A.o, a, np.full((n + 1 + r % 2, 1), .5))


@bad(ANY, *ALL)
def state_type(A, r):
    return lambda: setattr(A.o, 'x0', ['abc', None, [1.], {}][r % 4])


@bad(ANY, *ALL)
def time_value(A, r):
    return lambda: setattr(A.o, 't0', ['abc', None, np.array([1., 2.]), [1.]][r % 4])


@bad(PRE, 'sim', *OPT)
def guess_early(A, r):
    return lambda: A.o.set_initial_guess()


@bad(PRE, *ALL)
def step_early(A, r):
    n = dict(sim=A.m.n_u, mpc=A.m.n_x, mhe=A.m.n_y, lqr=A.m.n_x)[A.kind]
    return lambda: A.o.make_step(np.full((n, 1), .5))


@bad(PRE, 'sim', *OPT)
def solve_early(A, r):
    return lambda: A.o.simulate() if A.kind == 'sim' else A.o.solve()


@bad(PRE, 'lqr')
def setpoint_early(A, r):
    return lambda: A.o.set_setpoint(np.full((A.m.n_x, 1), .5), np.full((A.m.n_u, 1), .5))


@bad(PRE, *OPT)
def nlp_early(A, r):
    if A.o.flags['prepare_nlp']:              # an earlier setup got as far as the preparation (which may be done separately)
        return None
    return lambda: getattr(A.o, ['nlp_obj', 'nlp_cons', 'nlp_cons_lb', 'nlp_cons_ub'][r % 4])


@bad(PRE, *OPT)
def create_early(A, r):
    return None if A.o.flags['prepare_nlp'] else lambda: A.o.create_nlp()


@bad(POST, *ALL)
def step_shape(A, r):
    n = dict(sim=A.m.n_u, mpc=A.m.n_x, mhe=A.m.n_y, lqr=A.m.n_x)[A.kind]
    if A.kind == 'lqr' and r % 3 == 2:
        return lambda: A.o.make_step(np.full((n, 2), .5))
    return lambda: A.o.make_step(np.full((n + 1 + r % 2, 1), .5))


@bad(POST, *ALL)
def step_type(A, r):
    return lambda: A.o.make_step(['abc', {}, [.5], .5][r % 4])


@bad(POST, 'sim')
def step_noise(A, r):
    u = np.full((A.m.n_u, 1), .5)
    n = A.m.n_v + 1
    return [lambda: A.o.make_step(u, v0=np.full((n, 1), .5)), lambda: A.o.make_step(u, w0=np.full((A.m.n_w + 1, 1), .5)), lambda: A.o.make_step(u, v0=[.5] * A.m.n_v)][r % 3]


@bad(POST, 'sim', 'mhe', 'mpc')
def param_late(A, r):
    return lambda: A.o.set_param(t_step=.125)


@bad(PRE, *OPT)
def cons_bad(A, r):
    x = A.m.x.cat[0]
    return [lambda: A.o.set_nl_cons(1, x, .125), lambda: A.o.set_nl_cons('c', .5, .125), lambda: A.o.set_nl_cons('c', x, 'abc'), lambda: A.o.set_nl_cons('c', x, .125, soft_constraint='yes'),
            lambda: A.o.set_nl_cons('c', x, None), lambda: A.o.set_nl_cons('c', x, .125, soft_constraint=None)][r % 6]


@bad(POST, *OPT)
def cons_late(A, r):
    return lambda: A.o.set_nl_cons('c', A.m.x.cat[0], -.125, soft_constraint=bool(r % 2))


@bad(PRE, 'mpc')
def objective_bad(A, r):
    m = A.m
    import casadi as ca
    q = m.sv.sym('foreign')
    x, u = m.x.cat[0], m.u.cat[0]
    w = ca.vertcat(x, x)
    return [lambda: A.o.set_objective(mterm=w, lterm=x ** 2), lambda: A.o.set_objective(mterm=x ** 2, lterm=w), lambda: A.o.set_objective(mterm=x ** 2, lterm=q + x ** 2),
            lambda: A.o.set_objective(mterm=q + x ** 2, lterm=x ** 2), lambda: A.o.set_objective(mterm=u + x ** 2, lterm=x ** 2), lambda: A.o.set_objective(mterm=x ** 2, lterm=np.array([[1.]])),
            lambda: A.o.set_objective(mterm=x ** 2, lterm='abc')][r % 7]


@bad(PRE, 'mhe')
def objective_bad_mhe(A, r):
    m, o = A.m, A.o
    import casadi as ca
    q = m.sv.sym('foreign')
    nx, nv, nw = m.n_x, m.n_v, m.n_w
    v = m.v.cat[0] if nv else m.sv.sym('foreign2')
    x = o._x.cat[0]
    I = np.eye
    return [lambda: o.set_objective(ca.vertcat(v, v), x ** 2), lambda: o.set_objective(v ** 2, ca.vertcat(x, x)), lambda: o.set_objective(x ** 2, x ** 2), lambda: o.set_objective(v ** 2, q ** 2),
            lambda: o.set_objective(v ** 2, v ** 2), lambda: o.set_default_objective(I(nx + 1), 9 * I(nv), None, 9 * I(nw) if nw else None), lambda: o.set_default_objective(9 * I(nx), I(nv + 1), None, 9 * I(nw) if nw else None),
            lambda: o.set_default_objective(9 * I(nx), 9 * I(nv), I(1 + o.n_p_est), 9 * I(nw) if nw else None), lambda: o.set_default_objective(9 * I(nx), 9 * I(nv), None, I(nw + 1)),
            lambda: o.set_default_objective('abc', 9 * I(nv)), lambda: o.set_default_objective(9 * I(nx), [[9.]])] [r % 11] if r % 11 not in (0, 1, 4) or nv else None


@bad(POST, 'mpc', 'mhe', 'lqr')
def objective_late(A, r):
    m, o = A.m, A.o
    if A.kind == 'mpc':
        return lambda: o.set_objective(mterm=9 * m.x.cat[0] ** 2, lterm=9 * m.x.cat[0] ** 2)
    if A.kind == 'lqr':
        return lambda: o.set_objective(9 * np.eye(m.n_x), 9 * np.eye(m.n_u), 9 * np.eye(m.n_x))
    return lambda: o.set_default_objective(9 * np.eye(m.n_x), 9 * np.eye(m.n_v), None, 9 * np.eye(m.n_w) if m.n_w else None)


@bad(PRE, 'mpc')
def rterm_bad(A, r):
    k, n, s = nm(A, r, ('u',))
    import casadi as ca
    u, q = A.m.u.cat[0], A.m.sv.sym('foreign')
    return [lambda: A.o.set_rterm(**{n: 50., 'nope': 1.}), lambda: A.o.set_rterm(**{n: 'abc'}), lambda: A.o.set_rterm(nope=50.), lambda: A.o.set_rterm(rterm=ca.vertcat(u, u)), lambda: A.o.set_rterm(rterm=u ** 2 + q),
            lambda: A.o.set_rterm(rterm=np.array([[50.]])), lambda: A.o.set_rterm(**{n: np.full((gen.size(s) + 1, 1), 50.)})][r % 7]


@bad(POST, 'mpc', 'lqr')
def rterm_late(A, r):
    k, n, s = nm(A, r, ('u',))
    return lambda: A.o.set_rterm(**{n: 50.}) if A.kind == 'mpc' else A.o.set_rterm(50. * np.eye(A.m.n_u))


@bad(PRE, 'lqr')
def objective_bad_lqr(A, r):
    import casadi as ca
    o, nx, nu = A.o, A.m.n_x, A.m.n_u
    I = lambda k: 9 * np.eye(k)
    return [lambda: o.set_objective(I(nx + 1), I(nu), I(nx)), lambda: o.set_objective(I(nx), I(nu + 1), I(nx)), lambda: o.set_objective(ca.DM(I(nx)), I(nu), I(nx)), lambda: o.set_objective(I(nx), ca.DM(I(nu)), I(nx)),
            lambda: o.set_objective('abc', I(nu)), lambda: o.set_rterm(I(nu + 1)), lambda: o.set_rterm('abc')] [r % 7]


@bad(PRE, 'lqr')
def terminal_bad_lqr(A, r):
    o, nx, nu = A.o, A.m.n_x, A.m.n_u
    if o.settings.n_horizon is None:
        return None
    return [lambda: o.set_objective(9 * np.eye(nx), 9 * np.eye(nu), np.eye(nx + 1)), lambda: o.set_objective(9 * np.eye(nx), 9 * np.eye(nu), 'abc')][r % 2]


@bad(POST, 'lqr')
def setpoint_bad(A, r):
    import casadi as ca
    o, nx, nu = A.o, A.m.n_x, A.m.n_u
    f = lambda n: np.full((n, 1), .75)
    return [lambda: o.set_setpoint(f(nx + 1), f(nu)), lambda: o.set_setpoint(f(nx), f(nu + 1)), lambda: o.set_setpoint(f(nx), 'abc'), lambda: o.set_setpoint([.75] * nx, f(nu)), lambda: o.set_setpoint(f(nx + 1))][r % 5]


@bad(PRE, 'sim', 'mpc', 'mhe')
def tvp_bad(A, r):
    import casadi as ca
    o = A.o
    if A.kind != 'sim' and o.settings.n_horizon is None:
        return None
    n = A.m._tvp.size
    # the zero-size template of a model without tvp has labels like any other
    fs = [lambda t: np.zeros((n, 1)), lambda t: None, lambda t: ca.DM.zeros(n, 1)]
    fs += [lambda t, k=k: k(0) for k in (A.m._p, A.m._x) if k.labels() != A.m._tvp.labels()]
    f = fs[r % len(fs)]
    return lambda: o.set_tvp_fun(f)


@bad(PRE, 'sim', 'mpc', 'mhe')
def p_bad(A, r):
    import casadi as ca
    o = A.o
    n = A.m._p.size
    fs = [lambda t: np.zeros((n, 1)), lambda t: None, lambda t: ca.DM.zeros(n, 1)]
    fs += [lambda t: A.m._x(0)] if A.m._x.labels() != A.m._p.labels() else []
    f = fs[r % len(fs)]
    return lambda: o.set_p_fun(f)


@bad(PRE, 'mpc')
def uncertainty_bad(A, r):
    if not A.spec['p']:
        return lambda: A.o.set_uncertainty_values(nope=np.array([1., 2.]))
    n = A.spec['p'][0][0]
    return [lambda: A.o.set_uncertainty_values(nope=np.array([1., 2.])), lambda: A.o.set_uncertainty_values(**{n: np.array([1., 2.]), 'nope': np.array([1.])}), lambda: A.o.set_uncertainty_values(**{n: 3.}), lambda: A.o.set_uncertainty_values(**{n: [np.ones((7, 1)), np.ones((7, 1))]}), lambda: A.o.set_uncertainty_values(**{n: ['a', 'b']})][r % 5]


@bad(PRE, 'mhe')
def y_bad(A, r):
    if A.o.settings.n_horizon is None:
        return None
    f = [lambda t: None, lambda t: A.m._x(0), lambda t: np.zeros((A.m.n_y, 1))][r % 3]
    return lambda: A.o.set_y_fun(f)


@bad(PRE, *ALL)
def setup_incomplete(A, r):
    done = A.done
    need = dict(sim={'t_step'}, mpc={'t_step', 'n_horizon', 'obj'}, mhe={'t_step', 'n_horizon', 'obj', 'meas_from_data'}, lqr={'t_step', 'obj'})[A.kind]
    if A.kind != 'lqr':
        need = need | {k for k in ('tvp', 'p') if A.spec[k]}
    if need <= done:
        return None
    return lambda: A.o.setup()


def with_setting(A, name, val, call):
    def f():
        s = A.o.settings
        old = getattr(s, name)
        setattr(s, name, val)
        try:
            call()
        finally:
            setattr(s, name, old)
    return f


@bad(PRE, *ALL)
def setup_setting(A, r):
    """setup with an unusable setting, which is corrected afterwards"""
    k = A.kind
    c = [('t_step', None)]
    if k in OPT:
        c += [('n_horizon', None), ('store_solver_stats', ['success', 'nope']), ('nlpsol_opts', {'no_such_option': 1})]
        if A.m.model_type == 'continuous':
            c += [('collocation_type', 'foo'), ('state_discretization', 'foo')]
    if k == 'sim' and A.m.model_type == 'continuous':
        c += [('integration_tool', 'foo'), ('integration_opts', {'no_such_option': 1})]
    n, v = c[r % len(c)]
    return with_setting(A, n, v, A.o.setup)


@bad(PRE, *OPT)
def setup_bounds(A, r):
    """setup with a lower bound above the upper bound, which is corrected afterwards"""
    def one(kd, n, s):
        o = A.o
        k = ('lower', '_' + kd, n)
        old = np.array(o.bounds[k])
        u = np.array(o.bounds['upper', '_' + kd, n])
        v = np.full((gen.size(s), 1), 75.); v[r % gen.size(s)] = 77.
        o.bounds[k] = v
        o.bounds['upper', '_' + kd, n] = 76.
        try:
            o.setup()
        finally:
            o.bounds[k] = old
            o.bounds['upper', '_' + kd, n] = u

    def f():
        for kd in 'xuz':
            if A.spec[kd]:
                try:
                    one(kd, *nm(A, r, (kd,))[1:])
                except Exception as e:
                    err = e
                else:
                    return
        raise err
    return f


# ------------------------------------------------------------------------------------------------- running a program
RR = list(range(420))


@st.composite
def obj_case(draw):
    lin = draw(st.integers(0, 3)) == 0
    if lin:
        s = dict(type='discrete', sym='SX', lin=True, z=[], p=[], tvp=[], aux=[], meas=[], w=[], alg=[])
        s['x'] = draw(gen.variables(1, 2, gen.VSHAPES)); s['u'] = draw(gen.variables(1, 2, ((1, 1), (2, 1))))
        d = gen.dims(s)
        s['A'] = [draw(st.lists(gen.nice(-.5, .5), min_size=d['x'], max_size=d['x'])) for _ in range(d['x'])]
        s['B'] = [[draw(gen.nice(-1, 1)) + (.5 if i == j else 0) for j in range(d['u'])] for i in range(d['x'])]
        kind = draw(st.sampled_from(['lqr', 'lqr', 'lqr', 'sim', 'mpc', 'mhe']))
    else:
        s = draw(gen.tame_spec(max_x=2, max_u=2, max_p=1, max_tvp=1, max_aux=1, max_meas=2, shapes=gen.VSHAPES, min_u=1, max_leaves=2, noise=False, with_z=draw(st.integers(0, 1)) == 0))
        kind = draw(st.sampled_from(['sim', 'sim', 'mpc', 'mpc', 'mpc', 'mhe', 'mhe']))
    ops = draw(program(s, kind, lin))
    soft = kind in OPT and draw(st.booleans())
    if soft:
        ops.insert([o[0] for o in ops].index('setup'), ['cons', draw(gen.nice(-1, 1)), draw(st.sampled_from([1., 5., 20.]))])
    d = gen.dims(s)
    n = dict(sim=d['u'], mpc=d['x'], mhe=len(gen.meas_trees(s)), lqr=d['x'])[kind]
    ops += [['step', draw(st.lists(gen.nice(-2, 2), min_size=n, max_size=n)), 'np', False]]
    names = sorted(BAD[kind]) + ['setup_setting'] + ['setup_bounds'] * 2 * (kind in OPT)
    su = [o[0] for o in ops].index('setup')
    pos = st.sampled_from(list(range(len(ops))) + [su] * (8 + len(ops)) + [min(su + 1, len(ops) - 1)] * 2 + [len(ops) - 1] * 2)
    inj = [[draw(pos), draw(st.sampled_from(names)), draw(st.sampled_from(RR))] for _ in range(draw(st.sampled_from([1, 4, 8, 12, 20])))]
    if kind in OPT and draw(st.integers(0, 1)):
        inj.append([su, 'setup_bounds', draw(st.sampled_from(RR))])
    if draw(st.integers(0, 2)) == 0:
        inj.append([draw(st.sampled_from([su, su + 1, su + 1, len(ops) - 1])), 'burst', draw(st.sampled_from(RR))])
    return dict(spec=s, kind=kind, ops=ops, inj=inj, twice=draw(st.integers(0, 3)) == 0)


class Actor2(Actor):
    def __init__(self, *a):
        Actor.__init__(self, *a)
        self.done = set()

    def do(self, op):
        import casadi as ca
        if op[0] == 'cons':
            self.o.set_nl_cons('con', self.m.x.cat[0], ub=float(op[1]), soft_constraint=True, penalty_term_cons=op[2])
            return self.state()
        r = Actor.do(self, op)
        if op[0] == 'set':
            self.done.add(op[1])
        else:
            self.done.add(op[0])
        return r


def invalid(A, name, r, lab):
    phase, f = BAD[A.kind][name]
    post = 'setup' in A.done
    if phase == PRE and post or phase == POST and not post:
        return False
    call = f(A, r)
    if call is None:
        return False
    lab.append('%s/%s' % (A.kind, name))
    before = A.state()
    try:
        call()
    except Exception as e:
        if os.environ.get('E01_DEBUG'):
            print(name, r, type(e).__name__, str(e)[:150])
    else:
        raise Violation('invalid call %s (variant %d) of %s was not rejected%s' % (name, r, A.kind, ' after setup' if post else ''))
    after = A.state()
    if not same(before, after):
        raise Violation('rejected call %s (variant %d) of %s changed the object: %s' % (name, r, A.kind, diff(before, after)))
    return True


def trace(case, inject):
    A = Actor2(World([case['spec']], False), 0, case['kind'])
    out, lab = [], []
    last = -1
    for i, op in enumerate(case['ops']):
        if inject:
            for pos, name, r in case['inj']:
                if name == 'burst':           # every invalid call there is, in order
                    for j, q in enumerate(sorted(BAD[A.kind]) if pos == i else []):
                        if q not in ('setup_setting', 'setup_incomplete') and invalid(A, q, r + 5 * j, lab):
                            last = i
                elif pos == i and invalid(A, name, r, lab):
                    last = i
        try:
            out.append(A.do(op))
            if op[0] == 'setup' and inject and case['twice']:
                try:
                    A.o.setup()
                except Exception:
                    lab.append('second setup rejected')
                else:
                    lab.append('second setup repeated')
                last = i
                out[-1] = A.state()
        except Exception as e:
            if inject:
                raise Violation('valid call %s failed after the rejected calls %s: %s: %s' % (op, lab, type(e).__name__, str(e)[:600]))
            raise
    return out, lab, last


def run_obj(case):
    import do_mpc
    want = in_child(lambda: trace(case, False))[0]
    got, lab, last = in_child(lambda: trace(case, True))
    for op, a, b in zip(case['ops'], want, got):
        require(same(a, b), 'after the rejected calls %s the call %s shows\n%s', lab, op, diff(a, b))
    return dict(nontrivial=last >= 0, labels=sorted(set(lab)))


P.test('objects', obj_case(), 360, 12000)(run_obj)


# ------------------------------------------------------------------------------------------------- models
MBAD = {}


def mbad(f):
    MBAD[f.__name__] = f
    return f


class MState:
    def __init__(self, spec):
        import do_mpc
        self.spec = spec
        self.lin = bool(spec.get('lin'))
        self.m = do_mpc.model.LinearModel(spec['type']) if self.lin else do_mpc.model.Model(spec['type'], spec['sym'])
        self.hs = {k: {} for k in gen.KINDS}
        self.done = []
        self.setup = False


def decl(spec):
    """The declaration calls in order"""
    ops = [['var', k, n, sh] for k in gen.KINDS for n, sh in spec[k]]
    if not spec.get('lin'):
        ops += [['aux', i] for i in range(len(spec['aux']))] + [['meas', i] for i in range(len(spec['meas']))] + [['rhs', n] for n in spec['rhs_order']] + [['alg', i] for i in range(len(spec['alg']))]
    else:
        ops += [['rhs', n] for n, _ in spec['x']] if spec['mode'] == 'eq' else []
        ops += [['meas', 0]] if spec['mode'] == 'eq' else []
    return ops + [['setup']]


def mdo(S, op):
    m, spec, k = S.m, S.spec, op[0]
    if k == 'var':
        S.hs[op[1]][op[2]] = m.set_variable('_' + op[1], op[2], tuple(op[3]))
    elif S.lin and k in ('rhs', 'meas', 'setup'):
        A, B, C = np.array(spec['A']), np.array(spec['B']), np.array(spec['C'])
        if k == 'setup':
            m.setup() if spec['mode'] == 'eq' else m.setup(A, B, C)
            S.setup = True
        elif k == 'rhs':
            o = 0
            for n, sh in spec['x']:
                if n == op[1]:
                    m.set_rhs(n, (A @ m.x.cat + B @ m.u.cat)[o:o + gen.size(sh)])
                o += gen.size(sh)
        else:
            m.set_meas('y', C @ m.x.cat)
    elif k == 'aux':
        n, sh, tr = spec['aux'][op[1]]
        m.set_expression(n, gen.vec(tr, S.hs, spec['sym'], sh))
    elif k == 'meas':
        n, sh, tr, noisy = spec['meas'][op[1]]
        m.set_meas(n, gen.vec(tr, S.hs, spec['sym'], sh), meas_noise=noisy)
    elif k == 'rhs':
        sh = dict((n, s) for n, s in spec['x'])[op[1]]
        m.set_rhs(op[1], gen.vec(spec['rhs'][op[1]], S.hs, spec['sym'], sh), process_noise=op[1] in spec['w'])
    elif k == 'alg':
        n, tr = spec['alg'][op[1]]
        m.set_alg(n, gen.vec(tr, S.hs, spec['sym']))
    elif k == 'setup':
        m.setup()
        S.setup = True
    S.done.append(op)


def declared(S):
    return [o for o in S.done if o[0] == 'var']


def sym1(S):
    v = [h for kd in S.hs.values() for h in kd.values()]
    return v[0][0] if v and not S.setup else S.m.sv.sym('fresh')


@mbad
def variable(S, r):
    m = S.m
    c = [lambda: m.set_variable('_q', 'new'), lambda: m.set_variable(3, 'new'), lambda: m.set_variable('_x', 5), lambda: m.set_variable('_x', None), lambda: m.set_variable('_x', 'new', 2.5), lambda: m.set_variable('_u', 'new', 'abc'),
         lambda: m.set_variable('_u', 'new', [2, 1]), lambda: m.set_variable('_w', 'new'), lambda: m.set_variable('state', 'new'), lambda: m.set_variable('_x', 'new', (-1, 1)), lambda: m.set_variable('_x', 'new', (1, 2, 3))]
    return c[r % len(c)]


@mbad
def duplicate(S, r):
    d = declared(S)
    if not d or S.setup:
        return None
    _, k, n, sh = d[r % len(d)]
    return lambda: S.m.set_variable('_' + k, n, tuple(sh))


@mbad
def variable_late(S, r):
    return (lambda: S.m.set_variable(['_x', '_u', '_p', '_tvp', '_z'][r % 5], 'new')) if S.setup else None


@mbad
def expression(S, r):
    m, e = S.m, sym1(S)
    c = [lambda: m.set_expression(3, e), lambda: m.set_expression('new', 3.), lambda: m.set_expression('new', np.array([1.])), lambda: m.set_expression('new', None)]
    if S.setup:
        c = [lambda: m.set_expression('new', e)]
    return c[r % len(c)]


@mbad
def meas(S, r):
    m, e = S.m, sym1(S)
    c = [lambda: m.set_meas(3, e), lambda: m.set_meas('new', 3.), lambda: m.set_meas('new', None)]
    if not S.lin:
        c += [lambda: m.set_meas('new', e, meas_noise='yes'), lambda: m.set_meas('new', e, meas_noise=None)]
    if S.setup:
        c = [lambda: m.set_meas('new', e)]
    return c[r % len(c)]


@mbad
def rhs(S, r):
    m, e = S.m, sym1(S)
    xs = [o[2] for o in declared(S) if o[1] == 'x']
    c = [lambda: m.set_rhs('nope', e), lambda: m.set_rhs(3, e)]
    if xs:
        n = xs[r % len(xs)]
        if S.setup:
            c = [lambda: m.set_rhs(n, e)]
        else:
            c += [lambda: m.set_rhs(n, 'abc'), lambda: m.set_rhs(n, None)]
    return c[r % len(c)]


@mbad
def rhs_shape(S, r):
    import casadi as ca
    d = [o for o in declared(S) if o[1] == 'x']
    if not d or S.setup:
        return None
    _, k, n, sh = d[r % len(d)]
    e = sym1(S)
    return lambda: S.m.set_rhs(n, ca.vertcat(*[e] * (gen.size(sh) + 1 + r % 2)))


@mbad
def alg(S, r):
    m, e = S.m, sym1(S)
    c = [lambda: m.set_alg(3, e), lambda: m.set_alg('new', 'abc'), lambda: m.set_alg('new', None)]
    if S.setup or S.lin:
        c = [lambda: m.set_alg('new', e)]
    return c[r % len(c)]


@mbad
def equation_twice(S, r):
    """a second expression, measurement or algebraic equation of the same name"""
    if S.lin or S.setup:
        return None
    e = sym1(S)
    d = [o for o in S.done if o[0] in ('aux', 'meas', 'alg')]
    if not d:
        return None
    k, i = d[r % len(d)]
    n = S.spec[k][i][0]
    return lambda: dict(aux=S.m.set_expression, meas=S.m.set_meas, alg=S.m.set_alg)[k](n, e)


@mbad
def assign(S, r):
    a = ['x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v'][r % 9]
    return lambda: setattr(S.m, a, 3.)


@mbad
def query(S, r):
    return [lambda: S.m['nope'], lambda: S.m['x', 'nope'], lambda: S.m['x', 'u', '_z']][r % 3]


@mbad
def setup_early(S, r):
    """setup before the last right-hand side or algebraic equation is declared"""
    if S.setup or not declared(S):
        return None
    rh = {o[1] for o in S.done if o[0] == 'rhs'}
    xs = {n for n, _ in S.spec['x']}
    nd = [o for o in declared(S) if o[1] == 'x']
    al = [o for o in S.done if o[0] == 'alg']
    nz = sum(gen.size(o[3]) for o in declared(S) if o[1] == 'z')
    na = sum(len(S.spec['alg'][o[1]][1]) for o in al)
    if {o[2] for o in nd} <= rh and nz == na:
        return None
    return lambda: S.m.setup()


@mbad
def setup_again(S, r):
    return (lambda: S.m.setup()) if S.setup else None


@mbad
def objects_early(S, r):
    import do_mpc
    if S.setup:
        return (lambda: do_mpc.controller.LQR(S.m)) if not S.lin or S.spec['type'] == 'continuous' else None
    C = [lambda: do_mpc.simulator.Simulator(S.m), lambda: do_mpc.controller.MPC(S.m), lambda: do_mpc.estimator.MHE(S.m), lambda: do_mpc.estimator.StateFeedback(S.m), lambda: do_mpc.controller.LQR(S.m), lambda: do_mpc.data.Data(S.m), lambda: do_mpc.model.linearize(S.m)]
    return C[r % 7]


@mbad
def linear_args(S, r):
    if not S.lin or S.setup or len(S.done) < len(decl(S.spec)) - 1 - (len(S.spec['x']) + 1 if S.spec['mode'] == 'eq' else 0):
        return None
    A, B, C = np.array(S.spec['A']), np.array(S.spec['B']), np.array(S.spec['C'])
    if any(o[0] in ('rhs', 'meas') for o in S.done):
        return None
    m = S.m
    big = lambda M, i=1, j=0: np.zeros((M.shape[0] + i, M.shape[1] + j))
    D = np.zeros((C.shape[0], B.shape[1]))
    c = [lambda: m.setup(A.tolist(), B, C), lambda: m.setup(A, B.tolist(), C), lambda: m.setup(A, B, C.tolist()), lambda: m.setup(A, B, C, D.tolist()), lambda: m.setup(big(A), B, C), lambda: m.setup(A, big(B), C), lambda: m.setup(A, big(B, 0, 1), C),
         lambda: m.setup(A, B, big(C, 0, 1)), lambda: m.setup(A, B, C, big(D, 0, 1)), lambda: m.setup(A, B, C, big(D, 1, 0)), lambda: m.setup(big(A, 1, 1), B), lambda: m.setup()]
    return c[r % len(c)]


@mbad
def linear_nonlinear(S, r):
    d = [o for o in declared(S) if o[1] == 'x']
    if not S.lin or S.setup or not d:
        return None
    n = d[r % len(d)][2]
    x = S.m.x[n]
    o = [S.m[o[1]][o[2]][0] for o in declared(S) if o[1] in ('u', 'p', 'tvp')]
    o = o[r % len(o)] if o else x[0]
    u = [S.m.u[o[2]][0] for o in declared(S) if o[1] == 'u'] or [x[0]]
    return [lambda: S.m.set_rhs(n, x * x), lambda: S.m.set_meas('q', x[0] ** 2), lambda: S.m.set_meas('q', x[0] + u[0] ** 2), lambda: S.m.set_rhs(n, x + u[0] ** 2), lambda: S.m.set_meas('q', x[0] * o), lambda: S.m.set_rhs(n, x * o)][r % 6]


@mbad
def linear_query(S, r):
    if not S.lin:
        return None
    if S.setup:
        return (lambda: S.m.discretize(.5)) if S.spec['type'] == 'discrete' else (lambda: S.m.get_steady_state(uss=np.zeros((S.m.n_u, 1))))
    return [lambda: S.m.sys_A, lambda: S.m.sys_B, lambda: S.m.discretize(.5), lambda: S.m.sys_C, lambda: S.m.get_steady_state(uss=np.zeros((1, 1)))][r % 5]


def mstate(S):
    """Everything the model shows (evaluated at a fixed point)"""
    m = S.m
    out = []
    for k in ('x', 'u', 'z', 'tvp', 'p', 'w', 'v', 'y', 'aux'):
        v = getattr(m, k)
        out.append([k, list(v.keys()), [list(v[n].shape) for n in v.keys()]])
    out.append(['flags', repr(m.flags)])
    if S.setup:
        q = lambda s, o: s(np.array([.25 * ((i * 7 + o) % 9 - 4) for i in range(s.size)]).reshape(-1, 1))
        a = [q(m._x, 1), q(m._u, 2), q(m._z, 3), q(m._tvp, 4), q(m._p, 5)]
        for f, z in (('_rhs_fun', [q(m._w, 6)]), ('_alg_fun', [q(m._w, 6)]), ('_aux_expression_fun', []), ('_meas_fun', [q(m._v, 7)]), ('A_fun', [q(m._w, 6)]), ('D_fun', [q(m._v, 7)])):
            out.append([f, snap(getattr(m, f)(*a, *z))])
        out.append(['n', [getattr(m, 'n_' + k) for k in ('x', 'y', 'u', 'z', 'tvp', 'p', 'aux', 'w', 'v')]])
        if S.lin:
            out.append(['sys', [np.array(getattr(m, 'sys_' + k)).tolist() for k in 'ABCD']])
    return out


def mtrace(case, inject):
    S = MState(case['spec'])
    ops = decl(case['spec'])
    su = len(ops) - 1
    ops = ops + [['end']]
    out, lab, last = [], [], -1
    for i, op in enumerate(ops):
        for pos, name, r in case['inj'] if inject else []:
            if [pos % len(ops), su, su + 1][max(0, pos - 39)] != i:
                continue
            call = MBAD[name](S, r)
            if call is None:
                continue
            lab.append(name)
            before = mstate(S)
            try:
                call()
            except Exception as e:
                if os.environ.get('E01_DEBUG'):
                    print(name, r, type(e).__name__, str(e)[:150])
            else:
                raise Violation('invalid call %s (variant %d) of the model was not rejected%s' % (name, r, ' after setup' if S.setup else ''))
            after = mstate(S)
            require(same(before, after), 'rejected call %s (variant %d) changed the model: %s', name, r, diff(before, after))
            last = i
        if op[0] == 'end':
            out.append(mstate(S))
            continue
        try:
            mdo(S, op)
            out.append(mstate(S))
        except Violation:
            raise
        except Exception as e:
            if inject:
                raise Violation('valid call %s failed after the rejected calls %s: %s: %s' % (op, lab, type(e).__name__, str(e)[:600]))
            raise
    return out, lab, last, ops


def run_model(case):
    want = mtrace(case, False)[0]
    got, lab, last, ops = mtrace(case, True)
    for op, a, b in zip(ops, want, got):
        require(same(a, b), 'after the rejected calls %s the call %s gives\n%s', lab, op, diff(a, b))
    return dict(nontrivial=last >= 0, labels=sorted(set(lab)))


@st.composite
def injections(draw, n):
    return [[draw(st.sampled_from(list(range(42)) + [40] * 8 + [41] * 4)), draw(st.sampled_from(sorted(MBAD))), draw(st.sampled_from(RR))] for _ in range(draw(st.sampled_from([1, 4, 8, n])))]


@st.composite
def model_case(draw):
    return dict(spec=draw(gen.model_spec(max_leaves=3)), inj=draw(injections(14)))


@st.composite
def linear_case(draw):
    s = dict(type=draw(st.sampled_from(['discrete', 'continuous'])), sym='SX', lin=True, z=[], p=[], tvp=[], aux=[], meas=[], w=[], alg=[])
    s['x'] = draw(gen.variables(1, 2, gen.VSHAPES)); s['u'] = draw(gen.variables(1, 2, ((1, 1), (2, 1))))
    d = gen.dims(s)
    s['mode'] = draw(st.sampled_from(['eq', 'mat', 'mat']))
    s['A'] = [draw(st.lists(gen.nice(-.5, .5), min_size=d['x'], max_size=d['x'])) for _ in range(d['x'])]
    s['B'] = [[draw(gen.nice(-1, 1)) for j in range(d['u'])] for i in range(d['x'])]
    s['C'] = [draw(st.lists(gen.nice(-1, 1), min_size=d['x'], max_size=d['x'])) for _ in range(draw(st.integers(1, 2)))]
    return dict(spec=s, inj=draw(injections(14)))


P.test('model', model_case(), 1200, 40000)(run_model)
P.test('linear', linear_case(), 600, 20000)(run_model)

if __name__ == '__main__':
    P.main()
