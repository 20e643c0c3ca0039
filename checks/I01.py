"""I01: objects do not influence each other, nor do later changes of the caller's data."""
import os, pickle, signal, traceback
import numpy as np
from lib.vf import Prop, st, require, Violation, HarnessError
from lib import gen

P = Prop('I01', 'Programs of 2-3 objects (simulator, MPC, MHE, LQR, state feedback; several on one model object) with configuration, settings, bounds, scaling, setup, initial values, steps, record queries, resets. The programs run interleaved in one '
         'process with argument objects which are shared between the objects or overwritten by the caller after the call, results which are overwritten by the caller, and shared tvp/p functions with one template object; '
         'every object must show the same settings, bounds, results and records after each of its calls as in a process in which it runs alone with private arguments. No call may change its arguments, and results which the caller keeps may not change later. Non-trivial: at least two objects '
         'with at least one step each.', ['x0/u0/z0 as well as bounds and scaling are read and written in place by design (documented)', 'settings attributes keep the dictionary object assigned to them'])
N = 2
KINDS = ['np', 'dm', 'struct']


# ------------------------------------------------------------------------------------------------- programs
@st.composite
def program(draw, spec, kind, lin):
    d = gen.dims(spec)
    ops = []
    val = lambda n: draw(st.lists(gen.nice(-1, 1), min_size=n, max_size=n))
    ck = lambda: draw(st.sampled_from(KINDS))
    sh = lambda: draw(st.booleans())
    cfgs = []
    if kind == 'sim':
        cfgs = [['set', 't_step', draw(st.sampled_from([.25, .5]))]]
        if spec['type'] == 'continuous':
            if d['z']:
                cfgs.append(['set', 'integration_tool', 'idas'])
            if draw(st.booleans()):
                cfgs.append(['set', 'reltol', draw(st.sampled_from([1e-6, 1e-8]))])
            if draw(st.booleans()):
                cfgs.append(['dict', 'integration_opts', 'max_num_steps', draw(st.sampled_from([5000, 20000]))])
    if kind in ('mpc', 'mhe'):
        cfgs = [['set', 't_step', .5], ['set', 'n_horizon', N], ['dict', 'nlpsol_opts', 'ipopt.max_iter', draw(st.sampled_from([40, 60]))], ['quiet']]
        cfgs += [['set', 'meas_from_data', True]] if kind == 'mhe' else []
        cfgs += [['store', draw(st.sampled_from([['success'], ['success', 'iter_count']]))]] if draw(st.booleans()) else []
        cfgs += [['obj', draw(st.sampled_from([.5, 1., 2.])), sh()]]
        for _ in range(draw(st.integers(0, 4))):
            kd = draw(st.sampled_from([k for k in 'xuz' if d[k]]))
            n, s = draw(st.sampled_from(spec[kd]))
            w = draw(st.sampled_from(['bound', 'bound', 'scale']))
            cfgs.append([w, draw(st.sampled_from(['lower', 'upper'])), kd, n, draw(st.lists(st.sampled_from([1., 2., 4.]), min_size=gen.size(s), max_size=gen.size(s))), sh()])
    if kind == 'lqr':
        cfgs = [['set', 't_step', .5], ['set', 'n_horizon', draw(st.sampled_from([3, None]))], ['obj', draw(st.sampled_from([.5, 1., 2.])), sh()]]
        if draw(st.booleans()):
            cfgs.append(['rterm', draw(st.sampled_from([.5, 1.])), sh()])
    if kind != 'sf':
        cfgs = list(draw(st.permutations(cfgs)))
        if d['tvp'] and kind != 'lqr':
            cfgs.append(['tvp', draw(st.sampled_from([None, .25, 1.]))])
        if d['p'] and kind != 'lqr':
            cfgs.append(['p', draw(st.sampled_from([None, .25, 1.]))])
        ops = cfgs + [['setup']]
        ops.append(['x0', val(d['x']), ck(), sh()])
    if kind in ('mpc', 'mhe'):
        ops.append(['guess'])
    ny = len(gen.meas_trees(spec))
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(['step', 'step', 'step', 'step', 'x0', 'u0', 'q', 'q', 'reset', 'bound', 'setpoint', 't0']))
        if k == 'step':
            n = dict(sim=d['u'], mpc=d['x'], mhe=ny, lqr=d['x'], sf=ny)[kind]
            ops.append(['step', val(n), draw(st.sampled_from(['np', 'dm', 'struct'])) if kind != 'sf' else 'np', sh()])
        elif k == 'bound' and kind == 'mpc':
            kd = draw(st.sampled_from(['x', 'u'] if d['u'] else ['x']))
            n, s = draw(st.sampled_from(spec[kd]))
            ops.append(['bound', draw(st.sampled_from(['lower', 'upper'])), kd, n, [draw(st.sampled_from([3., 5.]))] * gen.size(s), sh()])
        elif k == 'setpoint' and kind == 'lqr':
            ops.append(['setpoint', val(d['x']), val(d['u']), sh()])
        elif k in ('x0', 'u0') and kind != 'sf':
            ops.append([k, val(d[k[0]]), ck(), sh()])
        elif k == 'q':
            ops.append(['q', draw(st.sampled_from(['_x', '_u', '_time', '_y'])), draw(st.booleans())])
        elif k == 'reset':
            ops.append(['reset'])
        elif k == 't0' and kind in ('sim', 'mpc'):
            ops.append(['t0', draw(gen.nice(0, 3)), sh()])
    return ops


@st.composite
def cases(draw):
    specs = []
    for i in range(draw(st.integers(1, 2))):
        lin = draw(st.integers(0, 2)) == 0
        if lin:
            s = dict(type='discrete', sym='SX', lin=True, z=[], p=[], tvp=[], aux=[], meas=[], w=[], alg=[])
            s['x'] = draw(gen.variables(1, 2, gen.VSHAPES)); s['u'] = draw(gen.variables(1, 2, ((1, 1), (2, 1))))
            d = gen.dims(s)
            s['A'] = [draw(st.lists(gen.nice(-.5, .5), min_size=d['x'], max_size=d['x'])) for _ in range(d['x'])]
            s['B'] = [[draw(gen.nice(-1, 1)) + (.5 if i == j else 0) for j in range(d['u'])] for i in range(d['x'])]
        else:
            s = draw(gen.tame_spec(max_x=2, max_u=2, max_p=1, max_tvp=1, max_aux=1, max_meas=2, shapes=gen.VSHAPES, min_u=1, max_leaves=2, noise=False, with_z=draw(st.integers(0, 3)) == 0))
        specs.append(s)
    actors = []
    for i in range(draw(st.integers(2, 3))):
        m = draw(st.integers(0, len(specs) - 1)) if i else 0
        kd = draw(st.sampled_from(['sim', 'sim', 'mpc', 'mpc', 'mhe', 'sf'] + (['lqr'] * 3 if specs[m].get('lin') else [])))
        if i == 1 and draw(st.integers(0, 1)):       # two objects of one kind on one model
            m, kd = actors[0][:2]
        actors.append([m, kd, draw(program(specs[m], kd, bool(specs[m].get('lin'))))])
    tot = sum(len(a[2]) for a in actors)
    return dict(specs=specs, actors=actors, order=draw(st.lists(st.integers(0, len(actors) - 1), min_size=tot, max_size=tot)), pool=draw(st.booleans()))


# ------------------------------------------------------------------------------------------------- execution
class World:
    """Provides models and arguments. shared: the caller reuses and overwrites its objects."""

    def __init__(self, specs, shared):
        self.specs, self.shared, self.models, self.objs, self.funs = specs, shared, {}, {}, {}

    def model(self, i):
        import do_mpc
        if not (self.shared and i in self.models):
            s = self.specs[i]
            if s.get('lin'):
                m = do_mpc.model.LinearModel('discrete')
                for k in ('x', 'u'):
                    for n, sh in s[k]:
                        m.set_variable('_' + k, n, tuple(sh))
                m.setup(np.array(s['A']), np.array(s['B']))
            else:
                m, _ = gen.build(s)
            self.models[i] = m
        return self.models[i]

    def arg(self, key, make, share):
        """the object to pass, and a function which is called after the call returned"""
        k = repr(key)
        if self.shared and share:
            if k not in self.objs:
                self.objs[k] = make()
            o = self.objs[k]
        else:
            o = make()
        before = snap(o)

        def done(what):
            if snap(o) != before:
                raise Violation('%s changed its argument from %s to %s' % (what, before, snap(o)))
            if self.shared and not share:
                clobber(o)
        return o, done


def snap(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (list, dict)):
        return repr(o)
    if hasattr(o, 'cat'):
        return np.array(o.cat.full() if hasattr(o.cat, 'full') else o.cat).tolist()
    return np.array(o.full()).tolist()


def clobber(o):
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 777.0
    elif isinstance(o, list):
        o.append('nonsense')
    elif hasattr(o, 'cat'):
        for k in o.keys():
            o[k] = 777.0
    else:
        o[:, :] = 777.0


class Actor:
    def __init__(self, W, mi, kind):
        import do_mpc
        self.W, self.mi, self.kind, self.spec = W, mi, kind, W.specs[mi]
        self.m = W.model(mi)
        if kind == 'sim':
            self.o = do_mpc.simulator.Simulator(self.m)
        elif kind == 'mpc':
            self.o = do_mpc.controller.MPC(self.m)
        elif kind == 'mhe':
            self.o = do_mpc.estimator.MHE(self.m, [])
        elif kind == 'lqr':
            self.o = do_mpc.controller.LQR(self.m)
        else:
            self.o = do_mpc.estimator.StateFeedback(self.m)
        self.steps, self.kept = 0, []

    def vec(self, struct, vals, kind, share, key):
        import casadi as ca
        a = np.array(vals, float).reshape(-1, 1)
        return self.W.arg([self.mi if kind == 'struct' else '', key if kind == 'struct' else '', kind, a.tolist()], lambda: a.copy() if kind == 'np' else ca.DM(a) if kind == 'dm' else struct(a), share)

    def do(self, op):
        import casadi as ca
        o, m, s, k = self.o, self.m, self.spec, op[0]
        out = []
        if k == 'set':
            setattr(o.settings, op[1], op[2])
        elif k == 'dict':
            getattr(o.settings, op[1])[op[2]] = op[3]
        elif k == 'quiet':
            o.settings.supress_ipopt_output()
        elif k == 'store':
            o.settings.store_solver_stats = list(op[1])
        elif k == 'obj':
            if self.kind == 'mpc':
                c = sum(ca.sumsqr(m.x[n] - .5) for n, _ in s['x'])
                o.set_objective(lterm=op[1] * c, mterm=c)
                o.set_rterm(**{n: .1 for n, _ in s['u']})
            else:
                n1, n2 = (m.n_x, m.n_u) if self.kind == 'lqr' else (m.n_x, m.n_v)
                A, d1 = self.W.arg(['obj', self.kind, n1, op[1]], lambda: np.eye(n1) * op[1], op[2])
                B, d2 = self.W.arg(['obj2', self.kind, n2, op[1]], lambda: np.eye(n2) * 2., op[2])
                if self.kind == 'lqr':
                    o.set_objective(Q=A, R=B, P=A)
                else:
                    o.set_default_objective(P_x=A, P_v=B if n2 else None, P_w=np.eye(m.n_w) if m.n_w else None)
                d1('set_objective'); d2('set_objective')
        elif k == 'rterm':
            A, d1 = self.W.arg(['rt', m.n_u, op[1]], lambda: np.eye(m.n_u) * op[1], op[2])
            o.set_rterm(A); d1('set_rterm')
        elif k in ('bound', 'scale'):
            sh = dict((n, x) for n, x in s[op[2]])[op[3]]
            v = (-1 if k == 'bound' and op[1] == 'lower' else 1) * np.array(op[4]).reshape(-1, 1)
            A, d1 = self.W.arg(['b', v.tolist()], lambda: v.copy(), op[5])
            if k == 'bound':
                o.bounds[op[1], '_' + op[2], op[3]] = A
            else:
                o.scaling['_' + op[2], op[3]] = A
            d1(k)
        elif k in ('tvp', 'p'):
            mode = op[1] if len(op) > 1 else None
            key = (self.mi, self.kind, k, mode) if self.kind == 'sim' else (id(self), k)
            if not (self.W.shared and key in self.W.funs):
                if k == 'p' and self.kind == 'mpc':
                    t = o.get_p_template(1)
                else:
                    t = o.get_tvp_template() if k == 'tvp' else o.get_p_template()
                nt = sum(gen.size(x) for _, x in s[k])

                def f(now, t=t, nt=nt, W=self.W, clean=o):
                    if mode is not None:        # filled once, below
                        return t
                    now = float(np.array(now).ravel()[0])
                    t.master = ca.DM([.1 * now + .25 * i for i in range(t.cat.shape[0])]) if hasattr(t, 'master') else None
                    return t
                if mode is not None:
                    t.master = ca.DM([mode + .25 * i for i in range(t.cat.shape[0])])
                self.W.funs[key] = f
            (o.set_tvp_fun if k == 'tvp' else o.set_p_fun)(self.W.funs[key])
        elif k == 'setup':
            o.setup()
        elif k in ('x0', 'u0'):
            A, d1 = self.vec(getattr(m, k[0] if False else '_' + k[0]), op[1], op[2], op[3], k[0])
            setattr(o, k, A)
            d1(k + ' setter')
        elif k == 't0':
            A, d1 = self.W.arg(['t', op[1]], lambda: np.array([op[1]]), op[2])
            o.t0 = A
            d1('t0 setter')
        elif k == 'guess':
            o.set_initial_guess()
        elif k == 'step':
            st_ = dict(sim='_u', mpc='_x', mhe='_y', lqr='_x', sf='_y')[self.kind]
            A, d1 = self.vec(getattr(m, st_) if st_ != '_y' else m._y, op[1], op[2], op[3], st_)
            r = o.make_step(A)
            out.append(snap(r))
            d1('make_step')
            self.steps += 1
            self.result('make_step', r, self.kind != 'sf' and self.steps % 2)
        elif k == 'setpoint':
            A, d1 = self.W.arg(['xs', op[1]], lambda: np.array(op[1]).reshape(-1, 1), op[3])
            B, d2 = self.W.arg(['us', op[2]], lambda: np.array(op[2]).reshape(-1, 1), op[3])
            o.set_setpoint(xss=A, uss=B); d1('set_setpoint'); d2('set_setpoint')
        elif k == 'q':
            r = o.data[op[1]] if not op[2] or op[1] == '_time' or not s.get(op[1][1:]) else o.data[op[1], s[op[1][1:]][0][0]]
            out.append(snap(r))
            self.result('data query', r, len(self.kept) % 2)
            if op[2]:
                for q, v in o.data.export().items():
                    self.result('data.export()[%r]' % q, v, len(self.kept) % 2)
        elif k == 'reset':
            o.reset_history()
        if self.kind != 'sf':
            self.result('t0', o.t0, False)
        return out + self.state()

    def result(self, what, r, overwrite):
        """the caller overwrites the result or keeps it"""
        if self.W.shared and overwrite:
            clobber(r)
        elif isinstance(r, np.ndarray):
            self.kept.append((what, r, r.copy()))

    def check_kept(self):
        for what, r, v in self.kept:
            require(np.array_equal(r, v, equal_nan=r.dtype.kind == 'f'), 'the result %s of %s (%s) was changed by later calls to %s', v.tolist(), what, self.kind, r.tolist())

    def state(self):
        o, s = self.o, self.spec
        out = []
        if self.kind != 'sf':
            out.append(['settings', sorted((k, repr(getattr(o.settings, k))) for k in ('t_step', 'n_horizon', 'reltol', 'abstol', 'integration_opts', 'integration_tool', 'nlpsol_opts', 'store_solver_stats') if hasattr(o.settings, k))])
            out.append(['state', [snap(o.x0), snap(o.u0), np.array(o.t0, float).ravel().tolist()]])
        if self.kind in ('mpc', 'mhe'):
            out.append(['bounds', [[snap(o.bounds[l, '_' + kd, n]) for l in ('lower', 'upper')] + [snap(o.scaling['_' + kd, n])] for kd in ('x', 'u') for n, _ in s[kd]]])
        out.append(['record', [np.array(o.data[f], float).tolist() for f in ('_time', '_x', '_u', '_p', '_tvp', '_y')]])
        out.append(['model', [self.m.x.keys(), self.m.u.keys(), self.m._p.keys(), self.m._tvp.keys(), self.m._aux.keys() if hasattr(self.m, '_aux') else []]])
        return out


def in_child(fn):
    """Run fn in a forked process (the classes of the parent stay untouched)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ('ok', fn())
            except Violation as e:
                res = ('violation', str(e))
            except BaseException as e:
                res = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not b:
        raise HarnessError('child process died')
    k, v = pickle.loads(b)
    if k == 'violation':
        raise Violation(v)
    if k == 'error':
        raise HarnessError(v)
    return v


def attempt(trace, fn):
    """Append the observation; False if the program of this object ended with an error"""
    try:
        trace.append(fn())
        return True
    except Violation:
        raise
    except Exception as e:
        trace.append(['exc', type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:]])
        return False


def alone(case, i):
    W = World(case['specs'], False)
    mi, kd, ops = case['actors'][i]
    tr = []
    box = []
    ok = attempt(tr, lambda: (box.append(Actor(W, mi, kd)), box[0].state())[1])
    for op in ops:
        if not ok:
            break
        ok = attempt(tr, lambda: box[0].do(op))
    for a in box:
        a.check_kept()
    return tr


def together(case):
    W = World(case['specs'], case['pool'])
    if not case['pool']:                      # only the objects are interleaved, on one model object each
        W.shared = True
        W.arg = lambda key, make, share: (make(), lambda what: None)
    tr = [[] for _ in case['actors']]
    A = [[] for _ in case['actors']]
    ok = [attempt(tr[i], lambda: (A[i].append(Actor(W, mi, kd)), A[i][0].state())[1]) for i, (mi, kd, _) in enumerate(case['actors'])]
    pc = [0] * len(A)
    for i in case['order'] + [j for j, a in enumerate(case['actors']) for _ in a[2]]:
        if ok[i] and pc[i] < len(case['actors'][i][2]):
            op = case['actors'][i][2][pc[i]]; pc[i] += 1
            ok[i] = attempt(tr[i], lambda: A[i][0].do(op))
    for a in A:
        for b in a:
            b.check_kept()
    return tr, [a[0].steps for a in A]


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-7 * max(1, abs(a), abs(b)) or (a != a and b != b)
    return a == b


def diff(a, b):
    """first differing part"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and any(isinstance(x, (list, tuple)) for x in a):
        for x, y in zip(a, b):
            if not same(x, y):
                d = diff(x, y)
                return (str(a[0]) + ': ' if isinstance(a[0], str) else '') + d
    return '%s instead of %s' % (str(b)[:400], str(a)[:400])


def run(case):
    import do_mpc                       # once, before the processes are forked
    solo = [in_child(lambda: alone(case, i)) for i in range(len(case['actors']))]
    inter, steps = in_child(lambda: together(case))
    lab = set()
    for i, (mi, kd, ops) in enumerate(case['actors']):
        lab.add(kd)
        names = ['constructor'] + [str(o) for o in ops]
        for k, (x, y) in enumerate(zip(solo[i], inter[i])):
            if x[:1] == ['exc'] and y[:1] == ['exc']:
                lab.add('error')
                if x[1] == y[1]:
                    break
            require(same(x, y), 'object %d (%s on model %d) differs after its call %s from a run without the other objects:\n%s', i, kd, mi, names[k], diff(x, y))
        require(len(solo[i]) == len(inter[i]), 'object %d: program ended after %d instead of %d calls', i, len(inter[i]), len(solo[i]))
        if solo[i] and solo[i][-1][:1] == ['exc'] and os.environ.get('I01_DEBUG'):
            raise HarnessError(solo[i][-1][3])
    if len({a[0] for a in case['actors']}) < len(case['actors']):
        lab.add('one model')
    return dict(nontrivial=sum(s > 0 for s in steps) >= 2, labels=sorted(lab))


P.test('isolation', cases(), 340, 9000)(run)
if __name__ == '__main__':
    P.main()
