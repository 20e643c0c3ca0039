"""U01: values exchanged by OPC UA arrive at the variable they were written for."""
import contextlib, io, socket, time, logging
import numpy as np
from lib.vf import Prop, st, require, Inconclusive, HarnessError
from lib import gen, est

P = Prop('U01', 'Test "exchange": one loopback server with 1-3 clients whose namespaces are generated from random models (names, vector and matrix variables, noise, measurements, all variable types); histories of 10-60 writes '
         '(whole variable kinds, single tags, several container types, vectors of the wrong size), reads by any client of the tags of any client and simulator steps over tags; oracle: dictionary from node to value and a second simulator stepped '
         'directly. After every history all tags are read. Test "loop": simulator and LQR controller connected by tags against the same loop without server. Test "async": asynchronous steps in real time (one-sided bounds only). '
         'Non-trivial: a read of a tag that another client wrote.', ['asyncua and the loopback network', 'floating point values (tags are arrays of one double)'])
KINDS9 = ['aux', 'p', 'tvp', 'u', 'v', 'w', 'x', 'y', 'z']


def port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close()
    return p


@contextlib.contextmanager
def server(clients):
    """clients: list of functions (address, port) -> RTBase; yields the server and the connected clients"""
    import do_mpc.opcua as ua
    logging.disable(logging.CRITICAL)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for attempt in range(5):
            p = port(); adr = 'opc.tcp://127.0.0.1:%d/dompc/server/' % p
            s = ua.RTServer(ua.ServerOpts('server', adr, p))
            cl = [c(adr, p) for c in clients]
            for c in cl:
                s.namespace_from_client(c)
            try:
                s.start()
                break
            except OSError:
                if attempt == 4:
                    raise Inconclusive('no free port')
        done = []
        try:
            try:
                for c in cl:
                    c.connect(); done.append(c)
            except OSError as e:
                raise AssertionError('no server at the configured address: %s' % e)
            yield s, cl
        finally:
            for c in done:
                try:
                    c.disconnect()
                except Exception:
                    pass
            s.stop()


def ent(spec, kd):
    """[(name, size)] of a kind in the order of the model vector"""
    if kd in gen.KINDS:
        return [(n, gen.size(s)) for n, s in spec[kd]]
    if kd == 'aux':
        return [(n, gen.size(s)) for n, s, _ in spec['aux']]
    if kd == 'y':
        return [(n, gen.size(s)) for n, s, _, _ in spec['meas']] if spec['meas'] else ent(spec, 'x')
    return [(n + '_noise', gen.size(sh)) for n, sh in (est.wnames(spec) if kd == 'w' else est.vnames(spec))]


def width(spec, kd):
    return sum(n for _, n in ent(spec, kd))


vals = lambda n: st.lists(st.one_of(gen.nice(-4, 4), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, -0.0, 1e-300, 1e300])), min_size=n, max_size=n)


@st.composite
def ecase(draw):
    specs = []
    for i in range(draw(st.integers(1, 3))):
        s = draw(gen.tame_spec(types=('discrete',), with_z=False, max_x=2, max_leaves=2, min_u=draw(st.integers(0, 1)), noise=draw(st.booleans()), wide=True))
        specs.append(s if draw(st.integers(0, 2)) or not specs else specs[0])
    n = len(specs)
    ops = []
    for _ in range(draw(st.integers(10, 60))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        kd = draw(st.sampled_from(KINDS9))
        w = width(specs[b], kd)
        k = draw(st.sampled_from(['w', 'w', 'w', 'w1', 'r', 'r', 'r1', 'bad', 'step']))
        if k == 'w':
            ops.append([k, a, b, kd, draw(vals(w)), draw(st.sampled_from(['np', 'flat', 'row', 'dm', 'list2d']))])
        elif k == 'w1' and w:
            ops.append([k, a, b, kd, draw(st.integers(0, w - 1)), draw(vals(1))[0]])
        elif k == 'r':
            ops.append([k, a, b, kd])
        elif k == 'r1' and w:
            ops.append([k, a, b, kd, draw(st.integers(0, w - 1))])
        elif k == 'bad':
            ops.append([k, a, b, kd, draw(vals(w + draw(st.sampled_from([1, 2, -1] if w else [1]))))])
        elif k == 'step':
            ops.append([k, a, b, draw(st.booleans())])
    return dict(specs=specs, ops=ops, names=draw(st.permutations(['sim', 'sim1', 'mpc'])), x0=draw(st.lists(gen.nice(-1, 1), min_size=24, max_size=24)))


def make_sim(spec, x0):
    import do_mpc
    m, _ = gen.build(spec)
    s = do_mpc.simulator.Simulator(m)
    s.settings.t_step = 0.5
    if spec['tvp']:
        t = s.get_tvp_template(); s.set_tvp_fun(lambda now, t=t: t)
    if spec['p']:
        p = s.get_p_template(); s.set_p_fun(lambda now, p=p: p)
    s.setup()
    s.x0 = np.resize(np.array(x0), (m.n_x, 1))
    return s


def exchange(case):
    import do_mpc.opcua as ua
    import casadi as ca
    specs = case['specs']
    sims = [make_sim(s, case['x0']) for s in specs]
    twins = [make_sim(s, case['x0']) for s in specs]
    mk = [lambda adr, p, i=i: ua.RTBase(sims[i], ua.ClientOpts(case['names'][i], adr, p)) for i in range(len(specs))]
    cross = 0
    with server(mk) as (srv, cl):
        tags = [{kd: c.namespace[kd] for kd in KINDS9} for c in cl]
        model = {}
        for i, s in enumerate(specs):
            for kd in KINDS9:
                exp = [(n, k) for n, w in ent(s, kd) for k in range(w)]
                require(len(tags[i][kd]) == len(exp), 'namespace of %s has %d tags for the %d elements of %s: %s', case['names'][i], len(tags[i][kd]), len(exp), kd, tags[i][kd])
                for (n, k), t in zip(exp, tags[i][kd]):
                    require(n in t and t not in model, 'tag %s of element %d of %s is used twice or does not name the variable', t, k, (kd, n))
                    model[t] = (0.0, None)
            extra = {e.objectnode for e in cl[i].namespace.entry_list} - set(KINDS9)
            require(not extra and len(cl[i].namespace.entry_list) == sum(map(len, tags[i].values())), 'namespace has other entries: %s', extra)

        def cmp(got, ts, what):
            exp = np.array([model[t][0] for t in ts]).reshape(-1, 1)
            require(np.shape(got) == exp.shape and np.array_equal(np.asarray(got, float), exp), '%s: read %s from %s, written %s', what, np.asarray(got).ravel().tolist(), ts, exp.ravel().tolist())

        def read(a, ts, what):
            nonlocal cross
            cl[a].set_read_tags(ts)
            cmp(cl[a].read_from_tags(), ts, what)
            cross += any(model[t][1] not in (None, a) for t in ts)

        for op in case['ops']:
            k, a, b = op[:3]
            if k == 'w':
                ts, v = tags[b][op[3]], np.array(op[4], float)
                arg = v if op[5] == 'flat' else v.reshape(1, -1) if op[5] == 'row' else ca.DM(v.reshape(-1, 1)) if op[5] == 'dm' else v.reshape(-1, 1)
                cp = np.array(arg, copy=True)
                cl[a].set_write_tags(ts); cl[a].write_to_tags(arg)
                require(np.array_equal(np.array(arg), cp), 'write_to_tags changed its argument')
                model.update({t: (x, a) for t, x in zip(ts, v)})
            elif k == 'w1':
                t = tags[b][op[3]][op[4]]
                cl[a].client.writeData(t, [float(op[5])]); model[t] = (float(op[5]), a)
            elif k == 'r':
                read(a, tags[b][op[3]], 'read')
            elif k == 'r1':
                t = tags[b][op[3]][op[4]]
                got = cl[a].client.readData(t)
                cmp(np.reshape(got, (-1, 1)), [t], 'readData')
            elif k == 'bad':
                cl[a].set_write_tags(tags[b][op[3]])
                try:
                    cl[a].write_to_tags(np.array(op[4]))
                except Exception:
                    pass
                else:
                    raise AssertionError('%d values were written to %d tags' % (len(op[4]), len(tags[b][op[3]])))
            elif k == 'step':
                # simulator of client a takes its inputs from the tags of client b (if they fit) and writes its measurements to its own tags
                src = b if op[3] and width(specs[b], 'u') == width(specs[a], 'u') else a
                ti, to = tags[src]['u'], tags[a]['y']
                if not ti:
                    continue
                u = np.array([model[t][0] for t in ti])
                if np.abs(u).max() > 1e6:
                    continue
                cl[a].set_read_tags(ti); cl[a].set_write_tags(to)
                cl[a].make_step()
                y = np.asarray(twins[a].make_step(u.reshape(-1, 1))).ravel()
                got = np.array([cl[a].client.readData(t) for t in to], float).ravel()
                require(gen.close(got, y), 'step over tags writes the measurements %s, direct step gives %s', got.tolist(), y.tolist())
                require(gen.close(sims[a].x0.cat.full(), twins[a].x0.cat.full()), 'step over tags reaches the state %s, direct step %s', sims[a].x0.cat.full().ravel(), twins[a].x0.cat.full().ravel())
                model.update({t: (x, a) for t, x in zip(to, got)})
        for a in range(len(cl)):
            for b in range(len(cl)):
                if a == b or a == 0:
                    for kd in KINDS9:
                        read(a, tags[b][kd], 'at the end')
    return dict(nontrivial=cross > 0, labels=['clients%d' % len(specs)] + sorted({o[0] for o in case['ops']}))


P.test('exchange', ecase(), 40, 1800)(exchange)


# ------------------------------------------------------------------------------------------------- closed loop
@st.composite
def lcase(draw):
    nx, nu = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    return dict(nx=nx, nu=nu, A=[draw(st.lists(gen.nice(-.5, .5), min_size=nx, max_size=nx)) for _ in range(nx)], B=[draw(st.lists(gen.nice(-1, 1), min_size=nu, max_size=nu)) for _ in range(nx)],
                x0=draw(st.lists(gen.nice(-2, 2), min_size=nx, max_size=nx)), n=draw(st.integers(1, 6)), split=draw(st.booleans()))


def loop(case):
    import do_mpc, do_mpc.opcua as ua
    import casadi as ca
    A, B, nx, nu = np.array(case['A']), np.array(case['B']), case['nx'], case['nu']

    def build():
        m = do_mpc.model.LinearModel('discrete')
        if case['split'] and nx > 1:
            x = [m.set_variable('_x', 'xa'), m.set_variable('_x', 'xb', shape=(nx - 1, 1))]
        else:
            x = [m.set_variable('_x', 'xa', shape=(nx, 1))]
        m.set_variable('_u', 'u', shape=(nu, 1))
        m.setup(A=A, B=B)
        sim = do_mpc.simulator.Simulator(m); sim.settings.t_step = .1; sim.setup()
        sim.x0 = np.array(case['x0']).reshape(-1, 1)
        lqr = do_mpc.controller.LQR(m); lqr.settings.t_step = .1; lqr.settings.n_horizon = None
        lqr.set_objective(Q=np.eye(nx), R=np.eye(nu)); lqr.setup()
        lqr.set_setpoint(xss=np.zeros((nx, 1)), uss=np.zeros((nu, 1)))
        return m, sim, lqr
    m, sim, lqr = build(); _, sim2, lqr2 = build()
    with server([lambda a, p: ua.RTBase(sim, ua.ClientOpts('sim', a, p)), lambda a, p: ua.RTBase(lqr, ua.ClientOpts('ctrl', a, p))]) as (srv, (rs, rc)):
        rs.set_write_tags(rs.namespace['x']); rc.set_read_tags(rs.namespace['x'])
        rc.set_write_tags(rc.namespace['u']); rs.set_read_tags(rc.namespace['u'])
        rs.write_to_tags(sim.x0)
        x2 = np.array(case['x0']).reshape(-1, 1)
        for k in range(case['n']):
            rc.make_step(); rs.make_step()
            u2 = lqr2.make_step(x2); x2 = sim2.make_step(u2)
            got = rc.read_from_tags()
            require(gen.close(got, x2), 'step %d of the loop over tags gives the state %s, the direct loop %s', k, got.ravel().tolist(), np.asarray(x2).ravel().tolist())
            require(gen.close(rs.read_from_tags(), u2), 'step %d: input over tags %s, directly %s', k, rs.read_from_tags().ravel().tolist(), np.asarray(u2).ravel().tolist())
    return dict(nontrivial=bool(np.abs(case['x0']).max() > 0), labels=['steps%d' % case['n']])


P.test('loop', lcase(), 8, 320)(loop)


# ------------------------------------------------------------------------------------------------- asynchronous steps
@st.composite
def acase(draw):
    return dict(**draw(st.sampled_from([dict(t_step=.2, unit=1), dict(t_step=.2, unit=2), dict(t_step=.1, unit=3), dict(t_step=.4, unit=1), dict(t_step=.3, unit=2)])), n=draw(st.integers(2, 4)), restart=draw(st.booleans()), x0=draw(gen.nice(-1, 1)))


def asynchronous(case):
    import do_mpc, do_mpc.opcua as ua
    m = do_mpc.model.Model('discrete')
    x = m.set_variable('_x', 'x'); u = m.set_variable('_u', 'u')
    m.set_rhs('x', x + u); m.setup()
    sim = do_mpc.simulator.Simulator(m); sim.settings.t_step = case['t_step']; sim.setup()
    sim.x0 = np.array([[case['x0']]])
    cycle = case['t_step'] * case['unit']
    total = 0
    with server([lambda a, p: ua.RTBase(sim, ua.ClientOpts('sim', a, p, case['unit']))]) as (srv, (rt,)):
        rt.set_read_tags(rt.namespace['u']); rt.set_write_tags(rt.namespace['x'])
        rt.client.writeData(rt.namespace['u'][0], [1.0])

        spans, step = [], rt.make_step

        def timed():
            a = time.time(); step(); spans.append(time.time() - a)
        rt.make_step = timed

        def late():
            """steps which take longer than the cycle overlap: not decided"""
            if spans and max(spans) > 0.4 * cycle:
                raise Inconclusive('steps took %.2f s (cycle %.2f s)' % (max(spans), cycle))

        def count():
            return len(sim.data['_time'])
        for r in range(2 if case['restart'] else 1):
            n0, t0 = count(), time.time()
            rt.async_step_start()
            try:
                while count() < n0 + case['n']:
                    time.sleep(0.01)
                    if time.time() - t0 > 30 + 4 * case['n'] * cycle:
                        late()
                        raise AssertionError('only %d of %d asynchronous steps in %.1f s with a cycle time of %.2f s' % (count() - n0, case['n'], time.time() - t0, cycle))
                took = time.time() - t0
            finally:
                rt.async_step_stop()
            late()
            require(took > 0.9 * cycle * (case['n'] - 1), '%d asynchronous steps within %.2f s, the cycle time is %.2f s', case['n'], took, cycle)
            time.sleep(0.05)
            n1 = count()
            time.sleep(2.5 * cycle)
            n2 = count()
            late()
            require(n2 <= n1 + 1, '%d asynchronous steps after async_step_stop', n2 - n1)
            time.sleep(1.5 * cycle)
            n2b = count()
            require(n2b == n2, 'asynchronous steps go on after async_step_stop')
            xs = sim.data['_x'].ravel()
            require(gen.close(xs, case['x0'] + np.arange(len(xs))), 'states of the asynchronous steps: %s', xs.tolist())
            last = rt.client.readData(rt.namespace['x'][0])
            require(gen.close(last, [case['x0'] + n2b]), 'the tag shows %s after %d steps from %s', last, n2b, case['x0'])
            total = n2b
    return dict(nontrivial=total > 1, labels=['cycle%.1f' % cycle])


P.test('async', acase(), 8, 80)(asynchronous)
if __name__ == '__main__':
    P.main()
