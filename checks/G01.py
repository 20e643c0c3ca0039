"""G01: plotted lines show exactly the recorded and predicted values."""
import copy, os, contextlib
import numpy as np
from lib.vf import Prop, st, require, Inconclusive, scratch
from lib import gen, ocp
from checks import D01

P = Prop('G01', 'Test "results": records of random models (all variable types, vector and matrix variables) filled by random updates; histories of add_line (before and after data exist, several variables '
         'in one axis), updates, plot_results with positive and negative time index, clear of all or some lines, reset_axes, reset_prop_cycle and default_plot; after every operation the data of all lines are '
         'compared with an own record, and result_lines is queried by prefix. Test "predictions": random (also multi-stage) MPC configurations stepped 1-3 times with lines added before and after the first step; '
         'prediction lines of every variable, element and scenario against data read from the solutions of the steps. Test "animate": frames, file names and existing files with a recording writer. '
         'Non-trivial: a line with at least two recorded points / at least two steps / at least two frames.', ['a variable is added at most once to one Graphics object', 'rendering of the image by matplotlib'])
VT = ['_x', '_u', '_z', '_tvp', '_p', '_aux']


# ------------------------------------------------------------------------------------------------- results
@st.composite
def rcase(draw):
    spec = draw(gen.model_spec(max_x=3, max_leaves=2, wide=True))
    L = D01.layout(spec)
    pool = [[f, n] for f in VT for n, _ in L[f]]
    ops = []
    todo = list(draw(st.permutations(pool)))
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'upd', 'upd', 'upd', 'plot', 'plot', 'clear', 'clearsome', 'axes', 'cycle', 'query', 'default']))
        if k == 'add' and todo:
            ops.append(['add', todo.pop(), draw(st.integers(0, 2)), draw(st.sampled_from([{}, {}, {'color': 'r'}, {'linestyle': ':'}, {'linewidth': 3}]))])
        elif k == 'upd':
            for _ in range(draw(st.integers(1, 3))):
                ops.append(['upd', {f: draw(st.lists(gen.nice(-4, 4), min_size=D01.width(L[f]), max_size=D01.width(L[f]))) for f in D01.FIELDS}, draw(gen.nice(.125, 2))])
        elif k == 'plot':
            ops.append(['plot', draw(st.one_of(st.none(), st.just(-1), st.integers(0, 9), st.integers(0, 9), st.integers(-9, -2)))])
        elif k == 'clearsome':
            ops.append(['clearsome', draw(st.integers(0, 20))])
        elif k == 'query':
            ops.append(['query', draw(st.sampled_from(pool)), draw(st.integers(1, 3))])
        elif k == 'default':
            sub = {f: draw(st.one_of(st.none(), st.lists(st.sampled_from([n for n, _ in L[f] if n != 'default'] or ['-']), max_size=3, unique=True))) for f in ('_x', '_z', '_u', '_aux')}
            ops.append(['default', {f: None if v is None else [n for n in v if n != '-'] for f, v in sub.items()}])
        elif k in ('clear', 'axes', 'cycle'):
            ops.append([k])
    ops.append(['plot', draw(st.one_of(st.none(), st.integers(0, 9)))])
    return dict(spec=spec, ops=ops, mpcdata=draw(st.booleans()))


def results(case):
    import do_mpc
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    spec = case['spec']
    m, _ = gen.build(spec)
    L = D01.layout(spec)
    d = (do_mpc.data.MPCData if case['mpcdata'] else do_mpc.data.Data)(m)
    if case['mpcdata']:
        d.set_meta(store_full_solution=False)
    rec = {f: [] for f in D01.FIELDS + ['_time']}
    G = do_mpc.graphics.Graphics(d)
    fig = Figure()
    axs = [fig.add_subplot(3, 1, i + 1) for i in range(3)]
    lines = {}                                           # (vt, name, i) -> [line, expected number of points or None for 'as added']
    best = 0

    def val(key, n):
        f, nm, i = key
        c = D01.columns(L, [f, nm])[i]
        return np.array(rec['_time'][:n]), np.array([r[c] for r in rec[f][:n]])

    def check_lines(what, ls):
        nonlocal best
        for key, (ln, t, y) in ls.items():
            x1, y1 = (np.asarray(a, float).ravel() for a in ln.get_data())
            require(x1.shape == t.shape and np.array_equal(x1, t), '%s: line %s has the time points %s, expected %s', what, key, x1.tolist(), t.tolist())
            require(y1.shape == y.shape and np.array_equal(y1, y), '%s: line %s shows %s, recorded %s', what, key, y1.tolist(), y.tolist())
            if key[0] == '_u':
                require(ln.get_drawstyle() == 'steps-post', '%s: input line %s has the draw style %s', what, key, ln.get_drawstyle())
            best = max(best, len(t))

    for op in case['ops']:
        N = len(rec['_time'])
        if op[0] == 'add':
            (f, nm), a, kw = op[1], op[2], op[3]
            before = list(axs[a].lines)
            G.add_line(var_type=f, var_name=nm, axis=axs[a], **dict(kw))
            new = [l for l in axs[a].lines if l not in before]
            ne = len(D01.columns(L, [f, nm]))
            require(len(new) == ne, 'add_line of %s with %d elements added %d lines', (f, nm), ne, len(new))
            for i in range(ne):
                got = G.result_lines[f, nm, i]
                require(len(got) == 1 and got[0] in new, 'result_lines[%s, %s, %d] is not the line which was added', f, nm, i)
                lines[f, nm, i] = (got[0],) + val((f, nm, i), N)
                for k, v in kw.items():
                    require(getattr(got[0], 'get_' + k)() == v, 'line %s ignores %s=%s', (f, nm, i), k, v)
        elif op[0] == 'upd':
            t = (rec['_time'][-1] if N else 0.0) + op[2]
            d.update(_time=t, **{f: np.array(v) for f, v in op[1].items()})
            rec['_time'].append(t)
            for f, v in op[1].items():
                rec[f].append(v)
        elif op[0] == 'plot':
            t = op[1]
            if N == 0:                      # nothing recorded: rejected by an assertion
                continue
            if t is None:
                G.plot_results(); n = N
            else:
                t = t % N if t >= 0 else -1 - (-t - 1) % N
                G.plot_results(t_ind=t)
                n = t + 1 if t >= 0 else N + t + 1
            lines = {k: (l[0],) + val(k, n) for k, l in lines.items()}
        elif op[0] == 'clear':
            G.clear(); lines = {k: (l[0], np.zeros(0), np.zeros(0)) for k, l in lines.items()}
        elif op[0] == 'clearsome' and lines:
            key = list(lines)[op[1] % len(lines)]
            G.clear(G.result_lines[key[0], key[1]])
            lines = {k: (l[0], np.zeros(0), np.zeros(0)) if k[:2] == key[:2] else l for k, l in lines.items()}
        elif op[0] == 'axes':
            G.reset_axes()
        elif op[0] == 'cycle':
            G.reset_prop_cycle()
        elif op[0] == 'query':
            q = (tuple(op[1]) + (0,))[:op[2]]
            if any(k[:len(q)] == q for k in lines):
                got = G.result_lines[q]
                exp = [l[0] for k, l in lines.items() if k[:len(q)] == q]
                require(len(got) == len(exp) and all(any(g is e for e in exp) for g in got), 'result_lines%s returned %d lines, %d lines show it', q, len(got), len(exp))
        elif op[0] == 'default':
            sel = {f: v if v is not None else [n for n, _ in L[f] if n != 'default'] for f, v in op[1].items()}
            if sum(map(len, sel.values())) == 0 or N == 0:
                continue
            args = {k: op[1][f] for k, f in (('states_list', '_x'), ('dae_states_list', '_z'), ('inputs_list', '_u'), ('aux_list', '_aux')) if op[1][f] is not None}
            cp = copy.deepcopy(args)
            f2, ax2, G2 = do_mpc.graphics.default_plot(d, **args)
            try:
                require(args == cp, 'default_plot changed its arguments')
                G2.plot_results()
                exp = {}
                for f in ('_x', '_z', '_u', '_aux'):
                    for nm in sel[f]:
                        for i in range(len(D01.columns(L, [f, nm]))):
                            got = G2.result_lines[f, nm, i]
                            require(len(got) == 1, 'default_plot: %d lines for %s', len(got), (f, nm, i))
                            exp[f, nm, i] = (got[0],) + val((f, nm, i), N)
                            own = [a for a in ax2 if got[0] in a.lines]
                            require(len(own) == 1 and own[0].get_ylabel() == nm, 'default_plot: the axis of %s is labelled %s', (f, nm), [a.get_ylabel() for a in own])
                require(len(ax2) == sum(map(len, sel.values())), 'default_plot made %d axes for %s', len(ax2), sel)
                require(sum(len(a.lines) for a in ax2) == len(exp), 'default_plot draws %d lines, %d are expected', sum(len(a.lines) for a in ax2), len(exp))
                check_lines('default_plot', exp)
            finally:
                plt.close(f2)
        check_lines('after %s' % op[0], lines)
    return dict(nontrivial=best > 1, labels=sorted({o[0] for o in case['ops']}) + sorted({'line' + k[0] for k in lines}))


P.test('results', rcase(), 500, 12000)(results)


# ------------------------------------------------------------------------------------------------- predictions
@st.composite
def pcase(draw):
    rob = draw(st.booleans())
    cfg = draw(ocp.mpc_cfg(robust=rob, constraints=False, vary_p=not rob, min_tvp=draw(st.integers(0, 1)), max_N=3, smooth_cost=False, max_u=2, max_aux=2))
    return dict(cfg=cfg, steps=draw(st.integers(1, 3)), dx=draw(st.lists(gen.nice(-.5, .5), min_size=4, max_size=4)), late=draw(st.integers(0, 63)), drop=draw(st.integers(0, 63)),
                plots=draw(st.lists(st.integers(-3, 2), min_size=1, max_size=4)), default=draw(st.integers(0, 5)) == 0, load=draw(st.integers(0, 3)) == 0)


def pred_of(cfg, ref, R, f, i):
    """Predicted trajectories (one row per scenario) of element i of kind f according to the solution of one step; None: not decided here."""
    N, w = cfg['N'], R['w']
    if f == '_x':
        return [[ref.get(w, 'x', k, p[k])[i] for k in range(N + 1)] for p in ref.paths]
    if f == '_u':
        return [[ref.get(w, 'u', k, p[k])[i] for k in range(N)] for p in (ref.paths if not cfg['open_loop'] else ref.paths[:1])] if not cfg['open_loop'] else [[ref.get(w, 'u', k, 0)[i] for k in range(N)]]
    if f == '_z':
        return [[ref.get(w, 'z', k, p[k + 1], 0)[i] for k in range(N)] for p in ref.paths]
    if f == '_tvp':
        return [[R['tvp'][k][i] for k in range(N + 1)]]
    return None


def predictions(case):
    import do_mpc
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    cfg = copy.deepcopy(case['cfg'])
    ref, B, wf = ocp.prepare(cfg)
    mpc = ocp.make_mpc(cfg, B, store=True)
    mpc.t0 = cfg['t0']; mpc.u0 = np.array(cfg['uprev']).reshape(-1, 1); mpc.x0 = np.array(cfg['x0']).reshape(-1, 1)
    mpc.set_initial_guess()
    spec, N, S = cfg['spec'], cfg['N'], len(ref.paths)
    ent, off = [], {}
    for f in ('_x', '_u', '_z', '_tvp', '_aux'):
        o = 0
        for e in spec[f[1:]]:
            ent.append((f, e[0], gen.size(e[1]))); off[f, e[0]] = o; o += gen.size(e[1])
    early = [e for j, e in enumerate(ent) if not case['late'] >> (j % 6) & 1]
    late = [e for j, e in enumerate(ent) if case['late'] >> (j % 6) & 1]
    fig = Figure(); ax = fig.add_subplot(1, 1, 1)
    G = do_mpc.graphics.Graphics(mpc.data)
    shown = []

    def add(G, l):
        for f, n, sz in l:
            G.add_line(f, n, ax); shown.append((f, n, sz))
    R, t, x, compared = [], float(cfg['t0']), np.array(cfg['x0'], float), 0
    dt = cfg['dt']

    def verify(G, ti, what):
        nonlocal compared
        i0 = ti if ti >= 0 else len(R) + ti
        T0 = R[i0]['t']
        for f, n, sz in shown:
            for i in range(sz):
                ls = G.pred_lines[f, n, i]
                got = [np.asarray(l.get_ydata(), float).ravel() for l in ls]
                gx = [np.asarray(l.get_xdata(), float).ravel() for l in ls]
                exp = pred_of(cfg, ref, R[i0], f, off[f, n] + i)
                col = G.result_lines[f, n, i][0].get_color()
                require(all(l.get_color() == col for l in ls), '%s: prediction lines of %s have another color than its recorded values', what, (f, n, i))
                if f == '_u':
                    require(all(l.get_drawstyle() == 'steps-post' for l in ls), '%s: predicted inputs are not drawn as steps', what)
                if exp is None:
                    D = np.asarray(G.data.prediction((f, n, i), i0))[0]
                    exp = D.T.tolist()
                    require(len(exp) in (1, S), '%s: %d scenarios', what, len(exp))
                require(len(ls) == len(exp), '%s: %s has %d prediction lines for %d scenarios', what, (f, n, i), len(ls), len(exp))
                rest = [np.array(e) for e in exp]
                for a, b in zip(got, gx):
                    hit = [j for j, e in enumerate(rest) if len(e) == len(a) and gen.close(a, e, 1e-9, 1e-9)]
                    require(hit, '%s: prediction line of %s shows %s, the prediction of that step is %s', what, (f, n, i), a.tolist(), exp)
                    rest.pop(hit[0])
                    require(gen.close(b, T0 + dt * np.arange(len(a)), 1e-9, 1e-9), '%s: prediction line of %s is drawn at %s, the step is at %s', what, (f, n, i), b.tolist(), T0)
                    compared += 1
    add(G, early)
    for k in range(case['steps']):
        mpc.make_step(x.reshape(-1, 1))
        w = ref.read(mpc.opt_x_num_unscaled)
        if not np.all(np.isfinite(w)):
            raise Inconclusive('solver diverged')
        R.append(dict(w=w, tvp=ocp.tvp_list(cfg, t), t=t))
        t += dt
        x = x + 0.3 * np.resize(np.array(case['dx']), len(x)) + 0.1
        if k == 0:
            add(G, late)
        G.plot_results(); G.plot_predictions()
        verify(G, -1, 'step %d, default' % k)
    for ti in case['plots']:
        if -len(R) <= ti < len(R):
            G.plot_results(t_ind=ti); G.plot_predictions(t_ind=ti)
            verify(G, ti, 'index %d' % ti)
            i0 = ti if ti >= 0 else len(R) + ti
            for f, n, sz in shown:
                if f == '_x':
                    for i in range(sz):
                        require(gen.close(np.asarray(G.result_lines[f, n, i][0].get_xdata(), float), [r['t'] for r in R[:i0 + 1]], 1e-9, 1e-9), 'recorded line of %s: times %s', (f, n, i), G.result_lines[f, n, i][0].get_xdata())
    if case['load']:
        with scratch() as dd:
            do_mpc.data.save_results([mpc], 'r', dd + '/')
            D = do_mpc.data.load_results(os.path.join(dd, 'r.pkl'))['mpc']
        G = do_mpc.graphics.Graphics(D); shown.clear()
        add(G, ent)
        G.plot_predictions(t_ind=0)
        verify(G, 0, 'loaded results')
    if case['default']:
        f2, a2, G2 = do_mpc.graphics.default_plot(mpc.data)
        try:
            shown[:] = [e for e in ent if e[0] != '_tvp']
            G2.plot_results(); G2.plot_predictions()
            verify(G2, -1, 'default_plot')
        finally:
            plt.close(f2)
    return dict(nontrivial=bool(len(R) > 1 and compared), labels=['scen%d' % min(S, 9), 'steps%d' % len(R)] + sorted({e[0] for e in ent}) + (['loaded'] if case['load'] else []) + (['default'] if case['default'] else []))


P.test('predictions', pcase(), 200, 5000)(predictions)


# ------------------------------------------------------------------------------------------------- animate
@st.composite
def acase(draw):
    return dict(n=draw(st.integers(1, 6)), nx=draw(st.integers(1, 2)), n_steps=draw(st.one_of(st.none(), st.integers(1, 6))),
                runs=draw(st.lists(st.tuples(st.sampled_from(['anim', 'anim', 'b']), st.booleans(), st.sampled_from(['', '', 'sub', 'sub/']), st.booleans()).map(list), min_size=1, max_size=4)),
                vals=draw(st.lists(gen.nice(-3, 3), min_size=12, max_size=12)), slash=draw(st.booleans()), existing=draw(st.booleans()))


def animate(case):
    import do_mpc
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.animation import AbstractMovieWriter
    import io
    m = do_mpc.model.Model('discrete')
    x = m.set_variable('_x', 'a', shape=(case['nx'], 1)); u = m.set_variable('_u', 'b')
    m.set_rhs('a', x); m.setup()
    d = do_mpc.data.Data(m)
    n, nx = case['n'], case['nx']
    X = np.resize(np.array(case['vals']), (n, nx)); T = np.arange(n) * .5 + 1
    for k in range(n):
        d.update(_time=T[k], _x=X[k], _u=np.array([k + .5]))
    fig = Figure(figsize=(1, 1)); FigureCanvasAgg(fig); ax = fig.add_subplot(1, 1, 1)
    G = do_mpc.graphics.Graphics(d)
    G.add_line('_x', 'a', ax); G.add_line('_u', 'b', ax)
    frames = []

    class W(AbstractMovieWriter):
        """records the frames; the file contains their number"""
        def setup(self, fig, outfile, dpi=None):
            self.outfile = outfile; self.fig = fig; self.cnt = 0; frames.clear()

        def grab_frame(self, **kw):
            frames.append([[np.array(a, float).ravel() for a in l.get_data()] for l in (G.result_lines['_x', 'a'] + G.result_lines['_u', 'b'])])

        def finish(self):
            with open(self.outfile, 'w') as f:
                f.write('frames %d' % len(frames))
    ns = case['n_steps'] if case['n_steps'] is None else min(case['n_steps'], n)
    with scratch() as dd:
        files = {}
        for name, ow, sub, ext in case['runs']:
            path = os.path.join(dd, sub) if sub else dd + ('/' if case['slash'] else '')
            nm = name + '.dat' if ext else name
            if case['existing'] and not files:
                os.makedirs(path, exist_ok=True)
                with open(os.path.join(path, nm), 'w') as f:
                    f.write('precious')
                files[os.path.normpath(os.path.join(path, nm))] = 'precious'
            kw = {} if ns is None else dict(n_steps=ns)
            with contextlib.redirect_stdout(io.StringIO()):
                do_mpc.graphics.animate(G, fig, export_path=path, export_name=nm, overwrite=ow, writer=W(), **kw)
            K = n if ns is None else ns
            require(len(frames) == K, 'animation has %d frames for %d steps', len(frames), K)
            for k, fr in enumerate(frames):
                for i, (tx, ty) in enumerate(fr):
                    ey = X[:k + 1, i] if i < nx else np.arange(k + 1) + .5
                    require(np.array_equal(tx, T[:k + 1]) and np.array_equal(ty, ey), 'frame %d of the animation shows %s at %s, recorded %s', k, ty.tolist(), tx.tolist(), ey.tolist())
            now = {}
            for r, _, fs in os.walk(dd):
                for f in fs:
                    now[os.path.normpath(os.path.join(r, f))] = open(os.path.join(r, f)).read()
            target = os.path.normpath(os.path.join(path, nm))
            for f, c in files.items():
                if not (ow and f == target):
                    require(now.get(f) == c, 'animate changed the existing file %s', os.path.basename(f))
            new = set(now) - set(files)
            if ow or target not in files:
                require(target in now and not new - {target}, 'animate wrote %s instead of %s', [os.path.relpath(f, dd) for f in new], os.path.relpath(target, dd))
            else:
                require(len(new) == 1 and os.path.dirname(list(new)[0]) == os.path.dirname(target), 'animate wrote %s, expected one new file in %s', [os.path.relpath(f, dd) for f in new], os.path.relpath(path, dd))
            files = {f: c for f, c in now.items()}
    return dict(nontrivial=(ns or n) > 1, labels=['runs%d' % len(case['runs'])] + (['overwrite'] if any(r[1] for r in case['runs']) else []))


P.test('animate', acase(), 60, 1500)(animate)
if __name__ == '__main__':
    P.main()
