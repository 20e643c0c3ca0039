"""D02: saved results are what is loaded, and saving destroys nothing."""
import os
import numpy as np
from lib.vf import Prop, st, require, scratch, HarnessError
from lib import gen

P = Prop('D02', 'Random small models with simulator, MPC and one of the estimators, stepped a random number of times; random histories of save_results '
         '(subsets of the objects, few names so that they collide, nested and new directories with and without trailing slash, overwrite on/off, saves '
         'that cannot be pickled) in a scratch directory. Oracle: a directory model (name -> snapshot): without overwrite all existing files keep their '
         'bytes and one new file appears, with overwrite exactly that file changes, every file loads to the records at saving time incl. name queries and '
         'predictions. Non-trivial: at least one name collision.', [])


@st.composite
def case(draw):
    spec = draw(gen.model_spec(types=('discrete',), max_x=2, max_u=2, max_z=0, max_p=1, max_tvp=1, max_aux=1, max_meas=2, shapes=gen.VSHAPES, wide=True,
                               noise=False, min_u=1, max_leaves=2))
    for n in spec['rhs']:                          # bounded dynamics: any optimizer converges
        spec['rhs'][n] = [['*', ['c', .5], ['tanh', t]] for t in spec['rhs'][n]]
    ops = []
    one = draw(st.integers(0, 2)) == 0                 # many saves under one name
    for _ in range(draw(st.integers(6, 14) if one else st.integers(2, 7))):
        k = draw(st.sampled_from(['save', 'save', 'save', 'save', 'step', 'bad', 'reset']))
        if k == 'save':
            ops.append([k, draw(st.sampled_from(['a', 'a', 'a', 'a', '002_a', '004_a'] if one else ['results', 'results', 'a', '001_a', 'a.b'])),
                        '' if one else draw(st.sampled_from(['', '', 'd/', 'd', 'n/m/', 'n/m'])), draw(st.integers(0, 7)) == 0 if one else draw(st.booleans()), draw(st.lists(st.sampled_from([0, 1, 2]), min_size=1, max_size=3, unique=True)), draw(st.booleans())])
        elif k == 'bad':
            ops.append([k, draw(st.sampled_from(['results', 'a'])), draw(st.booleans())])
        else:
            ops.append([k])
    return dict(spec=spec, ops=ops, est=draw(st.sampled_from(['sf', 'mhe', 'none'])), n=draw(st.integers(0, 2)), full=draw(st.booleans()))


def objects(case):
    import do_mpc
    import casadi as ca
    spec = case['spec']
    m, hs = gen.build(spec)
    sim = do_mpc.simulator.Simulator(m); sim.settings.t_step = .5
    mpc = do_mpc.controller.MPC(m)
    mpc.settings.n_horizon = 2; mpc.settings.t_step = .5; mpc.settings.store_full_solution = case['full']
    mpc.settings.nlpsol_opts = {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.max_iter': 30}
    c = sum([ca.sumsqr(m.x[n]) for n, _ in spec['x']])
    mpc.set_objective(lterm=c, mterm=c)
    mpc.set_rterm(**{n: 1e-1 for n, _ in spec['u']})
    for n, s in spec['u']:
        mpc.bounds['lower', '_u', n] = -1; mpc.bounds['upper', '_u', n] = 1
    objs = [sim, mpc]
    if case['est'] == 'sf':
        objs.append(do_mpc.estimator.StateFeedback(m))
    if case['est'] == 'mhe':
        e = do_mpc.estimator.MHE(m, [])
        e.settings.n_horizon = 2; e.settings.t_step = .5; e.settings.meas_from_data = True
        e.settings.nlpsol_opts = {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes', 'ipopt.max_iter': 30}
        e.set_default_objective(P_x=np.eye(m.n_x), P_v=np.eye(m.n_v) if m.n_v else None, P_w=np.eye(m.n_w) if m.n_w else None)
        objs.append(e)
    for o in objs:
        if hasattr(o, 'set_tvp_fun') and spec['tvp']:
            t = o.get_tvp_template(); o.set_tvp_fun(lambda t_now, t=t: t)
        if hasattr(o, 'set_p_fun') and spec['p']:
            if o is mpc:
                t = o.get_p_template(1)
            else:
                t = o.get_p_template()
            o.set_p_fun(lambda t_now, t=t: t)
    for o in objs:
        if hasattr(o, 'setup'):
            o.setup()
    for o in objs[1:]:
        if hasattr(o, 'set_initial_guess'):
            o.set_initial_guess()
    return m, objs


def kind(o):
    import do_mpc
    return 'mpc' if isinstance(o, do_mpc.controller.MPC) else 'simulator' if isinstance(o, do_mpc.simulator.Simulator) else 'estimator'


def snapshot(o, spec):
    d = o.data
    s = {f: np.array(getattr(d, f)).copy() for f in d.data_fields if f != 't_wall_total'}
    q = {}
    for k in ('x', 'u', 'tvp', 'p'):
        for n, _ in spec[k]:
            q['_' + k, n] = np.array(d['_' + k, n]).copy()
    pr = {}
    if kind(o) == 'mpc' and d.meta_data.get('store_full_solution') and len(d._time):
        for t in range(len(d._time)):
            for k in ('x', 'u'):
                for n, _ in spec[k]:
                    pr['_' + k, n, t] = np.array(d.prediction(('_' + k, n), t_ind=t)).copy()
    return dict(f=s, q=q, p=pr, meta={k: v for k, v in d.meta_data.items() if isinstance(v, (int, float, str, bool))})


def compare(where, got, want, spec):
    require(sorted(got) == sorted(want), '%s contains %s, saved were %s', where, sorted(got), sorted(want))
    for k, s in want.items():
        d = got[k]
        for f, a in s['f'].items():
            b = np.array(getattr(d, f))
            require(b.shape == a.shape and np.array_equal(a, b, equal_nan=True), '%s: field %s of %s is %s, saved %s', where, f, k, b.tolist(), a.tolist())
        for q, a in s['q'].items():
            b = np.array(d[q])
            require(b.shape == a.shape and np.array_equal(a, b), '%s: query %s of %s differs from the saved record', where, q, k)
        for q, a in s['p'].items():
            b = np.array(d.prediction(q[:2], t_ind=q[2]))
            require(b.shape == a.shape and np.array_equal(a, b), '%s: prediction %s differs from the saved one', where, q)
        for q, a in s['meta'].items():
            require(d.meta_data.get(q) == a, '%s: meta data %s is %s, saved %s', where, q, d.meta_data.get(q), a)


def listing(root):
    out = {}
    for dp, _, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


def run(case):
    import do_mpc
    spec = case['spec']
    m, objs = objects(case)
    mpc, sim = objs[1], objs[0]
    state = {'x': np.ones((m.n_x, 1)) * .5}

    def step():
        u = mpc.make_step(state['x']); y = sim.make_step(u)
        if len(objs) > 2:
            objs[2].make_step(y)
        state['x'] = np.array(sim.x0.cat)
    for _ in range(case['n']):
        step()
    known, collisions = {}, 0
    with scratch() as root:
        res = os.path.join(root, 'r'); os.mkdir(res); os.chdir(res)
        for op in case['ops']:
            if op[0] == 'step':
                step(); continue
            if op[0] == 'reset':
                mpc.reset_history(); continue
            before = listing(root)
            if op[0] == 'bad':                     # a record which cannot be pickled: nothing may be lost
                sim.data.set_meta(cb=lambda: None)
                try:
                    do_mpc.data.save_results([sim], op[1], res + '/', overwrite=op[2])
                except Exception:
                    pass
                else:
                    raise HarnessError('unpicklable data were saved')
                sim.data.meta_data.pop('cb')
                after = listing(root)
                for f in before:
                    require(after.get(f) == before[f], 'a failing save changed the existing file %s', f)
                for f in set(after) - set(before):
                    os.remove(os.path.join(root, f))
                continue
            _, name, sub, ow, sel, rel = op
            ol = [objs[i] for i in sel if i < len(objs)]
            if not ol:
                continue
            want = {kind(o): snapshot(o, spec) for o in ol}
            path = (os.path.join('.' if rel else res, sub) if sub else ('./' if rel else res + '/'))
            d = os.path.normpath(os.path.join('r', sub))
            target = os.path.join(d, name + '.pkl')
            do_mpc.data.save_results(ol, result_name=name, result_path=path, overwrite=ow)
            after = listing(root)
            changed = [f for f in before if after.get(f) != before[f]]
            new = sorted(set(after) - set(before))
            if ow or target not in before:
                require(all(f == target for f in changed) and all(f == target for f in new) and target in after,
                        'saving %r to %r (overwrite=%s) changed %s and created %s, expected only %s', name, path, ow, changed, new, target)
                t = target
            else:
                require(not changed, 'saving %r without overwrite changed the existing files %s', name, changed)
                require(len(new) == 1 and os.path.dirname(new[0]) == d and new[0].endswith('.pkl'), 'saving the existing name %r created %s', name, new)
                t = new[0]
            collisions += target in before
            known[t] = want
            for f, w in known.items():
                compare(f, do_mpc.data.load_results(os.path.join(root, f)), w, spec)
    return dict(nontrivial=collisions > 0, labels=[case['est'], spec['sym'], 'collisions:%d' % min(collisions, 3)] + sorted({o[0] for o in case['ops']}))


P.test('save_load', case(), 480, 8000)(run)


if __name__ == '__main__':
    P.main()
