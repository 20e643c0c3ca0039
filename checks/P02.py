"""P02: sampling evaluates each case once; the handler returns it with its inputs."""
import os, signal
import numpy as np
from lib.vf import Prop, st, require, scratch, HarnessError
from lib import gen

P = Prop('P02', 'Random plans and random histories of a Sampler (all, by index, repeated, restarted in new objects, overwrite on/off with a changed '
         'function) with injected interruptions (exception in the sample function, results that cannot be stored, process killed while the result is '
         'stored), pickle and mat format, directory with/without slash; interleaved with DataHandler queries by index, slice, list, filters and post-processing '
         '(one/two arguments, replaced functions, handlers that were asked before the sample existed or are pointed at another directory). Oracle: '
         'dictionary id -> result and call counts. Non-trivial: an interruption or resumption and a query over stored results.', [])


@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from(['alpha', 'beta', 'gamma']), min_size=1, max_size=3, unique=True))
    n = draw(st.integers(1, 6))
    vals = [[draw(st.integers(-4, 4)) for _ in names] for _ in range(n)]
    ops = []
    I = st.integers(0, n - 1)
    for _ in range(draw(st.integers(5, 16))):
        k = draw(st.sampled_from(['all', 'all', 'idx', 'raise', 'nopickle', 'kill', 'new', 'ow', 'q', 'q', 'q', 'f', 'f', 'post', 'dir', 'badidx', 'newdh']))
        if k in ('idx', 'raise', 'nopickle', 'kill'):
            ops.append([k, draw(I)])
        elif k == 'ow':
            ops.append([k, draw(st.booleans())])
        elif k == 'q':
            ops.append([k, draw(st.one_of(st.integers(-n, n - 1), st.tuples(st.just('s'), st.one_of(st.none(), st.integers(-n, n)), st.one_of(st.none(), st.integers(-n, n)),
                                                                          st.sampled_from([None, 1, 2, -1])).map(list),
                                          st.lists(st.integers(-n, n - 1), max_size=4).map(lambda l: ['l'] + l)))])
        elif k == 'f':
            ops.append([k, draw(st.sampled_from(['none', 'in', 'inlocal', 'in2', 'in', 'out', 'both', 'outlocal'])), draw(st.integers(-4, 4))])
        elif k == 'post':
            ops.append([k, draw(st.sampled_from(['a', 'a', 'b'])), draw(st.sampled_from(['one', 'two', 'neg']))])
        else:
            ops.append([k])
    return dict(names=names, vals=vals, fmt=draw(st.sampled_from(['pickle', 'pickle', 'mat'])), res=draw(st.sampled_from(['num', 'arr', 'dict', 'none'])),
                dir=draw(st.sampled_from(['d/', 'd', 'a.pkl/e', './'])), sname=draw(st.sampled_from(['sample', 'run', 'x.pkl_y'])), ops=ops, prec=draw(st.integers(1, 3)))


class KillOnSave(object):
    def __reduce__(self):
        os._exit(7)                       # only ever pickled in a forked child


def value(case, i, ver):
    v = case['vals'][i]
    s = float(sum((k + 1) * a for k, a in enumerate(v)) + 100 * ver)
    r = case['res']
    return s if r == 'num' else np.array([s, s + 1]) if r == 'arr' else {'s': s, 'k': np.arange(3) + s} if r == 'dict' else (None if i % 2 and case['fmt'] == 'pickle' else s)


def scalar(r):
    """Number carried by a stored result in any format."""
    if isinstance(r, dict) and '__header__' in r:
        r = r['res']
    while True:
        if isinstance(r, dict):
            r = r['s']
        elif isinstance(r, np.ndarray) and r.dtype.names:
            r = r['s'].ravel()[0]
        elif isinstance(r, np.ndarray):
            r = r.ravel()[0]
        else:
            return None if r is None else float(r)


def same(r, want, case):
    if case['fmt'] == 'pickle':
        if isinstance(want, dict):
            return isinstance(r, dict) and r['s'] == want['s'] and np.array_equal(r['k'], want['k'])
        return (r is None) if want is None else np.array_equal(r, want) and type(r) is type(want)
    if isinstance(want, np.ndarray):
        v = r['res'] if isinstance(r, dict) else r
        return np.array_equal(np.ravel(v), want)
    return scalar(r) == scalar(want)


def run(case):
    import do_mpc
    from do_mpc.sampling import SamplingPlanner, Sampler, DataHandler
    names, n = case['names'], len(case['vals'])
    ctl = dict(ver=0, calls=[], mode=None, at=None)

    def body(kw):
        i = ctl['i']
        ctl['calls'].append((i, tuple(kw[k] for k in names)))
        if ctl['mode'] and i == ctl['at']:
            if ctl['mode'] == 'raise':
                raise RuntimeError('interrupted')
            if ctl['mode'] == 'nopickle':
                return [1.0, lambda: 0]
            if ctl['mode'] == 'kill':
                return [np.zeros(3000), KillOnSave()]
        return value(case, i, ctl['ver'])
    src = 'def f(%s):\n    return body(dict(%s))' % (', '.join(names), ', '.join('%s=%s' % (k, k) for k in names))
    ns = dict(body=body)
    exec(src, ns)
    with scratch() as root:
        os.chdir(root)
        sp = SamplingPlanner(id_precision=case['prec'])
        for k in names:
            sp.set_sampling_var(k)
        for v in case['vals']:
            plan = sp.add_sampling_case(**dict(zip(names, v)))
        ids = [c['id'] for c in plan]
        dirs = [case['dir'], 'other']
        cur = 0
        done = [{}, {}]                    # per directory: index -> expected result

        def sampler():
            s = Sampler(plan)
            s.data_dir = dirs[cur]
            s.set_param(sample_name=case['sname'], print_progress=False, **({'save_format': case['fmt']} if case['fmt'] != 'pickle' else {}))
            s.set_sample_function(ns['f'])
            return s

        def handler():
            h = DataHandler(plan)
            h.data_dir = dirs[cur]
            h.set_param(sample_name=case['sname'], **({'save_format': case['fmt']} if case['fmt'] != 'pickle' else {}))
            return h
        s, h, ow, posts = sampler(), handler(), False, {}
        resumed = asked = interrupted = 0

        def call(i):
            """sample one index through sample_idx; returns nothing, updates expectations."""
            nonlocal resumed
            ctl['i'] = i; before = len(ctl['calls'])
            s.sample_idx(i)
            new = ctl['calls'][before:]
            want = [(i, tuple(case['vals'][i]))] if (ow or i not in done[cur]) else []
            require(new == want, 'sample_idx(%d) called the sample function %s, expected %s (finished: %s, overwrite %s)', i, new, want, sorted(done[cur]), ow)
            if want:
                done[cur][i] = value(case, i, ctl['ver'])

        def call_all():
            # sample_data: the function has to recognise its case by its position
            nonlocal resumed
            before = len(ctl['calls'])
            todo = [i for i in range(n) if ow or i not in done[cur]]
            it = iter(todo)
            real = ns['f']

            def body2(kw):
                ctl['i'] = next(it, -1)
                require(ctl['i'] >= 0, 'sample function called more often than there are open cases (%s)', todo)
                return body(kw)
            ns['body'] = body2
            resumed += 0 < len(done[cur]) < n
            try:
                s.sample_data()
            finally:
                ns['body'] = body
                got = ctl['calls'][before:]
                fin = len(got) - (1 if ctl['mode'] and ctl['at'] in todo and len(got) == todo.index(ctl['at']) + 1 else 0)
                for i in todo[:fin]:
                    done[cur][i] = value(case, i, ctl['ver'])
            require(got == [(i, tuple(case['vals'][i])) for i in todo], 'sample_data called the function for %s, open cases were %s', got, todo)

        def expected(i):
            r = dict(plan[i])
            miss = i not in done[cur]
            if posts:
                for k, (fn, _) in posts.items():
                    r[k] = None if miss or done[cur][i] is None else ref_post(fn, i)
            else:
                r['res'] = ('stored', i) if not miss else None
            return r

        def ref_post(fn, i):
            v = scalar(done[cur][i])
            return v * 2 if fn == 'one' else -v if fn == 'neg' else v + plan[i][names[0]]

        def compare(what, got, idx):
            require(isinstance(got, list) and len(got) == len(idx), '%s returned %s cases, expected %s', what, len(got), idx)
            for g, i in zip(got, idx):
                e = expected(i)
                require(sorted(g) == sorted(e), '%s: case %s has the entries %s, expected %s', what, ids[i], sorted(g), sorted(e))
                for k, v in e.items():
                    if isinstance(v, tuple):
                        require(same(g[k], done[cur][i], case), '%s: case %s has the result %s, stored was %s', what, ids[i], g[k], done[cur][i])
                    else:
                        require(g[k] == v, '%s: case %s has %s=%s, expected %s', what, ids[i], k, g[k], v)
        for op in case['ops']:
            if op[0] == 'idx':
                call(op[1])
            elif op[0] == 'badidx':
                for bad in (-1, n, n + 3):
                    try:
                        s.sample_idx(bad)
                    except Exception:
                        continue
                    raise AssertionError('sample_idx(%d) was accepted for %d cases' % (bad, n))
            elif op[0] == 'all':
                call_all()
            elif op[0] in ('raise', 'nopickle', 'kill'):
                if case['fmt'] == 'mat' and op[0] != 'raise':
                    continue
                if not (ow or op[1] not in done[cur]):
                    continue
                ctl['mode'], ctl['at'] = op[0], op[1]
                if op[0] == 'kill':
                    if ow:
                        ctl['mode'] = None
                        continue
                    pid = os.fork()
                    if pid == 0:
                        try:
                            ctl['i'] = op[1]
                            s.sample_idx(op[1])
                        finally:
                            os._exit(9)
                    _, stt = os.waitpid(pid, 0)
                    if os.WEXITSTATUS(stt) != 7:
                        raise HarnessError('kill injection ended with %s' % stt)
                else:
                    try:
                        call_all()
                    except (HarnessError,):
                        raise
                    except Exception as e:
                        if type(e).__name__ == 'Violation':
                            raise
                    else:
                        raise AssertionError('an interruption was swallowed by sample_data')
                ctl['mode'] = None; interrupted += 1
            elif op[0] == 'new':
                s = sampler(); s.set_param(overwrite=ow)
            elif op[0] == 'newdh':
                h = handler(); posts = {}
            elif op[0] == 'ow':
                ow = op[1]; s.set_param(overwrite=ow)
                ctl['ver'] += 1
                h = handler(); posts = {}
            elif op[0] == 'dir':
                cur = 1 - cur
                s = sampler(); s.set_param(overwrite=ow)
                h.data_dir = dirs[cur]
            elif op[0] == 'post':
                fn = op[2]
                f = {'one': lambda r: scalar(r) * 2, 'neg': lambda r: -scalar(r), 'two': lambda c, r: scalar(r) + c[names[0]]}[fn]
                h.set_post_processing(op[1], f); posts[op[1]] = (fn, None)
            elif op[0] == 'q':
                q = op[1]
                if isinstance(q, int):
                    compare('query %s' % q, h[q], [range(n)[q]])
                elif q[0] == 's':
                    compare('query %s' % q, h[slice(*q[1:])], list(range(n))[slice(*q[1:])])
                else:
                    compare('query %s' % q, h[q[1:]], [range(n)[i] for i in q[1:]])
                asked += bool(done[cur])
            elif op[0] == 'f':
                m, c = op[1], op[2]
                a = names[0]
                ns2 = dict(c=c)
                fi = {'in': 'lambda %s: %s < c' % (a, a), 'in2': 'lambda %s: sum([%s]) >= c' % (', '.join(names), ', '.join(names))}.get(m)
                if m == 'inlocal':
                    exec('def g(%s):\n    y = %s * 2\n    return y < c' % (a, a), ns2); fi = ns2['g']
                elif fi:
                    fi = eval(fi, ns2)
                if m == 'both':
                    fi = eval('lambda %s: %s < c' % (a, a), ns2)
                fo, outkey = None, None
                allin = [i for i in range(n) if fi is None or (case['vals'][i][0] < c if m in ('in', 'both') else case['vals'][i][0] * 2 < c if m == 'inlocal' else sum(case['vals'][i]) >= c)]
                if m in ('out', 'both', 'outlocal'):
                    if not posts or any(i not in done[cur] or done[cur][i] is None for i in range(n)):
                        continue
                    outkey = sorted(posts)[0]
                    if m == 'outlocal':
                        exec('def g(%s):\n    w = [%s]\n    return max(w) < 10 * c' % (outkey, outkey), ns2); fo = ns2['g']
                    else:
                        fo = eval('lambda %s: %s < 10 * c' % (outkey, outkey), ns2)
                    allin = [i for i in allin if ref_post(posts[outkey][0], i) < 10 * c]
                compare('filter %s' % m, h.filter(input_filter=fi, output_filter=fo), allin)
                asked += bool(done[cur])
            # overwriting makes cached results of the handler outdated: ask a new one
            if ow and op[0] in ('all', 'idx', 'raise', 'nopickle'):
                h = handler(); posts = {}
            require(plan == sp.sampling_plan and [c['id'] for c in plan] == ids and
                    all([c[k] for k in names] == v for c, v in zip(plan, case['vals'])), 'the sampling plan was changed: %s', plan)
        h = handler(); posts = {}
        compare('final query', h[:], list(range(n)))
    return dict(nontrivial=bool(asked and (interrupted or resumed)), labels=sorted({o[0] for o in case['ops']}) + [case['fmt'], case['res']])


P.test('sample', case(), 5000, 100000)(run)


if __name__ == '__main__':
    P.main()
