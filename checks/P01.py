"""P01: sampling plans contain exactly the requested cases."""
import os, itertools, pickle
import numpy as np
from lib.vf import Prop, st, require, scratch
from lib import gen

P = Prop('P01', 'Random call histories of a SamplingPlanner: variables with and without generating function, explicit, partly explicit, generated and '
         'product cases, invalid calls (unknown names, missing generators, non-list product values, wrong types), id precision changes, exports '
         'with colliding names, with/without extension and overwrite. Oracle: own list of cases; every generator is a counter, so each value must '
         'stem from its own generator in calling order; rejected calls leave the plan unchanged; exported files load to the plan at export time and '
         'earlier files (some of them deleted by the user in between) keep their content unless overwriting was requested. Non-trivial: at least 3 cases from two kinds of calls.', [])
VARS = ['alpha', 'beta', 'x0', 'p_1', 'name']
VAL = st.one_of(gen.nice(), st.integers(-3, 3), st.sampled_from(['a', 'bb']), st.lists(st.integers(0, 3), max_size=2), st.none(), st.booleans())


@st.composite
def case(draw):
    vs = draw(st.lists(st.tuples(st.sampled_from(VARS), st.integers(0, 3)), min_size=1, max_size=4, unique_by=lambda v: v[0]))
    names = [v[0] for v in vs]
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(['add', 'add', 'gen', 'prod', 'prod', 'bad', 'export', 'export', 'prec', 'ow']))
        if k == 'add':
            sub = draw(st.lists(st.sampled_from(names), unique=True)) if draw(st.booleans()) else draw(st.permutations(names))
            ops.append([k, [[n, draw(VAL)] for n in sub]])
        elif k == 'gen':
            ops.append([k, draw(st.integers(1, 4))])
        elif k == 'prod':
            sub = draw(st.lists(st.sampled_from(names), min_size=1, unique=True)) if draw(st.booleans()) else draw(st.permutations(names))
            ops.append([k, [[n, draw(st.lists(VAL, max_size=3))] for n in sub]])
        elif k == 'bad':
            ops.append([k, draw(st.sampled_from(['name', 'prodname', 'prodval', 'gen0', 'genfloat', 'varname', 'varfun'])), draw(st.sampled_from(names))])
        elif k == 'export':
            d = draw(st.sampled_from(['', '', 'sub/', 'sub', 'v.pkl.d/']))
            same = draw(st.integers(0, 5)) == 5
            if same:
                nm = draw(st.sampled_from(['plan', 'p1.pkl']))
                ops += [[k, nm, d]] * 13
            for _ in range(draw(st.sampled_from([1, 1, 2, 4]))):
                ops.append([k, draw(st.sampled_from(['plan', 'plan', 'plan.pkl', 'p1', 'p'])), d])
            if draw(st.booleans()):
                ops.append(['del', draw(st.integers(0, 3))])
                ops.append([k, draw(st.sampled_from(['plan', 'plan', 'plan.pkl', 'p1', 'p'])), d])
        elif k == 'prec':
            ops.append([k, draw(st.integers(1, 4))])
        else:
            ops.append([k, draw(st.booleans())])
    return dict(vars=[list(v) for v in vs], ops=ops)


def run(case):
    import do_mpc
    count = {}

    def mk(n):
        def f():
            count[n] = count.get(n, 0) + 1
            return '%s#%d' % (n, count[n])
        return f
    with scratch() as root:
        os.chdir(root)
        sp = do_mpc.sampling.SamplingPlanner()
        auto = {}
        for n, has in case['vars']:
            auto[n] = bool(has)
            sp.set_sampling_var(n, mk(n)) if has else sp.set_sampling_var(n)
        exp, files, kinds, ow, prec = [], {}, set(), False, 3
        gen_n = {n: 0 for n in auto}

        def ref_add(d):
            c = dict(d)
            for n in auto:
                if n not in c:
                    gen_n[n] += 1
                    c[n] = '%s#%d' % (n, gen_n[n])
            exp.append((c, str(len(exp)).zfill(prec)))

        def complete(names):
            return all(auto[n] or n in names for n in auto)

        def expect_fail(fn, what):
            try:
                fn()
            except Exception:
                gen_n.update({n: count.get(n, 0) for n in auto})     # values drawn for a rejected case are lost
                return
            raise AssertionError('%s was accepted' % what)
        for op in case['ops']:
            ret = None
            if op[0] == 'add':
                kw = dict(op[1])
                if complete(kw):
                    ref_add(kw); ret = sp.add_sampling_case(**kw); kinds.add('add')
                else:
                    expect_fail(lambda: sp.add_sampling_case(**kw), 'an incomplete case')
            elif op[0] == 'gen':
                if complete(()):
                    for _ in range(op[1]):
                        ref_add({})
                    ret = sp.gen_sampling_plan(op[1]); kinds.add('gen')
                else:
                    expect_fail(lambda: sp.gen_sampling_plan(op[1]), 'generating without generator')
            elif op[0] == 'prod':
                kw = dict((n, v) for n, v in op[1])
                combos = list(itertools.product(*kw.values()))
                if complete(kw):
                    for c in combos:
                        ref_add(dict(zip(kw, c)))
                    ret = sp.product(**kw); kinds.add('prod')
                elif combos:
                    expect_fail(lambda: sp.product(**kw), 'an incomplete product')
            elif op[0] == 'bad':
                b, n = op[1], op[2]
                full = {m: 1 for m in auto}
                expect_fail({'name': lambda: sp.add_sampling_case(**dict(full, nosuchvar=1)),
                             'prodname': lambda: sp.product(**dict({m: [1, 2] for m in auto}, nosuchvar=[1])),
                             'prodval': lambda: sp.product(**dict({m: [1, 2] for m in auto}, **{n: 3.0})),
                             'gen0': lambda: sp.gen_sampling_plan(0), 'genfloat': lambda: sp.gen_sampling_plan(2.0),
                             'varname': lambda: sp.set_sampling_var(3), 'varfun': lambda: sp.set_sampling_var('new', 3)}[b], 'invalid call ' + b)
            elif op[0] == 'prec':
                prec = op[1]; sp.set_param(id_precision=prec)
            elif op[0] == 'ow':
                ow = op[1]; sp.set_param(overwrite=ow)
            elif op[0] == 'del':
                # the user deletes an exported file
                if files:
                    f = sorted(files)[op[1] % len(files)]
                    os.remove(os.path.join(root, f))
                    del files[f]
            elif op[0] == 'export':
                d = op[2]
                sp.data_dir = './' + d
                base = op[1][:-4] if op[1].endswith('.pkl') else op[1]
                t = os.path.normpath(os.path.join(d, base + '.pkl'))
                sp.export(op[1])
                now = {os.path.relpath(os.path.join(dp, f), root) for dp, _, fn in os.walk(root) for f in fn}
                new = sorted(now - set(files))
                require(not set(files) - now, 'files %s disappeared', sorted(set(files) - now))
                if t not in files or ow:
                    require(new == ([t] if t not in files else []), 'export of %r to %r created %s', op[1], d, new)
                    files[t] = [dict(c, id=i) for c, i in exp]
                else:
                    require(len(new) == 1 and os.path.dirname(new[0]) == os.path.dirname(t), 'export of the existing name %r created %s', op[1], new)
                    files[new[0]] = [dict(c, id=i) for c, i in exp]
                for f, pl in files.items():
                    got = do_mpc.tools.load_pickle(os.path.join(root, f))
                    require(got == pl, 'file %s contains %s, exported was %s', f, got, pl)
            plan = sp.sampling_plan
            if ret is not None:
                require(ret == plan, 'returned plan differs from sampling_plan')
            require(plan == [dict(c, id=i) for c, i in exp], 'after %s the plan is %s, expected %s', op, plan, exp)
            require(len({c['id'] for c in plan}) == len(plan), 'identifiers are not unique: %s', [c['id'] for c in plan])
    return dict(nontrivial=len(exp) >= 3 and len(kinds) >= 2, labels=sorted(kinds) + ['files:%d' % min(len(files), 4)])


P.test('plan', case(), 6000, 120000)(run)


if __name__ == '__main__':
    P.main()
