"""D01: recorded data are returned exactly as appended."""
import numpy as np
from lib.vf import Prop, st, require
from lib import gen

P = Prop('D01', 'Random models (names, shapes incl. matrices, default and declared measurements, expressions) and random programs of Data.update (any '
         'subset of fields, several container types), queries by field, name, element, negative index, slice, list, matrix index (repeated, so that '
         'cached queries are used; list arguments are reused and changed by the caller), init_storage, export (the exported arrays are changed by the caller), pickling, and updates of the wrong size '
         '(must be rejected without changing the record). Oracle: list of rows per field and own column arithmetic. Non-trivial: a query by name on '
         'at least two recorded rows.', [])
VALS = st.one_of(gen.nice(-4, 4), gen.nice(-4, 4), gen.nice(-4, 4), st.sampled_from([1.25e9, -3.1e-8, 1234567.875, 1e-300, -0.1]))
FIELDS = ['_x', '_u', '_z', '_tvp', '_p', '_aux', '_y']


def layout(spec):
    L = {'_' + k: [(n, tuple(s)) for n, s in spec[k]] for k in ('x', 'u', 'z', 'tvp', 'p')}
    L['_aux'] = [('default', (1, 1))] + [(n, tuple(s)) for n, s, _ in spec['aux']]
    L['_y'] = [(n, tuple(s)) for n, s, _, _ in spec['meas']] if spec['meas'] else L['_x']
    return L


def width(l):
    return sum(a * b for _, (a, b) in l)


@st.composite
def query(draw, L):
    f = draw(st.sampled_from(FIELDS + ['_time']))
    if f == '_time' or not L[f] or draw(st.integers(0, 7)) == 0:
        return [f]
    n, (r, c) = draw(st.sampled_from(L[f]))
    k = draw(st.integers(0, 6))
    q = [f, n]
    if k == 0:
        return q
    if k in (1, 2):
        return q + [draw(st.integers(-r * c, r * c - 1))]
    if k == 3:
        a = draw(st.one_of(st.none(), st.integers(0, r * c))); b = draw(st.one_of(st.none(), st.integers(0, r * c)))
        if not list(range(r * c))[a:b]:
            a = b = None
        return q + [['slice', a, b, draw(st.sampled_from([None, 1, 2]))]]
    if k == 4:
        return q + [['list', draw(st.lists(st.integers(0, r * c - 1), min_size=1, max_size=3))]]
    if k == 5:
        return q + [draw(st.integers(0, r - 1)), draw(st.integers(0, c - 1))]
    return q + [['slice', None, None, None], draw(st.integers(0, c - 1))]


def columns(L, q):
    """Columns of the field addressed by the query."""
    f = q[0]
    if len(q) == 1:
        return list(range(1 if f == '_time' else width(L[f])))
    o = 0
    for n, (r, c) in L[f]:
        if n == q[1]:
            break
        o += r * c
    idx = np.arange(r * c)
    if len(q) == 2:
        return list(o + idx)
    a = [slice(*e[1:]) if isinstance(e, list) and e[0] == 'slice' else e[1] if isinstance(e, list) else e for e in q[2:]]
    s = idx[a[0]] if len(a) == 1 else idx.reshape((r, c), order='F')[a[0], a[1]]
    return list(o + np.array(s).ravel(order='F'))


@st.composite
def case(draw):
    spec = draw(gen.model_spec(max_x=3, max_leaves=2, wide=True))
    L = layout(spec)
    ops, qs = [], []
    for _ in range(draw(st.integers(4, 16))):
        k = draw(st.sampled_from(['upd', 'upd', 'upd', 'q', 'q', 'q', 'q', 'again', 'again', 'init', 'bad', 'pickle', 'export']))
        if k in ('upd', 'bad'):
            fs = draw(st.sampled_from(['all', 'all', 'some']))
            fl = FIELDS + ['_time'] if fs == 'all' else draw(st.lists(st.sampled_from(FIELDS + ['_time']), min_size=1, max_size=4, unique=True))
            fl = draw(st.permutations(fl))
            ops.append([k, {f: draw(st.lists(VALS, min_size=1 if f == '_time' else width(L[f]), max_size=1 if f == '_time' else width(L[f])))
                            for f in fl}, draw(st.sampled_from(['np', 'flat', 'row', 'dm', 'struct', 'num', 'int', 'int'])), draw(st.sampled_from(fl))])
        elif k == 'q':
            q = draw(query(L)); qs.append(q); ops.append(['q', q])
            if isinstance(q[-1], list) and q[-1][0] == 'list':      # the same query list with other elements
                n = [sz for nm, sz in L[q[0]] if nm == q[1]][0]
                ops.append(['q', q[:-1] + [['list', draw(st.lists(st.integers(0, n[0] * n[1] - 1), min_size=len(q[-1][1]), max_size=len(q[-1][1])))]]])
        elif k == 'again' and qs:
            ops.append(['q', draw(st.sampled_from(qs))])
        elif k in ('pickle', 'export'):
            ops.append([k])
        elif k == 'init' and draw(st.integers(0, 2)) == 0:
            ops.append(['init'])
    pos = draw(st.integers(0, 2)) == 0
    for o in ops:
        if o[0] in ('upd', 'bad'):
            o[1] = {f: [abs(x) if pos else x for x in v] for f, v in o[1].items()}
            if o[2] == 'int':
                o[1] = {f: [float(round(x)) for x in v] for f, v in o[1].items()}
    return dict(spec=spec, ops=ops, mpcdata=draw(st.booleans()))


def real(e, pool):
    if isinstance(e, list) and e[0] == 'slice':
        return slice(*e[1:])
    if isinstance(e, list):
        l = pool.setdefault(len(e[1]), [0] * len(e[1]))   # the caller reuses one list object for its queries
        l[:] = e[1]
        return l
    return e


def run(case):
    import do_mpc, pickle
    import casadi as ca
    m, _ = gen.build(case['spec'])
    L = layout(case['spec'])
    d = (do_mpc.data.MPCData if case['mpcdata'] else do_mpc.data.Data)(m)
    rec = {f: [] for f in FIELDS + ['_time']}
    named, pool = 0, {}
    structs = {f: getattr(m, f + '_expression' if f == '_aux' else f) for f in FIELDS}

    def conv(f, v, how):
        a = np.array(v, float)
        if how == 'int':
            a = a.astype(int)
        if how == 'int' and f == '_time':
            return int(v[0])
        if how == 'num' and len(v) == 1:
            return float(v[0])
        if how == 'dm':
            return ca.DM(a)
        if how == 'struct' and f in ('_x', '_u', '_z', '_tvp', '_p') and len(v):
            return structs[f](a)
        return a if how == 'flat' else a.reshape(1, -1) if how == 'row' else a.reshape(-1, 1)

    def check(q, d):
        ind = tuple(real(e, pool) if i > 1 else e for i, e in enumerate(q))
        out = d[ind if len(q) > 1 else q[0]]
        w = 1 if q[0] == '_time' else width(L[q[0]])
        ref = np.array(rec[q[0]], float).reshape(len(rec[q[0]]), w)[:, columns(L, q)]
        out = np.asarray(out)
        require(out.shape == ref.shape, 'query %s has shape %s, expected %s', q, out.shape, ref.shape)
        require(np.array_equal(out, ref), 'query %s returned %s, recorded %s', q, out.tolist(), ref.tolist())

    for op in case['ops']:
        if op[0] == 'upd':
            d.update(**{f: conv(f, v, op[2]) for f, v in op[1].items()})
            for f, v in op[1].items():
                rec[f].append(v)
        elif op[0] == 'bad':
            kw = {f: conv(f, v, op[2]) for f, v in op[1].items()}
            kw[op[3]] = np.zeros(len(op[1][op[3]]) + 1)
            try:
                d.update(**kw)
            except Exception:
                pass
            else:
                raise AssertionError('update with a wrong size was accepted')
            for f in FIELDS + ['_time']:
                check([f], d)
        elif op[0] == 'q':
            check(op[1], d)
            named += len(op[1]) > 1 and len(rec[op[1][0]]) > 1
        elif op[0] == 'init':
            d.init_storage(); rec = {f: [] for f in rec}
        elif op[0] == 'pickle':
            d = pickle.loads(pickle.dumps(d))
        elif op[0] == 'export':
            ex = d.export()
            for f in FIELDS + ['_time']:
                require(f in ex and np.array_equal(np.asarray(ex[f]).reshape(-1), np.array(rec[f], float).reshape(-1)), 'export of %s: %s', f, ex.get(f))
            for v in ex.values():           # the caller changes the exported arrays; later queries return the record
                v += 1
    for f in FIELDS + ['_time']:
        check([f], d)
        for n, _ in (L.get(f) or []):
            check([f, n], d)
            named += len(rec[f]) > 1
    return dict(nontrivial=named > 0, labels=sorted({o[0] for o in case['ops']}))


P.test('record', case(), 1000, 25000)(run)


if __name__ == '__main__':
    P.main()
