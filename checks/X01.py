"""X01: conversion of ONNX graphs."""
import numpy as np
import casadi as ca
from lib.vf import Prop, st, require, Inconclusive, harness
from lib import gen

P = Prop('X01', 'Random ONNX graphs (1-2 inputs, 1-9 nodes) of Tanh, Sigmoid, Relu, Elu(alpha), MatMul, Add, Sub, Mul, Sum, Gemm (transA/transB/alpha/beta/C forms), Concat (all axes), Slice (attribute form), Reshape '
         '(0 and -1 dimensions, through Shape), Unsqueeze/Squeeze pairs, with constants that broadcast as scalars, rows, columns, one-dimensional arrays; float and double. Every layer of the conversion with numpy, DM, SX and MX '
         'inputs must equal the ONNX reference evaluation; the Jacobian must equal central differences of it. A node of an operation without implementation is inserted into some graphs: either the conversion raises or it '
         'is right. Non-trivial: a graph of at least three nodes whose output depends on the input.',
         ['the ONNX reference evaluator defines the function of a graph', 'a one-dimensional constant meeting a column of the same length is ambiguous in CasADi (documented in DESIGN.md) and not generated'])
UN = ['Tanh', 'Sigmoid', 'Relu', 'Elu']
OTHER = ['Softmax', 'Exp', 'LeakyRelu', 'Div', 'Identity', 'Neg', 'Abs', 'Softplus', 'Sqrt', 'ReduceSum', 'Transpose', 'Clip', 'Max', 'HardSigmoid', 'Selu', 'Flatten']


@st.composite
def cases(draw, other=False):
    b = draw(st.integers(1, 3))
    ins = [[b, draw(st.integers(1, 4))] for _ in range(draw(st.sampled_from([1, 1, 2])))]
    shapes = [list(s) for s in ins]
    nodes = []
    opset = draw(st.sampled_from([9, 11, 13]))
    I = lambda k: draw(st.integers(0, k - 1))
    for q in range(draw(st.integers(1, 9))):
        a = len(shapes) - 1 if draw(st.integers(0, 2)) else I(len(shapes))
        r, c = shapes[a]
        op = draw(st.sampled_from(['un', 'un', 'MatMul', 'bin', 'bin', 'Gemm', 'Gemm', 'Concat', 'Slice' if opset == 9 else 'Sum', 'Reshape', 'Reshape', 'squeeze', 'Sum']))
        nd = dict(op=op, a=a)
        if op == 'un':
            nd['op'] = draw(st.sampled_from(UN)); sh = [r, c]
            if nd['op'] == 'Elu':
                nd['alpha'] = draw(st.sampled_from([None, 0.5, 1.0, 2.0, -0.5]))
        elif op == 'MatMul':
            m = draw(st.integers(1, 4)); nd['left'] = draw(st.integers(0, 3)) == 0
            cand = [i for i, s in enumerate(shapes) if (s[1] == r if nd['left'] else s[0] == c)]
            if cand and draw(st.integers(0, 3)) == 0:
                nd['b'] = draw(st.sampled_from(cand)); o = shapes[nd['b']]
                sh = [o[0], c] if nd['left'] else [r, o[1]]
            else:
                nd['const'] = [m, r] if nd['left'] else [c, m]
                sh = [m, c] if nd['left'] else [r, m]
        elif op == 'bin':
            nd['op'] = draw(st.sampled_from(['Add', 'Sub', 'Mul'])); nd['left'] = draw(st.booleans())
            cand = [i for i, s in enumerate(shapes) if all(x == y or x == 1 or y == 1 for x, y in zip(s, (r, c)))]
            if cand and draw(st.integers(0, 1)):
                nd['b'] = draw(st.sampled_from(cand)); o = shapes[nd['b']]
            else:
                o = draw(st.sampled_from([[c], [c], [], [1], [1, c], [r, 1], [r, c], [1, 1]]))
                if r == 1 and draw(st.integers(0, 3)) == 0:
                    o = [draw(st.integers(1, 3)), 1]
                if c == 1 and r > 1 and o == [1]:
                    o = []
                nd['const'] = o
            o = ([1, 1] + list(o))[-2:]
            sh = [max(r, o[0]), max(c, o[1])]
        elif op == 'Sum':
            cand = [i for i, s in enumerate(shapes) if s == [r, c]]
            nd['bs'] = [draw(st.sampled_from(cand)) for _ in range(draw(st.integers(0, 2)))]; nd['const'] = draw(st.sampled_from([[r, c], None, [c], [1, c], []]))
            if nd['const'] == [1, c] and False:
                pass
            sh = [r, c]
        elif op == 'Gemm':
            tA, tB = draw(st.booleans()), draw(st.booleans())
            kk, n = (c, r) if not tA else (r, c)
            m = draw(st.integers(1, 4))
            nd.update(tA=tA, tB=tB, const=[m, kk] if tB else [kk, m], alpha=draw(st.sampled_from([None, 0.5, -1.0])), beta=draw(st.sampled_from([None, 2.0, 0.0])),
                      C=draw(st.sampled_from([[m], [m], [1, m], [n, m], [n, 1], [], [1, 1]] + ([None] if opset >= 11 else []))))
            cand = [i for i, s in enumerate(shapes) if s in ([n, m], [1, m])]
            nd['Cv'] = draw(st.sampled_from(cand)) if cand and draw(st.integers(0, 3)) == 0 else None
            sh = [n, m]
            if m == 1 and n > 1 and nd['C'] == [1]:
                nd['C'] = []
        elif op == 'Concat':
            ax = draw(st.sampled_from([0, 1, -1, -2]))
            cand = [i for i, s in enumerate(shapes) if s[1 - ax % 2] == (r, c)[1 - ax % 2]]
            nd['bs'] = [draw(st.sampled_from(cand)) for _ in range(draw(st.integers(0, 2)))]
            k = draw(st.sampled_from([0, 0, 1, 2]))
            nd['const'] = ([k, c] if ax % 2 == 0 else [r, k]) if k else None
            nd['axis'] = ax; nd['cfirst'] = draw(st.booleans())
            tot = (r, c)[ax % 2] + sum(shapes[i][ax % 2] for i in nd['bs']) + k
            sh = [tot, c] if ax % 2 == 0 else [r, tot]
            if tot > 8:
                continue
        elif op == 'Slice':
            axes = draw(st.sampled_from([[0], [1], [0, 1], [1, 0], [-1], [-2], None]))
            S, E, sh = [], [], [r, c]
            for x in (axes if axes is not None else [0, 1][:draw(st.integers(1, 2))]):
                n = (r, c)[x % 2]; s = I(n); e = draw(st.integers(s + 1, n))
                sh[x % 2] = e - s
                S.append(s - n if draw(st.integers(0, 2)) == 0 else s)
                E.append(e if e < n else draw(st.sampled_from([e, e, 1000, 2 ** 31 - 1])) if draw(st.booleans()) or e == n else e - n)
            nd.update(axes=axes, starts=S, ends=E, order=draw(st.permutations([0, 1, 2])))
        elif op == 'Reshape':
            n = r * c
            k = draw(st.sampled_from([d for d in range(1, n + 1) if n % d == 0]))
            sh = [k, n // k]
            f = list(sh)
            w = draw(st.integers(0, 4))
            if w == 0:
                f[0] = -1
            elif w == 1:
                f[1] = -1
            elif w == 2 and sh[0] == r:
                f[0] = 0
            cand = [i for i, s in enumerate(shapes) if s[0] * s[1] == n]
            nd['like'] = draw(st.sampled_from(cand)) if draw(st.integers(0, 3)) == 0 else None
            if nd['like'] is not None:
                sh = list(shapes[nd['like']])
            nd['shape'] = f
        elif op == 'squeeze':
            nd['axis'] = draw(st.sampled_from([0, 1, 2])); sh = [r, c]; nd['mid'] = draw(st.sampled_from(UN[:3]))
        if sh[0] * sh[1] > 48:
            continue
        nodes.append(nd); shapes.append(list(sh))
    return dict(ins=ins, nodes=nodes, opset=opset, seed=draw(st.integers(0, 10 ** 6)), float=draw(st.integers(0, 3)) == 0, ir=draw(st.booleans()),
                other=[draw(st.sampled_from(OTHER)), draw(st.integers(0, max(0, len(nodes) - 1)))] if other else None, again=draw(st.booleans()))


@harness
def build(case):
    from onnx import helper as h, TensorProto as T, numpy_helper as nh
    import onnx
    rng = np.random.default_rng(case['seed'])
    dt = np.float32 if case['float'] else np.float64
    tt = T.FLOAT if case['float'] else T.DOUBLE
    names = ['in %d' % i if i else 'input' for i in range(len(case['ins']))]
    names = ['in_%d' % i for i in range(len(case['ins']))]
    inits, nodes = {}, []
    cnt = [0]

    def const(shape):
        cnt[0] += 1; n = 'c%d' % cnt[0]
        inits[n] = np.round(np.asarray(rng.uniform(-1.5, 1.5, shape)) * 8) / 8
        inits[n] = np.asarray(inits[n], dt)
        return n

    def iconst(v):
        cnt[0] += 1; n = 'c%d' % cnt[0]; inits[n] = np.array(v, np.int64); return n
    N = lambda op, i, o, **a: h.make_node(op, i, [o], **{k: v for k, v in a.items() if v is not None})
    for q, nd in enumerate(case['nodes']):
        if case['other'] and case['other'][1] == q:
            a = names[nd['a']]; o = 'other:0'
            k = case['other'][0]
            e = []
            if k in ('Div', 'Max'):
                e = [const([])]
            if k == 'Clip' and case['opset'] >= 11:
                e = [const([])]
            nodes.append(N(k, [a] + e, o, keepdims=1 if k == 'ReduceSum' else None)); names.append(o)
            a = o
        else:
            a = names[nd['a']]
        o = 'layer/%d:0' % q if q % 2 else 'l%d' % q
        op = nd['op']
        if op in UN:
            nodes.append(N(op, [a], o, alpha=nd.get('alpha')))
        elif op in ('MatMul', 'Add', 'Sub', 'Mul'):
            b_ = names[nd['b']] if nd.get('b') is not None else const(nd['const'])
            nodes.append(N(op, [b_, a] if nd['left'] else [a, b_], o))
        elif op == 'Sum':
            i = [a] + [names[k] for k in nd['bs']] + ([const(nd['const'])] if nd['const'] is not None else [])
            nodes.append(N(op, i, o))
        elif op == 'Gemm':
            i = [a, const(nd['const'])]
            if nd['Cv'] is not None:
                i.append(names[nd['Cv']])
            elif nd['C'] is not None:
                i.append(const(nd['C']))
            nodes.append(N(op, i, o, transA=int(nd['tA']) if nd['tA'] else None, transB=int(nd['tB']) if nd['tB'] else None, alpha=nd['alpha'], beta=nd['beta']))
        elif op == 'Concat':
            i = [a] + [names[k] for k in nd['bs']]
            if nd['const']:
                i = [const(nd['const'])] + i if nd['cfirst'] else i + [const(nd['const'])]
            nodes.append(N(op, i, o, axis=nd['axis']))
        elif op == 'Slice':
            n = N(op, [a], o, axes=nd['axes'], starts=nd['starts'], ends=nd['ends'])
            at = list(n.attribute)
            if len(at) == 3:
                at = [at[k] for k in nd['order']]
            del n.attribute[:]; n.attribute.extend(at)
            nodes.append(n)
        elif op == 'Reshape':
            if nd['like'] is not None:
                nodes.append(h.make_node('Shape', [names[nd['like']]], ['sh%d' % q])); s = 'sh%d' % q
            else:
                s = iconst(nd['shape'])
            nodes.append(N(op, [a, s], o))
        elif op == 'squeeze':
            ax = {'axes': [nd['axis']]}
            if case['opset'] >= 13:
                x = iconst([nd['axis']])
                nodes += [N('Unsqueeze', [a, x], o + 'u'), N(nd['mid'], [o + 'u'], o + 'm'), N('Squeeze', [o + 'm', x], o)]
            else:
                nodes += [N('Unsqueeze', [a], o + 'u', **ax), N(nd['mid'], [o + 'u'], o + 'm'), N('Squeeze', [o + 'm'], o, **ax)]
        names.append(o)
        if case['other'] and case['other'][1] == q:      # indices of later nodes refer to the graph without the extra node
            del names[-2]
    lay = [n.output[0] for n in nodes]
    gi = [h.make_tensor_value_info(names[i], tt, s) for i, s in enumerate(case['ins'])]
    if case['ir']:                                       # older exporters list initializers among the inputs
        gi += [h.make_tensor_value_info(k, T.INT64 if v.dtype == np.int64 else tt, v.shape) for k, v in inits.items()]
    outs = [h.make_tensor_value_info(n, T.INT64 if n.startswith('sh') else tt, None) for n in lay]
    g = h.make_graph(nodes, 'g', gi, outs, [nh.from_array(v, k) for k, v in inits.items()])
    m = h.make_model(g, opset_imports=[h.make_opsetid('', case['opset'])])
    xs = {names[i]: np.round(rng.uniform(-2, 2, s) * 16) / 16 for i, s in enumerate(case['ins'])}
    xs2 = {k: v + np.round(rng.uniform(-1, 1, v.shape) * 16) / 16 for k, v in xs.items()}
    from onnx.reference import ReferenceEvaluator
    R = ReferenceEvaluator(m)

    def ref(x):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            full = {k: v.astype(dt) for k, v in x.items()}
            if case['ir']:
                full.update(inits)
            return dict(zip(lay, R.run(None, full)))
    try:
        r1, r2 = ref(xs), ref(xs2)
    except Exception:
        if case['other']:                                # the extra node changed the shape
            raise Inconclusive('not a valid graph')
        raise
    if any(not np.all(np.isfinite(v)) or np.abs(v).max(initial=0) > 1e4 for v in list(r1.values()) + list(r2.values())):
        raise Inconclusive('values out of range')
    return m, lay, xs, xs2, ref, r1, r2


def num(v):
    return np.array(v if isinstance(v, (np.ndarray, tuple, list)) else ca.DM(v), float)


def same(v, r, tol, what):
    v = num(v)
    r = np.asarray(r, float)
    if r.ndim == 2:
        require(v.shape == r.shape, '%s has shape %s, reference %s', what, v.shape, r.shape)
    require(v.size == r.size and np.allclose(v.ravel(), r.ravel(), rtol=tol, atol=tol), '%s is %s, reference %s', what, np.round(v, 5).tolist(), np.round(r, 5).tolist())


def run(case):
    if not case['nodes']:
        return dict(nontrivial=False)
    import do_mpc
    m, lay, xs, xs2, ref, r1, r2 = build(case)
    blob = m.SerializeToString()
    tol = 2e-4 if case['float'] else 1e-9
    C = do_mpc.sysid.ONNXConversion(m)
    text = repr(C)
    for n in lay:
        require(n in text and n in C.layers, 'layer %s is not listed', n)
    kinds = [('numpy', lambda d: d), ('DM', lambda d: {k: ca.DM(v) for k, v in d.items()})]
    try:
        for nm, f in kinds:
            for x, r in ((xs, r1), (xs2, r2)):
                if not case['again']:
                    C = do_mpc.sysid.ONNXConversion(m)
                C.convert(**f({k: v.copy() for k, v in x.items()}))
                for n in lay:
                    same(C[n], r[n], tol, '%s input: layer %s' % (nm, n))
        for nm, S in (('SX', ca.SX), ('MX', ca.MX)):
            sy = {k: S.sym(k, *v.shape) for k, v in xs.items()}
            if not case['again']:
                C = do_mpc.sysid.ONNXConversion(m)
            C.convert(**sy)
            ex = [C[n] for n in lay]
            iss = [isinstance(e, (ca.SX, ca.MX)) for e in ex]
            F = ca.Function('f', list(sy.values()), [e for e, q in zip(ex, iss) if q])
            for x, r in ((xs, r1), (xs2, r2)):
                out = F.call([ca.DM(v) for v in x.values()]); o = iter(out)
                for n, e, q in zip(lay, ex, iss):
                    same(next(o) if q else e, r[n], tol, '%s input: layer %s' % (nm, n))
            if nm == 'SX' and isinstance(ex[-1], S) and not case['float']:
                k0 = list(xs)[0]
                J = ca.Function('j', list(sy.values()), [ca.jacobian(ca.vec(ex[-1].T), ca.vec(sy[k0].T))])(*[ca.DM(v) for v in xs.values()])
                j = case['seed'] % xs[k0].size
                e = np.zeros(xs[k0].size); e[j] = 1e-6
                e = e.reshape(xs[k0].shape)
                a, b = (ref(dict(xs, **{k0: xs[k0] + s * e}))[lay[-1]].ravel() for s in (1, -1))
                c0 = r1[lay[-1]].ravel()
                fd = (a - b) / 2e-6
                smooth = np.abs((a - c0) - (c0 - b)) < 1e-8 * np.maximum(1, np.abs(fd))
                Jn = np.array(J)[:, j]
                require(np.all(~smooth | (np.abs(Jn - fd) <= 1e-5 * np.maximum(1, np.abs(fd)))), 'derivative %s, differences of the reference %s', Jn, fd)
    except Exception as e:
        if case['other'] and not type(e).__name__ == 'Violation':
            return dict(nontrivial=True, labels=['rejected'])
        raise
    require(m.SerializeToString() == blob, 'the conversion changed the ONNX model')
    chg = np.abs(np.asarray(r1[lay[-1]], float) - r2[lay[-1]]).max(initial=0) > 1e-6
    return dict(nontrivial=bool(len(lay) >= 3 and chg), labels=sorted({n['op'] for n in case['nodes']}) + (['float'] if case['float'] else []))


P.test('graph', cases(), 1600, 30000)(run)
P.test('unsupported', cases(other=True), 240, 3000)(run)


@P.test('arguments', st.fixed_dictionaries(dict(case=cases(), how=st.sampled_from(['missing', 'extra', 'name', 'type', 'list', 'none', 'query', 'model']), ok_first=st.booleans())), 160, 2000)
def arguments(c):
    """Wrong inputs are rejected; the converter stays usable."""
    import do_mpc
    case = c['case']
    if not case['nodes']:
        return dict(nontrivial=False)
    m, lay, xs, xs2, ref, r1, r2 = build(case)
    C = do_mpc.sysid.ONNXConversion(m)
    if c['ok_first']:
        C.convert(**xs2)
    k0 = list(xs)[0]
    how = c['how']
    bad = dict(xs)
    if how in ('missing', 'none'):
        bad = {} if how == 'none' else {k: v for k, v in xs.items() if k != k0}
    elif how == 'extra':
        bad['extra'] = np.ones((1, 1))
    elif how == 'name':
        bad = {('q' + k if k == k0 else k): v for k, v in xs.items()}
    elif how == 'type':
        bad[k0] = 'text'
    elif how == 'list':
        bad[k0] = xs[k0].tolist()

    def bad_call():
        if how == 'query':
            C.convert(**xs); C['no such layer']
        elif how == 'model':
            do_mpc.sysid.ONNXConversion('model.onnx')
        else:
            C.convert(**bad)
    raised = False
    try:
        bad_call()
    except Exception:
        raised = True
    require(raised, 'invalid call (%s) accepted', how)
    C.convert(**xs)
    tol = 2e-4 if case['float'] else 1e-9
    for n in lay:
        same(C[n], r1[n], tol, 'after a rejected call: layer %s' % n)
    return dict(nontrivial=True, labels=[how])


if __name__ == '__main__':
    P.main()
