"""C08: the low-level interface builds exactly the composed problem; storage and solver options do not change results."""
import copy, os
import numpy as np
import casadi as ca
from lib.vf import Prop, st, require, Inconclusive, scratch
from lib import gen, ocp, est

P = Prop('C08', 'Random MPC (nominal and multi-stage) and MHE problems. extend: between prepare_nlp and create_nlp random terms over elements of opt_x / opt_x_unscaled / opt_p are added to '
         'nlp_obj, random equations and inequalities are appended to nlp_cons, and single bounds are set with lb_opt_x / ub_opt_x before or after create_nlp; the solution of each step must be feasible for '
         'and a KKT point of an independently written problem with the same terms in physical units. options: the same controller with storage options, solver statistics, multipliers, prepare_nlp + '
         'create_nlp instead of setup, set_param instead of settings, direct solve() after writing opt_p_num, or a compiled NLP must give the inputs of the plain one, and records must contain the values of their step '
         '(solution, multipliers that satisfy the optimality conditions, statistics). Non-trivial: an added bound, equation or inequality is active or the added terms have a gradient; at least two steps with options.',
         ['first-order optimality identifies the optimum', 'ipopt default tolerances'])


# ------------------------------------------------------------------------------------------------------------ extension
def parts(cfg, mhe):
    """(kind, do_mpc name, entries)"""
    spec = cfg['spec']
    if mhe:
        return [('x', '_x', spec['x']), ('u', '_u', spec['u']), ('z', '_z', spec['z']), ('pe', '_p_est', [[n, s] for n, s in spec['p'] if n in cfg['est']])]
    return [('x', '_x', spec['x']), ('u', '_u', spec['u']), ('z', '_z', spec['z'])]


def elements(cfg, ref, mhe):
    """all scalar variables of the problem: (position in w, power index, kind, flat element)"""
    out = []
    ents = {k: (nm, e) for k, nm, e in parts(cfg, mhe)}
    for key, (o, n) in ref.index.items():
        kd = 'x' if key[0] == 'xc' else key[0]
        if kd not in ents or not n or key in (('x', 0, 0),) and not mhe:
            continue
        head = ref._slot(key) if mhe else {'x': lambda k: ('_x', k[1], k[2], -1), 'xc': lambda k: ('_x', k[1] + 1, k[2], k[3]), 'z': lambda k: ('_z', k[1], k[2], k[3]),
                                           'u': lambda k: ('_u', k[1], k[2])}[key[0]](key)
        i = 0
        for nm, sh in ents[kd][1]:
            for j in range(gen.size(sh)):
                out.append((o + i, head + (nm, j), kd, i)); i += 1
    return out


def extension(case, cfg, ref, wf, par, mhe, el):
    """from the case: terms, equations, inequalities, bounds as data"""
    obj, eqs, ins, bds = [], [], [], []
    tvp = [(('_tvp', k, n, j), k) for k in range(cfg['N'] + (0 if mhe else 1)) for n, sh in cfg['spec']['tvp'] for j in range(gen.size(sh))]
    d = ref.m.d['tvp']
    for e in case['ext']:
        a, b = el[e['a'] % len(el)], el[e['b'] % len(el)]
        if e['k'] == 'obj':
            obj.append((e['c'], a, b if e['two'] else None, e['r'], tvp[e['t'] % len(tvp)] + ((e['t'] % len(tvp)),) if tvp and e['tv'] else None))
        elif e['k'] == 'cons':
            v = e['c'] * wf[a[0]] + (e['r'] * wf[b[0]] if e['two'] else 0)
            lo, hi = (v, v) if e['eq'] else (v - e['m'], v + e['m'])
            if not e['eq'] and e['one']:
                lo = -np.inf
            (eqs if e['eq'] else ins).append((a, b if e['two'] else None, e['c'], e['r'], lo, hi, bool(e['sq'] and not e['eq'])))
        else:
            bds.append((a, e['side'], float(wf[a[0]] + (-e['m'] if e['side'] == 0 else e['m'])), bool(e['late'])))
    # at most one equation: it is satisfied by the feasible plan
    return obj, eqs[:1], ins, bds


def apply_ref(ref, mhe, obj, eqs, ins):
    tv = 3 if mhe else 2                   # position of the time-varying parameters among the parameters of the reference

    def term(q):
        c, a, b, r, t = q
        return lambda w, p: c * (w[a[0]] - (w[b[0]] if b else 0) - r - (p[tv][t[2]] if t else 0)) ** 2

    def lin(q):
        a, b, c, r = q[:4]
        return lambda w, p: c * w[a[0]] + (r * w[b[0]] if b else 0)
    sq = lambda q: (lambda w, p: lin(q)(w, p) + 0.1 * w[q[0][0]] ** 2) if q[6] else lin(q)
    E = []
    for q in ins:
        E.append((sq(q), q[5] + 0.0))
        if np.isfinite(q[4]):
            E.append((lambda w, p, f=sq(q): -f(w, p), -q[4]))
    ref.extend([term(q) for q in obj], [(lambda w, p, f=lin(q), v=q[4]: f(w, p) - v) for q in eqs], E)


def apply_real(o, scaled, sc, obj, eqs, ins):
    """scaled: which of the terms are written with opt_x and an explicit scaling factor instead of opt_x_unscaled"""
    n = [0]

    def V(a):
        n[0] += 1
        if scaled[n[0] % len(scaled)]:
            return o.opt_x[a[1]] * sc[a[2]][a[3]]
        return o.opt_x_unscaled[a[1]]
    for c, a, b, r, t in obj:
        o.nlp_obj += c * (V(a) - (V(b) if b else 0) - r - (o.opt_p[t[0]] if t else 0)) ** 2
    for a, b, c, r, lo, hi, sq in eqs + ins:
        g = c * V(a) + (r * V(b) if b else 0)
        if sq:
            g = g + 0.1 * V(a) ** 2
        o.nlp_cons.append(g)
        o.nlp_cons_lb.append(np.full(g.shape, lo)); o.nlp_cons_ub.append(np.full(g.shape, hi))


def rebind(cls, after):
    """an object whose setup() is the two-step creation of the NLP with modifications in between"""
    class Two(cls):
        def setup(self):
            self.prepare_nlp()
            after(self)
            self.create_nlp()
    return Two


def build(case, cfg, B, mhe, hook, win=None, store=False, opts=None):
    import do_mpc
    mod, name = (do_mpc.estimator, 'MHE') if mhe else (do_mpc.controller, 'MPC')
    keep = getattr(mod, name)
    if hook:
        setattr(mod, name, rebind(keep, hook))
    try:
        return est.make_mhe(cfg, B, win, store=store, opts=opts) if mhe else ocp.make_mpc(cfg, B, store=store, opts=opts)
    finally:
        setattr(mod, name, keep)


def dependent(ref, w, par, lb, ub):
    Je = np.array(ref.fun(w, *par)[4])
    Je[:, ub - lb < 1e-9] = 0
    return np.linalg.matrix_rank(Je, 1e-6) < Je.shape[0]


def change(chg, o, ref, w, ins, row):
    """Bounds of an added inequality are changed at run time (nlp_cons_lb, nlp_cons_ub)"""
    i, side, c = chg
    i %= len(ins)
    a, b, ca_, r, lo, hi, sq = ins[i]
    g = ca_ * w[a[0]] + (r * w[b[0]] if b else 0) + (0.1 * w[a[0]] ** 2 if sq else 0)
    if not np.isfinite(lo):
        side = 1
    if side:
        hi = np.inf if c is None else g + c; lo = min(lo, hi - .05)
    else:
        lo = -np.inf if c is None else g - c; hi = max(hi, lo + .05)
    pos = 0
    for q in ins[:i]:
        pos += 1 + bool(np.isfinite(q[4]))
    ref.h_extra[pos] = hi
    if np.isfinite(ins[i][4]):
        ref.h_extra[pos + 1] = -lo
    L, U = np.array(ca.DM(o.nlp_cons_lb)), np.array(ca.DM(o.nlp_cons_ub))
    for M, v, n in ((L, ins[i][4], 'lower'), (U, ins[i][5], 'upper')):
        require(M[row + i, 0] == v or abs(M[row + i, 0] - v) <= 1e-12 * max(1, abs(v)), '%s bound %s of the added constraint reads %s', n, v, M[row + i])
    L[row + i, 0], U[row + i, 0] = lo, hi
    o.nlp_cons_lb = L; o.nlp_cons_ub = U
    return 'bounds of an added constraint changed to [%s, %s]' % (lo, hi)


def change_bound(rtb, o, ref, cfg, B, w, setb, mhe, lb, ub):
    """The bound of a variable is changed at run time; bounds of single optimization variables that belong to other variables remain."""
    pick, side, delta = rtb
    cand = []
    for kd, name, ent in parts(cfg, mhe):
        q = 0
        for n, sh in ent:
            k = gen.size(sh)
            if not any(a[2] == kd and q <= a[3] < q + k and s == side for a, s, _, _ in setb):
                cand.append((kd, name, n, sh, q))
            q += k
    if not cand:
        return None
    kd, name, n, sh, q = cand[pick % len(cand)]
    k = gen.size(sh)
    keys = [x for x in ref.index if x[0] in ((kd, 'xc') if kd == 'x' else (kd,)) and ref.index[x][1]]
    vals = np.array([w[ref.index[x][0] + q:ref.index[x][0] + q + k] for x in keys]).reshape(len(keys), k)
    oth = np.array(B[kd][1 - side][q:q + k])
    for a, s, v, _ in setb:                   # remain consistent with the single bounds of the other side
        if a[2] == kd and q <= a[3] < q + k:
            oth[a[3] - q] = (min if side == 0 else max)(oth[a[3] - q], v)
    new = np.minimum(vals.min(0) - delta, oth - 0.02) if side == 0 else np.maximum(vals.max(0) + delta, oth + 0.02)
    B2 = dict(B); B2[kd] = (list(B[kd][0]), list(B[kd][1]))
    B2[kd][side][q:q + k] = [float(v) for v in new]
    o.bounds[('lower', 'upper')[side], name, n] = new.reshape(tuple(sh), order='F') if k > 1 else float(new[0])
    if not mhe and kd == 'x' and B.get('tb') is not None:     # default terminal bounds may follow
        T = [list(v) for v in B['tb']]
        now = np.asarray(ca.DM(o.terminal_bounds[('lower', 'upper')[side], n])).ravel(order='F')
        T[side][q:q + k] = [float(v) for v in now]
        B2['tb'] = T
    l2, u2 = ref.bounds(B2)
    for a, s, v, _ in setb:
        (l2 if s == 0 else u2)[a[0]] = v
    lb[:], ub[:] = l2, u2
    return '%s bound of %s %s changed to %s' % (('lower', 'upper')[side], name, n, new)


def extend(case):
    mhe = case['mhe']
    cfg = copy.deepcopy(case['cfg'])
    if mhe:
        ref, B, wf, ys = est.prepare(cfg)
        win = est.Win(ys)
        xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
        par = ref.params(xp, pp, est.p_vals(cfg, cfg['t0'])[ref.is_], est.tvp_win(cfg, cfg['t0']), ys)
        sc = {k: np.array(v) for k, v in cfg['scaling'].items()}
    else:
        ref, B, wf = ocp.prepare(cfg)
        win = None
        par = ref.params(cfg['x0'], cfg['uprev'], ocp.tvp_list(cfg, cfg['t0']), ocp.p_list(cfg, cfg['t0']))
        sc = {k: np.array(v) for k, v in cfg['scaling'].items()}
    ref.tolf = max(1.0, max([1.0] + [v for k in sc for v in sc[k]]) / 10)
    el = elements(cfg, ref, mhe)
    obj, eqs, ins, bds = extension(case, cfg, ref, wf, par, mhe, el)
    ins = [q[:5] + (q[5] + 0.1 * wf[q[0][0]] ** 2, q[6]) if q[6] else q for q in ins]
    ins = [(q[0], q[1], q[2], q[3], -np.inf if q[6] else q[4], q[5], q[6]) for q in ins]
    apply_ref(ref, mhe, obj, eqs, ins)
    lb, ub = ref.bounds(B)
    if eqs and dependent(ref, wf, par, lb, ub):           # ipopt does not converge reliably for dependent equations
        raise Inconclusive('dependent equations')
    setb = []
    for a, side, v, late in sorted(bds, key=lambda q: q[3]):     # in the order of the calls
        (lb if side == 0 else ub)[a[0]] = v
        setb.append((a, side, v, late))

    def bound(o, late):
        for a, side, v, l in setb:
            if l == late:
                if side == 0:
                    o.lb_opt_x[a[1]] = v
                else:
                    o.ub_opt_x[a[1]] = v

    rows = []

    def hook(o):
        rows.append(sum(g.shape[0] for g in o.nlp_cons))
        apply_real(o, case['scaled'], sc, obj, eqs, ins)
        bound(o, False)
    o = build(case, cfg, B, mhe, hook, win)
    bound(o, True)
    for attr in ('nlp_obj', 'nlp_cons'):
        try:
            setattr(o, attr, getattr(o, attr))
        except Exception:
            continue
        raise AssertionError('%s can be changed after the problem was created' % attr)
    labs, steps = set(), 0
    t = cfg['t0']
    if mhe:
        est.start(o, cfg, ref, xp, pp)
        y = ys[-1]
        o.t0 = t
        call = lambda: o.make_step(np.array(win.y[-1]).reshape(-1, 1))
    else:
        o.t0 = t; o.x0 = np.array(cfg['x0']).reshape(-1, 1); o.u0 = np.array(cfg['uprev']).reshape(-1, 1)
        if ref.m.d['z']:
            o.z0 = ref.get(wf, 'z', 0, 0, 0).reshape(-1, 1)
        o.set_initial_guess()
        call = lambda: o.make_step(np.array(cfg['x0']).reshape(-1, 1))
    r = call()
    if not o.solver_stats['success']:
        # restart from a solution of the reference problem
        try:
            okr, wr, fr = ref.solve(wf, par, lb, ub)
        except RuntimeError:
            okr = False
        if not okr:
            raise Inconclusive('no solver converged')
        ref.write(o.opt_x_num, wr, sc); o.t0 = t
        if mhe:
            if ref.ie:
                o.p_est0 = pp.reshape(-1, 1)
            xq = ref.get(wr, 'x', 1)
            par = ref.params(xq, pp, est.p_vals(cfg, t)[ref.is_], est.tvp_win(cfg, t), win.y)
        else:
            o.u0 = np.array(cfg['uprev']).reshape(-1, 1)
        r = call()
        labs.add('restarted')
        if not o.solver_stats['success']:
            f, v, iv, _, _ = ref.residuals(wr, par, lb, ub)
            if dependent(ref, wr, par, lb, ub):
                raise Inconclusive('dependent equations')
            require(mhe or v > 1e-6 or iv > 1e-6 or not ocp.rejects(o, ref, wr, sc), 'no solution (%s) although the plan with cost %.6g is feasible', o.solver_stats['return_status'], f)
            raise Inconclusive('controller did not converge')
    w = ref.read(o.opt_x_num_unscaled)
    info = ref.check(w, par, lb, ub, what='extended %s' % ('MHE' if mhe else 'MPC'))
    f = float(o.S.stats()['iterations']['obj'][-1]) if o.solver_stats.get('iterations') else info['f']
    require(abs(f - info['f']) <= 1e-4 * max(1, abs(f)) or 'ipopt.obj_scaling_factor' in o.settings.nlpsol_opts, 'objective of the solver %.9g, of the composed problem %.9g', f, info['f'])
    if not mhe:
        require(gen.close(r, ref.get(w, 'u', 0, 0), 1e-9, 1e-9), 'returned input is not the first of the plan')
        # second step from the first predicted state, added parts remain
        x1 = ref.get(w, 'x', 1, 0).copy(); up = ref.get(w, 'u', 0, 0).copy(); t += cfg['dt']
        par2 = ref.params(x1, up, ocp.tvp_list(cfg, t), ocp.p_list(cfg, t))
        o.make_step(x1.reshape(-1, 1))
        if o.solver_stats['success']:
            w2 = ref.read(o.opt_x_num_unscaled)
            info2 = ref.check(w2, par2, lb, ub, what='second step of the extended MPC')
            labs |= set(info2['labels']); labs.add('next-step')
    what = change(case['chg'], o, ref, w, ins, rows[0] + len(eqs)) if ins and case.get('chg') else None
    if case.get('rtb'):
        what = '%s, %s' % (what or '', change_bound(case['rtb'], o, ref, cfg, B, w, setb, mhe, lb, ub))
    if what:
        t2 = cfg['t0'] + cfg['dt']
        o.t0 = t2
        if mhe:
            pp2 = ref.get(w, 'pe').copy()
            par2 = ref.params(ref.get(w, 'x', 1).copy(), pp2, est.p_vals(cfg, t2)[ref.is_], est.tvp_win(cfg, t2), win.y)
            if ref.ie:
                o.p_est0 = pp2.reshape(-1, 1)
        else:
            par2 = ref.params(np.array(cfg['x0']), np.array(cfg['uprev']), ocp.tvp_list(cfg, t2), ocp.p_list(cfg, t2))
            o.u0 = np.array(cfg['uprev']).reshape(-1, 1)
        ref.write(o.opt_x_num, w, sc)
        call()
        if o.solver_stats['success']:
            labs |= set(ref.check(ref.read(o.opt_x_num_unscaled), par2, lb, ub, what='after the %s' % what)['labels']) | {'run-time change'}
    act = bool(eqs) or any(abs(w[a[0]] - v) < 1e-4 * max(1, abs(v)) for a, _, v, _ in setb) or bool(obj)
    labs |= {k for k, l in (('obj', obj), ('eq', eqs), ('in', ins), ('bound', setb)) if l} | {'mhe' if mhe else 'mpc'} | set(info['labels'])
    return dict(nontrivial=act, labels=sorted(labs))


@st.composite
def cases(draw):
    mhe = draw(st.integers(0, 2)) == 0
    cfg = draw(est.mhe_cfg(max_N=3)) if mhe else draw(ocp.mpc_cfg(robust=draw(st.integers(0, 3)) == 0, max_N=3, noise=False))
    ext = []
    I = st.sampled_from(list(range(97)))
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(['obj', 'obj', 'cons', 'bound', 'bound']))
        ext.append(dict(k=k, a=draw(I), b=draw(I), c=draw(st.sampled_from([0.5, 1.0, 2.0, -1.0] if k == 'cons' else [0.5, 1.0, 3.0])), two=draw(st.booleans()), r=draw(st.sampled_from([0.0, 1.0, -0.5, 0.75])),
                        t=draw(I), tv=draw(st.booleans()), eq=draw(st.integers(0, 2)) == 0, m=draw(st.sampled_from([0.01, 0.05, 0.2])), one=draw(st.booleans()), sq=draw(st.booleans()),
                        side=draw(st.integers(0, 1)), late=draw(st.booleans())))
    chg = [draw(I), draw(st.integers(0, 1)), draw(st.sampled_from([-0.05, 0.02, 0.5, None]))] if draw(st.integers(0, 1)) == 0 else None
    rtb = [draw(I), draw(st.integers(0, 1)), draw(st.sampled_from([-0.05, 0.02, 0.5]))] if draw(st.integers(0, 2)) == 0 else None
    return dict(mhe=mhe, cfg=cfg, ext=ext, chg=chg, rtb=rtb, scaled=draw(st.lists(st.booleans(), min_size=1, max_size=3)))


P.test('extend', cases(), 280, 9000)(extend)


# ------------------------------------------------------------------------------------------------------------ options
STATS = ['success', 'return_status', 'iterations', 'iter_count', 'n_call_nlp_f', 't_wall_nlp_f']


def loop(o, xs, t0, start, after=None):
    start(o)
    out = []
    for x in xs:
        r = o.make_step(np.array(x, float).reshape(-1, 1))
        out.append((np.array(r).ravel().copy(), o.opt_x_num_unscaled.cat.full().ravel().copy(), bool(o.solver_stats['success'])))
        if after:
            after(o)
    return out


def records(o, kept, cfg):
    """the record contains the values of each step"""
    D, n = o.data, len(kept)
    for f in ('_opt_x_num', '_lam_g_num', 'opt_p_num', '_opt_aux_num'):
        if f not in D.data_fields:
            continue
        require(D[f].shape[0] == n, 'record %s has %d rows after %d steps', f, D[f].shape[0], n)
        for k, q in enumerate(kept):
            require(np.array_equal(D[f][k], q[f], equal_nan=True), 'record %s of step %d: %s, the value of the step was %s', f, k, D[f][k], q[f])
    for f in STATS:
        if f in D.data_fields:
            v = D[f]
            require(v.shape == (n, 1), 'record %s has shape %s after %d steps', f, v.shape, n)
            for k, q in enumerate(kept):
                require(v[k, 0] == q['stats'][f], 'record %s of step %d is %s, the solver reported %s', f, k, str(v[k, 0])[:100], str(q['stats'][f])[:100])
    for k, q in enumerate(kept):
        if '_lam_g_num' in D.data_fields and q['stats']['success']:
            g = ca.Function('g', [o.nlp['x'], o.nlp['p']], [ca.gradient(o.nlp['f'], o.nlp['x']), ca.jacobian(o.nlp['g'], o.nlp['x'])])
            gf, J = [a.full() for a in g(q['x'], q['opt_p_num'])]
            r = gf.ravel() + J.T @ D['_lam_g_num'][k] + q['lam_x']
            s = max(1.0, np.abs(gf).max(), np.abs(D['_lam_g_num'][k]).max(), np.abs(q['lam_x']).max())
            require(np.abs(r).max() <= 1e-4 * s, 'the multipliers recorded in step %d violate the optimality conditions by %.3g', k, np.abs(r).max())


def options(case):
    mhe = case['mhe']
    cfg = copy.deepcopy(case['cfg'])
    if mhe:
        ref, B, wf, ys = est.prepare(cfg)
        xp = np.array(cfg['x_true']) + np.array(cfg['xp']); pp = (np.array(cfg['p_true']) + np.array(cfg['pp']))[ref.ie]
        xs = [ys[-1], [v + 0.05 for v in ys[0]]]
        win = lambda: est.Win([list(y) for y in ys])

        def start(o):
            est.start(o, cfg, ref, xp, pp); o.t0 = cfg['t0']
    else:
        ref, B, wf = ocp.prepare(cfg)
        xs = [cfg['x0'], [float(v) for v in ref.get(wf, 'x', 1, 0)]]
        win = lambda: None

        def start(o):
            o.t0 = cfg['t0']; o.x0 = np.array(cfg['x0']).reshape(-1, 1); o.u0 = np.array(cfg['uprev']).reshape(-1, 1)
            if ref.m.d['z']:
                o.z0 = ref.get(wf, 'z', 0, 0, 0).reshape(-1, 1)
            o.set_initial_guess()
    make = lambda hook=None, **kw: build(case, cfg, B, mhe, hook, win(), **kw)
    base = loop(make(), xs, cfg['t0'], start)
    if not base[0][2]:
        raise Inconclusive('no solution')
    labs = {'mhe' if mhe else 'mpc'}

    def same(got, tol, what):
        for k, ((r, X, ok), (r1, X1, ok1)) in enumerate(zip(base, got)):
            if not ok:
                break
            m = tol * max(1.0, np.abs(X).max())
            require(ok1, '%s: step %d is not solved', what, k)
            require(np.abs(r - r1).max(initial=0) <= m, '%s: step %d returns %s, without %s', what, k, r1, r)
            require(tol > 1e-8 or np.abs(X - X1).max() <= m, '%s: step %d: other solution', what, k)
    for v in case['variants']:
        labs.add(v[0])
        if v[0] == 'store':
            kept = []

            def keep(o):
                kept.append(dict(stats=copy.deepcopy(o.solver_stats), lam_x=np.array(o.lam_x_num).ravel().copy(), _lam_g_num=np.array(o.lam_g_num).ravel().copy(),
                                 x=X[-1][0], _opt_x_num=X.pop()[1], opt_p_num=P_.pop(), _opt_aux_num=A.pop()))
            X, P_, A = [], [], []

            def hook(o):
                o.settings.store_full_solution, o.settings.store_lagr_multiplier, o.settings.store_solver_stats = bool(v[1]), bool(v[2]), list(v[3])
                solve = o.solve

                def spy():
                    # values of the step, directly after the optimisation
                    r = solve()
                    X.append((o.opt_x_num.cat.full().ravel().copy(), (o.opt_x_num.cat * o.opt_x_scaling.cat).full().ravel())); P_.append(o.opt_p_num.cat.full().ravel().copy()); A.append(o.opt_aux_num.cat.full().ravel().copy())
                    return r
                o.solve = spy
            o = make(lambda o: None)             # settings are read when the problem is created
            o = build(case, cfg, B, mhe, hook, win())
            same(loop(o, xs, cfg['t0'], start, keep), 1e-9, 'storage options %s' % v[1:])
            records(o, kept, cfg)
        elif v[0] == 'two':
            same(loop(make(lambda o: None), xs, cfg['t0'], start), 1e-9, 'prepare_nlp and create_nlp')
        elif v[0] == 'expand':
            same(loop(make(opts={'expand': True}), xs, cfg['t0'], start), 1e-4, 'solver option expand')
        elif v[0] == 'solve' and not mhe:
            o = make(); start(o)
            tv, ps = ocp.tvp_list(cfg, cfg['t0']), ocp.p_list(cfg, cfg['t0'])
            o.opt_p_num['_x0'] = np.array(cfg['x0']); o.opt_p_num['_u_prev'] = np.array(cfg['uprev'])
            for k in range(cfg['N'] + 1):
                o.opt_p_num['_tvp', k] = np.array(tv[k])
            for c, p in enumerate(ps):
                o.opt_p_num['_p', c] = np.array(p)
            o.solve()
            m = o.opt_x_num_unscaled.cat.full().ravel()
            require(np.abs(m - base[0][1]).max() <= 1e-9 * max(1, np.abs(m).max()), 'solve() with these parameters gives another solution than make_step')
            require(o.data['_x'].shape[0] == 0, 'solve() wrote records')
        elif v[0] == 'compile':
            with scratch() as root:
                os.chdir(root)
                o = make()
                if v[1] == 'other':
                    c2 = copy.deepcopy(cfg)
                    if mhe:
                        c2['Px'] = [[2 * a for a in r] if isinstance(r, list) else 2 * r for r in c2['Px']]
                    else:
                        c2['lterm'] = ['*', ['c', 3.0], c2['lterm']]
                    q = build(case, c2, B, mhe, None, win()); start(q); q.compile_nlp(overwrite=True)
                if v[1] == 'fail':
                    try:
                        o.compile_nlp(compiler_command='exit 3', overwrite=True)
                    except Exception:
                        pass
                    else:
                        raise AssertionError('compile_nlp succeeded with a failing compiler')
                    same(loop(o, xs, cfg['t0'], start), 1e-9, 'after a failed compilation')
                else:
                    o.compile_nlp(overwrite=v[1] == 'other')
                    require(os.path.isfile('nlp.so') and os.path.isfile('nlp.c'), 'no library was written: %s', os.listdir('.'))
                    same(loop(o, xs, cfg['t0'], start), 1e-4, 'compiled NLP (%s)' % v[1])
                    if v[1] == 'reuse':
                        st0 = os.stat('nlp.so')
                        o = make(); o.compile_nlp()
                        require(os.stat('nlp.so').st_mtime_ns == st0.st_mtime_ns, 'compile_nlp replaced the existing library')
                        same(loop(o, xs, cfg['t0'], start), 1e-4, 'NLP from the existing library')
                    if v[1] == 'other':
                        o.compile_nlp(overwrite=True)
                        same(loop(o, xs, cfg['t0'], start), 1e-4, 'compiled once more')
    return dict(nontrivial=bool(base[1][2]), labels=sorted(labs))


@st.composite
def optcases(draw, compiled=False):
    mhe = draw(st.integers(0, 2)) == 0
    cfg = draw(est.mhe_cfg(max_N=2)) if mhe else draw(ocp.mpc_cfg(robust=draw(st.integers(0, 3)) == 0, max_N=2 if compiled else 3, tight=False))
    V = []
    if compiled:
        V.append(['compile', draw(st.sampled_from(['fresh', 'reuse', 'other', 'fail']))])
    else:
        V.append(['store', draw(st.booleans()), draw(st.booleans()), draw(st.lists(st.sampled_from(STATS), unique=True))])
        V += [[k] for k in draw(st.lists(st.sampled_from(['two', 'expand', 'solve']), min_size=1, max_size=2, unique=True))]
    return dict(mhe=mhe, cfg=cfg, variants=V)


P.test('options', optcases(), 150, 5000)(options)
P.test('compiled', optcases(True), 8, 160)(options)
if __name__ == '__main__':
    P.main()
