"""Generators of model specifications (plain JSON), builders of do_mpc models from them, and an independent evaluator.

A specification lists the variables (name, shape), the expressions of every equation as expression trees over scalar
elements, the noise flags and the order of the declaration calls.  ``build`` makes the do_mpc model through its public
declaration calls; ``ev`` evaluates the same trees with numpy floats and never touches do_mpc or casadi.
"""
import math
import numpy as np
from .vf import st, quiet

KINDS = ('x', 'u', 'z', 'tvp', 'p')
NAMES = ['a', 'b', 'x', 'u', 'T', 'C_a', 'pos', 'v1', 'default_q', 'm_dot', 'x_1', 'x_10', 'k']


OFF = (1.0, 1.0, 1.0, 1.0, 1.0, 0.98765432)
STEPS = (0.1, 0.5, 1.0, 0.25, 1 / 3, 0.07)


def nice(lo=-2.0, hi=2.0, step=0.125):
    """Multiples of step; one of six is moved off the grid (towards zero), so that rounded values differ."""
    return st.tuples(st.integers(int(math.ceil(lo / step)), int(math.floor(hi / step))), st.sampled_from(OFF)).map(lambda v: v[0] * step * v[1])


# ------------------------------------------------------------------------------------------------- expressions
def size(shape):
    return shape[0] * shape[1]


def elements(spec, kinds):
    return [[kd, nm, k] for kd in kinds for nm, sh in spec[kd] for k in range(size(sh))]


def exprs(leaves, max_leaves=6, funcs=('sin', 'cos', 'tanh', 'sq')):
    """Expression trees over the given leaves ([kind, name, index] triples)."""
    const = nice(-2, 2, 0.25).map(lambda c: ['c', c])
    var = st.sampled_from(leaves).map(lambda l: ['v'] + list(l)) if leaves else const
    leaf = st.one_of(var, var, const)

    def ext(ch):
        return st.one_of(
            st.tuples(st.sampled_from(['+', '-', '*']), ch, ch).map(list),
            st.tuples(st.sampled_from(list(funcs)), ch).map(list))
    rec = st.recursive(leaf, ext, max_leaves=max_leaves)
    return st.one_of(rec, st.tuples(st.sampled_from(['+', '-', '*']), rec, rec).map(list))


def ev(t, env):
    """Reference evaluation; env[kind][name] is a flat (column-major) float sequence."""
    o = t[0]
    if o == 'c':
        return float(t[1])
    if o == 'v':
        return float(env[t[1]][t[2]][t[3]])
    if o == '+':
        return ev(t[1], env) + ev(t[2], env)
    if o == '-':
        return ev(t[1], env) - ev(t[2], env)
    if o == '*':
        return ev(t[1], env) * ev(t[2], env)
    a = ev(t[1], env)
    if o == 'sin':
        return math.sin(a)
    if o == 'cos':
        return math.cos(a)
    if o == 'tanh':
        return math.tanh(a)
    if o == 'sq':
        return a * a
    if o == 'exp':
        return math.exp(a)
    if o == 'rat':                      # a/(1+a^2): smooth, bounded
        return a / (1 + a * a)
    if o == 'neg':
        return -a
    raise KeyError(o)


def sy(t, hs):
    """Symbolic version over handles hs[kind][name] (casadi symbols)."""
    import casadi as ca
    o = t[0]
    if o == 'c':
        return ca.DM(t[1])
    if o == 'v':
        return hs[t[1]][t[2]][t[3]]
    if o in '+-*':
        a, b = sy(t[1], hs), sy(t[2], hs)
        return a + b if o == '+' else a - b if o == '-' else a * b
    a = sy(t[1], hs)
    if o == 'sin':
        return ca.sin(a)
    if o == 'cos':
        return ca.cos(a)
    if o == 'tanh':
        return ca.tanh(a)
    if o == 'sq':
        return a * a
    if o == 'exp':
        return ca.exp(a)
    if o == 'rat':
        return a / (1 + a * a)
    if o == 'neg':
        return -a
    raise KeyError(o)


def vec(trees, hs, sym, shape=None):
    """Stack scalar trees to a symbolic (n,1) or reshaped expression of the model's symbol type."""
    import casadi as ca
    T = ca.SX if sym == 'SX' else ca.MX
    e = ca.vertcat(*[T(sy(t, hs)) for t in trees]) if trees else T(0, 1)
    if shape is not None and tuple(shape) != tuple(e.shape):
        e = ca.reshape(e, shape[0], shape[1])
    return e


def used(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] == 'v':
        acc.add((t[1], t[2], t[3]))
    else:
        for a in t[1:]:
            if isinstance(a, list):
                used(a, acc)
    return acc


# ------------------------------------------------------------------------------------------------- model specs
@st.composite
def variables(draw, lo, hi, shapes=((1, 1), (1, 1), (2, 1), (3, 1)), names=NAMES):
    nms = draw(st.lists(st.sampled_from(names), min_size=lo, max_size=hi, unique=True))
    return [[n, list(draw(st.sampled_from(shapes)))] for n in nms]


SHAPES = ((1, 1), (1, 1), (2, 1), (3, 1), (2, 2))
VSHAPES = ((1, 1), (1, 1), (2, 1), (3, 1))


@st.composite
def model_spec(draw, types=('discrete', 'continuous'), syms=('SX', 'MX'), max_x=3, max_u=2, max_z=2, max_p=2, max_tvp=2,
               max_aux=2, max_meas=3, shapes=SHAPES, noise=True, max_leaves=6, min_u=0, min_p=0, min_tvp=0, min_z=0,
               default_meas=True, wide=False):
    s = dict(type=draw(st.sampled_from(types)), sym=draw(st.sampled_from(syms)))
    s['x'] = draw(variables(1, max_x, shapes))
    s['u'] = draw(variables(min_u, max_u, shapes))
    s['z'] = draw(variables(min_z, max_z, shapes))
    s['p'] = draw(variables(min_p, max_p, shapes))
    s['tvp'] = draw(variables(min_tvp, max_tvp, shapes))
    if wide and draw(st.integers(0, 9)) == 9:       # more than ten elements in one variable
        kd = draw(st.sampled_from([k for k in KINDS if s[k] and (k != 'z' or max_z)]))
        draw(st.sampled_from(s[kd]))[1] = list(draw(st.sampled_from([(11, 1), (12, 1)] + ([(4, 3)] if shapes is SHAPES else []))))
    # Equations without noise: over all variables
    lv = elements(s, KINDS)
    E = exprs(lv, max_leaves)
    s['rhs'] = {n: draw(st.lists(E, min_size=size(sh), max_size=size(sh))) for n, sh in s['x']}
    s['w'] = [n for n, sh in s['x'] if noise and draw(st.booleans())]
    # Algebraic equations: 0 = z_i - g(x,u,p,tvp) (+ small coupling), declared in groups
    s['alg'] = []
    gl = elements(s, ('x', 'u', 'tvp', 'p'))
    GE = exprs(gl, 4)
    for n, sh in s['z']:
        rows = []
        for k in range(size(sh)):
            g = draw(GE)
            rows.append(['-', ['v', 'z', n, k], ['tanh', g]])
        s['alg'].append(['alg_' + n, rows])
    s['aux'] = []
    for i in range(draw(st.integers(0, max_aux))):
        sh = draw(st.sampled_from([(1, 1), (2, 1)]))
        s['aux'].append(['aux%d' % i, list(sh), draw(st.lists(E, min_size=size(sh), max_size=size(sh)))])
    s['meas'] = []
    for i in range(draw(st.integers(0 if default_meas else 1, max_meas))):
        sh = draw(st.sampled_from([(1, 1), (2, 1)]))
        nm = draw(st.sampled_from(['y%d' % i, 'm%d' % i]))
        s['meas'].append([nm, list(sh), draw(st.lists(E, min_size=size(sh), max_size=size(sh))), bool(noise and draw(st.booleans()))])
    s['rhs_order'] = draw(st.permutations([n for n, _ in s['x']]))
    s['long'] = draw(st.booleans())
    return s


LONG = dict(x='states', u='inputs', z='algebraic', p='parameter', tvp='timevarying_parameter')


def declare(spec, kind_order=KINDS, long=False, intshape=False):
    """Declare variables; returns (model, handles)."""
    import do_mpc
    m = do_mpc.model.Model(spec['type'], spec['sym'])
    hs = {k: {} for k in KINDS}
    for kd in kind_order:
        for n, sh in spec[kd]:
            vt = LONG[kd] if long else '_' + kd
            hs[kd][n] = m.set_variable(var_type=vt, var_name=n, shape=sh[0] if intshape and sh[1] == 1 else tuple(sh))
    return m, hs


def build(spec, kind_order=KINDS, setup=True, long=False, handles=None, intshape=False):
    """Build the do_mpc model; handles(m, hs) may replace the returned symbols by ones read back by name."""
    m, hs = declare(spec, kind_order, long, intshape)
    use = handles(m, hs) if handles else hs
    S = spec['sym']
    shp = dict((n, sh) for n, sh in spec['x'])
    for n, sh, tr in spec['aux']:
        m.set_expression(n, vec(tr, use, S, sh))
    for n, sh, tr, noisy in spec['meas']:
        m.set_meas(n, vec(tr, use, S, sh), meas_noise=noisy)
    for n in spec['rhs_order']:
        m.set_rhs(n, vec(spec['rhs'][n], use, S, shp[n]), process_noise=n in spec['w'])
    for n, tr in spec['alg']:
        m.set_alg(n, vec(tr, use, S))
    if setup:
        m.setup()
    return m, hs


def dims(spec):
    d = {k: sum(size(sh) for _, sh in spec[k]) for k in KINDS}
    return d


def split(spec, kind, flat):
    """Flat vector (declaration order, column-major) -> dict by name."""
    out, o = {}, 0
    for n, sh in spec[kind]:
        out[n] = [float(v) for v in flat[o:o + size(sh)]]
        o += size(sh)
    return out


def env_of(spec, pt):
    return {k: split(spec, k, pt[k]) for k in KINDS}


@st.composite
def point(draw, spec, rng=nice(-2, 2, 0.125)):
    d = dims(spec)
    return {k: draw(st.lists(rng, min_size=d[k], max_size=d[k])) for k in KINDS}


def ref_rhs(spec, env, w=None):
    """Right-hand side (flat, declaration order of x); w: dict name -> list (noise)."""
    out = []
    for n, sh in spec['x']:
        v = [ev(t, env) for t in spec['rhs'][n]]
        if w and n in w:
            v = [a + b for a, b in zip(v, w[n])]
        out += v
    return np.array(out)


def ref_alg(spec, env):
    return np.array([ev(t, env) for _, tr in spec['alg'] for t in tr])


def ref_aux(spec, env):
    return np.array([0.0] + [ev(t, env) for _, _, tr in spec['aux'] for t in tr])


def ref_meas(spec, env, v=None):
    out = []
    if not spec['meas']:
        for n, sh in spec['x']:
            out += list(env['x'][n] if not v else [a + b for a, b in zip(env['x'][n], v.get(n, [0] * len(env['x'][n])))])
        return np.array(out)
    for n, sh, tr, noisy in spec['meas']:
        e = [ev(t, env) for t in tr]
        if noisy and v and n in v:
            e = [a + b for a, b in zip(e, v[n])]
        out += e
    return np.array(out)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float).ravel(); b = np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


# ------------------------------------------------------------------------------------------------- tame dynamics
@st.composite
def tame_spec(draw, types=('discrete', 'continuous'), with_z=True, **kw):
    """Models with bounded, smooth dynamics and uniquely solvable algebraic equations.

    rhs_i = c*x_i + tanh(expr);  alg: z_i + a*sin(z_i) - tanh(expr(x,u,tvp,p,earlier z)) = 0 with a in {0, 0.5}."""
    kw.setdefault('max_leaves', 4)
    s = draw(model_spec(types=types, max_z=2 if with_z else 0, **kw))
    decay = [-0.5, -0.25, 0.0] if s['type'] == 'continuous' else [0.5, 0.25, 0.0]
    rhs = {}
    for n, sh in s['x']:
        rhs[n] = []
        for k in range(size(sh)):
            c = draw(st.sampled_from(decay))
            t = ['tanh', s['rhs'][n][k]]
            rhs[n].append(['+', ['*', ['c', c], ['v', 'x', n, k]], t] if c else t)
    s['rhs'] = rhs
    base = elements(s, ('x', 'u', 'tvp', 'p'))
    alg = []
    for n, sh in s['z']:
        rows = []
        for k in range(size(sh)):
            g = ['tanh', draw(exprs(base, 4))]
            zk = ['v', 'z', n, k]
            left = zk if draw(st.booleans()) else ['+', zk, ['*', ['c', 0.5], ['sin', zk]]]
            rows.append(['-', left, g])
            base = base + [['z', n, k]]
        alg.append(['alg_' + n, rows])
    s['alg'] = alg
    return s


def solve_z(spec, env):
    """Solve the (triangular, monotone) algebraic equations of a tame spec; fills env['z'] and returns it flat."""
    env['z'] = {n: [0.0] * size(sh) for n, sh in spec['z']}
    for n, rows in spec['alg']:
        nm = n[4:]
        for k, r in enumerate(rows):
            z0 = 0.0; env['z'][nm][k] = z0; f0 = ev(r, env)
            z1 = -f0; env['z'][nm][k] = z1; f1 = ev(r, env)
            for _ in range(60):
                if f1 == 0 or abs(z1 - z0) < 1e-14:
                    break
                z2 = z1 - f1 * (z1 - z0) / (f1 - f0) if f1 != f0 else z1
                z0, f0 = z1, f1
                z1 = z2; env['z'][nm][k] = z1; f1 = ev(r, env)
            env['z'][nm][k] = z1
    return np.array([v for n, sh in spec['z'] for v in env['z'][n]])


def ref_step(spec, x, u, tvp, p, w=None, dt=1.0):
    """Reference next state (flat), algebraic state at the start and at the end of the interval."""
    env = env_of(spec, dict(x=x, u=u, z=[0.0] * dims(spec)['z'], tvp=tvp, p=p))

    def f(xx):
        env['x'] = split(spec, 'x', xx)
        solve_z(spec, env)
        return ref_rhs(spec, env, w)
    if spec['type'] == 'discrete':
        xn = f(x)
        z0 = np.array([v for n, sh in spec['z'] for v in env['z'][n]])
        return xn, z0, z0
    from scipy.integrate import solve_ivp
    f(x); z0 = np.array([v for n, sh in spec['z'] for v in env['z'][n]])
    s = solve_ivp(lambda t, y: f(y), (0, dt), np.asarray(x, float), method='DOP853', rtol=1e-10, atol=1e-11)
    if not s.success:
        raise RuntimeError(s.message)
    xn = s.y[:, -1]
    f(xn); z1 = np.array([v for n, sh in spec['z'] for v in env['z'][n]])
    return xn, z0, z1


def affine(draw_vals, t):
    """Time dependent vector a + b*t from a list of [a,b] pairs."""
    return [a + b * float(np.asarray(t).ravel()[0]) for a, b in draw_vals]


def weighted(*pairs):
    """One of several strategies with integer weights (one_of would merge repeated branches)."""
    idx = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]

    @st.composite
    def pick(draw):
        return draw(pairs[draw(st.sampled_from(idx))][1])
    return pick()


@st.composite
def seq(draw, lo, hi, op):
    """List with uniformly distributed length (st.lists is biased to short lists)."""
    return [draw(op) for _ in range(draw(st.integers(lo, hi)))]


# ------------------------------------------------------------------------------------------------- reference derivatives
def ev_dual(t, env, idx, n):
    """Value and gradient of a tree with respect to the elements listed in idx {(kind,name,k): column}."""
    o = t[0]
    if o == 'c':
        return float(t[1]), np.zeros(n)
    if o == 'v':
        g = np.zeros(n)
        c = idx.get((t[1], t[2], t[3]))
        if c is not None:
            g[c] = 1.0
        return float(env[t[1]][t[2]][t[3]]), g
    a, ga = ev_dual(t[1], env, idx, n)
    if o in '+-*':
        b, gb = ev_dual(t[2], env, idx, n)
        if o == '+':
            return a + b, ga + gb
        if o == '-':
            return a - b, ga - gb
        return a * b, a * gb + b * ga
    if o == 'sin':
        return math.sin(a), math.cos(a) * ga
    if o == 'cos':
        return math.cos(a), -math.sin(a) * ga
    if o == 'tanh':
        v = math.tanh(a)
        return v, (1 - v * v) * ga
    if o == 'sq':
        return a * a, 2 * a * ga
    if o == 'exp':
        return math.exp(a), math.exp(a) * ga
    if o == 'neg':
        return -a, -ga
    if o == 'rat':
        return a / (1 + a * a), (1 - a * a) / (1 + a * a) ** 2 * ga
    raise KeyError(o)


def ref_jac(trees, spec, env, kind):
    idx, c = {}, 0
    for n, sh in spec[kind]:
        for k in range(size(sh)):
            idx[(kind, n, k)] = c; c += 1
    return np.array([ev_dual(t, env, idx, c)[1] for t in trees]).reshape(len(trees), c)


def rhs_trees(spec):
    return [t for n, sh in spec['x'] for t in spec['rhs'][n]]


def meas_trees(spec):
    if not spec['meas']:
        return [['v', 'x', n, k] for n, sh in spec['x'] for k in range(size(sh))]
    return [t for _, _, tr, _ in spec['meas'] for t in tr]
