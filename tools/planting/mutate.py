"""mutate.py N [seed] [file substring] [workers]: random small mutations of covered lines of /repo; runs the quick checks of the properties of that file on a scratch copy until one reports a violation.
Writes /tmp/mut/results.jsonl (survivors have killed=null). Survivors are read by hand: equivalent, or a gap of the checks."""
import re, ast, sys, os, json, random, shutil, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
N = int(sys.argv[1]); seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1; only = sys.argv[3] if len(sys.argv) > 3 else ''; W = int(sys.argv[4]) if len(sys.argv) > 4 else 2
OUT = '/tmp/mut'; os.makedirs(OUT, exist_ok=True)
COV = '/tmp/cov2/data'
MAP = {'optimizer.py': 'C08 C07 C03 C05 C01 H02 H03 E01 I01', 'controller/_mpc.py': 'C01 C02 C07 C05 C06 C03 C08 E01 C04 I01', 'estimator/_mhe.py': 'H02 H03 H01 C07 C03 E01 I01', 'simulator.py': 'S02 S01 S03 I01 E01',
       'controller/_lqr.py': 'K01 K02 E01 I01', 'data.py': 'D01 D02 C06 I01', 'differentiator/_nlpdifferentiator.py': 'N01 E01', 'differentiator/helper.py': 'N01', 'graphics.py': 'G01', 'model/_model.py': 'M01 M02 E01 S01 L01 I01',
       'model/_linearmodel.py': 'L02 L03 L01 E01 K01', 'model/_linearize.py': 'L01 E01', 'model/_dae2odeconversion.py': 'L03', 'model/_iteratedvariables.py': 'S02 C05 I01 E01', 'opcua/_base.py': 'U01', 'opcua/_client.py': 'U01',
       'opcua/_server.py': 'U01', 'opcua/_helper.py': 'U01', 'sampling/_datahandler.py': 'P02', 'sampling/_sampler.py': 'P02', 'sampling/_samplingplanner.py': 'P01', 'sysid/_onnxconversion.py': 'X01', 'tools/_structure.py': 'T01 G01',
       'tools/_casstructure.py': 'T01 M02 C08', 'tools/_indexedproperty.py': 'I01 E01 C03', 'controller/_controllersettings.py': 'C01 E01 C08 I01 K01', 'estimator/_estimatorsettings.py': 'H02 E01 I01 C08', 'estimator/_base.py': 'H03 I01 S02'}
LINES = {}
if os.path.exists(COV):
    sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import coverage
    d = coverage.CoverageData(COV); d.read()
    for f in d.measured_files():
        LINES[f.split('/do_mpc/', 1)[-1]] = set(d.lines(f))
CMP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def muts(src, f):
    tree = ast.parse(src); L = src.split('\n'); off = [0]
    for l in L:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or (isinstance(n, ast.Call) and ast.unparse(n.func) in ('print', 'warnings.warn', 'time.sleep', 'printProgressBar')):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(m) for m in ast.walk(n.returns)}
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip |= {id(m) for m in ast.walk(n.annotation)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip |= {id(m) for m in ast.walk(n.msg)}
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, 'lineno') or (LINES and n.lineno not in LINES.get(f, ())):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield (*pos(n), '%s %s %s' % (txt(n.left), CMP[SYM[type(n.ops[0])]], txt(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div) and not isinstance(n.left, ast.Constant):
            yield (*pos(n), '(%s) %s (%s)' % (txt(n.left), {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}[type(n.op)], txt(n.right)), 'bin')
            yield (*pos(n), txt(n.left), 'left')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield (*pos(n), str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 10:
            yield (*pos(n), str(n.value + 1), 'int+')
            if n.value > 0:
                yield (*pos(n), str(n.value - 1), 'int-')
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                yield (*pos(n), (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % txt(v) for j, v in enumerate(n.values) if j != i), 'drop-bool')
        elif isinstance(n, ast.UnaryOp):
            yield (*pos(n), '(%s)' % txt(n.operand), 'unary')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert)):
            yield (*pos(n), 'pass', 'delete')
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield (*pos(n), 'pass', 'delete')
        elif isinstance(n, (ast.If, ast.IfExp)):
            for v in ('True', 'False'):
                yield (*pos(n.test), v, 'cond')
        elif isinstance(n, ast.Call) and ast.unparse(n.func) in ('copy.copy', 'copy.deepcopy', 'castools.DM') and len(n.args) == 1:
            yield (*pos(n), txt(n.args[0]), 'nocopy')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
            yield (*pos(n), txt(n.func.value), 'nocopy')
        elif isinstance(n, ast.Call) and len(n.keywords) and not n.args == []:
            for k in n.keywords:
                kw = [txt(a) for a in n.args] + [txt(q) for q in n.keywords if q is not k]
                yield (*pos(n), '%s(%s)' % (txt(n.func), ', '.join(kw)), 'drop-kw')
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None:
            yield (*pos(n), txt(n.lower) + ':', 'slice')


def all_muts():
    out = []
    for f in MAP:
        if not re.search(only, f):
            continue
        s = open('/repo/do_mpc/' + f).read()
        for m in muts(s, f):
            new = (s.encode()[:m[0]] + m[2].encode() + s.encode()[m[1]:]).decode()
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            out.append((f, m, new, s))
    return out


def run(args):
    k, (f, m, new, s) = args
    key = hashlib.md5((f + new).encode()).hexdigest()[:10]
    w = '%s/w_%s' % (OUT, key)
    line = s.encode()[:m[0]].count(b'\n') + 1
    rec = dict(key=key, file=f, line=line, op=m[3], old=s.encode()[m[0]:m[1]].decode()[:160], new=m[2][:160], text=s.split('\n')[line - 1].strip()[:160], killed=None, runs=[])
    if key in DONE:
        return
    os.makedirs(w); shutil.copytree('/repo/do_mpc', w + '/do_mpc', ignore=shutil.ignore_patterns('__pycache__'))
    open(w + '/do_mpc/' + f, 'w').write(new)
    env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=w + '/ev', VERIF_PROCS=os.environ.get('MUT_PROCS', '4'), VERIF_SCALE=os.environ.get('MUT_SCALE', '1'), VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', 'import do_mpc'], env=dict(env, PYTHONPATH=w), capture_output=True)
    if r.returncode:
        rec['killed'] = 'import'
    else:
        for p in MAP[f].split():
            try:
                o = subprocess.run(['./run.sh', p], cwd='/verif', env=env, capture_output=True, text=True, timeout=800)
            except subprocess.TimeoutExpired:
                rec['runs'].append([p, 'timeout']); continue
            rec['runs'].append([p, o.returncode])
            if o.returncode == 1 or 'VIOLATION' in o.stdout:
                rec['killed'] = p; break
            if o.returncode:
                rec['runs'][-1].append(o.stderr[-300:])
    shutil.rmtree(w)
    open(OUT + '/results.jsonl', 'a').write(json.dumps(rec) + '\n')
    print(rec['killed'] or 'SURVIVED', f, line, m[3], '|', rec['text'], '|', rec['old'][:60], '->', rec['new'][:60], flush=True)


if __name__ == '__main__':
    DONE = {json.loads(l)['key'] for l in open(OUT + '/results.jsonl')} if os.path.exists(OUT + '/results.jsonl') else set()
    ms = all_muts(); random.Random(seed).shuffle(ms)
    # at most as many per file as its share of the square root of its size
    print(len(ms), 'mutations')
    by = {}
    for x in ms:
        by.setdefault(x[0], []).append(x)
    pick = []
    while len(pick) < min(N, len(ms)):
        for f in sorted(by, key=lambda f: -len(by[f])):
            for _ in range(1 + len(by[f]) // 120):
                if by[f] and len(pick) < N:
                    pick.append(by[f].pop())
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(run, enumerate(pick)))
