"""T01: the power-indexed Structure."""
from lib.vf import Prop, st, require
from lib import gen

P = Prop('T01', 'Histories of 2-12 operations on one or two structures: assignment of scalars, nested lists/tuples/dicts to new and existing power indices of depth 1-4, mixed depths, replacement of items (also by lists); queries with '
         'partial indices, slices at any level, absent names, full, powerindex and get_index (also through two handles kept at the same time). Oracle: an ordered dictionary from power index to value. Non-trivial: a query that '
         'selects some but not all items of a structure with at least three items.', ['a power index is never both an item and a prefix of another item (the structure is a tree)'])
KEYS = ['_x', '_u', 'a', 'b', 0, 1, 2]
keys = st.sampled_from(KEYS)
index = st.lists(keys, min_size=1, max_size=3)


@st.composite
def nested(draw, depth=2):
    k = draw(st.integers(0, 3 if depth else 0))
    if k == 0:
        return ['v']
    if k == 3:
        return ['d', [[key, draw(nested(depth=depth - 1))] for key in draw(st.lists(keys, min_size=1, max_size=3, unique=True))]]
    return [('l', 't')[k - 1], [draw(nested(depth=depth - 1)) for _ in range(draw(st.integers(1, 3)))]]


slices = st.tuples(st.just('slice'), st.sampled_from([None, None, 0, 1, -1, 2]), st.sampled_from([None, None, 1, 2, -1]), st.sampled_from([None, None, None, 2, -1])).map(list)
query = st.lists(st.one_of(keys, keys, slices), min_size=1, max_size=4)


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        w = draw(st.integers(0, 1))
        o = draw(st.integers(0, 5))
        if o <= 2:
            ops.append(['set', w, draw(index), draw(nested()), draw(st.booleans())])
        elif o == 3:
            ops.append(['replace', w, draw(st.integers(0, 20)), draw(st.sampled_from(['v', 'list', 'dict']))])
        else:
            ops.append(['get', w, draw(query), draw(st.booleans()), draw(st.integers(0, 30))])
    return dict(ops=ops, bare=draw(st.booleans()), final=draw(st.lists(query, min_size=1, max_size=3)))


def leaves(pre, v, cnt):
    if v[0] == 'v':
        cnt[0] += 1
        return [(pre, cnt[0])], cnt[0]
    items = v[1] if v[0] == 'd' else list(enumerate(v[1]))
    out, val = [], []
    for k, q in items:
        l, x = leaves(pre + (k,), q, cnt)
        # later entries of a dict with an equal key do not occur (unique keys); 0/False style clashes neither
        out += l; val.append((k, x))
    if v[0] == 'd':
        return out, dict(val)
    return out, (list if v[0] == 'l' else tuple)(x for _, x in val)


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


class Ref:
    def __init__(self):
        self.d = {}
        self.feat = []

    def fits(self, ls):
        for p, _ in ls:
            for q in self.d:
                if q != p and (q[:len(p)] == p or p[:len(q)] == q):
                    return False
        return True

    def put(self, p, v):
        if p not in self.d:
            for i, k in enumerate(p):
                if len(self.feat) <= i:
                    self.feat.append([])
                if k not in self.feat[i]:
                    self.feat[i].append(k)
        self.d[p] = v

    def select(self, ind, pos=0, items=None):
        items = list(self.d) if items is None else items
        for j in range(pos, len(ind)):
            k = ind[j]
            if isinstance(k, slice):
                out = []
                for f in self.feat[j][k]:
                    out += self.select(list(ind[:j]) + [f] + list(ind[j + 1:]), j, items)
                return out
            items = [p for p in items if len(p) > j and p[j] == k]
        return items


def run(case):
    from do_mpc.tools import Structure
    S, R = [Structure(), Structure()], [Ref(), Ref()]
    hs = [s.get_index for s in S]                      # handles of both objects kept at the same time
    cnt = [0]
    part = False

    def get(w, q, handle):
        nonlocal part
        s, r = S[w], R[w]
        q = [slice(*k[1:]) if isinstance(k, list) else k for k in q][:max(1, len(r.feat))]
        if any(isinstance(k, slice) for k in q) and not r.feat:
            return
        exp = r.select(q)
        ind = q[0] if len(q) == 1 and case['bare'] else tuple(q)
        got = s[ind]
        require(isinstance(got, list), 'query %s returns %s', q, type(got))
        vals = [r.d[p] for p in exp]
        if not any(isinstance(k, slice) for k in q):
            require(got == vals, 'structure %s: query %s returns %s, items are %s', list(r.d.items()), q, got, vals)
        else:
            require(flat(got) == [y for v in vals for y in flat(v)], 'structure %s: query %s returns %s, items are %s', list(r.d.items()), q, got, vals)
        gi = (hs[w] if handle else s.get_index)[ind]
        pos = list(r.d)
        require(flat(gi) == [pos.index(p) for p in exp], 'get_index%s is %s, positions are %s', q, gi, [pos.index(p) for p in exp])
        require(all(s.full[i] == r.d[pos[i]] for i in flat(gi)), 'full[get_index] are not the items')
        part |= 0 < len(exp) < len(pos) and len(pos) >= 3

    def state(what):
        for s, r in zip(S, R):
            require([tuple(p) for p in s.powerindex] == list(r.d), '%s: power indices %s, expected %s', what, s.powerindex, list(r.d))
            require(s.full == list(r.d.values()), '%s: items %s, expected %s', what, s.full, list(r.d.values()))

    for op in case['ops']:
        w = op[1]; r = R[w]
        if op[0] == 'set':
            ls, val = leaves(tuple(op[2]), op[3], cnt)
            if not r.fits(ls) or (op[3][0] != 'v' and tuple(op[2]) in r.d) or any(p in r.d for p, _ in ls) and op[4] and False:
                continue
            ind = op[2][0] if len(op[2]) == 1 and case['bare'] else tuple(op[2]) if op[4] else list(op[2])
            S[w][ind] = val
            for p, v in ls:
                r.put(p, v)
        elif op[0] == 'replace' and r.d:
            p = list(r.d)[op[2] % len(r.d)]
            cnt[0] += 1
            v = {'v': cnt[0], 'list': [cnt[0], -cnt[0]], 'dict': {'q': cnt[0]}}[op[3]]
            S[w][p] = v
            r.put(p, v)
        elif op[0] == 'get':
            q = op[2]
            if r.d and op[4] >= 10:                    # a prefix of an existing item, partly replaced by slices
                p = list(list(r.d)[op[4] % len(r.d)])
                q = [q[i] if i < len(q) and isinstance(q[i], list) else k for i, k in enumerate(p)][:1 + op[4] % 4]
            get(w, q, op[3])
        state('after %s' % (op,))
    for w in (0, 1):
        for q in case['final']:
            get(w, q, True)
    return dict(nontrivial=part, labels=['depth%d' % max([len(r.feat) for r in R])])


P.test('structure', cases(), 4000, 80000)(run)
if __name__ == '__main__':
    P.main()
