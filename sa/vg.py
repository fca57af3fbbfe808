"""Gated value graph of a function, from its MIR.

Every local is given a term (sa.terms) for its value in terms of the function's inputs;
control-flow joins become decision diagrams over the branch conditions, loops are
collapsed to closed forms of their recurrences (counters, sums, pushes, element-wise
updates, searches) or, failing that, to a fold of the loop body's normal form.  Calls of
crate functions are expanded, calls of the dependencies go through the model table in
sa.models; what has no model becomes an 'unk' term, so a verdict never rests on it."""
import re, struct, time
from fractions import Fraction
from .terms import *
from . import terms as TT


class Budget(Exception):
    pass


def ckey(c):
    """'Type::method' / 'Trait::method' / 'module::function' of a callee constant"""
    return pkey(c['p'])


_pk = {}


def pkey(p):
    r = _pk.get(p)
    if r is None:
        # take the last segment; then the segment before, stripped of generics
        segs = split_path(p)
        name = segs[-1]
        prev = segs[-2] if len(segs) > 1 else ''
        i = len(segs) - 2
        while prev.startswith('<') and not prev.startswith('<impl') and i > 0 and ' as ' not in prev:
            i -= 1
            prev = segs[i]
        m = re.match(r'<impl (?:.* for )?(.*)>$', prev)
        if m:
            prev = m.group(1)
        m = re.match(r'<(.*) as (.*)>$', prev)
        if m:
            prev = m.group(2)
        prev = re.sub(r'<.*>$', '', prev)
        prev = prev.split('::')[-1]
        if prev == '[T]' or prev.startswith('['):
            prev = 'slice'
        prev = re.sub(r'^[*&].*', 'ptr', prev)
        r = prev + '::' + name
        _pk[p] = r
    return r


def split_path(p):
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(p):
        ch = p[i]
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}' and not (ch == '>' and i and p[i - 1] == '-'):
            depth -= 1
        if depth == 0 and p.startswith('::', i):
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += ch
        i += 1
    out.append(cur)
    return out


# ---------------------------------------------------------------- constants
def _consts():
    import math
    pi = mk('app', 'pi')
    t = {math.pi: pi, math.pi / 2: div(pi, num(2)), math.pi / 3: div(pi, num(3)), math.pi / 4: div(pi, num(4)), math.pi / 6: div(pi, num(6)),
         math.pi / 8: div(pi, num(8)), 2 * math.pi: mul(num(2), pi), 1 / math.pi: div(ONE, pi), 2 / math.pi: div(num(2), pi), math.e: exp(ONE),
         math.sqrt(2): sqrt(num(2)), math.sqrt(0.5): sqrt(num(Fraction(1, 2))), math.log(2): ln(num(2)), math.log(10): ln(num(10)),
         2 / math.sqrt(math.pi): div(num(2), sqrt(pi)), 2.50662827463100050241576528481104525: sqrt(mul(num(2), pi)),
         1 / 2.50662827463100050241576528481104525: div(ONE, sqrt(mul(num(2), pi))), 0.3989422804014327: div(ONE, sqrt(mul(num(2), pi))),
         math.sqrt(math.pi): sqrt(pi), math.log(math.pi): ln(pi), 1.83787706640934548356065947281123527: ln(mul(num(2), pi)),
         0.91893853320467274178: div(ln(mul(num(2), pi)), num(2))}
    return t


_ct = None


def fconst(bits, width):
    global _ct
    if _ct is None:
        _ct = _consts()
    x = struct.unpack('<d', struct.pack('<Q', bits))[0] if width == 64 else struct.unpack('<f', struct.pack('<I', bits))[0]
    return fval(x)


def fval(x):
    global _ct
    if _ct is None:
        _ct = _consts()
    if x != x:
        return mk('app', 'nan')
    if x in (float('inf'), float('-inf')):
        i = mk('app', 'inf')
        return i if x > 0 else neg(i)
    if abs(x) in _ct:
        return _ct[x] if x > 0 else neg(_ct[-x])
    return num(Fraction(x))


# ---------------------------------------------------------------- values
def mref(root, path):
    return mk('mref', root, path)


MATRIX = ('adt', 'Matrix', 0, 'Matrix')


def rows_of(m):
    return fld(m, 0)


def cols_of(m):
    return fld(m, 1)


def data_of(m):
    return fld(m, 2)


def is_matrix(m):
    return m.op == 'agg' and m.a[0] == MATRIX


MATFN = {}     # app name -> (rows rule, cols rule)


def mat_rows(m):
    if m.op == 'mdd':
        return lift(mat_rows, m)
    if m.op == 'agg' and m.a[0] == MATRIX:
        return m.a[1]
    if m.op in ('undef', 'unk', 'panic'):
        return m
    if m.op == 'arr' or (m.op == 'app' and m.a[0] in ('sel', 'data')):
        return ONE
    if m.op == 'app' and m.a[0] in MATFN:
        return MATFN[m.a[0]][0](m)
    return app('rows', m)


def mat_cols(m):
    if m.op == 'mdd':
        return lift(mat_cols, m)
    if m.op == 'agg' and m.a[0] == MATRIX:
        return m.a[2]
    if m.op in ('undef', 'unk', 'panic'):
        return m
    if m.op == 'arr' or (m.op == 'app' and m.a[0] in ('sel', 'data')):
        return length(m)
    if m.op == 'app' and m.a[0] in MATFN:
        return MATFN[m.a[0]][1](m)
    return app('cols', m)


def mat_data(m):
    if m.op == 'mdd':
        return lift(mat_data, m)
    if m.op == 'agg' and m.a[0] == MATRIX:
        return m.a[3]
    if m.op in ('undef', 'unk', 'panic'):
        return m
    if m.op == 'arr' or (m.op == 'app' and m.a[0] in ('sel', 'data')):
        return m
    return app('data', m)


def matrix(r, c, d):
    if r.op == 'mdd' and c.op != 'mdd' and d.op != 'mdd':
        return lift(lambda x: matrix(x, c, d), r)
    if d.op == 'app' and d.a[0] == 'data' and mat_rows(d.a[1]) is r and mat_cols(d.a[1]) is c:
        return d.a[1]
    if d.op in ('undef', 'panic'):
        return d
    return agg(MATRIX, r, c, d)


REBUILD.update({'rows': mat_rows, 'cols': mat_cols, 'data': mat_data})


def _len_data(x):
    if x.op == 'app' and x.a[0] == 'data':
        return mul(mat_rows(x.a[1]), mat_cols(x.a[1]))


LENRULES.append(_len_data)


def mat_fn(f, n, c, d):
    """matrix from an element function of (flat index)"""
    return matrix(n, c, arr_fn(mul(n, c), d))


def at(m, i, j):
    return sel(mat_data(m), add(mul(i, mat_cols(m)), j))


def upd(i, v, new):
    """v with field i replaced"""
    if v.op == 'mdd':
        return lift2(lambda x: upd(i, x, new), v)
    if v.op == 'agg':
        fs = list(v.a[1:])
        fs[i] = new
        return agg(v.a[0], *fs)
    if v.op in ('undef', 'panic', 'unk'):
        return v
    if v.op == 'app' and v.a[0] == 'upd' and v.a[1] is num(i):
        v = v.a[2]
    if new is mk('app', 'fld', num(i), v):
        return v
    return mk('app', 'upd', num(i), v, new)


REBUILD['upd'] = lambda i, v, n: upd(int(i.a[0]), v, n)


def fld(v, i, name=None):
    if v.op == 'app' and v.a[0] == 'upd':
        return v.a[3] if v.a[1] is num(i) else fld(v.a[2], i, name)
    if v.op == 'mdd':
        return lift2(lambda x: fld(x, i, name), v)
    if v.op == 'agg':
        if v.a[0] == MATRIX or i + 1 < len(v.a):
            return v.a[i + 1]
        return unk('field %s of %s' % (i, v.a[0]))
    if v.op in ('undef', 'panic', 'unk'):
        return v
    if v.op == 'clo':
        return v.a[1 + i]
    if v.op == 'arr' or v.op == 'mref':
        return unk('field of ' + v.op)
    return mk('app', 'fld', num(i), v)


def _fld_rebuild(i, v):
    return fld(v, int(i.a[0]))


REBUILD['fld'] = _fld_rebuild


def as_variant(v, idx):
    if v.op == 'mdd':
        return lift2(lambda x: as_variant(x, idx), v)
    if v.op == 'agg':
        return v if v.a[0][0] != 'adt' or v.a[0][2] == idx else UNDEF
    if v.op in ('undef', 'panic', 'unk'):
        return v
    return mk('app', 'as', num(idx), v)


REBUILD['as'] = lambda i, v: as_variant(v, int(i.a[0]))


def sub_slice(v, lo, n):
    if v.op == 'mdd':
        return lift2(lambda x: sub_slice(x, lo, n), v)
    if v.op in ('undef', 'panic', 'unk'):
        return v
    if lo is ZERO and length(v) is n:
        return v
    k = fresh('i', 'u')
    return arr(n, lam(k, sel(v, add(lo, k))))


def write_slice(v, lo, n, w):
    if v.op == 'mdd':
        return lift2(lambda x: write_slice(x, lo, n, w), v)
    if v.op in ('undef', 'panic', 'unk'):
        return v
    k = fresh('i', 'u')
    inside = b_and(cmpop('Ge', k, lo, False), cmpop('Lt', k, add(lo, n), False))
    return arr(length(v), lam(k, ite(inside, sel(w, sub(k, lo)), sel(v, k))))


def get1(v, e):
    if e[0] == 'f':
        return fld(v, e[1])
    if e[0] == 'v':
        return as_variant(v, e[1])
    if e[0] == 'i':
        return sel(v, e[1])
    if e[0] == 'sl':
        return sub_slice(v, e[1], e[2])
    if e[0] == 'md':
        return mat_data(v)
    raise Exception('path element %r' % (e,))


def put(v, path, new):
    if not path:
        return new
    e, rest = path[0], path[1:]
    if v.op == 'mdd':
        return lift2(lambda x: put(x, path, new), v)
    if v.op in ('panic', 'unk'):
        return v
    if e[0] == 'f':
        if v.op == 'agg':
            fs = list(v.a[1:])
            if e[1] >= len(fs):
                return unk('field store')
            fs[e[1]] = put(fs[e[1]], rest, new)
            return agg(v.a[0], *fs)
        if v.op == 'undef':
            return unk('field store into an uninitialised value')
        if v.op in ('app', 'sym', 'bv'):
            return upd(e[1], v, put(fld(v, e[1]), rest, new))
        return unk('field store into ' + show(v))
    if e[0] == 'v':
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][2] != e[1]:
            return UNDEF
        return put(v, rest, new)
    if e[0] == 'i':
        if v.op == 'undef':
            return v
        return store(v, e[1], put(sel(v, e[1]), rest, new) if rest else new)
    if e[0] == 'sl':
        if v.op == 'undef':
            return v
        if rest and rest[0][0] == 'i':
            return put(v, (('i', add(e[1], rest[0][1])),) + rest[1:], new)
        if rest and rest[0][0] == 'sl':
            return put(v, (('sl', add(e[1], rest[0][1]), rest[0][2]),) + rest[1:], new)
        return write_slice(v, e[1], e[2], put(sub_slice(v, e[1], e[2]), rest, new))
    if e[0] == 'md':
        if v.op == 'undef':
            return v
        return matrix(mat_rows(v), mat_cols(v), put(mat_data(v), rest, new))
    raise Exception('path element %r' % (e,))


def has_mref(v):
    if v.op == 'mref':
        return True
    if v.op == 'mdd':
        return any(has_mref(b) for b in v.a[1])
    return False


class State(dict):
    pass


def merge(items):
    """[(cond, state)] -> (cond, state); the conditions are mutually exclusive"""
    if len(items) == 1:
        return items[0]
    c = FALSE
    for ci, _ in items:
        c = b_or(c, cleanc(ci))
    out = {}
    keys = {}
    for _, s in items:
        for k in s:
            keys[k] = 1
    for k in keys:
        vs = [s.get(k, UNDEF) for _, s in items]
        v0 = None
        same = True
        for v in vs:
            if v is UNDEF:
                continue
            if v0 is None:
                v0 = v
            elif v is not v0:
                same = False
                break
        if v0 is None:
            continue
        if same:
            out[k] = v0
            continue
        r = UNDEF
        for (ci, _), v in reversed(list(zip(items, vs))):
            r = ite(ci, v, r)
        out[k] = r
    return c, out


def cleanc(c):
    """unreachable parts of a condition count as false"""
    if c.op == 'mdd':
        return lift_undef(c)
    if c is TRUE:
        return c
    return FALSE if c in (FALSE, UNDEF, PANIC) else c


_lu = {}


def lift_undef(c):
    if c.op != 'mdd':
        return FALSE if c is UNDEF or c is PANIC else c
    r = _lu.get(c)
    if r is None:
        br = [lift_undef(b) for b in c.a[1]]
        at_ = c.a[0]
        if at_.op == 'cmp' and not at_.a[1]:
            # outcomes that cannot happen stay undefined
            o = compare(at_.a[0], ZERO, False)
            if o.op == 'mdd' and o.a[0] is at_:
                br = [UNDEF if x is UNDEF else b for x, b in zip(o.a[1], br)]
            elif o.op == 'str':
                br = [b if k == o.a[0] else UNDEF for k, b in zip(domain(at_), br)]
        r = node(at_, br)
        _lu[c] = r
    return r


def restrict(v, c):
    if v.op == 'agg' and v.a[0] != MATRIX and False:
        return v
    return ite(c, v, UNDEF)


def drop_atoms(v, c):
    """v without the conditions that make no difference where c holds, whatever the order of conditions"""
    if v.op != 'mdd' or c.op != 'mdd':
        return v
    other = sym('elsewhere')
    done = False
    while not done:
        done = True
        if v.op != 'mdd':
            break
        atoms, st, seen = {}, [v], set()
        while st:
            x = st.pop()
            if x in seen or x.op != 'mdd':
                continue
            seen.add(x)
            atoms[x.a[0]] = 1
            st.extend(x.a[1])
        if len(atoms) < 2 or len(seen) > 40:
            break
        want = ite(c, v, other)
        for a in sorted(atoms, key=lambda a: (-len(show(a)), a.id)):
            for i in range(len(domain(a))):
                w = cofactor_(v, a, i)
                if w is not v and w is not UNDEF and ite(c, w, other) is want:
                    v = w
                    done = False
                    break
            if not done:
                break
    return v


def restrict_deep(v, c):
    if v.op == 'mdd':
        return restrict(v, c)
    if v.op == 'agg':
        return agg(v.a[0], *[restrict_deep(x, c) for x in v.a[1:]])
    if v.op == 'arr' and v.a[0].op == 'mdd':
        return restrict(lift(lambda n: arr(n, v.a[1]), v.a[0]), c)
    return v


# ---------------------------------------------------------------- control flow
def succs(bl):
    t = bl['tm']
    k = t['t']
    if k == 'switch':
        return [x[1] for x in t['c']] + [t['o']]
    if k in ('goto', 'drop', 'assert', 'call'):
        return [t['to']] if t['to'] is not None else []
    return []


class CFG(object):
    def __init__(self, body):
        bl = body['blocks']
        self.n = len(bl)
        self.succ = [succs(b) if not b['cl'] else [] for b in bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.num[x] > self.num[y]:
                                    x = idom[x]
                                while self.num[y] > self.num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.num[s] <= self.num[b]:
                    if self.dom(s, b):
                        body_ = self.loops.setdefault(s, set([s]))
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body_:
                                continue
                            body_.add(x)
                            st.extend(self.pred[x])
                    else:
                        self.irreducible = True
        self.live = liveness(body, self)

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def _places(x, use, defs):
    """walk operands of an rvalue / terminator collecting locals used"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('cp', 'mv'):
                use.add(v[0])
                for e in v[1:]:
                    if e[0] == 'i':
                        use.add(e[1])
            elif k == 'p' and isinstance(v, list) and v and isinstance(v[0], int) and 'r' in x:
                use.add(v[0])
                for e in v[1:]:
                    if e[0] == 'i':
                        use.add(e[1])
            elif isinstance(v, (dict, list)):
                _places(v, use, defs)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                _places(y, use, defs)


def liveness(body, cfg):
    """locals possibly read later, at entry of each block; address-taken locals count as always live"""
    taken = set()
    gen, kill = {}, {}
    for b in cfg.rpo:
        bl = body['blocks'][b]
        u, k = set(), set()

        def use(s):
            u.update(s - k)

        def define(p):
            if len(p) == 1:
                k.add(p[0])
            else:
                s = set([p[0]])
                for e in p[1:]:
                    if e[0] == 'i':
                        s.add(e[1])
                use(s)
        for st in bl['ss']:
            if st['s'] == '=':
                s = set()
                _places(st['v'], s, None)
                if st['v']['r'] in ('ref', 'rawptr'):
                    taken.add(st['v']['p'][0])
                use(s)
                define(st['p'])
        t = bl['tm']
        s = set()
        for f in ('d', 'f', 'a', 'c', 'len', 'index'):
            if f in t and not (t['t'] == 'call' and f == 'd') and not (t['t'] == 'switch' and f == 'c'):
                _places(t[f], s, None)
        use(s)
        if t['t'] == 'call':
            define(t['d'])
        if t['t'] == 'return':
            use(set([0]))
        gen[b], kill[b] = u, k
    live = {b: set() for b in cfg.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            o = set()
            for s in cfg.succ[b]:
                o |= live[s]
            n = gen[b] | (o - kill[b])
            if n != live[b]:
                live[b] = n
                ch = True
    for b in live:
        live[b] |= taken
    return live


# ---------------------------------------------------------------- evaluator
class Frame(object):
    __slots__ = ('id', 'b', 'cfg', 'promo')

    def __init__(self, i, b, cfg):
        self.id, self.b, self.cfg = i, b, cfg


class Ev(object):
    def __init__(self, F, budget=60.0, opaque=()):
        self.F = F
        self.panics = []
        self.nfr = 0
        self.stack = []
        self.t0 = time.time()
        self.budget = budget
        self.cfgs = {}
        self.rtype = {}
        self.opaque = set(opaque)
        self.assoc = {}
        self.hooks = {}       # trait method -> meaning it is given for this run
        self.visited = set()       # bodies expanded
        self.modelled = {}         # external callee -> count
        self.unmodelled = {}
        self.effects = []
        self.fntab = {}
        self.lenpres = set()
        self.loops = 0
        self.keepalive = []

    def tick(self):
        if time.time() - self.t0 > self.budget:
            raise Budget('analysis budget exceeded')

    # ---- memory
    def root_get(self, S, root):
        v = S.get(root)
        return UNDEF if v is None else v

    def load_mref(self, S, r):
        v = self.root_get(S, r.a[0])
        for e in r.a[1]:
            if has_mref(v) and e[0] != 'x':
                v = self.strip(S, v)
            v = get1(v, e)
        return v

    def strip(self, S, v):
        """follow mutable references to the current value"""
        n = 0
        while has_mref(v):
            v = lift2(lambda x: self.load_mref(S, x) if x.op == 'mref' else x, v)
            n += 1
            if n > 20:
                return unk('reference chain')
        return v

    def store_mref(self, S, r, new):
        """S is updated in place; r may be conditional"""
        if r.op == 'mref':
            root, path = r.a
            # a path may run through a stored mutable reference (a field holding &mut)
            v = self.root_get(S, root)
            for n, e in enumerate(path):
                if has_mref(v):
                    v2 = v
                    tgt = lift2(lambda x: mref(x.a[0], x.a[1] + path[n:]) if x.op == 'mref' else UNDEF, v2)
                    return self.store_mref(S, tgt, new)
                v = get1(v, e)
            if has_mref(v) and not has_mref(new):
                pass
            S[root] = put(self.root_get(S, root), path, new)
            return
        if r.op == 'mdd':
            leaves = {}
            def walk(t, seen):
                if t in seen:
                    return
                seen.add(t)
                if t.op == 'mdd':
                    for b in t.a[1]:
                        walk(b, seen)
                elif t.op == 'mref':
                    leaves[t] = 1
            walk(r, set())
            for lf in leaves:
                c = lift(lambda x: TRUE if x is lf else FALSE, r)
                c = cleanc(c)
                old = self.load_mref(S, lf)
                self.store_mref(S, lf, ite(c, new, old))
            return
        if r.op in ('undef', 'panic'):
            return
        self.note_unk('store through ' + show(r)[:60])
        for k in list(S):
            pass
        S[('G', 'clobber')] = unk('store through an unknown pointer')

    def note_unk(self, why):
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1

    # ---- places
    def lroot(self, fr, l):
        return ('L', fr.id, l)

    def place_ref(self, S, fr, p):
        """-> ('loc', root, path) or a value (when the place lies behind a snapshot)"""
        cur = ('loc', self.lroot(fr, p[0]), ())
        for e in p[1:]:
            cur = self.proj(S, fr, cur, e)
        return cur

    def loc_load(self, S, c):
        if c[0] == 'loc':
            return self.load_mref(S, mref(c[1], c[2]))
        return c[1]

    def proj(self, S, fr, c, e):
        if e[0] == 'd':
            v = self.loc_load(S, c)
            if v.op == 'mref':
                return ('loc', v.a[0], v.a[1])
            if has_mref(v):
                return ('cond', v)
            # Box / snapshot / raw pointer: the referent is the value itself
            if c[0] == 'loc':
                return c
            return ('val', v)
        if e[0] == 'f':
            x = ('f', e[1])
            if c[0] == 'loc':
                # Box internals and Unique/NonNull wrappers are the value itself
                if e[2] in ('pointer',) and self.is_wrapper(S, c):
                    return c
                # MaybeUninit and ManuallyDrop around memory that holds nothing yet
                if e[2] == 'value' and self.loc_load(S, c) is UNDEF:
                    return c
        elif e[0] == 'v':
            x = ('v', e[1])
        elif e[0] == 'i':
            x = ('i', self.strip(S, self.root_get(S, self.lroot(fr, e[1]))))
        elif e[0] == 'c':
            off = num(e[1])
            base = self.strip(S, self.val_of(S, c))
            x = ('i', sub(length(base), off) if e[3] else off)
        elif e[0] == 's':
            base = self.strip(S, self.val_of(S, c))
            hi = sub(length(base), num(e[2])) if e[3] else num(e[2])
            x = ('sl', num(e[1]), sub(hi, num(e[1])))
        else:
            return ('val', unk('projection'))
        if c[0] == 'loc':
            v = self.root_get(S, c[1])
            return ('loc', c[1], c[2] + (x,))
        if c[0] == 'cond':
            return ('cond', lift2(lambda r: mref(r.a[0], r.a[1] + (x,)) if r.op == 'mref' else get1(r, x), c[1]))
        return ('val', get1(c[1], x))

    def is_wrapper(self, S, c):
        v = self.loc_load(S, c)
        return v.op not in ('agg',) or v.a[0][0] != 'adt' or v.a[0][1].split('::')[-1] not in ('Unique', 'NonNull')

    def val_of(self, S, c):
        return self.loc_load(S, c) if c[0] == 'loc' else c[1]

    def read(self, S, fr, p):
        c = self.place_ref(S, fr, p)
        if c[0] == 'loc':
            return self.loc_load(S, c)
        if c[0] == 'cond':
            return self.strip(S, c[1])
        return c[1]

    def write(self, S, fr, p, v):
        c = self.place_ref(S, fr, p) if len(p) > 1 else ('loc', self.lroot(fr, p[0]), ())
        if c[0] == 'loc':
            if not c[2]:
                S[c[1]] = v
            else:
                self.store_mref(S, mref(c[1], c[2]), v)
        elif c[0] == 'cond':
            self.store_mref(S, c[1], v)
        else:
            self.note_unk('store into a snapshot')
            S[('G', 'clobber')] = unk('store behind a shared reference')

    # ---- operands
    def operand(self, S, fr, o):
        if 'cp' in o:
            return self.read(S, fr, o['cp'])
        if 'mv' in o:
            return self.read(S, fr, o['mv'])
        return self.const(S, fr, o)

    def const(self, S, fr, o):
        c = o.get('c')
        if c is None:
            return unk('operand')
        k = c['k']
        if k == 's':
            t = self.F.ty(o['ty'])
            v = c['v']
            if isinstance(v, dict):
                return fconst(int(v['b']), 32 if t['s'] == 'f32' else 64)
            if t['s'] == 'bool':
                return TRUE if str(v) in ('1', 'true') else FALSE
            try:
                x = int(v)
                w = re.match(r'i(\d+|size)$', t['s'])
                if w:
                    n = 64 if w.group(1) == 'size' else int(w.group(1))
                    if x >= 1 << (n - 1):
                        x -= 1 << n
                return num(x)
            except ValueError:
                return mk('str', str(v))
        if k == 'str':
            return mk('str', c['v'])
        if k == 'fn':
            key = (c['res'] or c['p'], tuple(c['ra'] or c['a']))
            self.fntab[key] = c
            return mk('fnptr', key)
        if k == 'promoted':
            pb = fr.b['promoted'][c['i']]
            key = (fr.b['id'], c['i'])
            q = dict(pb)
            q['id'] = '%s::promoted[%d]' % key
            q['nargs'] = 0
            r, _ = self.run(q, [], {}, root_body=fr.b)
            return r
        if k == 'z':
            t = self.F.ty(o['ty'])
            if t['k'] == 'closure':
                return mk('clo', t['p'])
            if t['k'] == 'adt':
                return agg(('adt', t['p'], 0, t['p'].split('::')[-1]))
            return UNIT
        if c.get('n'):
            return sym('const ' + str(c['n']))
        return unk('constant ' + str(c.get('s')))

    # ---- rvalues
    def rvalue(self, S, fr, r, dest_t):
        k = r['r']
        if k == 'use':
            return self.operand(S, fr, r['o'])
        if k in ('ref', 'rawptr'):
            if r['m']:
                c = self.place_ref(S, fr, r['p'])
                if c[0] == 'loc':
                    return mref(c[1], c[2])
                return c[1]
            v = self.read(S, fr, r['p'])
            return self.deep_snapshot(S, v)
        if k == 'cast':
            kind = r['k']
            if kind == 'BoxDerefTransmute' and 'cp' in r['o'] and len(r['o']['cp']) == 2:
                return mref(self.lroot(fr, r['o']['cp'][0]), ())
            v = self.operand(S, fr, r['o'])
            if kind == 'FloatToInt':
                return fn_trunc(v)
            if kind in ('IntToInt', 'IntToFloat', 'FloatToFloat') and (v in (TRUE, FALSE) or self.is_boolish(v)):
                return lift(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, v)
            return v
        if k == 'bin':
            a = self.strip(S, self.operand(S, fr, r['a']))
            b = self.strip(S, self.operand(S, fr, r['b']))
            return self.binop(r['op'], a, b, self.op_type(fr, r['a']))
        if k == 'un':
            a = self.operand(S, fr, r['a'])
            if r['op'] == 'PtrMetadata':
                return length(self.strip(S, a))
            a = self.strip(S, a)
            if r['op'] == 'Neg':
                return neg(a)
            if r['op'] == 'Not':
                if self.op_type(fr, r['a']) == 'bool':
                    return b_not(a)
                return app('bitnot', a)
            return unk('unary ' + r['op'])
        if k == 'discr':
            t, v = self.place_ty_val(S, fr, r['p'])
            return self.discr(v, t)
        if k == 'agg':
            os = [self.operand(S, fr, o) for o in r['os']]
            if r['k'] == 'tuple':
                return tup(*os)
            if r['k'] == 'array':
                return array(os)
            if r['k'] == 'closure':
                return mk('clo', r['p'], *os)
            if r['k'] == 'adt':
                nm = r['p']
                if nm.split('::')[-1] in ('Unique', 'NonNull') and len(os) >= 1:
                    return os[0]
                if nm.split('::')[-1] == 'Box' and os:
                    return os[0]
                return agg(('adt', nm, r['v'], r['vn']), *os)
            return os[0] if os else UNIT
        if k == 'repeat':
            v = self.operand(S, fr, r['o'])
            return arr(num(int(r['n'])), lam(fresh('i', 'u'), v)) if str(r['n']).isdigit() else unk('repeat')
        return unk('rvalue ' + k)

    def deep_snapshot(self, S, v):
        return v if not has_mref(v) else v

    def is_boolish(self, v):
        if v.op != 'mdd':
            return v in (TRUE, FALSE)
        return all(b is UNDEF or self.is_boolish(b) for b in v.a[1])

    def op_type(self, fr, o):
        if 'ty' in o:
            return self.F.tys(o['ty'])
        p = o.get('cp') or o.get('mv')
        if len(p) == 1:
            return self.F.tys(fr.b['locals'][p[0]]['t'])
        # type of the last field projection
        for e in reversed(p[1:]):
            if e[0] == 'f':
                return self.F.tys(e[3])
            if e[0] in ('i', 'c'):
                t = self.F.ty(fr.b['locals'][p[0]]['t'])
                s = t['s']
                m = re.search(r'\b(f64|f32|usize|i32|u8|i64|u64|u32|bool)\b', s)
                return m.group(1) if m else s
            if e[0] == 'd':
                t = self.F.ty(fr.b['locals'][p[0]]['t'])
                if len(p) == 2 and 't' in t:
                    return self.F.tys(t['t'])
                s = t['s']
                m = re.search(r'\b(f64|f32|usize|i32|u8|i64|u64|u32|bool)\b', s)
                return m.group(1) if m else s
        return '?'

    def binop(self, op, a, b, ty):
        flt = ty in ('f64', 'f32')
        if op in ('Add', 'AddWithOverflow', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'Div':
            return div(a, b) if flt else idiv(a, b)
        if op == 'Rem':
            return app('fmod', a, b) if flt else imod(a, b)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if ty == 'bool':
                e = ite(a if a.op in ('mdd', 'const') else boolatom(a), b, b_not(b))
                return e if op == 'Eq' else b_not(e)
            return cmpop(op, a, b, flt)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ty == 'bool':
                a, b = boolatom(a), boolatom(b)
                return b_and(a, b) if op == 'BitAnd' else b_or(a, b) if op == 'BitOr' else ite(a, b_not(b), b)
            x, y = sorted((a, b), key=lambda t: t.id)
            return app('bit' + op, x, y)
        if op in ('Shl', 'Shr'):
            if b.op == 'num':
                return mul(a, num(2 ** int(b.a[0]))) if op == 'Shl' else idiv(a, num(2 ** int(b.a[0])))
            return app(op, a, b)
        if op == 'Offset':
            return app('ptroff', a, b)
        return unk('operator ' + op)

    def place_ty_val(self, S, fr, p):
        c = self.place_ref(S, fr, p)
        v = self.strip(S, self.val_of(S, c))
        t = self.F.ty(fr.b['locals'][p[0]]['t'])
        for e in p[1:]:
            if e[0] == 'd':
                t = self.F.ty(t['t']) if 't' in t and t['k'] in ('ref', 'ptr') else t
            elif e[0] == 'f':
                t = self.F.ty(e[3])
            elif e[0] in ('i', 'c'):
                t = self.F.ty(t['t']) if 't' in t else t
        return t, v

    def variants(self, t):
        p = t.get('p')
        last = (p or '').split('::')[-1]
        if p in self.F.adts:
            return [x['n'] for x in self.F.adts[p]['v']]
        return {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Ordering': ['Less', 'Equal', 'Greater'],
                'ControlFlow': ['Continue', 'Break'], 'Entry': ['Vacant', 'Occupied'], 'Cow': ['Borrowed', 'Owned']}.get(last)

    def discr(self, v, t):
        n = self.variants(t)
        if n is None:
            return unk('discriminant of ' + t['s'])
        d = disc(v, tuple(range(len(n))))
        if (t.get('p') or '').endswith('cmp::Ordering'):
            d = lift(lambda x: num(x.a[0] - 1) if x.op == 'num' else x, d)
        return d

    # ---- running bodies
    def cfg(self, b):
        c = self.cfgs.get(b['id'])
        if c is None:
            c = CFG(b)
            self.cfgs[b['id']] = c
        return c

    def run(self, b, args, S, root_body=None):
        """evaluate body b with argument values in state S -> (return value, state)"""
        self.tick()
        cfg = self.cfg(b)
        self.nfr += 1
        fr = Frame(self.nfr, b, cfg)
        if root_body is None:
            self.visited.add(b['id'])
        S = dict(S)
        for i, a in enumerate(args):
            S[('L', fr.id, i + 1)] = a
        for i, l in enumerate(b['locals']):
            self.rtype[('L', fr.id, i)] = l['t']
        self.stack.append(b['id'])
        try:
            if cfg.irreducible:
                return unk('irreducible control flow'), S
            outs = self.region(fr, set(cfg.rpo), 0, [(TRUE, S)], None)
        finally:
            self.stack.pop()
        rets = outs.get('ret', [])
        if not rets:
            return UNDEF, None
        c, S2 = merge(rets)
        r = S2.get(('L', fr.id, 0), UNIT)
        for k in [k for k in S2 if k[0] == 'L' and k[1] == fr.id]:
            del S2[k]
        self.last_cond = c
        return r, S2

    def region(self, fr, blocks, entry, inc, loop):
        cfg = fr.cfg
        pend = {entry: list(inc)}
        out = {}
        done_loops = set()
        skip = set()

        def edge(dst, c, S):
            if c is FALSE or c is UNDEF:
                return
            if dst in blocks and not (loop is not None and dst == loop):
                live = cfg.live[dst]
                S = {k: v for k, v in S.items() if not (k[0] == 'L' and k[1] == fr.id and k[2] not in live)}
                pend.setdefault(dst, []).append((c, S))
            else:
                out.setdefault(dst, []).append((c, S))
        for b in cfg.rpo:
            if b not in blocks or b in skip or b not in pend:
                continue
            self.tick()
            c, S = merge(pend.pop(b))
            if b in cfg.loops and b != loop:
                lb = cfg.loops[b]
                skip |= lb
                for dst, cc, SS in self.solve_region(fr, lb, b, S, c):
                    edge(dst, b_and(c, cc), SS)
                continue
            S = dict(S)
            self.block(fr, b, c, S, edge, out, loop)
        return out

    def block(self, fr, b, c, S, edge, out, loop):
        bl = fr.b['blocks'][b]
        for st in bl['ss']:
            if st['s'] == '=':
                v = self.rvalue(S, fr, st['v'], None)
                self.write(S, fr, st['p'], v)
            elif st['s'] == 'setdisc':
                S[('G', 'clobber')] = unk('set discriminant')
        t = bl['tm']
        k = t['t']
        if k in ('goto', 'drop'):
            edge(t['to'], c, S)
        elif k == 'assert':
            edge(t['to'], c, S)
        elif k == 'return':
            out.setdefault('ret', []).append((c, S))
        elif k == 'switch':
            d = self.strip(S, self.operand(S, fr, t['d']))
            rest = TRUE
            ty = self.op_type(fr, t['d'])
            for v, dst in t['c']:
                v = int(v)
                if v > 2 ** 63 or (v == 255 and ty == 'i8'):
                    v = -1
                if ty == 'bool' or d in (TRUE, FALSE) or self.is_boolish(d):
                    e = b_not(d) if v == 0 else boolatom(d)
                else:
                    e = cmpop('Eq', d, num(v), False)
                edge(dst, b_and(c, b_and(rest, e)), dict(S))
                rest = b_and(rest, b_not(e))
            if self.SKIP_leaf(d):
                e = cmpop('Eq', d, num(2), False)
                if loop is not None and ty in ('isize', 'i64'):
                    out.setdefault(loop, []).append((b_and(c, e), dict(S)))
                rest = b_and(rest, b_not(e))
            edge(t['o'], b_and(c, rest), S)
        elif k == 'call':
            self.call(fr, b, c, S, t, edge)
        elif k == 'unreachable':
            pass
        else:
            pass

    def SKIP_leaf(self, d):
        if d.op == 'num':
            return d.a[0] == 2 and False
        if d.op == 'mdd':
            return any(x.op == 'num' and x.a[0] == 2 for x in leaves(d)) and getattr(self, 'has_skip', False)
        return False

    def panic(self, c, kind, site):
        c = cleanc(c)
        if c is not FALSE:
            self.panics.append((c, kind, site))

    def site(self, fr, sp):
        return '%s:%s' % (fr.b['id'], sp[1] if sp else '?')

    def call(self, fr, b, c, S, t, edge):
        f = t['f']
        args = [self.operand(S, fr, a) for a in t['a']]
        site = (fr.b['id'], t.get('sp', [None, None])[1])
        if 'c' in f and f['c']['k'] == 'fn':
            fc = f['c']
            r = self.call_fn(S, c, fc, args, site, self.F.tys(fr.b['locals'][t['d'][0]]['t']) if len(t['d']) == 1 else '')
        else:
            r = self.call_value(S, c, self.operand(S, fr, f), args, site)
        if t['to'] is None:
            return
        if r is DIVERGE:
            return
        self.write(S, fr, t['d'], r)
        edge(t['to'], c, S)

    def call_body(self, S, c, b, args, site):
        """inline a crate function; S updated in place"""
        if len(self.stack) > 40 or self.stack.count(b['id']) > 0:
            self.note_unk('recursion ' + b['id'])
            if any(has_mref(a) for a in args):
                for a in args:
                    if has_mref(a):
                        self.havoc(S, a, 'recursion')
            return app('rec:' + b['id'], *[self.strip(S, a) for a in args]) if not any(has_mref(a) for a in args) else unk('recursion')
        saved = self.panics
        self.panics = []
        r, S2 = self.run(b, args, S)
        new = self.panics
        self.panics = saved
        for pc, kind, s in new:
            self.panic(b_and(c, pc), kind, s)
        if S2 is None:
            return DIVERGE
        S.clear()
        S.update(S2)
        return r

    def havoc(self, S, r, why):
        for lf in leaves(r):
            if lf.op == 'mref':
                self.store_mref(S, lf, unk(why))

    def call_value(self, S, c, f, args, site):
        """call a closure or function value with already spread arguments"""
        f = self.strip(S, f) if not (f.op == 'mref') else f
        if f.op == 'mref':
            fv = self.strip(S, f)
        else:
            fv = f
        if fv.op == 'clo':
            b = self.F.bodies.get(fv.a[0])
            if b is None or 'blocks' not in b:
                return unk('closure without body')
            return self.call_body(S, c, b, [f] + list(args), site)
        if fv.op == 'fnptr':
            return self.call_fn(S, c, self.fntab[fv.a[0]], list(args), site, '')
        if fv.op == 'mdd':
            lv = [x for x in leaves(fv) if x is not UNDEF]
            if len(lv) == 1:
                return self.call_value(S, c, lv[0], args, site)
            res = []
            for x in lv:
                cc = cleanc(lift(lambda y: TRUE if y is x else FALSE, fv))
                S1 = dict(S)
                r = self.call_value(S1, b_and(c, cc), x, args, site)
                if r is DIVERGE:
                    continue
                S1[('G', 'ret')] = r
                res.append((cc, S1))
            if not res:
                return DIVERGE
            _, Sm = merge(res)
            r = Sm.pop(('G', 'ret'))
            S.clear()
            S.update(Sm)
            return r
        if fv.op in ('undef', 'panic'):
            return fv
        if fv.op == 'unk':
            for a in args:
                self.havoc(S, a, 'unknown callee')
            return unk('call of an unknown value')
        for a in args:
            if has_mref(a):
                self.havoc(S, a, 'unknown callee')
        return app('call', fv, *[self.strip(S, a) for a in args])

    def call_fn(self, S, c, fc, args, site, dty):
        p = fc['res'] or fc['p']
        tr = fc['trait']
        b = self.F.bodies.get(p)
        if tr and self.hooks and tr.split('::')[-1] + '::' + fc['name'] + '!' in self.hooks:      # given a meaning whoever implements it
            return self.hooks[tr.split('::')[-1] + '::' + fc['name'] + '!'](self, S, args, [self.strip(S, a) for a in args])
        if tr and self.hooks and p == fc['p'] and tr.split('::')[-1] + '::' + fc['name'] in self.hooks and self.dispatch(S, fc, tr, args) is None:
            return self.hooks[tr.split('::')[-1] + '::' + fc['name']](self, S, args, [self.strip(S, a) for a in args])
        if b is not None and 'blocks' in b and p not in self.opaque and not self.override(fc):
            if b['kind'] == 'closure':
                return self.call_value(S, c, args[0], self.spread(S, args[1]), site)
            return self.call_body(S, c, b, args, site)
        key = ckey(fc)
        d = self.dispatch(S, fc, tr, args)
        if d is not None:
            return self.call_body(S, c, d, args, site)
        if tr and tr.split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and len(args) == 2:
            return self.call_value(S, c, args[0], self.spread(S, args[1]), site)
        if fc.get('ctor') is not None and fc.get('ctor') is not False:
            x = fc['ctor']
            return self.ctor(fc, args)
        from . import models
        m = models.TABLE.get(key)
        if m is None and tr:
            m = models.TABLE.get(tr.split('::')[-1] + '::' + fc['name'])
        if m is not None:
            self.modelled[key] = self.modelled.get(key, 0) + 1
            r = m(models.Call(self, S, c, fc, key, site, dty), *args)
            if r is not None:
                return r
        if b is not None and 'blocks' not in b or (tr and not tr.startswith(('std::', 'core::', 'alloc::')) and b is None and fc['krate'] in ('rusty_machine', None)) or p in self.opaque or (fc['krate'] == 'rusty_machine'):
            # a method of one of the crate's traits, on a type parameter or trait object
            nm = (tr.split('::')[-1] + '::' + fc['name']) if tr else p
            sargs = [self.strip(S, a) for a in args]
            if nm in self.hooks:
                return self.hooks[nm](self, S, args, sargs)
            if any(has_mref(a) for a in args):
                for i, a in enumerate(args):
                    if has_mref(a):
                        self.store_mref(S, a, app('after%d:%s' % (i, nm), *sargs))
            selft = ''
            if not sargs or (tr and fc.get('self') is not None and not self.takes_self(fc)):
                selft = '<' + self.F.tys(fc['a'][0]) + '>' if fc['a'] else ''
            return app('m:' + nm + selft, *sargs)
        self.note_unk(key)
        for a in args:
            if has_mref(a):
                self.havoc(S, a, 'unmodelled ' + key)
        return unk('unmodelled ' + key)

    def dispatch(self, S, fc, tr, args):
        """a trait method called on a type parameter: the body, where the receiver's type is known
        from its value, or was fixed for this run (assoc)"""
        if not tr or tr.startswith(('std::', 'core::', 'alloc::')) or tr.split('::')[0] in ('rulinalg', 'rand', 'num'):
            return None
        b = self.F.bodies.get(fc['p'])
        last = tr.split('::')[-1]
        path = None
        has_self = self.F.impl_takes_self(last, fc['name'])
        if has_self and args:
            v = self.strip(S, args[0])
            if v.op == 'agg' and v.a[0][0] == 'adt':
                path = v.a[0][1]
        elif last in self.assoc:
            path = self.assoc[last]
        if path is None:
            return None
        bs = self.F.method(path, fc['name'], last)
        if len(bs) == 1 and 'blocks' in bs[0] and bs[0]['id'] not in self.opaque and tr + '::' + fc['name'] not in self.opaque:
            return bs[0]
        if not bs and b is not None and 'blocks' in b and fc['p'] not in self.opaque:
            if any(im['trait'] == tr and self.F.adt_path(im['self']) == path for im in self.F.impls):
                return b
        return None

    def takes_self(self, fc):
        b = self.F.bodies.get(fc['p'])
        if b is None:
            return True
        return bool(b.get('hasself', True)) and b.get('hasself', None) is not False

    def override(self, fc):
        return False

    def ctor(self, fc, args):
        p = fc['p']
        segs = split_path(p)
        # enum variant constructor or tuple struct constructor used as a function
        par = '::'.join(re.sub(r'<.*>$', '', s) for s in segs[:-1] if s)
        nm = segs[-1]
        known = {'Some': ('std::option::Option', 1), 'None': ('std::option::Option', 0), 'Ok': ('std::result::Result', 0), 'Err': ('std::result::Result', 1)}
        if nm in known:
            return agg(('adt', known[nm][0], known[nm][1], nm), *args)
        par = par.rstrip(':')
        if par in self.F.adts:
            vs = self.variants({'p': par})
            if nm in vs:
                return agg(('adt', par, vs.index(nm), nm), *args)
        if p in self.F.adts:
            return agg(('adt', p, 0, nm), *args)
        return unk('constructor ' + p)

    def spread(self, S, t):
        if t.op == 'agg' and t.a[0][0] == 'tuple':
            return list(t.a[1:])
        if t.op == 'mdd':
            n = [len(x.a) - 1 for x in leaves(t) if x.op == 'agg']
            if n:
                return [fld(t, i) for i in range(n[0])]
        return [fld(t, 0)]

    # ---- loops
    def solve_region(self, fr, lb, h, S0, c0):
        def step(S):
            outs = self.region(fr, lb, h, [(TRUE, S)], h)
            back = outs.pop(h, [])
            ex = []
            for dst, l in outs.items():
                cc, SS = merge(l)
                ex.append((dst, cc, SS))
            return ex, back
        return self.solve(S0, step, c0, '%s' % fr.b['id'])

    def vecish(self, loc, v):
        return v.op == 'sym' and v.a[1] == 'v' or v.op == 'app' and v.a[0] in ('data', 'store', 'sel', 'fold', 'foldn', 'fld') and not nonneg(v) and self.leafty(*loc).startswith(VECTY)

    def leafty(self, root, path):
        t = self.rtype.get(root)
        if t is None:
            return 'Vec' if path and path[-1] in (('f', 2), ('md',)) else ''
        if path:
            return 'Vec' if path[-1] == ('md',) else ''
        return self.F.tys(t).replace('std::vec::', '').replace('rulinalg::vector::', '').replace('&', '').replace('mut ', '').strip()

    def leafsort(self, root, path):
        if root[0] == 'T' and root[-1] != 'it':
            return {'pos': 'u'}.get(root[-1], 'o')
        t = self.rtype.get(root)
        if t is None:
            return 'o'
        t = self.F.ty(t)
        for e in path:
            while t['k'] in ('ref', 'ptr'):
                t = self.F.ty(t['t'])
            if e[0] == 'f':
                if t['k'] == 'adt' and t['p'] in self.F.adts:
                    vs = self.F.adts[t['p']]['v']
                    try:
                        t = self.F.ty(vs[0]['f'][e[1]]['t'])
                        continue
                    except Exception:
                        return 'o'
                if t['k'] == 'tuple':
                    try:
                        t = self.F.ty(t['a'][e[1]])
                        continue
                    except Exception:
                        return 'o'
                if e[1] == 1 and t['k'] == 'adt':
                    return 'u'        # position of an iterator
                return 'o'
            else:
                return 'o'
        while t['k'] in ('ref', 'ptr'):
            t = self.F.ty(t['t'])
        s = t['s']
        if s in ('usize', 'u8', 'u16', 'u32', 'u64'):
            return 'u'
        if s in ('f64', 'f32'):
            return 'f'
        return 'o'

    def solve(self, S0, step, c0, where):
        """S0: state on entry; step(S) -> (exits [(tag, cond, state)], backs [(cond, state)]).
        -> exits [(tag, cond, state)] after the loop"""
        self.loops += 1
        c0 = cleanc(c0)
        if c0.op == 'mdd':
            S0 = {r: restrict_deep(v, c0) for r, v in S0.items()}
        M = {}
        nolen = set()
        rounds = 0
        while True:
            rounds += 1
            self.tick()
            S = dict(S0)
            for (root, path), mu in M.items():
                S[root] = put(S[root], path, mu)
            Sin = dict(S)
            saved = self.panics
            self.panics = []
            exits, back = step(dict(S))
            pans = self.panics
            self.panics = saved
            back = [(cleanc(cb), sb) for cb, sb in back]
            back = [x for x in back if x[0] is not FALSE]
            if not back:
                for pc, kind, s in pans:
                    self.panic(b_and(c0, pc), kind, s)
                if M:
                    pass
                else:
                    return exits
            if back:
                c, Sb = merge(back)
            else:
                c, Sb = FALSE, Sin
            bad = False
            for loc, mu in M.items():
                if mu in MU_LEN:
                    n = Sb.get(loc[0], UNDEF)
                    for e in loc[1]:
                        n = get1(n, e)
                    n = restrict(n, c)
                    ln = [x for x in leaves(length(n)) if x is not UNDEF] if n is not UNDEF else []
                    if any(x is not MU_LEN[mu] for x in ln):
                        ok_ = c.op == 'mdd' and equal(restrict(length(n), c), restrict(MU_LEN[mu], c)) is None
                        if not ok_:
                            nolen.add(loc)
                            bad = True
            if bad:
                for loc in list(M):
                    if loc in nolen and M[loc] in MU_LEN:
                        M[loc] = fresh('μ', self.leafsort(*loc))
                continue
            new = []
            for root in S0:
                a, n = Sin[root], Sb.get(root, UNDEF)
                if a is n or n is UNDEF:
                    continue
                self.diff_leaves(root, (), a, n, c, new)
            new = [x for x in new if x not in M]
            if not new:
                break
            if rounds > 14:
                raise Budget('loop in %s does not stabilise' % where)
            again = False
            for root, path in new:
                v = S0[root]
                for e in path:
                    v = get1(v, e)
                n = Sb.get(root, UNDEF)
                for e in path:
                    n = get1(n, e)
                ls = [x for x in leaves(restrict(n, c)) if x is not UNDEF]
                here = Sin[root]
                for e in path:
                    here = get1(here, e)
                ls = [x for x in ls if x is not here] if any(x is not here for x in ls) else ls
                if v.op in ('sym', 'app') and ls and all(x.op == 'agg' and x.a[0] == MATRIX for x in ls):
                    S0 = dict(S0)
                    S0[root] = put(S0[root], path, agg(MATRIX, mat_rows(v), mat_cols(v), mat_data(v)))
                    again = True
            if again:
                M = {}
                continue
            for loc in new:
                for o in list(M):
                    if o[0] == loc[0] and o[1][:len(loc[1])] == loc[1]:
                        del M[o]
                M[loc] = fresh('μ', self.leafsort(*loc))
                v = S0[loc[0]]
                for e in loc[1]:
                    v = get1(v, e)
                if v.op in ('arr', 'sym', 'app') and loc not in nolen and (v.op == 'arr' or v in MU_LEN or self.vecish(loc, v)):
                    MU_LEN[M[loc]] = length(v)
        # transition functions
        k = fresh('k', 'u')
        init, nxt = {}, {}
        for loc, mu in M.items():
            v = S0[loc[0]]
            for e in loc[1]:
                v = get1(v, e)
            n = Sb.get(loc[0], UNDEF)
            for e in loc[1]:
                n = get1(n, e)
            init[mu] = v
            nxt[mu] = restrict(n, c)
        eqs = forced_equalities(c0)
        if eqs:
            c = subst_atoms(c, eqs)
            for m in nxt:
                init[m] = subst_atoms(init[m], eqs)
                nxt[m] = subst_atoms(nxt[m], eqs)
            exits = [(tag, subst_atoms(cc, eqs), {r: subst_atoms(v, eqs) if r[0] == 'L' else v for r, v in SS.items()}) for tag, cc, SS in exits]
        sol = self.recurrences(init, nxt, c, k, where)
        # exits
        def sb(t):
            return subst(t, sol) if sol else t
        B = cleanc(sb(c))
        ex = []
        for tag, cc, SS in exits:
            ex.append((tag, cleanc(sb(cc)), SS))
        for x in [B] + [e[1] for e in ex]:
            if any(s.op == 'unk' for s in subterms(x)):
                raise Budget('the condition of a loop in %s is not understood' % where)
        N = self.trip_bound(B, k)
        out = []
        stop_early = FALSE
        if N is not None:
            inr = cmpop('Lt', k, N, False)
            early = []
            for tag, cc, SS in ex:
                e = b_and(cc, inr)
                if not self.feasible(e):
                    continue
                early.append((tag, cc, SS))
                stop_early = b_or(stop_early, e)
            trip = N if nonneg(N) else ite(cmpop('Gt', N, ZERO, False), N, ZERO)
        else:
            early = ex
            for tag, cc, SS in ex:
                stop_early = b_or(stop_early, cc)
            trip = mk('app', 'inf')
        stop_early = cleanc(stop_early)

        def at_k(SS, kk):
            m = dict((mu, subst(v, {k: kk}) if k in free(v) else v) for mu, v in sol.items())
            mm = dict(m)
            mm[k] = kk
            r = {}
            for root, v in SS.items():
                r[root] = tidy(subst(v, mm))
            return r
        if stop_early is FALSE:
            last = trip
            if N is not None:
                for tag, cc, SS in ex:
                    cN = cleanc(subst(cc, {k: trip}))
                    if cN is FALSE:
                        continue
                    out.append((tag, cN, at_k(SS, trip)))
        else:
            anyc = any_(trip, lam(k, stop_early)) if N is not None else TRUE
            if N is None and not self.terminates(stop_early, k):
                anyc = TRUE
            K = first_(trip, lam(k, stop_early))
            last = ite(anyc, add(K, ONE), trip) if N is not None else add(K, ONE)
            for tag, cc, SS in early:
                cK = cleanc(self.first_cond(cc, stop_early, k, K))
                cK = b_and(anyc, cK)
                if cK is FALSE:
                    continue
                out.append((tag, cK, at_k(SS, K)))
            if N is not None:
                nanyc = b_not(anyc)
                if nanyc is not FALSE:
                    for tag, cc, SS in ex:
                        cN = cleanc(subst(cc, {k: trip}))
                        if cN is FALSE or not self.main_exit(cc, k, N):
                            continue
                        out.append((tag, b_and(nanyc, cN), at_k(SS, trip)))
        for pc, kind, s in pans:
            P = cleanc(sb(pc))
            if P is FALSE:
                continue
            if N is not None:
                # a panicking iteration has begun, so k < N unless the condition itself is evaluated at exit
                self.panic(b_and(c0, any_(last if k in free(P) else last, lam(k, P))), kind, s)
            else:
                self.panic(b_and(c0, boolatom(mk('app', 'any', last, lam(k, P)))), kind, s)
        # merge exits with the same tag
        res = {}
        for tag, cc, SS in out:
            res.setdefault(tag, []).append((cc, SS))
        fin = []
        for tag, l in res.items():
            cc, SS = merge(l)
            fin.append((tag, cc, SS))
        return fin

    def terminates(self, stop, k):
        return False

    def first_cond(self, cc, stop, k, K):
        """an exit's condition at the first stopping iteration; the common part is dropped"""
        x = restrict(cc, stop)
        return subst(x, {k: K})

    def main_exit(self, cc, k, N):
        return self.feasible(b_and(cc, cmpop('Ge', k, N, False)))

    def feasible(self, c):
        """is there a branch of the condition without contradictory comparisons"""
        seen = [0]

        def go(t, env):
            seen[0] += 1
            if seen[0] > 4000:
                return True
            if t is TRUE:
                return env.consistent()
            if t.op != 'mdd':
                return t.op not in ('const', 'undef')
            for o, b in zip(domain(t.a[0]), t.a[1]):
                if b is FALSE or b is UNDEF:
                    continue
                e = env.copy()
                if e.assume(t.a[0], o) and go(b, e):
                    return True
            return False
        return go(c, Env())

    def trip_bound(self, B, k):
        """n with: staying in the loop implies k < n (n free of k)"""
        a = invariant_atom(B, k, frozenset())
        if a is not None:
            rs = [ZERO if cofactor(B, a, i) in (FALSE, UNDEF) else self.trip_bound(cofactor(B, a, i), k) for i in range(len(domain(a)))]
            return None if any(r is None for r in rs) else rebuild(a, rs)
        atoms = set()
        st = [B]
        seen = set()
        while st:
            x = st.pop()
            if x in seen or x.op != 'mdd':
                continue
            seen.add(x)
            atoms.add(x.a[0])
            st.extend(x.a[1])
        cands = []
        for at_ in sorted(atoms, key=lambda t: t.id):
            if at_.op != 'cmp' or k not in free(at_):
                continue
            p = at_.a[0]
            n1 = subst(p, {k: ZERO})
            co = sub(subst(p, {k: ONE}), n1)
            if k in free(n1) or k in free(co):
                continue
            if not (add(mul(co, k), n1) is p):
                continue
            if co.op != 'num' or co is ZERO:
                if not nonneg(co):
                    continue
                N = idiv_ceil(neg(n1), co)
            else:
                N = div(neg(n1), co)
                if co.a[0] not in (1, -1):
                    N = idiv_ceil(neg(n1), co) if co.a[0] > 0 else idiv_ceil(n1, neg(co))
            if not self.feasible(b_and(B, cmpop('Ge', k, N, False))):
                cands.append(N)
            elif not self.feasible(b_and(B, cmpop('Eq', k, N, False))):
                cands.append(N)
        if not cands:
            return None
        N = cands[0]
        for x in cands[1:]:
            N = ite(cmpop('Lt', x, N, False), x, N)
        return N

    def diff_leaves(self, root, path, cur, nx, c, out):
        if cur is nx:
            return
        nx = restrict(nx, c)
        if nx is cur or nx is UNDEF:
            return
        if cur.op == 'agg' and cur.a[0] != MATRIX or (cur.op == 'agg' and cur.a[0] == MATRIX):
            ls = [x for x in leaves(nx) if x is not UNDEF]
            if ls and all(x.op == 'agg' and x.a[0] == cur.a[0] and len(x.a) == len(cur.a) for x in ls):
                for i in range(len(cur.a) - 1):
                    self.diff_leaves(root, path + (('f', i),), cur.a[i + 1], fld(nx, i), c, out)
                return
            if cur.a[0] == MATRIX:
                r_, c_, d_ = mat_rows(nx), mat_cols(nx), mat_data(nx)
                if d_.op != 'unk':
                    self.diff_leaves(root, path + (('f', 0),), cur.a[1], r_, c, out)
                    self.diff_leaves(root, path + (('f', 1),), cur.a[2], c_, c, out)
                    self.diff_leaves(root, path + (('f', 2),), cur.a[3], d_, c, out)
                    return
        out.append((root, path))

    # ---- recurrences
    def recurrences(self, init, nxt, c, k, where):
        sol = {}
        pending = sorted(nxt, key=lambda m: m.id)
        mus = frozenset(pending)

        def cur(mu):
            t = nxt[mu]
            if sol:
                t = subst(t, sol)
                cc = subst(c, sol)
                t = restrict(t, cleanc(cc))
            return t
        while pending:
            self.tick()
            prog = False
            for mu in list(pending):
                nx = cur(mu)
                r = self.one(mu, init[mu], nx, k, mus - set(sol))
                if r is not None:
                    sol[mu] = r
                    pending.remove(mu)
                    prog = True
            if prog:
                continue
            # minimal mutually dependent group -> fold
            cu = {mu: cur(mu) for mu in pending}
            un = set(pending)
            deps = {mu: (free(cu[mu]) & un) | {mu} for mu in pending}
            clo = {}
            for mu in pending:
                s, st = set(), [mu]
                while st:
                    x = st.pop()
                    if x in s:
                        continue
                    s.add(x)
                    st.extend(deps[x])
                clo[mu] = frozenset(s)
            g = min(clo.values(), key=lambda s: (len(s), min(x.id for x in s)))
            cc = cleanc(subst(c, sol))
            for m in g:
                cu[m] = drop_atoms(cu[m], cc)
            self.fold_group(sorted(g, key=lambda m: (self.shape(cu[m], un), self.shape(init[m], un), m.id)), cu, init, k, sol)
            pending = [m for m in pending if m not in sol]
        return sol

    def shape(self, t, mus):
        s = show(t)
        s = re.sub(r'#\d+', '', s)
        return s

    def fold_group(self, g, cu, init, k, sol):
        vs = [fresh('s', m.a[1]) for m in g]
        mp = dict(zip(g, vs))
        if len(g) == 1:
            m = g[0]
            body = subst(cu[m], mp)
            l = lam(k, lam(vs[0], body))
            f = mk('app', 'fold', k, l, init[m])
            if length_known(cu[m]) and length(cu[m]) is length(m):
                LENPRES.add((l, init[m]))
            sol[m] = f
            return
        body = tup(*[subst(cu[m], mp) for m in g])
        l = body
        for v in reversed(vs):
            l = lam(v, l)
        l = lam(k, l)
        it = tup(*[init[m] for m in g])
        for i, m in enumerate(g):
            if length_known(cu[m]) and length(cu[m]) is length(m):
                LENPRES.add((l, init[m]))
            sol[m] = mk('app', 'foldn', num(i), k, l, it)

    def one(self, mu, init, nx, k, unsolved):
        if nx.op == 'mdd':
            a = invariant_atom(nx, k, unsolved)
            if a is not None:
                rs = []
                for i in range(len(domain(a))):
                    r = self.one(mu, cofactor(init, a, i), cofactor(nx, a, i), k, unsolved)
                    if r is None:
                        return None
                    rs.append(r)
                return rebuild(a, rs)
        if nx is mu:
            return init
        if nx is UNDEF:
            return ite(cmpop('Eq', k, ZERO, False), init, UNDEF)
        fv = free(nx)
        others = (fv & unsolved) - {mu}
        if mu not in fv:
            if others:
                return None
            prev = subst(nx, {k: sub(k, ONE)})
            if subst(nx, {k: num(-1)}) is init:
                return prev
            return ite(cmpop('Eq', k, ZERO, False), init, prev)
        # flags
        lv = [x for x in leaves(nx) if x is not UNDEF]
        if all(x in (TRUE, FALSE) for x in lv) or (init in (TRUE, FALSE)):
            return self.flag(mu, init, nx, k, unsolved)
        # sums
        if all(numlike(x) for x in lv):
            d = sub(nx, mu)
            if not (free(d) & unsolved):
                return add(init, self.sumk(d, k))
            if others:
                return None
            q = div(nx, mu)
            if not (free(q) & unsolved) and q.op != 'mdd':
                if k not in free(q):
                    return mul(init, app('pow', q, k))
                return mul(init, app('prod', k, lam(k, q)))
            if others:
                return None
        if len(lv) == 1 and lv[0].op == 'app' and lv[0].a[0] == 'mapset' and lv[0].a[1] is mu:
            kk, vv = lv[0].a[2], lv[0].a[3]
            if init.op == 'app' and init.a[0] == 'map0' and not ((free(kk) | free(vv)) & unsolved):
                return mk('app', 'mapof', k, lam(k, kk), lam(k, vv))
        r = self.extremum(mu, init, nx, k, unsolved)
        if r is not None:
            return r
        # vectors: push / append
        r = self.vec_rec(mu, init, nx, k, unsolved)
        if r is not None:
            return r
        return None

    def extremum(self, mu, init, nx, k, unsolved):
        """running minimum or maximum: mu' = x if x < mu else mu"""
        if nx.op != 'mdd' or nx.a[0].op != 'cmp':
            return None
        p = nx.a[0].a[0]
        br = list(nx.a[1])
        for x, s in ((add(p, mu), 1), (sub(mu, p), -1)):
            if x.op == 'mdd' or free(x) & (unsolved | {mu}):
                continue
            lo, eq, hi = br[:3] if s == 1 else br[2::-1]      # x < mu, x = mu, x > mu
            if eq not in (x, mu, UNDEF) or any(b not in (mu, UNDEF) for b in br[3:]):
                continue
            if lo in (x, UNDEF) and hi in (mu, UNDEF):
                return run_('runmin', k, lam(k, x), init)
            if lo in (mu, UNDEF) and hi in (x, UNDEF):
                return run_('runmax', k, lam(k, x), init)
        return None

    def sumk(self, d, k):
        if k not in free(d):
            return mul(k, d)
        return SSUM(k, lam(k, d))

    def flag(self, mu, init, nx, k, unsolved):
        m = boolatom(mu)
        on = subst_bool(nx, mu, TRUE)
        off = subst_bool(nx, mu, FALSE)
        if free(on) & unsolved or free(off) & unsolved:
            return None
        if on is TRUE and off is FALSE:
            return init
        i = boolatom(init)
        if on is TRUE:
            return b_or(i, any_(k, lam(k, off)))
        if off is FALSE:
            return b_and(i, b_not(any_(k, lam(k, b_not(on)))))
        return None

    def vec_rec(self, mu, init, nx, k, unsolved):
        lv = [x for x in leaves(nx) if x is not UNDEF]
        # push
        if all(x is mu or (x.op == 'app' and x.a[0] in ('push', 'cat') and x.a[1] is mu) for x in lv):
            ln = None
            if len(lv) == 1 and lv[0].op == 'app' and lv[0].a[0] == 'push':
                v = lv[0].a[2]
                v = subst_len(v, mu, add(length(init), k))
                if free(v) & unsolved:
                    return None
                return join(init, arr(k, lam(k, v)))
            if len(lv) == 1 and lv[0].op == 'app':
                a = lv[0].a[2]
                n = length(a)
                if k not in free(n) and not (free(n) & unsolved):
                    a = subst_len(a, mu, add(length(init), mul(k, n)))
                    if free(a) & unsolved:
                        return None
                    return join(init, flatten(k, n, lambda r, j: sel(subst(a, {k: r}), j)))
                if free(a) & unsolved:
                    return None
                return join(init, mk('app', 'flat', k, lam(k, a)))
            if len(lv) == 2 and mu in lv:
                o = [x for x in lv if x is not mu][0]
                g = lift(lambda x: FALSE if x is mu else TRUE, nx)
                if o.a[0] == 'push' and not (free(g) & unsolved) and not (free(o.a[2]) & unsolved):
                    return join(init, mk('app', 'filter', k, lam(k, cleanc(g)), lam(k, o.a[2])))
                if o.a[0] == 'cat' and not (free(g) & unsolved) and not (free(o.a[2]) & unsolved):
                    return join(init, mk('app', 'flat', k, lam(k, ite(cleanc(g), o.a[2], EMPTY))))
            if len(lv) >= 2:
                # several different pushes: element chosen by condition
                if all(x.op == 'app' and x.a[0] == 'push' for x in lv):
                    v = lift2(lambda x: x.a[2] if x.op == 'app' else x, nx)
                    v = subst_len(v, mu, add(length(init), k))
                    if not (free(v) & unsolved):
                        return join(init, arr(k, lam(k, v)))
                # blocks chosen by condition
                def block(x):
                    return x if x.op in ('undef', 'panic', 'unk') else EMPTY if x is mu else array([x.a[2]]) if x.a[0] == 'push' else x.a[2]
                ns = set(length(block(x)) for x in lv)
                if len(ns) == 1:
                    n = list(ns)[0]
                    if k not in free(n) and not (free(n) & unsolved):
                        at_ = add(length(init), mul(k, n))
                        j = fresh('j', 'u')
                        v = lift2(lambda x: x if x.op in ('undef', 'panic', 'unk') else sel(block(x), j), nx)
                        v = subst_len(v, mu, at_)
                        if not (free(v) & unsolved):
                            return join(init, flatten(k, n, lambda r, o: subst(v, {k: r, j: o})))
            return None
        # a window that moves: x' = x[c .. len - d]
        if nx.op == 'arr' and mk('app', 'len', mu) in subterms_set(nx.a[0]):
            ml = mk('app', 'len', mu)
            d = sub(ml, nx.a[0])
            i = fresh('i', 'u')
            e = sel(nx, i)
            if d.op == 'num' and e.op == 'app' and e.a[0] == 'sel' and e.a[1] is mu:
                o = sub(e.a[2], i)
                if o.op == 'num':
                    return slice_(init, mul(o, k), sub(length(init), mul(d, k)))
        # element-wise update
        if not length_known(nx):
            return None
        ln = length(nx)
        if ln is not length(mu):
            return None
        i = fresh('i', 'u')
        e = self.by_index(sel(nx, i), mu, i)
        cell = mk('app', 'sel', mu, i)
        me = fresh('μe', mu.a[1])
        e0 = sel(init, i)
        if e0.op == 'agg' and e0.a[0] != MATRIX:
            me = agg(e0.a[0], *[fresh('μe') for _ in e0.a[1:]])
        e2 = subst_atoms(e, {cell: me, mk('app', 'len', mu): length(init)})
        if free(e2) & unsolved:
            return None
        # an in-order overwrite: the k that writes element i is unique
        r = self.write_once(e2, me, i, k, sel(init, i))
        if r is None:
            if not (free(me) & free(e2)):
                lvl = e2
                prev = subst(e2, {k: sub(k, ONE)})
                r = ite(cmpop('Eq', k, ZERO, False), sel(init, i), prev)
            elif me.op != 'agg':
                r = self.one(me, sel(init, i), e2, k, frozenset([me]))
        if r is None and me.op == 'agg':
            ls = [x for x in leaves(e2) if x is not UNDEF]
            if not all(x.op == 'agg' and x.a[0] == me.a[0] for x in ls):
                return None
            ini, nx_ = {}, {}
            for f_, m_ in enumerate(me.a[1:]):
                ini[m_], nx_[m_] = fld(e0, f_), fld(e2, f_)
            so = self.recurrences(ini, nx_, TRUE, k, where='elements')
            r = agg(me.a[0], *[so[m_] for m_ in me.a[1:]])
        if r is None:
            l = lam(k, lam(me, e2))
            r = mk('app', 'fold', k, l, sel(init, i))
        return arr_in(length(init), lam(i, r))

    def by_index(self, e, mu, i):
        """decide the comparisons of the element index i first; where i equals a stored index q, the
        old element q is the old element i"""
        at_s = set()
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x in seen or x.op != 'mdd':
                continue
            seen.add(x)
            at_s.add(x.a[0])
            st.extend(x.a[1])
        for a in sorted(at_s, key=lambda t: t.id):
            if a.op != 'cmp' or a.a[1] or i not in free(a):
                continue
            p = a.a[0]
            p0 = subst(p, {i: ZERO})
            ci = sub(subst(p, {i: ONE}), p0)
            if ci not in (ONE, num(-1)) or add(mul(ci, i), p0) is not p:
                continue
            q = neg(p0) if ci is ONE else p0
            old = mk('app', 'sel', mu, q)
            eq = cofactor(e, a, 1)
            if old not in subterms_set(eq):
                continue
            eq = subst_atoms(eq, {old: mk('app', 'sel', mu, i)})
            e = rebuild(a, [cofactor(e, a, 0), eq, cofactor(e, a, 2)])
        return e

    def write_once(self, e, me, i, k, ini):
        """value after k iterations when at most one iteration writes element i"""
        W = cleanc(lift2(lambda x: wrote(x, me), e))
        if k not in free(W) or W.op != 'mdd':
            return None
        W = forget(W, free(me))
        if k not in free(W) or W.op != 'mdd':
            return None
        atoms = set()
        st, seen = [W], set()
        while st:
            x = st.pop()
            if x in seen or x.op != 'mdd':
                continue
            seen.add(x)
            atoms.add(x.a[0])
            st.extend(x.a[1])
        lin = []
        for a in sorted(atoms, key=lambda t: t.id):
            if a.op != 'cmp' or i not in free(a) or k not in free(a):
                continue
            p = a.a[0]
            p0 = subst(p, {i: ZERO})
            ci = sub(subst(p, {i: ONE}), p0)
            if ci not in (ONE, num(-1)) or add(mul(ci, i), p0) is not p:
                continue
            q = neg(p0) if ci is ONE else p0       # i compared with q(k)
            q0 = subst(q, {k: ZERO})
            ck = sub(subst(q, {k: ONE}), q0)
            if k in free(ck) or k in free(q0) or add(mul(ck, k), q0) is not q:
                continue
            lin.append((a, q, ck, q0))
        for a, q, ck, q0 in lin:
            # written only where i == q(k)
            if ck in (ONE, num(-1)) and not self.feasible(b_and(W, cmpop('Ne', i, q, False))):
                j = div(sub(i, q0), ck)
                w = b_and(cmpop('Ge', j, ZERO, False), cmpop('Lt', j, k, False))
                v = subst(e, {k: j, me: ini})
                return ite(w, v, ini)
        for a, q, ck, q0 in lin:
            # written only where q(k) <= i < q(k) + ck
            if nonneg(ck) and not self.feasible(b_and(W, cmpop('Lt', i, q, False))) and not self.feasible(b_and(W, cmpop('Ge', i, add(q, ck), False))):
                j = idiv(sub(i, q0), ck)
                w = b_and(cmpop('Ge', i, q0, False), cmpop('Lt', i, add(q0, mul(ck, k)), False))
                v = subst(e, {k: j, me: ini})
                v = assume_block(v, i, q0, ck)
                return ite(w, v, ini)
        return None


def wrote(x, me):
    if x is me:
        return FALSE
    if x.op == 'agg' and me.op == 'agg' and x.a[0] == me.a[0] and len(x.a) == len(me.a):
        r = FALSE
        for y, m in zip(x.a[1:], me.a[1:]):
            r = b_or(r, lift2(lambda z: FALSE if z is m else TRUE, y))
        return r
    return TRUE


def forget(w, vs):
    """where w may hold, whatever the variables vs are"""
    if w.op != 'mdd':
        return w
    br = [forget(b, vs) for b in w.a[1]]
    if free(w.a[0]) & vs:
        r = FALSE
        for b in br:
            r = b_or(r, b)
        return r
    return node(w.a[0], br)


def forced_equalities(c):
    if c.op != 'mdd':
        return {}
    atoms = set()
    st, seen = [c], set()
    while st:
        x = st.pop()
        if x in seen or x.op != 'mdd':
            continue
        seen.add(x)
        atoms.add(x.a[0])
        st.extend(x.a[1])
    if len(atoms) > 40:
        return {}
    e = Env()
    hit = False
    for a in sorted(atoms, key=lambda t: t.id):
        if a.op == 'cmp' and not a.a[1]:
            if cofactor(c, a, 0) in (FALSE, UNDEF) and cofactor(c, a, 2) in (FALSE, UNDEF):
                hit = True
                e.assume(a, 'eq')
    return e.equalities() if hit else {}


def tidy(v):
    if v.op == 'arr':
        return arr_in(v.a[0], v.a[1])
    if v.op == 'agg':
        return agg(v.a[0], *[tidy(x) for x in v.a[1:]])
    if v.op == 'mdd':
        return lift2(tidy, v)
    return v


def assume_block(v, i, q0, ck):
    """(i - q0) mod ck lies in [0, ck)"""
    m = sub(sub(i, q0), mul(ck, idiv(sub(i, q0), ck)))
    st, seen = [v], set()
    def fix(t):
        if t.op != 'mdd':
            return t
        a = t.a[0]
        br = [fix(b) for b in t.a[1]]
        if a.op == 'cmp':
            p = a.a[0]
            for s in (p, neg(p)):
                if s is m:
                    # m >= 0
                    br[0 if s is p else 2] = UNDEF
                elif s is sub(m, ck):
                    for z in ((1, 2) if s is p else (0, 1)):
                        br[z] = UNDEF
        return node(a, br)
    return fix(v)


def subterms_set(t):
    s = set()
    for x in subterms(t):
        s.add(x)
    return s


LENPRES = set()
MU_LEN = {}
VECTY = ('Vec', 'std::vec', 'rulinalg::vector', '[')


def fold_(k, l, init):
    if k is ZERO:
        return init
    if k.op == 'mdd' and k.op != 'lam':
        return lift2(lambda x: fold_(x, l, init), k)
    r = mk('app', 'fold', k, l, init)
    return r


def run_(f, k, l, init):
    if k is ZERO:
        return init
    if k.op == 'mdd':
        return lift2(lambda x: run_(f, x, l, init), k)
    return mk('app', f, k, l, init)


REBUILD['runmin'] = lambda k, l, i: run_('runmin', k, l, i)
REBUILD['runmax'] = lambda k, l, i: run_('runmax', k, l, i)


def foldn_(i, k, l, init):
    if k is ZERO:
        return fld(init, int(i.a[0]))
    if k.op == 'mdd':
        return lift2(lambda x: foldn_(i, x, l, init), k)
    return mk('app', 'foldn', i, k, l, init)


REBUILD['fold'] = fold_
REBUILD['foldn'] = foldn_


def _len_mu(x):
    if x.op == 'sym':
        return MU_LEN.get(x)


LENRULES.append(_len_mu)
_lenf = {}


def _len_fold2(x):
    if x.op == 'app' and x.a[0] == 'fold' and x.a[2].op == 'lam':
        l = x.a[2]
        p = _lenf.get(l)
        if p is None:
            a, b = fresh('i', 'u'), fresh('s')
            y = app_lam(l, a)
            y = app_lam(y, b) if y.op == 'lam' else y
            ls = [z for z in leaves(y) if z is not UNDEF]
            p = bool(ls) and all(z is b or (z.op in ('arr', 'app') and length(z) is mk('app', 'len', b)) for z in ls)
            _lenf[l] = p
        if p:
            return length(x.a[3])


LENRULES.append(_len_fold2)


def _len_fold(x):
    if x.op == 'app' and x.a[0] == 'fold' and (x.a[2], x.a[3]) in LENPRES:
        return length(x.a[3])
    if x.op == 'app' and x.a[0] == 'fold' and x.a[2].op == 'lam' and x.a[3].op == 'arr':
        # every iteration appends as many elements
        k, mu = fresh('k', 'u'), fresh('v')
        l = app_lam(x.a[2], k)
        b = app_lam(l, mu) if l.op == 'lam' else UNDEF
        if b.op == 'arr' and b.a[0] is x.a[3].a[0] and not free(b.a[0]) & {k, mu}:
            return b.a[0]
        if b.op == 'app' and b.a[0] in ('cat', 'push') and b.a[1] is mu:
            n = ONE if b.a[0] == 'push' else length(b.a[2])
            if not free(n) & {k, mu} and not (n.op == 'app' and n.a[0] == 'len'):
                return add(length(x.a[3]), mul(x.a[1], n))
    if x.op == 'app' and x.a[0] == 'foldn':
        ini = x.a[4].a[1 + int(x.a[1].a[0])]
        if (x.a[3], ini) in LENPRES:
            return length(ini)


LENRULES.append(_len_fold)


def _len_vec(x):
    if x.op == 'app' and x.a[0] == 'push':
        return add(length(x.a[1]), ONE)
    if x.op == 'app' and x.a[0] == 'cat':
        return add(length(x.a[1]), length(x.a[2]))


def _sel_vec(x, i):
    if x.op == 'app' and x.a[0] == 'push':
        return ite(cmpop('Lt', i, length(x.a[1]), False), sel(x.a[1], i), x.a[2])
    if x.op == 'app' and x.a[0] == 'cat':
        n = length(x.a[1])
        return ite(cmpop('Lt', i, n, False), sel(x.a[1], i), sel(x.a[2], sub(i, n)))


LENRULES.append(_len_vec)
SELRULES.append(_sel_vec)


def push(v, x):
    if v.op == 'mdd':
        return lift2(lambda y: push(y, x), v)
    if v.op in ('undef', 'panic', 'unk'):
        return v
    if v.op == 'arr':
        if v.a[0].op == 'num' and v.a[0].a[0] <= 12:
            return array([sel(v, num(i)) for i in range(int(v.a[0].a[0]))] + [x])
        return concat(v, array([x]))
    if v.op == 'app' and v.a[0] in ('cat', 'push'):
        return cat(v, array([x]))
    return mk('app', 'push', v, x)


def join(v, w):
    return concat(v, w) if v.op == 'arr' else cat(v, w)


def cat(v, w):
    if v.op == 'mdd':
        return lift2(lambda y: cat(y, w), v)
    if v.op in ('undef', 'panic', 'unk'):
        return v
    if w.op == 'unk':
        return w
    if v.op == 'arr':
        if v.a[0] is ZERO:
            return w
        return concat(v, w)
    if w.op == 'arr' and w.a[0] is ZERO:
        return v
    if v.op == 'app' and v.a[0] == 'cat':
        return cat(v.a[1], cat(v.a[2], w))
    if v.op == 'app' and v.a[0] == 'push':
        return cat(v.a[1], cat(array([v.a[2]]), w))
    return mk('app', 'cat', v, w)


REBUILD.update({'push': push, 'cat': cat})


def flatten(n, w, f):
    """array of n blocks of width w; f(block, offset)"""
    i = fresh('i', 'u')
    if w is ONE:
        return arr(n, lam(i, f(i, ZERO)))
    b = idiv(i, w)
    return arr(mul(n, w), lam(i, f(b, sub(i, mul(w, b)))))


def SSUM(n, l):
    """sum with conditions that do not depend on the index moved outside"""
    if l.op == 'lam':
        v = fresh('i', 'u')
        body = app_lam(l, v)
        return sum_body(n, v, body)
    return ssum(n, l)


def sum_body(n, v, body):
    if body.op == 'mdd':
        at_ = first_indep_atom(body, v)
        if at_ is not None:
            br = []
            for i in range(len(domain(at_))):
                br.append(sum_body(n, v, cofactor(body, at_, i)))
            return rebuild(at_, br)
        # sum of a conditional: split additive constant parts when all leaves numeric
    return ssum(n, lam(v, body))


def first_indep_atom(t, v):
    st, seen = [t], set()
    best = None
    while st:
        x = st.pop()
        if x in seen or x.op != 'mdd':
            continue
        seen.add(x)
        if v not in free(x.a[0]) and (best is None or x.a[0].id < best.id):
            best = x.a[0]
        st.extend(x.a[1])
    return best


def invariant_atom(t, k, unsolved):
    """the earliest condition in t that is the same in every iteration"""
    st, seen = [t], set()
    best = None
    while st:
        x = st.pop()
        if x in seen or x.op != 'mdd':
            continue
        seen.add(x)
        f = free(x.a[0])
        if k not in f and not (f & unsolved) and (best is None or x.a[0].id < best.id):
            best = x.a[0]
        st.extend(x.a[1])
    return best


def cofactor(t, at_, i):
    memo = {}

    def go(x):
        if x.op != 'mdd':
            return x
        r = memo.get(x)
        if r is None:
            if x.a[0] is at_:
                r = go(x.a[1][i])
            else:
                r = node(x.a[0], [go(b) for b in x.a[1]])
            memo[x] = r
        return r
    return go(t)


REBUILD['sum'] = SSUM


def idiv_ceil(a, b):
    q = div(a, b)
    if q.op != 'rat' or q.a[1] == (((), Fraction(1)),) and all(c.denominator == 1 and all(e > 0 for _, e in m) for m, c in q.a[0]):
        if q.op != 'num' or q.a[0].denominator == 1:
            if not (q.op == 'rat' and any(e < 0 for m, c in q.a[0] for _, e in m)):
                return q
    return idiv(add(a, sub(b, ONE)), b)


def leaves(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mdd':
            st.extend(x.a[1])
        else:
            out.append(x)
    return out


def numlike(x):
    return x.op in ('num', 'rat', 'sym', 'app', 'bv') and not (x.op == 'app' and x.a[0] in ('push', 'cat', 'store', 'data'))


def length_known(x):
    return all(y.op in ('arr', 'undef') or (y.op == 'app' and y.a[0] in ('store', 'swap')) or y.op == 'sym' for y in leaves(x)) and any(y.op in ('arr', 'app') for y in leaves(x))


def subst_bool(t, mu, v):
    """replace the boolean symbol mu"""
    a = mk('bool', mu)

    def go(x):
        if x is mu:
            return v
        if x.op == 'mdd':
            br = [go(b) for b in x.a[1]]
            if x.a[0] is a:
                return br[0] if v is TRUE else br[1]
            return node(x.a[0], br)
        return x
    return go(t)


def subst_len(t, mu, n):
    return subst_atoms(t, {mk('app', 'len', mu): n}) if mu in free(t) else t


class _D(object):
    pass


DIVERGE = _D()


def fn_trunc(v):
    if v.op == 'mdd':
        return lift2(fn_trunc, v)
    if v.op == 'num':
        return num(int(v.a[0]))
    return app('trunc', v)


def fn_map(v, f):
    return lift2(f, v)


# ---------------------------------------------------------------- entry point
class Result(object):
    def __init__(self, ret, S, panics, ev, args):
        self.ret, self.S, self.ev, self.args = ret, S, ev, args
        self.panics = panics
        p = FALSE
        for c, kind, site in panics:
            p = b_or(p, cleanc(c))
        self.panic = p

    def final(self, name):
        return self.S.get(('A', name), UNDEF) if self.S is not None else UNDEF

    def full(self):
        """return value with PANIC where the function panics"""
        return ite(self.panic, PANIC, self.ret)


class Session(object):
    def __init__(self, F, budget=60.0, opaque=()):
        self.F = F
        self.budget = budget
        self.opaque = opaque

    def sym_arg(self, name, ti, S):
        F = self.F
        t = F.ty(ti)
        if t['k'] in ('ref', 'ptr'):
            if t.get('m'):
                root = ('A', name)
                S[root] = self.sym_val(name, t['t'])
                self.types[root] = t['t']
                S[('G', 'rng', root)] = ZERO
                return mref(root, ())
            return self.sym_val(name, t['t'])
        return self.sym_val(name, ti)

    def sym_val(self, name, ti, depth=0):
        F = self.F
        t = F.ty(ti)
        k, s = t['k'], t['s']
        if s in ('f64', 'f32'):
            return sym(name, 'f')
        if s in ('usize', 'u8', 'u16', 'u32', 'u64'):
            return sym(name, 'u')
        if s == 'bool':
            return boolatom(sym(name, 'b'))
        if s == '()':
            return UNIT
        if k == 'adt' and t['p'] in F.adts and depth < 4:
            a = F.adts[t['p']]
            if not a['enum'] and len(a['v']) == 1:
                fs = a['v'][0]['f']
                return agg(('adt', t['p'], 0, a['v'][0]['n']), *[self.sym_val(name + '.' + f['n'], f['t'], depth + 1) for f in fs])
        if k == 'tuple':
            return tup(*[self.sym_val('%s.%d' % (name, i), x, depth + 1) for i, x in enumerate(t['a'])])
        if k in ('ref', 'ptr'):
            return self.sym_val(name, t['t'], depth)
        if re.search(r'^(std::vec::Vec<|\[|rulinalg::vector::Vector<)usize', s):
            return sym(name, 'ou')
        return sym(name, 'o')

    def run(self, body, names=None, args=None, pre=None, assoc=None, hooks=None):
        """value graph of `body`; args: {position: value} overrides; names: argument names"""
        self.types = {}
        ev = Ev(self.F, self.budget, self.opaque)
        ev.assoc = assoc or {}
        ev.hooks = hooks or {}
        S = {('G', 'rng', 'thread'): ZERO, ('G', 'clobber'): ZERO}
        vals = []
        for i in range(body['nargs']):
            l = body['locals'][i + 1]
            nm = (names[i] if names and i < len(names) else None) or l['n'] or 'arg%d' % i
            if args and i in args:
                v = args[i]
                if callable(v):
                    v = v(self, S)
                vals.append(v)
            else:
                vals.append(self.sym_arg(nm, l['t'], S))
        ev.rtype.update(self.types)
        if pre:
            pre(S)
        ret, S2 = ev.run(body, vals, S)
        ret = ev.strip(S2, ret) if S2 is not None else ret
        return Result(ret, S2, ev.panics, ev, vals)
