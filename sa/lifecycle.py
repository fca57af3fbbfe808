"""What every model of the crate promises: it refuses before training, a training replaces what it knew,
a failed training leaves it as it was."""
from .spec import *
from .core import *
from . import terms as T
from .ri import freebv



def dirty(v, name='earlier'):
    """v with every field that is empty now holding anything"""
    if v.op != 'agg':
        return v
    out = []
    for i, f in enumerate(v.a[1:]):
        out.append(sym('%s%d' % (name, i)) if f == NONE else f)
    return agg(v.a[0], *out)


def known(v):
    return [f for f in v.a[1:] if f == NONE]


def kind_of(c, res):
    """error kind of a result"""
    b = c.F.method('learning::error::Error', 'kind', None)
    if not b:
        return None
    r = c.run(b[0], args={0: models.payload(res, 1)})
    return r and r.ret


def refuses(c, key, b, res, kind, pre=None):
    """res is Err of that kind"""
    k = kind_of(c, res.ret)
    want = variant(c.F, 'learning::error::ErrorKind', kind)
    if k is None or want is None:
        c.add(key, UNDECIDED, 'error kind', b)
        return
    c.same(key, 'reported as an error, not a panic', b, b_and(models.opt_is(res.full(), 1), b_not(res.panic)), TRUE, pre=pre)
    c.same(key + ' kind', 'the error is of kind ' + kind, b, k, want, pre=pre)


def given(t, pre):
    """t without the branches that pre excludes"""
    e = T.implied(pre, T.Env())

    def go(t):
        t = T.prune(t, e)
        if t.op == 'agg':
            return agg(t.a[0], *[go(x) if isinstance(x, T.T) else x for x in t.a[1:]])
        return t
    return go(t)


def settled(t, pre):
    """t without quotients and branches that pre decides, also under the binders of sums and arrays"""
    def go(t, e, memo):
        t = T.prune(T.resolve_div(t, e), e)
        if t.op == 'agg':
            return agg(t.a[0], *[go(x, e, memo) if isinstance(x, T.T) else x for x in t.a[1:]])
        if t.op == 'mdd':
            br = []
            for o, x in zip(T.domain(t.a[0]), t.a[1]):
                f = e.copy()
                br.append(go(x, f, {}) if x is not UNDEF and f.assume(t.a[0], o) else x)
            return T.rebuild(t.a[0], br)
        todo = {}
        for x in T.binders(t):
            if x not in memo:
                memo[x] = x
                v, f = fresh('i', 'u'), e.copy()
                if x.a[0] == 'sum' and x.a[2].op == 'lam' and f.bounded(v, x.a[1]):
                    memo[x] = vg.SSUM(x.a[1], lam(v, go(T.app_lam(x.a[2], v), f, {})))
            if memo[x] is not x:
                todo[x] = memo[x]
        return T.subst_atoms(t, todo) if todo else t
    return go(t, T.implied(pre, T.Env()), {})


def unrolled(t, most=6):
    """t with the loops of a fixed small number of rounds written out"""
    small = lambda n: n.op == 'num' and n.a[0].denominator == 1 and 0 <= n.a[0] <= most
    for _ in range(40):
        m = {}
        for x in T.subterms(t):
            if x.op != 'app' or x.a[0] not in ('first', 'foldn', 'fold') or freebv(x):
                continue
            if x.a[0] == 'fold' and small(x.a[1]):
                st = x.a[3]
                for i in range(int(x.a[1].a[0])):
                    st = T.app_lam(T.app_lam(x.a[2], T.num(i)), st)
                m[x] = st
                continue
            if x.a[0] == 'first' and small(x.a[1]):
                r = x.a[1]
                for i in reversed(range(int(x.a[1].a[0]))):
                    r = ite(T.app_lam(x.a[2], T.num(i)), T.num(i), r)
                m[x] = r
            elif x.a[0] == 'foldn' and small(x.a[2]):
                st = x.a[4]
                for i in range(int(x.a[2].a[0])):
                    l = T.app_lam(x.a[3], T.num(i))
                    for j in range(len(x.a[4].a) - 1):
                        l = T.app_lam(l, vg.fld(st, j))
                    st = l
                m[x] = vg.fld(st, int(x.a[1].a[0]))
        if not m:
            break
        t = T.subst_atoms(t, m)
    return t


def tidy(t, names, e=None):
    """t without the branches inside the arguments of these functions that the branches around them decide"""
    e = T.Env() if e is None else e

    def inner(x, e, t=None):
        m = {}
        for y in T.subterms(x):
            if y.op == 'app' and y.a[0] in names and not freebv(y):
                z = mk('app', y.a[0], *[tidy(a, names, e) for a in y.a[1:]])
                if z is not y:
                    m[y] = z
        return T.subst_atoms(x if t is None else t, m) if m else x if t is None else t
    t = T.prune(t, e)
    if t.op == 'mdd':
        r = inner(t.a[0], e, t)
        if r is not t:
            return tidy(r, names, e)
        br = []
        for o, x in zip(T.domain(t.a[0]), t.a[1]):
            f = e.copy()
            br.append(tidy(x, names, f) if x is not UNDEF and f.assume(t.a[0], o) else x)
        return T.rebuild(t.a[0], br)
    if t.op == 'agg':
        return agg(t.a[0], *[tidy(x, names, e) if isinstance(x, T.T) else x for x in t.a[1:]])
    return inner(t, e)


def with_field(c, path, v, name, x):
    """v with a public field replaced"""
    a = c.F.adts.get(path)
    if a is None or v.op != 'agg':
        return None
    for i, f in enumerate(a['v'][0]['f']):
        if f['n'] == name and f['pub']:
            return agg(v.a[0], *[x if j == i else y for j, y in enumerate(v.a[1:])])
    return None
