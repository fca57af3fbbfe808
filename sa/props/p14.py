import itertools
import math
from fractions import Fraction
from ..spec import *
from ..core import *
from .. import ri, dist_enum
from . import p01

INFO = {'level': 'proof',
        'explanation': 'Value graph of the shuffling transformer on a matrix of symbolic shape. The fold of row exchanges is read as a fold of exchanges on the sequence of rows and compared with the '
                       'textbook shuffles; another fold is refuted from its exact distribution over the draws at small shapes.'}


def rows_of(t, w):
    """the same fold on the sequence of rows, or None"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'app' and x.a[0] == 'swaprows':
            if x.a[2] is not w:
                raise ValueError
            s, i, j = go(x.a[1]), x.a[3], x.a[4]
            r = store(store(s, i, sel(s, j)), j, sel(s, i))
        elif x.op == 'app' and x.a[0] == 'fold':
            l = x.a[2]
            k, s = fresh('k', 'u'), fresh('s')
            body = apply2(l, k, s)
            from ..vg import fold_
            r = fold_(x.a[1], lam2(k, s, go(body)), go(x.a[3]))
        elif x.op == 'arr':
            i = fresh('i', 'u')
            if sel(x, i) is not sel(sym('x'), i):
                raise ValueError
            r = sym('rowseq')
        elif x.op == 'mdd':
            if x.a[0] and sym('x') in subterms(x.a[0]):
                raise ValueError
            r = rebuild(x.a[0], [go(b) for b in x.a[1]])
        elif x.op == 'sym':
            r = sym('rowseq') if x is sym('x') else x
        else:
            raise ValueError
        memo[x] = r
        return r
    try:
        return go(t)
    except ValueError:
        return None


def apply2(l, k, s):
    return app_lam(app_lam(l, k), s)


def check(c):
    n, w = dim('rows'), dim('cols')
    X = Mx('x', n, w)
    try:
        b = c.method('data::transforms::shuffle::Shuffler', 'transform', 'Transformer')
    except Missing:
        return
    r = c.run(b, args={1: X})
    if r is None:
        c.add('Shuffler::transform', UNDECIDED, 'value graph', b, c.err)
        return
    t = r.full()
    c.same('Shuffler::transform succeeds', 'every matrix is accepted', b, models.opt_is(t, 0), TRUE)
    c.same('Shuffler::transform panics', 'no panic', b, r.panic, FALSE)
    out = models.payload(t, 0)
    c.same('Shuffler::transform rows', 'the number of rows stays', b, mat_rows(out), n)
    c.same('Shuffler::transform columns', 'the number of columns stays', b, mat_cols(out), w)
    d = lift(lambda m: mat_data(m), out)
    key, rule = 'Shuffler::transform', 'the rows of the result are the rows of the input, whole, every order with probability 1/rows!'
    # the generator of the shuffler is the one that is used
    srcs = set(x.a[1] for x in p01.draws_of(d))
    mine = r.S and [q for q in r.S if q[0] == 'G' and q[1] == 'rng' and len(q) > 2 and q[2] == ('A', 'self')]
    foreign = r.S and [q for q in r.S if q[0] == 'G' and q[1] == 'rng' and len(q) > 2 and q[2] != ('A', 'self') and r.S[q] is not ZERO]
    c.add(key + ' generator', VIOLATED if foreign else PROVED if mine else UNDECIDED, 'only the generator given to the shuffler is drawn from', b, str(foreign or ''))
    s = rows_of(d, w)
    if s is not None:
        a = sym('rowseq')
        s2 = s
        for f in p01.families(s2, a, n):
            try:
                if equal(s2, f) is None and not unknowns(s2):
                    c.add(key, PROVED, rule, b)
                    return
            except Undecided:
                pass
    try:
        for ww in (1, 2, 3):
            for nn in range(0, 5 if ww < 3 else 4):
                items = [ri.Tok(('item', i, j)) for i in range(nn) for j in range(ww)]
                o = dist_enum.outcomes(d, {sym('x'): items, n: Fraction(nn), w: Fraction(ww)})
                want = {('l',) + tuple(('item', i, j) for i in p for j in range(ww)) for p in itertools.permutations(range(nn))}
                bad = [x for x in o if x not in want]
                if bad or any(o.get(x) != Fraction(1, len(want)) for x in want):
                    c.add(key, VIOLATED, rule, b, 'derived %s\n  shape %d x %d: %s' % (show(d)[:500], nn, ww, 'result %s is no ordering of the rows' % (bad[0],) if bad
                          else 'orderings have probabilities %s' % sorted(set(str(o.get(x, 0)) for x in want))))
                    return
        fixed = dist_enum.fixed_choices(d)
        for nn in dist_enum.sizes(d):
            items = [ri.Tok(('item', i, 0)) for i in range(nn)]
            for k in range(3):
                try:
                    o, p = dist_enum.path(d, {sym('x'): items, n: Fraction(nn), w: Fraction(1)}, (c.seed, nn, k))
                except ri.Skip:
                    break
                if o == ('panic',) or sorted(o[1:]) != sorted(x.n for x in items) or fixed and p % math.factorial(nn):
                    c.add(key, VIOLATED, rule, b, 'derived %s\n  %d rows: not every ordering of the rows is equally likely' % (show(d)[:500], nn))
                    return
        c.add(key, UNDECIDED, rule, b, 'no known shuffle fold; uniform at small shapes')
    except (ri.Skip, RecursionError) as e:
        c.add(key, UNDECIDED, rule, b, 'no known shuffle fold: %s' % e)
