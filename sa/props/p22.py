from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over arbitrary data, components as those of an uninterpreted singular value decomposition of the (centred) data: components kept, projection of a query, '
                       'refusals, untrained, retrained and failed training; tall and wide data.'}

P = 'learning::pca::PCA'


def check(c):
    bn, bd = c.method(P, 'new'), c.method(P, 'default', 'Default')
    bt, bp, bc = c.method(P, 'train', 'UnSupModel'), c.method(P, 'predict', 'UnSupModel'), c.method(P, 'components')
    n, w, m, k = dim('rows'), dim('cols'), dim('queries'), dim('components')
    X, Q = Mx('x', n, w), Mx('q', m, w)
    for name, b, args, keep, center in (('default', bd, {}, None, True), ('new(k, true)', bn, {0: k, 1: TRUE}, k, True), ('new(k, false)', bn, {0: k, 1: FALSE}, k, False)):
        r = c.run(b, args=args)
        if r is None:
            c.add(name, UNDECIDED, 'value graph', b, c.err)
            continue
        config(c, name, r.full(), keep, center, bt, bp, bc, n, w, m, X, Q)


def config(c, name, new, keep, center, bt, bp, bc, n, w, m, X, Q):
    for key, b, args in (('predict', bp, {0: new, 1: Q}), ('components', bc, {0: new})):
        r = c.run(b, args=args)
        if r is None:
            c.add('%s: %s before training' % (name, key), UNDECIDED, 'value graph', b, c.err)
        else:
            refuses(c, '%s: %s before training' % (name, key), b, r, 'UntrainedModel')
    # any earlier training
    er = c.run(bt, args={0: by_ref('self', new), 1: Mx('x0', dim('rows0'), dim('cols0'))})
    if er is None:
        c.add(name + ': train', UNDECIDED, 'value graph', bt, c.err)
        return
    old = er.S.get(('A', 'self'))
    tr = c.run(bt, args={0: by_ref('self', old), 1: X})
    if tr is None:
        c.add(name + ': train', UNDECIDED, 'value graph', bt, c.err)
        return
    st = tr.S.get(('A', 'self'))
    mean = (lambda f: div(total(n, lambda i: at(X, i, f)), n)) if center else (lambda f: ZERO)
    A = Mij(n, w, lambda i, j: sub(at(X, i, j), mean(j))) if center else X
    V = app('svd_v', A)
    some_ = ands(gt(n, ZERO), gt(w, ZERO))
    fits = b_and(some_, le(keep, w)) if keep is not None else some_
    failed = models.boolatom(app('svd_fails', A))
    if keep is not None:
        refuses(c, name + ': more components than columns', bt, tr, 'InvalidData', pre=b_and(some_, gt(keep, w)))
    c.same(name + ': train reports', 'an error exactly when there is no decomposition; no panic', bt, b_or(models.opt_is(tr.ret, 1), tr.panic), failed, pre=fits)
    c.same(name + ': train panics', 'no panic', bt, tr.panic, FALSE, pre=some_)
    refuses(c, name + ': decomposition fails', bt, tr, 'LinearAlgebra', pre=b_and(fits, failed))
    c.same(name + ': train failed', 'a failed training leaves the model as it was', bt, st, old, pre=b_and(some_, models.opt_is(tr.ret, 1)))
    for shape, pre in (('tall', ge(n, w)), ('wide', lt(n, w))):
        good = ands(fits, pre, b_not(failed))
        t = given(st, good)
        got = c.run(bp, args={0: t, 1: Q})
        if got is None:
            c.add('%s: predict, %s data' % (name, shape), UNDECIDED, 'value graph', bp, c.err)
            continue
        most = w if shape == 'tall' else n
        for kind, p, q in (('', most, good),) if keep is None else (('', keep, good),) if shape == 'tall' else (('', keep, b_and(good, le(keep, most))), (' with fewer components than asked for', most, b_and(good, gt(keep, most)))):
            key = '%s: predict, %s data%s' % (name, shape, kind)
            want = Mij(m, p, lambda i, j: total(w, lambda f: mul(sub(at(Q, i, f), mean(f)), at(V, f, j))))
            c.same(key + ' reports', 'no error, no panic on queries of the right width', bp, b_and(models.opt_is(got.ret, 0), b_not(got.panic)), TRUE, pre=q)
            G = given(models.payload(got.full(), 0), q)
            c.same(key + ' shape', 'one row per query, one column per component', bp, tup(mat_rows(G), mat_cols(G)), tup(m, p), pre=q)
            i, j = dim('query'), dim('component')
            e = lambda M, q: settled(products(settled(sel(mat_data(M), add(mul(i, p), j)), q)), q)
            q = ands(q, lt(i, m), lt(j, p))
            c.same(key, 'each centred query projected on the leading directions of the decomposition', bp, e(G, q), e(want, q), pre=q)
            if shape == 'tall':
                g = c.run(bc, args={0: t})
                if g is not None:
                    M = given(models.payload(g.full(), 0), q)
                    f = dim('feature')
                    c.same('%s: components%s' % (name, kind), 'the leading right singular vectors as columns', bc, tup(mat_rows(M), mat_cols(M), settled(sel(mat_data(M), add(mul(f, p), j)), b_and(q, lt(f, w)))),
                           tup(w, p, at(V, f, j)), pre=b_and(q, lt(f, w)))
        Q2 = Mx('q', m, dim('width'))
        r = c.run(bp, args={0: t, 1: Q2})
        if r is not None:
            refuses(c, '%s: predict of another width, %s data' % (name, shape), bp, r, 'InvalidData', pre=b_and(good, b_not(eq(w, dim('width')))))

