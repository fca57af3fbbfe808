from ..spec import *
from ..core import *
from ..vg import run_

INFO = {'level': 'proof',
        'explanation': 'Value graphs of fitting and of applying the fitted transformer to another matrix, both of symbolic shape; the fitted transformer of the first graph is the input of the second, '
                       'so the forms compared do not mention the fields of the transformer. The running extrema of the fit are recognised as loop recurrences.'}

DT = 'data::transforms::'


def finite(x):
    return b_not(ors(boolatom(app('is_nan', x)), boolatom(app('is_infinite', x))))


def check(c):
    n, w, m, v = dim('rows'), dim('cols'), dim('rows2'), dim('cols2')
    X, Z = Mx('x', n, w), Mx('z', m, w)
    x = lambda i, j: sel(sym('x'), add(mul(i, w), j))
    z = lambda i, j: sel(sym('z'), add(mul(i, w), j))
    BIG = app('fmax')
    lo = lambda j: run('runmin', j, BIG)
    hi = lambda j: run('runmax', j, neg(BIG))

    def run(f, j, init):
        k = fresh('k', 'u')
        return run_(f, n, lam(k, x(k, j)), init)
    a, b_ = sym('a', 'f'), sym('b', 'f')
    some_data = b_and(gt(n, ZERO), gt(w, ZERO))
    allfin = all_i(n, lambda i: all_i(w, lambda j: finite(x(i, j))))
    mean = lambda j: div(total(n, lambda i: x(i, j)), n)
    var = lambda j: div(sub(total(n, lambda i: powr(x(i, j), 2)), mul(n, powr(mean(j), 2))), sub(n, ONE))
    slope = lambda j: div(sub(b_, a), sub(hi(j), lo(j)))
    spread = all_i(w, lambda j: finite(slope(j)))
    more = gt(n, ONE)
    cases = [
        ('MinMax', 'minmax::MinMaxFitter', 'minmax::MinMaxScaler', b_and(allfin, spread), 'all data finite and no constant column',
         lambda i, j: add(a, mul(sub(z(i, j), lo(j)), slope(j))), lambda i, j: add(lo(j), div(sub(z(i, j), a), slope(j))), 'column minimum -> min, maximum -> max, linear between', some_data),
        ('Standard', 'standardize::StandardizerFitter', 'standardize::Standardizer', b_and(more, all_i(w, lambda j: finite(mean(j)))), 'at least two rows and finite column means',
         lambda i, j: add(a, mul(b_, div(sub(z(i, j), mean(j)), sqrt(var(j))))), lambda i, j: add(mean(j), div(mul(sub(z(i, j), a), sqrt(var(j))), b_)), '(x - column mean) / column deviation * stdev + mean', some_data)]
    for nm, fp, sp, okc, okrule, fwd, back, rule, pre0 in cases:
        fitter, scaler = fp.split('::')[-1], sp.split('::')[-1]
        try:
            bn, bf, bt, bi = c.method(DT + fp, 'new'), c.method(DT + fp, 'fit', 'TransformFitter'), c.method(DT + sp, 'transform', 'Transformer'), c.method(DT + sp, 'inv_transform', 'Invertible')
        except Missing:
            continue
        r0 = c.run(bn, args={0: a, 1: b_})
        r1 = r0 and c.run(bf, args={0: r0.full(), 1: X})
        if not r1:
            c.add(fitter + '::fit', UNDECIDED, 'value graph', bf, c.err)
            continue
        t = r1.full()
        c.same(fitter + '::fit refuses', 'the fit succeeds exactly for ' + okrule, bf, models.opt_is(t, 0), okc, pre=pre0)
        c.same(fitter + '::fit error kind', 'refusal is an invalid-data error', bf, errkind(t), sym_kind(c, 'InvalidData'), pre=b_and(pre0, b_not(okc)))
        pre = ands(pre0, okc)
        sc = models.payload(t, 0)
        r2 = c.run(bt, args={0: by_ref('self', sc), 1: Z})
        if r2 is None:
            c.add(scaler + '::transform', UNDECIDED, 'value graph', bt, c.err)
        else:
            c.same(scaler + '::transform', 'transformed entry = ' + rule, bt, r2.full(), ok(Mij(m, w, fwd)), pre=pre)
            st = r2.S.get(('A', 'self'))
            c.same(scaler + '::transform state', 'transforming does not alter the fitted transformer', bt, st, sc, pre=pre)
            c.same(scaler + '::transform panics', 'no panic', bt, r2.panic, FALSE, pre=pre)
        r3 = c.run(bi, args={0: sc, 1: Z})
        if r3 is None:
            c.add(scaler + '::inv_transform', UNDECIDED, 'value graph', bi, c.err)
        else:
            c.same(scaler + '::inv_transform', 'the inverse of: ' + rule, bi, r3.full(), ok(Mij(m, w, back)), pre=pre)
            c.same(scaler + '::inv_transform panics', 'no panic', bi, r3.panic, FALSE, pre=pre)
        # another number of columns
        Z2 = Mx('z', m, v)
        differs = b_not(eq(v, w))
        for b, what in ((bt, 'transform'), (bi, 'inv_transform')):
            r4 = c.run(b, args={0: by_ref('self', sc), 1: Z2})
            if r4 is None:
                c.add('%s::%s shape' % (scaler, what), UNDECIDED, 'value graph', b, c.err)
                continue
            q = b_and(pre, differs)
            c.same('%s::%s shape' % (scaler, what), 'data of another number of columns is an error', b, models.opt_is(r4.full(), 1), TRUE, pre=q)
            c.same('%s::%s shape panics' % (scaler, what), 'data of another number of columns does not panic', b, r4.panic, FALSE, pre=q)
        # documented defaults
        try:
            bd = c.method(DT + fp, 'default', 'Default')
        except Missing:
            continue
        rd, rn = c.run(bd), c.run(bn, args={0: ZERO, 1: ONE})
        if rd is None or rn is None:
            c.add(fitter + '::default', UNDECIDED, 'value graph', bd, c.err)
        else:
            c.same(fitter + '::default', 'the default fitter is the one for 0 and 1', bd, rd.full(), rn.full())
    # the normalizer
    N = DT + 'normalize::Normalizer'
    try:
        bn, bt = c.method(N, 'new'), c.method(N, 'transform', 'Transformer')
    except Missing:
        return
    r0 = c.run(bn, args={0: sym('norm')})
    r = r0 and c.run(bt, args={0: by_ref('self', r0.full()), 1: X})
    if not r:
        c.add('Normalizer::transform', UNDECIDED, 'value graph', bt, c.err)
        return
    t = r.full()
    size = lambda i: app('norm', sym('norm'), vec(w, lambda j: x(i, j)))
    fine = all_i(n, lambda i: finite(size(i)))
    c.same('Normalizer::transform refuses', 'rows of a norm that is not finite are an error, no other', bt, models.opt_is(t, 0), fine, pre=some_data)
    c.same('Normalizer::transform error kind', 'refusal is an invalid-data error', bt, errkind(t), sym_kind(c, 'InvalidData'), pre=b_and(some_data, b_not(fine)))
    c.same('Normalizer::transform', 'every row divided by its norm, a row of norm zero unchanged', bt, t,
           ok(Mij(n, w, lambda i, j: ite(eq(size(i), ZERO), x(i, j), div(x(i, j), size(i))))), pre=b_and(some_data, fine))
    c.same('Normalizer::transform panics', 'no panic', bt, r.panic, FALSE)


def errkind(t):
    return lift(lambda e: fld(e, 0), models.payload(t, 1))


def sym_kind(c, name):
    return variant(c.F, 'learning::error::ErrorKind', name)
