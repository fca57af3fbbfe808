from fractions import Fraction
from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over an arbitrary initialiser (any matrix or any error), number of classes and iterations, data and query: the centroids after training equal those of a reference implementation of '
                       'Lloyd\'s iteration (specs/lib.rs) that is never run, and predictions are nearest centroids; the three initialisers against their reference, draw by draw; training from any earlier state; refused input.'}

P = 'learning::k_means::KMeansClassifier'
GOOD = sym('start_ok', 'b')


def check(c):
    c.budget *= 4
    n, w, m, k, it, cr, cc = dim('rows'), dim('cols'), dim('queries'), dim('k'), dim('iters'), dim('crows'), dim('ccols')
    X, Q, C, alg = Mx('x', n, w), Mx('q', m, w), Mx('c', cr, cc), sym('alg')
    E = sym('start_err')
    H = {'Initializer::init_centroids': lambda ev, S, args, v: ite(GOOD, ok(C), err(E))}
    bs, bt, bp, bc = c.method(P, 'new_specified'), c.method(P, 'train', 'UnSupModel'), c.method(P, 'predict', 'UnSupModel'), c.method(P, 'centroids')
    r0 = c.run(bs, args={0: k, 1: it, 2: alg})
    if r0 is None:
        c.add('new', UNDECIDED, 'value graph', bs, c.err)
        return
    new = r0.full()
    r = c.run(bp, args={0: new, 1: Q}, hooks=H)
    if r is not None:
        refuses(c, 'predict before training', bp, r, 'UntrainedModel')
    r = c.run(bc, args={0: new})
    if r is not None:
        c.same('centroids before training', 'none', bc, r.ret, NONE)
    # the documented defaults
    bn = c.method(P, 'new')
    r = c.run(bn, args={0: k})
    if r is not None:
        for g, want in (('k', k), ('iters', num(100)), ('centroids', NONE)):
            b = c.method(P, g)
            s = c.run(b, args={0: r.full()})
            if s is not None:
                c.same('new: ' + g, 'as many classes as asked for, 100 iterations, no centroids', b, s.full(), want)
    b = c.method(P, 'set_iters')
    s = c.run(b, args={0: by_ref('self', new), 1: dim('more')})
    want = c.run(bs, args={0: k, 1: dim('more'), 2: alg})
    if s is not None and want is not None:
        c.same('set_iters', 'replaces the number of iterations', b, s.S.get(('A', 'self')), want.full())
    # training
    some_ = ands(gt(k, ZERO), gt(w, ZERO))
    # what is refused is refused before the first iteration: a model of no iterations will do
    z = c.run(bs, args={0: k, 1: ZERO, 2: alg})
    old = dirty(z.full())
    tr = c.run(bt, args={0: by_ref('self', old), 1: X}, hooks=H)
    if tr is None:
        c.add('train', UNDECIDED, 'value graph', bt, c.err)
    else:
        st = tr.S.get(('A', 'self'))
        c.same('train reports', 'an error exactly when there are more classes than points, the initialiser failed or its matrix has the wrong shape', bt, models.opt_is(tr.ret, 0),
               ands(b_not(gt(k, n)), GOOD, eq(cr, k), eq(cc, w)), pre=some_)
        refuses(c, 'train with more classes than points', bt, tr, 'InvalidData', pre=b_and(gt(k, n), some_))
        c.same('train with a failing initialiser', 'its error is handed on', bt, models.payload(tr.ret, 1), E, pre=ands(b_not(gt(k, n)), b_not(GOOD), some_))
        refuses(c, 'train with a start of the wrong shape', bt, tr, 'InvalidState', pre=ands(b_not(gt(k, n)), GOOD, ors(b_not(eq(cr, k)), b_not(eq(cc, w))), some_))
        c.same('train failed', 'a failed training leaves the model as it was', bt, st, old, pre=b_and(models.opt_is(tr.ret, 1), some_))
    # a good start
    C = Mx('c', k, w)
    H = {'Initializer::init_centroids': lambda ev, S, args, v: ok(C)}
    good = b_and(some_, b_not(gt(k, n)))
    old = dirty(new)
    tr = c.run(bt, args={0: by_ref('self', old), 1: X}, hooks=H)
    fit = c.ref('kmeans_fit', {0: C, 1: it, 2: X})
    r = tr and c.run(bc, args={0: tr.S.get(('A', 'self'))})
    if r is None or fit is None:
        c.add('centroids after training', UNDECIDED, 'value graph', bt, c.err)
    else:
        c.same('train from a good start panics', 'training does not panic', bt, tr.panic, FALSE, pre=good)
        c.same('train from a good start', 'training succeeds', bt, models.opt_is(tr.ret, 0), TRUE, pre=good)
        c.same('centroids are there', 'a trained model has centroids', bt, models.opt_is(r.ret, 1), TRUE, pre=good)
        c.same('centroids after training', "Lloyd's iteration from the initial centroids", bt, models.payload(r.full(), 1), fit.ret, pre=good)
    # prediction from the initial centroids (a model of no iterations)
    r = c.run(bs, args={0: k, 1: ZERO, 2: alg})
    tr = r and c.run(bt, args={0: by_ref('self', dirty(r.full())), 1: X}, hooks=H)
    if tr is None:
        c.add('predict', UNDECIDED, 'value graph', bp, c.err)
    else:
        st = given(tr.S.get(('A', 'self')), good)
        r = c.run(bp, args={0: st, 1: Q}, hooks=H)
        q = c.ref('kmeans_predict', {0: C, 1: Q})
        if r is None or q is None:
            c.add('predict', UNDECIDED, 'value graph', bp, c.err)
        else:
            c.same('predict', 'index of the nearest centroid', bp, r.ret, ok(q.ret), pre=good)
            c.same('predict panics', 'no panic on queries of the width of the training data', bp, r.panic, FALSE, pre=good)
    # initialisers
    small = tuple({k: Fraction(a), n: Fraction(b), w: Fraction(d)} for a, b, d in ((2, 3, 1), (2, 4, 1), (3, 4, 2), (1, 3, 1)))
    for nm, ref, plain, what in (('Forgy', 'forgy', True, 'k different rows of the data, each choice uniform'),
                                 ('RandomPartition', 'random_partition', True, 'the means of a uniform partition without empty classes'),
                                 ('KPlusPlus', 'kplusplus', False, 'a uniform row, then rows drawn with the squared distance to the nearest centroid so far as weight; bad data is an error')):
        b = c.method('learning::k_means::' + nm, 'init_centroids', 'Initializer')
        r = c.run(b, args={1: k, 2: X})
        q = c.ref(ref, {0: k, 1: X})
        pre = ands(gt(k, ZERO), le(k, n), gt(w, ZERO))
        if r is None or q is None:
            c.add(nm, UNDECIDED, 'value graph', b, c.err)
            continue
        pre = b_and(pre, b_not(q.panic))
        if plain:
            c.same(nm, what, b, r.full(), ok(q.ret), pre=pre)
        else:
            c.same(nm, what, b, models.payload(r.full(), 0), models.payload(q.ret, 0), pre=b_and(pre, models.opt_is(q.ret, 0)), overs=small, tries=60)
            c.same(nm + ' reports', what, b, models.opt_is(r.full(), 1), models.opt_is(q.ret, 1), pre=pre, overs=small, tries=60)
            refuses(c, nm + ' on bad data', b, r, 'InvalidData', pre=b_and(pre, models.opt_is(q.ret, 1)))
        c.same(nm + ' panics', 'no panic', b, r.panic, FALSE, pre=pre, overs=small, tries=60)
