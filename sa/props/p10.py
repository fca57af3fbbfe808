from ..spec import *
from ..core import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over inputs of symbolic shape. The objective handed to the optimisers returns (cost, gradient) with the gradient the entrywise derivative of the cost; '
                       'linear training stores the solution of the normal equations of the inputs with a leading column of ones; prediction is the (inverse) link of intercept plus weighted inputs.'}


def aug(r, w, x='x'):
    return Mij(r, add(w, ONE), lambda i, j: ite(eq(j, ZERO), ONE, sel(sym(x), add(mul(i, w), sub(j, ONE)))))


def opt_payload(F, t):
    """the vector inside the only optional field the term looks at"""
    ds = set(s for s in subterms(t) if s.op == 'app' and s.a[0] == 'fld' and s.a[2].op == 'app' and s.a[2].a[0] == 'as' and s.a[2].a[1] is ONE)
    return ds.pop() if len(ds) == 1 else None


def check(c):
    F = c.F
    n, w = dim('rows'), dim('cols')
    X = Mx('x', n, w)
    y = Vx('y', n)
    th = Vx('p', w)
    xe = lambda i, j: sel(sym('x'), add(mul(i, w), j))
    pe = lambda j: sel(sym('p'), j)
    ye = lambda i: sel(sym('y'), i)
    lin = lambda i: total(w, lambda j: mul(xe(i, j), pe(j)))
    sig = lambda z: div(ONE, add(ONE, exp(neg(z))))
    objective = {
        'learning::lin_reg::LinRegressor': (div(total(n, lambda i: powr(sub(lin(i), ye(i)), 2)), mul(TWO, n)), lambda z: z, 'half the mean squared error of the linear outputs'),
        'learning::logistic_reg::BaseLogisticRegressor': (
            div(total(n, lambda i: add(neg(mul(ye(i), ln(sig(lin(i))))), neg(mul(sub(ONE, ye(i)), ln(sub(ONE, sig(lin(i)))))))), n), sig, 'the mean cross entropy of the sigmoid outputs')}
    for path, (cost, link, what) in sorted(objective.items()):
        name = path.split('::')[-1]
        try:
            b = c.method(path, 'compute_grad', 'Optimizable')
        except Missing:
            continue
        r = c.run(b, args={1: th, 2: X, 3: y})
        if r is None:
            c.add(name + '::compute_grad', UNDECIDED, 'value graph', b, c.err)
            continue
        t = r.full()
        grad = vec(w, lambda j: div(total(n, lambda i: mul(sub(link(lin(i)), ye(i)), xe(i, j))), n))
        c.same(name + ' cost', 'cost = ' + what, b, fld(t, 0), cost, pre=gt(n, ZERO))
        c.same(name + ' gradient', 'entry j of the gradient = derivative of the cost by parameter j', b, fld(t, 1), grad, pre=gt(n, ZERO))
    # training
    A = aug(n, w)
    At = models.transpose(A)
    AtA, Aty = models.matmul(At, A), vec(add(w, ONE), lambda j: total(n, lambda i: mul(sel(mat_data(A), add(mul(i, add(w, ONE)), j)), ye(i))))
    P = 'learning::lin_reg::LinRegressor'
    try:
        bt, bp, bg = c.method(P, 'train', 'SupModel'), c.method(P, 'predict', 'SupModel'), c.method(P, 'parameters')
        r = c.run(bt, args={1: X, 2: y})
        if r is None:
            c.add('LinRegressor::train', UNDECIDED, 'value graph', bt, c.err)
        else:
            st = r.S.get(('A', 'self'))
            q = c.run(bg, args={0: st})
            before = c.run(bg)
            if True:
                bad = boolatom(app('singular', AtA))
                want = [some(app('solve', AtA, Aty)), some(models.matvec(app('inverse', AtA), Aty))]
                c.same('LinRegressor::train', 'parameters solve (A\'A) b = A\'y, A the inputs after a column of ones', bt, q and q.full(), want, pre=b_not(bad))
                c.same('LinRegressor::train error', 'a singular system is reported as an error', bt, models.opt_is(r.full(), 1), bad)
                c.same('LinRegressor::train failed', 'a failed training leaves the parameters as they were', bt, q and q.full(), before.full(), pre=bad)
    except Missing:
        pass
    for path, link in ((P, lambda z: z), ('learning::logistic_reg::LogisticRegressor', sig)):
        name = path.split('::')[-1]
        try:
            bp, bg = c.method(path, 'predict', 'SupModel'), c.method(path, 'parameters')
        except Missing:
            continue
        r, q = c.run(bp, args={1: X}), c.run(bg)
        if r is None or q is None:
            c.add(name + '::predict', UNDECIDED, 'value graph', bp, c.err)
            continue
        t, g = r.full(), q.full()
        p = models.payload(g, 1)
        out = vec(n, lambda i: link(add(sel(p, ZERO), total(w, lambda j: mul(xe(i, j), sel(p, add(j, ONE)))))))
        has = models.opt_is(g, 1)
        c.same(name + '::predict', 'prediction = link(intercept + weighted inputs), parameters in the order parameters() shows', bp, t, ok(out), pre=has)
        c.same(name + '::predict panics', 'prediction of a well-shaped input does not panic', bp, r.panic, FALSE, pre=has)
    # linear training by gradient descent, over any descent
    try:
        bt, bg = c.method(P, 'train_with_optimization'), c.method(P, 'parameters')
        r = c.run(bt, args={1: X, 2: y}, hooks={'OptimAlgorithm::optimize!': lambda ev, S, a, v: app('m:descend', v[2], v[3], v[4])})
        q = r and c.run(bg, args={0: r.S.get(('A', 'self'))})
        if q is None:
            c.add('LinRegressor::train_with_optimization', UNDECIDED, 'value graph', bt, c.err)
        else:
            c.known.add('m:descend')
            zeros = vec(add(w, ONE), lambda j: ZERO)
            c.same('LinRegressor::train_with_optimization', 'the parameters are those the descent reaches from zero, one per column of the inputs after a column of ones', bt, q.full(), some(app('m:descend', zeros, A, y)))
    except Missing:
        pass
    # logistic training: what is handed to the optimiser
    L = 'learning::logistic_reg::LogisticRegressor'
    try:
        bt, bg, bn = c.method(L, 'train', 'SupModel'), c.method(L, 'parameters'), c.method(L, 'new')
        mk0 = c.run(bn, args={0: sym('alg')})
        r = c.run(bt, args={1: X, 2: y})
        if r is None or mk0 is None:
            c.add('LogisticRegressor::train', UNDECIDED, 'value graph', bt, c.err)
        else:
            st = r.S.get(('A', 'self'))
            q = c.run(bg, args={0: st})
            g = q.full()
            calls = [s for s in subterms(g) if s.op == 'app' and s.a[0] == 'm:OptimAlgorithm::optimize']
            before = c.run(bg)
            if before is not None and g == before.full():
                c.add('LogisticRegressor::train', VIOLATED, 'the parameters are what the optimiser returns', bt, 'training leaves the parameters as they were')
            elif len(calls) != 1:
                c.add('LogisticRegressor::train', UNDECIDED, 'one call of the optimiser', bt, show(g)[:300])
            else:
                k = calls[0]
                c.same('LogisticRegressor::train', 'the parameters are what the optimiser returns', bt, g, some(k))
                c.same('LogisticRegressor::train inputs', 'the optimiser gets the inputs after a column of ones', bt, k.a[4], A)
                c.same('LogisticRegressor::train targets', 'the optimiser gets the targets', bt, k.a[5], y)
                c.same('LogisticRegressor::train start', 'one starting parameter per column', bt, length(k.a[3]), add(w, ONE))
                c.same('LogisticRegressor::train ok', 'training succeeds', bt, models.opt_is(r.full(), 0), TRUE)
    except Missing:
        pass
