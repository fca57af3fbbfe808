from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over an arbitrary kernel, mean function, noise, data and query: posterior mean and covariance of the trained process against a reference implementation (specs/lib.rs) that is never run; '
                       'training from any earlier state; states before training and after a failed training.'}

P = 'learning::gp::GaussianProcess'


def kernel(ev, S, args, v):
    # any symmetric kernel
    return add(app('m:kernel', v[0], v[1], v[2]), app('m:kernel', v[0], v[2], v[1]))


def mean(ev, S, args, v):
    return arr_fn(mat_rows(v[1]), lambda i: sel(app('m:mean', v[0], v[1]), i))


HOOKS = {'Kernel::kernel': kernel, 'MeanFunc::func': mean}


def check(c):
    c.budget *= 2
    c.known |= {'m:kernel', 'm:mean'}
    bn, bt, bp, bc = c.method(P, 'new'), c.method(P, 'train', 'SupModel'), c.method(P, 'predict', 'SupModel'), c.method(P, 'get_posterior')
    ker, mu, noise = sym('ker'), sym('mean'), sym('noise', 'f')
    n, w, m = dim('rows'), dim('cols'), dim('queries')
    X, Q, y = Mx('x', n, w), Mx('q', m, w), Vx('y', n)
    fresh_ = c.run(bn, args={0: ker, 1: mu, 2: noise})
    if fresh_ is None:
        c.add('new', UNDECIDED, 'value graph', bn, c.err)
        return
    new = fresh_.full()
    for key, b in (('predict', bp), ('get_posterior', bc)):
        r = c.run(b, args={0: new, 1: Q}, hooks=HOOKS)
        if r is None:
            c.add(key + ' before training', UNDECIDED, 'value graph', b, c.err)
        else:
            refuses(c, key + ' before training', b, r, 'UntrainedModel')
    old = dirty(new)
    tr = c.run(bt, args={0: by_ref('self', old), 1: X, 2: y}, hooks=HOOKS)
    fit = c.ref('gp_fit', {0: ker, 1: mu, 2: noise, 3: X, 4: y}, hooks=HOOKS)
    if tr is None or fit is None:
        c.add('train', UNDECIDED, 'value graph', bt, c.err)
        return
    fine = b_and(models.opt_is(fit.ret, 0), b_not(fit.panic))
    c.same('train reports', 'an error exactly when the kernel matrix plus noise has no Cholesky factor', bt, models.opt_is(tr.ret, 1), models.opt_is(fit.ret, 1), pre=b_not(fit.panic))
    c.same('train panics', 'training on as many targets as inputs does not panic', bt, tr.panic, FALSE, pre=b_not(fit.panic))
    st = tr.S.get(('A', 'self'))
    c.same('train failed', 'a failed training leaves the model as it was', bt, st, old, pre=models.opt_is(fit.ret, 1))
    st = given(st, models.opt_is(tr.ret, 0))
    for key, b, ref, what in (('predict', bp, 'gp_mean', 'mean(q) + K(q, X) (K(X, X) + noise I)^-1 (y - mean(X))'),
                              ('get_posterior', bc, 'gp_posterior', 'that mean, and K(q, q) - K(q, X) (K(X, X) + noise I)^-1 K(X, q)')):
        r = c.run(b, args={0: st, 1: Q}, hooks=HOOKS)
        q = c.ref(ref, {0: ker, 1: mu, 2: noise, 3: X, 4: y, 5: Q}, hooks=HOOKS)
        if r is None or q is None:
            c.add(key, UNDECIDED, 'value graph', b, c.err)
            continue
        pre = b_and(fine, b_not(q.panic))
        c.same(key, what, b, r.ret, ok(q.ret), pre=pre)
        c.same(key + ' panics', 'no panic on queries of the width of the training data', b, r.panic, FALSE, pre=pre)
        Q2 = Mx('q', m, dim('width'))
        r = c.run(b, args={0: st, 1: Q2}, hooks=HOOKS)
        if r is not None:
            refuses(c, key + ' of another width', b, r, 'InvalidState', pre=b_and(fine, b_not(eq(w, dim('width')))))
    # constant mean, defaults
    bm, bd = c.method('learning::gp::ConstMean', 'func', 'MeanFunc'), c.method(P, 'default', 'Default', opt=True)
    r = c.run(bm, args={1: Q})
    rd = c.run(c.method('learning::gp::ConstMean', 'default', 'Default'))
    if r is not None and rd is not None:
        r0 = c.run(bm, args={0: rd.full(), 1: Q})
        if r0 is not None:
            c.same('ConstMean::default', 'the default mean is zero', bm, r0.full(), vec(m, lambda i: ZERO))
        c.same('ConstMean length', 'one mean per row', bm, length(r.full()), m)
    if bd is not None:
        r = c.run(bd)
        kd = c.run(c.method('learning::toolkit::kernel::SquaredExp', 'default', 'Default'))
        if r is not None and kd is not None and rd is not None:
            want = c.run(bn, args={0: kd.full(), 1: rd.full(), 2: ZERO})
            if want is not None:
                c.same('default', 'squared exponential kernel, zero mean, zero noise', bd, r.full(), want.full())
