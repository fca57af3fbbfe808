from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graph of the training of a generalized linear model over an arbitrary family (every method of the criterion uninterpreted, one value per observation) on data of symbolic shape, '
                       'compared with that of a reference implementation of iteratively reweighted least squares (specs/lib.rs) that is derived by the same analysis and never run; '
                       'refusal of mismatched data, singular systems reported, failed and repeated training, untrained prediction.'}

P = 'learning::glm::GenLinearModel'


def per_obs(name, like):
    """one value for each of the observations"""
    def f(ev, S, args, v):
        return arr_fn(length(v[like]), lambda i: sel(app('m:' + name, *v), i))
    return f


def check(c):
    c.known |= {'m:' + x for x in ('weight', 'adjust', 'start', 'link', 'mean')}
    H = {'Criterion::compute_working_weight': per_obs('weight', 1), 'Criterion::compute_y_bar': per_obs('adjust', 1), 'Criterion::initialize_mu': per_obs('start', 1),
         'Criterion::apply_link_func': per_obs('link', 1), 'Criterion::apply_link_inv': per_obs('mean', 1)}
    bn, bt, bp = c.method(P, 'new'), c.method(P, 'train', 'SupModel'), c.method(P, 'predict', 'SupModel')
    n, w = dim('rows'), dim('cols')
    X, y = Mx('x', n, w), Vx('y', n)
    fam = sym('family')
    r = c.run(bn, args={0: fam})
    if r is None:
        c.add('new', UNDECIDED, 'value graph', bn, c.err)
        return
    new = r.full()
    r = c.run(bp, args={0: new, 1: X}, hooks=H)
    if r is None:
        c.add('predict before training', UNDECIDED, 'value graph', bp, c.err)
    else:
        refuses(c, 'predict before training', bp, r, 'UntrainedModel')
    old = dirty(new)
    # data that do not fit together
    q = c.run(bt, args={0: by_ref('self', old), 1: X, 2: Vx('z', dim('targets'))}, hooks=H)
    if q is None:
        c.add('train with mismatched data', UNDECIDED, 'value graph', bt, c.err)
    else:
        bad = b_not(eq(n, dim('targets')))
        refuses(c, 'train with mismatched data', bt, q, 'InvalidData', pre=bad)
        c.same('train with mismatched data leaves the model', 'a failed training leaves the model as it was', bt, q.S.get(('A', 'self')), old, pre=bad)
    r = c.run(bt, args={0: by_ref('self', old), 1: X, 2: y}, hooks=H)
    f = c.ref('glm_fit', {0: fam, 1: X, 2: y}, hooks=H)
    if r is None or f is None:
        c.add('train', UNDECIDED, 'value graph', bt, c.err)
        return
    st = r.S.get(('A', 'self'))
    some_ = ands(gt(n, ZERO), gt(w, ZERO))
    fits = models.opt_is(f.ret, 0)
    c.same('train reports', 'an error exactly when a weighted system is singular', bt, models.opt_is(r.ret, 0), fits, pre=some_)
    c.same('train panics', 'no panic', bt, r.panic, FALSE, pre=some_)
    c.budget *= 4
    c.same('train failed', 'a failed training leaves the model as it was', bt, st, old, pre=b_and(some_, b_not(fits)))
    c.budget /= 4
    # what is fitted, where no weighted system is singular
    H['regular'] = True
    r = c.run(bt, args={0: by_ref('self', old), 1: X, 2: y}, hooks=H)
    f = c.ref('glm_fit', {0: fam, 1: X, 2: y}, hooks=H)
    if r is None or f is None:
        c.add('train', UNDECIDED, 'value graph', bt, c.err)
        return
    st = given(r.S.get(('A', 'self')), some_)
    beta = given(models.payload(f.ret, 0), some_)
    c.same('train succeeds', 'training on regular systems succeeds', bt, models.opt_is(r.ret, 0), TRUE, pre=some_)
    c.same('train', 'coefficients = at most eight rounds of reweighted least squares from the starting mean of the family', bt, coefs(new, st), beta, pre=some_)
    p = c.run(bp, args={0: st, 1: Mx('q', dim('queries'), w)}, hooks=H)
    i = dim('queries')
    A = Mij(i, add(w, ONE), lambda a, b: ite(eq(b, ZERO), ONE, sel(sym('q'), add(mul(a, w), sub(b, ONE)))))
    if p is None:
        c.add('predict after training', UNDECIDED, 'value graph', bp, c.err)
        return
    c.same('predict after training', 'the mean of intercept plus weighted inputs', bp, p.full(), ok(arr_fn(i, lambda a: sel(app('m:mean', fam, models.matvec(A, beta)), a))), pre=some_)


def coefs(new, st):
    """payload of the field that is empty before training"""
    for i, x in enumerate(new.a[1:]):
        if x == NONE:
            return models.payload(fld(st, i), 1)
    return None
