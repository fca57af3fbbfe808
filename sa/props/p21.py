from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over arbitrary data, weights, means and covariances: posterior probabilities of the components, the maximisation step for each kind of covariance, the start of the training '
                       '(rows drawn by the reservoir sampler left uninterpreted), constructors, refusals, untrained model.'}

P = 'learning::gmm::GaussianMixtureModel'
RS = 'learning::toolkit::rand_utils::reservoir_sample'


def check(c):
    bn, bw = c.method(P, 'new'), c.method(P, 'with_weights')
    bt, bp = c.method(P, 'train', 'UnSupModel'), c.method(P, 'predict', 'UnSupModel')
    acc = {x: c.method(P, x) for x in ('means', 'covariances', 'mixture_weights')}
    k, n, w, m = dim('k'), dim('rows'), dim('cols'), dim('queries')
    X, Q, wt = Mx('x', n, w), Mx('q', m, w), Vx('w', dim('len'))

    r = c.run(bw, args={0: k, 1: wt})
    if r is None:
        c.add('with_weights', UNDECIDED, 'value graph', bw, c.err)
    else:
        bad = b_or(b_not(eq(k, dim('len'))), some_i(dim('len'), lambda i: lt(sel(wt, i), ZERO, True)))
        c.same('with_weights reports', 'refused exactly for another number of weights or a negative one', bw, b_or(models.opt_is(r.ret, 1), r.panic), bad)
        refuses(c, 'with_weights refused', bw, r, 'InvalidParameters', pre=bad)
        mw = c.run(acc['mixture_weights'], args={0: given(models.payload(r.full(), 0), b_not(bad))})
        if mw is not None:
            c.same('with_weights', 'weights divided by their sum', bw, mw.full(), vec(k, lambda i: div(sel(wt, i), total(k, lambda l: sel(wt, l)))), pre=b_not(bad))
    r = c.run(bn, args={0: k})
    if r is None:
        c.add('new', UNDECIDED, 'value graph', bn, c.err)
        return
    new = r.full()
    for nm, want in (('means', NONE), ('covariances', NONE), ('mixture_weights', vec(k, lambda i: div(ONE, k)))):
        r = c.run(acc[nm], args={0: new})
        if r is not None:
            c.same('new: ' + nm, 'nothing fitted, equal weights', bn, r.full(), want)
    r = c.run(bp, args={0: new, 1: Q})
    if r is None:
        c.add('predict before training', UNDECIDED, 'value graph', bp, c.err)
    else:
        refuses(c, 'predict before training', bp, r, 'UntrainedModel')

    # a model with any weights, means and covariances
    W, Mu = Vx('weight', k), Mx('mu', k, w)
    cov = lambda j: Mf(w, w, lambda p: sel(sym('cov'), add(mul(j, mul(w, w)), p)))
    C = vec(k, cov)
    model = trained(c, acc, new, W, Mu, C)
    if model is None:
        c.add('trained model', UNDECIDED, 'value graph', bn, 'no state that the accessors describe')
        return
    posterior(c, bp, model, k, w, m, Q, W, Mu, cov)
    maximise(c, acc, model, k, n, w, X)
    start(c, bt, bn, acc, new, k, n, w, X)
    likelihood(c, model, k, w, n, X, W, Mu, cov)
    steps(c, bt, acc, new, k, n, w, X)


def trained(c, acc, new, W, Mu, C):
    s = dirty(new)
    m = {}
    for nm, v in (('means', app_some(Mu)), ('covariances', app_some(C))):
        r = c.run(acc[nm], args={0: s})
        if r is None or r.full().op != 'sym':
            return None
        m[r.full()] = v
    s = T.subst_atoms(s, m)
    for i, f in enumerate(s.a[1:]):
        if f.op == 'arr':
            s = agg(s.a[0], *[W if j == i else x for j, x in enumerate(s.a[1:])])
    r = c.run(acc['mixture_weights'], args={0: s})
    return s if r is not None and r.full() is W else None


def app_some(v):
    return models.some(v)


def posterior(c, bp, model, k, w, m, Q, W, Mu, cov):
    r = c.run(bp, args={0: model, 1: Q})
    if r is None:
        c.add('predict', UNDECIDED, 'value graph', bp, c.err)
        return
    ok_ = ands(gt(m, ZERO), gt(k, ZERO), gt(w, ZERO), all_i(k, lambda j: b_not(models.boolatom(app('singular', cov(j))))))
    bad = ands(gt(m, ZERO), gt(k, ZERO), gt(w, ZERO), some_i(k, lambda j: models.boolatom(app('singular', cov(j)))))

    def pdf(i, j, by_col):
        d = lambda a: sub(at(Q, i, a), at(Mu, j, a))
        inv = app('inverse', cov(j))
        f = lambda a, b: mul(mul(d(a), at(inv, a, b)), d(b))
        e = total(w, lambda y: total(w, lambda x: f(x, y) if by_col else f(y, x)))
        return div(exp(neg(mul(HALF, e))), sqrt(app('det', cov(j))))
    i, j = dim('query'), dim('component')
    c.same('predict reports', 'no error, no panic while every covariance is invertible', bp, b_and(models.opt_is(r.ret, 0), b_not(r.panic)), TRUE, pre=ok_)
    refuses(c, 'predict with a singular covariance', bp, r, 'LinearAlgebra', pre=bad)
    G = given(models.payload(r.full(), 0), ok_)
    c.same('predict shape', 'one row per query, one column per component', bp, tup(mat_rows(G), mat_cols(G)), tup(m, k), pre=ok_)
    pre = ands(ok_, lt(i, m), lt(j, k))
    e = settled(products(settled(sel(mat_data(G), add(mul(i, k), j)), pre)), pre)
    want = [div(mul(sel(W, j), pdf(i, j, o)), total(k, lambda l: mul(sel(W, l), pdf(i, l, o)))) for o in (True, False)]
    c.same('predict', 'posterior probability of each component: weight times normal density over their sum', bp, e, want, pre=pre, pos=('cov',))


def maximise(c, acc, model, k, n, w, X):
    bs = c.F.method(P, 'update_params', None)
    if not bs or 'blocks' not in bs[0]:
        c.add('maximisation step', UNDECIDED, 'value graph', None, 'no such step')
        return
    b = bs[0]
    c.see(b)
    R = Mx('r', n, k)
    pre0 = ands(gt(n, ZERO), gt(k, ZERO), gt(w, ZERO))
    N = lambda j: total(n, lambda i: at(R, i, j))
    mean = lambda j, a: div(total(n, lambda i: mul(at(R, i, j), at(X, i, a))), N(j))
    for name, opt in (('full', variant(c.F, 'learning::gmm::CovOption', 'Full')), ('diagonal', variant(c.F, 'learning::gmm::CovOption', 'Diagonal')), ('regularized', regularized(c))):
        s = with_field(c, P, model, 'cov_option', opt) if opt is not None else None
        u = c.run(b, args={0: by_ref('self', s), 1: X, 2: R}) if s is not None else None
        if u is None:
            c.add('maximisation, ' + name, UNDECIDED, 'value graph', b, getattr(c, 'err', ''))
            continue
        t = u.S.get(('A', 'self'))
        g = {x: c.run(acc[x], args={0: t}) for x in acc}
        if any(v is None for v in g.values()):
            continue
        c.same('maximisation, %s: panics' % name, 'no panic', b, u.panic, FALSE, pre=pre0)
        j, a, d = dim('component'), dim('feature'), dim('other')
        c.same('maximisation, %s: weights' % name, 'mean responsibility', b, g['mixture_weights'].full(), vec(k, lambda j: div(N(j), n)), pre=pre0)
        pre = ands(pre0, lt(j, k), lt(a, w))
        M = models.payload(g['means'].full(), 1)
        e = settled(products(settled(sel(mat_data(M), add(mul(j, w), a)), pre)), pre)
        c.same('maximisation, %s: means' % name, 'mean of the rows weighted by responsibility', b, tup(mat_rows(M), mat_cols(M), e), tup(k, w, mean(j, a)), pre=pre)
        V = models.payload(g['covariances'].full(), 1)
        for what, p2, at_ in (('', ands(pre, lt(d, w)), d),) if name != 'diagonal' else (('', pre, a), (' off the diagonal', ands(pre, lt(d, w), lt(d, a)), d), (' off the diagonal, above', ands(pre, lt(d, w), lt(a, d)), d)):
            cv = settled(sel(V, j), p2)
            e = settled(products(settled(sel(mat_data(cv), add(mul(a, w), at_)), p2)), p2)
            want = ZERO if what else div(total(n, lambda i: mul(at(R, i, j), mul(sub(at(X, i, a), mean(j, a)), sub(at(X, i, at_), mean(j, at_))))), N(j))
            if name == 'regularized':
                want = plus_eps(want, a, at_)
            c.same('maximisation, %s: covariance%s' % (name, what), 'weighted covariance around the new mean', b, tup(T.length(V), mat_rows(cv), mat_cols(cv), e), tup(k, w, w, want), pre=p2)


def regularized(c):
    return variant(c.F, 'learning::gmm::CovOption', 'Regularized', sym('eps'))


def plus_eps(t, a, b):
    return add(t, ite(eq(a, b), sym('eps'), ZERO))


def start(c, bt, bn, acc, new, k, n, w, X):
    bi = c.method(P, 'set_max_iters')
    s = c.run(bi, args={0: by_ref('self', new), 1: ZERO})
    if s is None:
        c.add('start', UNDECIDED, 'value graph', bi, c.err)
        return
    drawn = {RS: lambda ev, S, args, v: arr_fn(v[1], lambda i: sel(v[0], sel(sym('drawn', 'u'), i)))}
    r = c.run(bt, args={0: by_ref('self', s.S[('A', 'self')]), 1: X}, opaque=(RS,), hooks=drawn)
    if r is None:
        c.add('start', UNDECIDED, 'value graph', bt, c.err)
        return
    pre = ands(gt(k, ZERO), gt(w, ZERO))
    refuses(c, 'train on a single row', bt, r, 'InvalidData', pre=b_and(pre, lt(n, TWO)))
    c.same('refused training', 'leaves the model as it was', bt, r.S.get(('A', 'self')), s.S[('A', 'self')], pre=b_and(pre, lt(n, TWO)))
    pre = b_and(pre, ge(n, TWO))
    t = given(r.S.get(('A', 'self')), pre)
    g = {x: c.run(acc[x], args={0: t}) for x in acc}
    if any(v is None for v in g.values()):
        return
    j, a, d = dim('component'), dim('feature'), dim('other')
    pre = ands(pre, lt(j, k), lt(a, w), lt(d, w))
    inside = b_and(pre, all_i(k, lambda i: lt(sel(sym('drawn', 'u'), i), n)))
    M, V = given(models.payload(g['means'].full(), 1), pre), given(models.payload(g['covariances'].full(), 1), pre)
    mean = lambda a: div(total(n, lambda i: at(X, i, a)), n)
    c.same('start: weights', 'those given', bt, g['mixture_weights'].full(), vec(k, lambda j: div(ONE, k)), pre=pre)
    c.same('start: means', 'the rows the reservoir sampler draws', bt, tup(mat_rows(M), mat_cols(M), settled(sel(mat_data(M), add(mul(j, w), a)), inside)),
           tup(k, w, at(X, sel(sym('drawn', 'u'), j), a)), pre=inside)
    cv = settled(sel(V, j), pre)
    c.same('start: covariances', 'sample covariance of all rows', bt, tup(T.length(V), mat_rows(cv), mat_cols(cv), settled(sel(mat_data(cv), add(mul(a, w), d)), pre)),
           tup(k, w, w, div(total(n, lambda i: mul(sub(at(X, i, a), mean(a)), sub(at(X, i, d), mean(d)))), sub(n, ONE))), pre=pre)

    # the regularization constant joins the covariance diagonal
    for name, f in (('regularized', lambda v: plus_eps(v, a, d)),):
        s2 = with_field(c, P, s.S[('A', 'self')], 'cov_option', regularized(c)) if regularized(c) is not None else None
        r2 = c.run(bt, args={0: by_ref('self', s2), 1: X}, opaque=(RS,), hooks=drawn) if s2 is not None else None
        v2 = r2 and c.run(acc['covariances'], args={0: given(r2.S.get(('A', 'self')), pre)})
        if not v2:
            c.add('start: covariances, ' + name, UNDECIDED, 'value graph', bt, c.err)
            continue
        cv = settled(sel(given(models.payload(v2.full(), 1), pre), j), pre)
        c.same('start: covariances, ' + name, 'sample covariance of all rows plus the constant on the diagonal', bt, settled(sel(mat_data(cv), add(mul(a, w), d)), pre),
               f(div(total(n, lambda i: mul(sub(at(X, i, a), mean(a)), sub(at(X, i, d), mean(d)))), sub(n, ONE))), pre=pre)


GIVEN = ('fails', 'resp', 'loglik', 'nweights', 'nmeans', 'ncovs')
MW, UP = P + '::membership_weights', P + '::update_params'


def likelihood(c, model, k, w, n, X, W, Mu, cov):
    b = c.F.method(P, 'membership_weights', None)
    r = c.run(b[0], args={0: model, 1: X}) if b and 'blocks' in b[0] else None
    if r is None:
        c.add('log-likelihood', UNDECIDED, 'value graph', b and b[0], 'no such step')
        return
    pre = ands(gt(n, ZERO), gt(k, ZERO), gt(w, ZERO), all_i(k, lambda j: b_not(models.boolatom(app('singular', cov(j))))))

    def pdf(i, j):
        d = lambda a: sub(at(X, i, a), at(Mu, j, a))
        inv = app('inverse', cov(j))
        e = total(w, lambda y: total(w, lambda x: mul(mul(d(x), at(inv, x, y)), d(y))))
        return div(exp(neg(mul(HALF, e))), sqrt(app('det', cov(j))))
    got = vg.fld(given(models.payload(r.full(), 0), pre), 1)
    c.same('log-likelihood', 'sum over the rows of the logarithm of their weighted density', b[0], settled(products(settled(got, pre)), pre),
           total(n, lambda i: T.ln(total(k, lambda l: mul(sel(W, l), pdf(i, l))))), pre=pre, pos=('cov', 'weight'))


def steps(c, bt, acc, new, k, n, w, X):
    """training from any start: the two halves of a step taken as given"""
    bi = c.method(P, 'set_max_iters')
    s = c.run(bi, args={0: by_ref('self', new), 1: TWO})
    d0 = dirty(new)
    slot = {}
    for nm in acc:
        r = c.run(acc[nm], args={0: agg(d0.a[0], *[sym('f%d' % i) for i in range(len(d0.a) - 1)])})
        if r is None or r.full().op != 'sym':
            return
        slot[nm] = int(r.full().a[0][1:])
    if s is None or not all(c.F.method(P, x, None) for x in ('membership_weights', 'update_params')):
        c.add('steps', UNDECIDED, 'value graph', bt, 'no such halves of a step')
        return
    view = lambda st: tuple(vg.fld(st, slot[x]) for x in ('mixture_weights', 'means', 'covariances'))
    weigh = lambda v: tup(Mf(n, k, lambda p: sel(app('resp', *v), p)), app('loglik', *v))
    fails = lambda v: models.boolatom(app('fails', *v))

    def mw(ev, S, args, v):
        q = view(v[0])
        return ite(fails(q), T.err(sym('reason')), T.ok(weigh(q)))

    def up(ev, S, args, v):
        q = step(view(v[0]), v[2])
        st = v[0]
        x = dict(zip((slot[y] for y in ('mixture_weights', 'means', 'covariances')), q))
        ev.store_mref(S, args[0], agg(st.a[0], *[x.get(i, y) for i, y in enumerate(st.a[1:])]))
        return tup()
    step = lambda q, r: tuple(f(app(x, *q, r)) for x, f in (('nweights', lambda t: t), ('nmeans', lambda t: app_some(Mf(k, w, lambda p: sel(t, p)))), ('ncovs', app_some)))
    drawn = {RS: lambda ev, S, args, v: arr_fn(v[1], lambda i: sel(v[0], ZERO))}
    run = lambda st, h: c.run(bt, args={0: by_ref('self', st), 1: X}, opaque=(RS, MW, UP), hooks=dict(drawn, **h))
    r = run(s.S[('A', 'self')], {MW: mw, UP: up})
    z = c.run(bi, args={0: by_ref('self', new), 1: ZERO})
    z = z and run(z.S[('A', 'self')], {MW: mw, UP: up})
    if not r or not z:
        c.add('steps', UNDECIDED, 'value graph', bt, c.err)
        return
    pre = ands(gt(k, ZERO), gt(w, ZERO), ge(n, TWO))
    q0 = view(given(z.S[('A', 'self')], pre))
    r0, l0 = weigh(q0).a[1:]
    q1 = step(q0, r0)
    r1, l1 = weigh(q1).a[1:]
    q2 = step(q1, r1)
    same = lambda x, y: lt(T.absv(sub(x, y)), T.num(1e-15), True)
    got = given(r.S[('A', 'self')], pre)
    stop0, stop1 = same(l0, ZERO), same(l1, l0)
    f0, f1 = fails(q0), fails(q1)
    small = lambda x: b_or(lt(T.absv(x), T.num(1e-15), True), ge(T.absv(x), T.num(1e-15), True))
    pre = ands(pre, small(l0), small(sub(l1, l0)))    # numbers
    bad = b_or(f0, ands(b_not(stop0), f1))
    c.same('steps: fails', 'exactly when the densities of a step cannot be computed', bt, tidy(unrolled(models.opt_is(given(r.ret, pre), 1)), GIVEN, T.implied(pre, T.Env())), bad, pre=pre)
    p2 = b_and(pre, b_not(bad))
    for i, nm in enumerate(('mixture weights', 'means', 'covariances')):
        c.same('steps: ' + nm, 'responsibilities, then maximisation with them, until the log-likelihood stands still or the iterations are used up', bt,
               given(tidy(unrolled(view(got)[i]), GIVEN, T.implied(pre, T.Env())), p2), ite(stop0, q0[i], ite(stop1, q1[i], q2[i])), pre=p2)
