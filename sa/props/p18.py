from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs over an arbitrary class-conditional distribution: what each class is updated with, priors, joint log probabilities and predicted classes after training equal those of a reference '
                       'implementation (specs/lib.rs) that is never run; each of the three distributions over arbitrary parameters of the other classes; untrained, retrained and failed training.'}

M = 'learning::naive_bayes::'
P = M + 'NaiveBayes'


def lik(m, q):
    """a distribution whose likelihood of m queries has m rows"""
    def f(ev, S, args, v):
        t = app('m:Distribution::joint_log_lik', *v)
        d = models.payload(t, 0)
        cl = mul(m, vg.length(v[2]))
        return ite(models.opt_is(t, 0), ok(agg(MATRIX, m, vg.length(v[2]), arr_fn(cl, lambda i: sel(app('m:lik', *v), i)))), err(models.payload(t, 1)))
    return f


def check(c):
    c.known |= {'m:Distribution::joint_log_lik', 'm:Distribution::update_params', 'm:Distribution::from_model_params', 'm:lik'}
    bn, bt, bp = c.method(P, 'new'), c.method(P, 'train', 'SupModel'), c.method(P, 'predict', 'SupModel')
    bl, bd, bc, bk = c.method(P, 'get_log_probs'), c.method(P, 'distr'), c.method(P, 'class_prior'), c.method(P, 'cluster_count')
    n, w, m, k = dim('rows'), dim('cols'), dim('queries'), dim('classes')
    X, Y, Q = Mx('x', n, w), Mx('y', n, k), Mx('q', m, w)
    H = {'Distribution::joint_log_lik': lik(m, Q)}
    r = c.run(bn)
    if r is None:
        c.add('new', UNDECIDED, 'value graph', bn, c.err)
        return
    new = r.full()
    for nm, b in (('predict', bp), ('get_log_probs', bl)):
        r = c.run(b, args={0: new, 1: Q}, hooks=H)
        if r is None:
            c.add(nm + ' before training', UNDECIDED, 'value graph', b, c.err)
        else:
            refuses(c, nm + ' before training', b, r, 'UntrainedModel')
    for nm, b in (('distr', bd), ('class_prior', bc), ('cluster_count', bk)):
        r = c.run(b, args={0: new})
        if r is not None:
            c.same(nm + ' before training', 'none', b, r.full(), NONE)
    old = dirty(new)
    some_ = ands(gt(n, ZERO), gt(w, ZERO), gt(k, ZERO))
    tr = c.run(bt, args={0: by_ref('self', old), 1: X, 2: Y}, hooks=H)
    fit = c.ref('nb_fit', {0: X, 1: Y}, hooks=H)
    if tr is None or fit is None:
        c.add('train', UNDECIDED, 'value graph', bt, c.err)
    else:
        st = tr.S.get(('A', 'self'))
        fine = b_and(some_, models.opt_is(fit.ret, 0))
        c.same('train reports', 'an error exactly when a row names no class or its distribution refuses the rows of a class', bt, models.opt_is(tr.ret, 0), models.opt_is(fit.ret, 0), pre=some_)
        c.same('train panics', 'no panic', bt, tr.panic, FALSE, pre=some_)
        e = models.payload(fit.ret, 1)
        refuses(c, 'train with a row of no class', bt, tr, 'InvalidState', pre=ands(some_, models.opt_is(fit.ret, 1), models.opt_is(e, 0)))
        c.same('train failed', 'a failed training leaves the model as it was', bt, st, old, pre=b_and(some_, models.opt_is(tr.ret, 1)))
        t = models.payload(fit.ret, 0)
        D, pr = fld(t, 0), fld(t, 1)
        good = given(st, fine)
        for nm, b, want in (('distr', bd, D), ('class_prior', bc, pr), ('cluster_count', bk, k)):
            r = c.run(b, args={0: good})
            if r is None:
                c.add(nm + ' after training', UNDECIDED, 'value graph', b, c.err)
                continue
            c.same(nm + ' is there', 'a trained model has it', b, models.opt_is(r.full(), 1), TRUE, pre=fine)
            c.same(nm + ' after training', {'distr': 'each class has seen exactly its rows, once', 'class_prior': 'share of the rows each class has', 'cluster_count': 'number of columns of the targets'}[nm], b,
                   models.payload(r.full(), 1), want, pre=fine)
        for nm, b, ref in (('get_log_probs', bl, 'nb_log_probs'), ('predict', bp, 'nb_predict')):
            r = c.run(b, args={0: good, 1: Q}, hooks=H)
            q = c.ref(ref, {0: given(D, fine), 1: given(pr, fine), 2: Q}, hooks=H)
            if r is None or q is None:
                c.add(nm, UNDECIDED, 'value graph', b, c.err)
                continue
            c.same(nm + ' reports', 'an error exactly when the distribution reports one', b, models.opt_is(r.ret, 0), models.opt_is(q.ret, 0), pre=fine)
            c.same(nm, {'predict': 'one in the column of the first most probable class', 'get_log_probs': 'joint log likelihood; minus infinity for a class without rows'}[nm], b,
                   models.payload(r.full(), 0), models.payload(q.ret, 0), pre=b_and(fine, models.opt_is(q.ret, 0)))
            c.same(nm + ' panics', 'no panic', b, r.panic, FALSE, pre=fine)
    for nm, f in (('Gaussian', gaussian), ('Bernoulli', bernoulli), ('Multinomial', multinomial)):
        distribution(c, nm, f)


def gaussian(D, r, w, q, j):
    m = lambda f: div(total(r, lambda i: sel(mat_data(D), add(mul(i, w), f))), r)
    v = lambda f: div(total(r, lambda i: powr(sub(sel(mat_data(D), add(mul(i, w), f)), m(f)), 2)), sub(r, ONE))
    return neg(mul(HALF, add(total(w, lambda f: ln(mul(mul(TWO, pi), v(f)))), total(w, lambda f: div(powr(sub(q(f), m(f)), 2), v(f))))))


def bernoulli(D, r, w, q, j):
    p = lambda f: div(add(total(r, lambda i: sel(mat_data(D), add(mul(i, w), f))), ONE), add(r, TWO))
    return total(w, lambda f: add(mul(q(f), ln(p(f))), mul(sub(ONE, q(f)), ln(sub(ONE, p(f))))))


def multinomial(D, r, w, q, j):
    p = lambda f: div(add(total(r, lambda i: sel(mat_data(D), add(mul(i, w), f))), ONE),
                      add(total(w, lambda g: total(r, lambda i: sel(mat_data(D), add(mul(i, w), g)))), w))
    return total(w, lambda f: mul(q(f), ln(p(f))))


def arbitrary(v, name='p'):
    """v with any entries in its matrices"""
    if v.op != 'agg':
        return v
    if v.a[0] == MATRIX:
        return agg(MATRIX, v.a[1], v.a[2], arr_fn(mul(v.a[1], v.a[2]), lambda i: sel(sym(name), i)))
    return agg(v.a[0], *[arbitrary(x, '%s%d' % (name, i)) for i, x in enumerate(v.a[1:])])


def distribution(c, nm, f):
    t = M + nm
    bf, bu, bj = (c.method(t, x, 'Distribution') for x in ('from_model_params', 'update_params', 'joint_log_lik'))
    k, w, r, m, cl = dim('classes'), dim('cols'), dim('members'), dim('queries'), dim('class')
    D, Q, pr = Mx('x', r, w), Mx('q', m, w), Vx('prior', k)
    s = c.run(bf, args={0: k, 1: w})
    if s is None:
        c.add(nm, UNDECIDED, 'value graph', bf, c.err)
        return
    before = arbitrary(s.full())
    u = c.run(bu, args={0: by_ref('self', before), 1: D, 2: cl})
    pre = ands(lt(cl, k), gt(w, ZERO), gt(r, ZERO))
    if u is None:
        c.add(nm, UNDECIDED, 'value graph', bu, c.err)
        return
    if nm == 'Gaussian':
        refuses(c, nm + ' of a single row', bu, u, 'InvalidData', pre=b_and(pre, lt(r, TWO)))
        pre = b_and(pre, gt(r, ONE))
    c.same(nm + ' update reports', 'the rows of a class are accepted', bu, b_and(models.opt_is(u.ret, 0), b_not(u.panic)), TRUE, pre=pre)
    after = u.S.get(('A', 'self'))
    g = c.run(bj, args={0: after, 1: Q, 2: pr})
    h = c.run(bj, args={0: before, 1: Q, 2: pr})
    if g is None or h is None:
        c.add(nm + ' likelihood', UNDECIDED, 'value graph', bj, c.err)
        return
    c.same(nm + ' likelihood reports', 'no error, no panic on queries of the right width', bj, b_and(models.opt_is(g.ret, 0), b_not(g.panic)), TRUE, pre=pre)
    G, O = models.payload(g.full(), 0), models.payload(h.full(), 0)
    c.same(nm + ' shape', 'one row per query, one column per class', bj, tup(mat_rows(G), mat_cols(G)), tup(m, k), pre=pre)
    i, j = dim('query'), dim('other')
    pre = b_and(pre, lt(i, m))
    entry = lambda M, i, j, pre: settled(products(settled(sel(mat_data(M), add(mul(i, k), j)), pre)), pre)
    row = lambda x: sel(mat_data(Q), add(mul(i, w), x))
    rule = 'joint log likelihood under the parameters estimated from the rows of the class'
    c.same(nm + ' likelihood', rule, bj, entry(G, i, cl, pre), add(ln(sel(pr, cl)), f(D, r, w, row, cl)), pre=pre)
    for x, y in (('earlier', lt(j, cl)), ('later', ands(lt(cl, j), lt(j, k)))):
        y = b_and(pre, y)
        c.same('%s %s classes' % (nm, x), 'the update of one class leaves the others alone', bj, entry(G, i, j, y), entry(O, i, j, y), pre=y)
