from ..spec import *
from ..core import *

INFO = {'level': 'proof',
        'explanation': 'Value graph of the whole cross validation with an arbitrary model, score, shape and number of folds: what the model is trained on, tested on and scored against in round i, and when it fails.'}


def L1(n, f, sort='u'):
    v = fresh(n, sort)
    return lam(v, f(v))


def rounds(n, w, wt, k, perm, start):
    x = lambda i, j: sel(sym('x'), add(mul(i, w), j))
    t = lambda i, j: sel(sym('t'), add(mul(i, wt), j))
    size = lambda i: sub(start(add(i, ONE)), start(i))
    p = lambda r: sel(perm, r)

    def rest(i, r):
        a = start(i)
        return ite(lt(r, a), p(r), p(add(r, size(i))))
    test = lambda i, f, c: Mij(size(i), c, lambda r, j: f(p(add(start(i), r)), j))
    train = lambda i, f, c: Mij(sub(n, size(i)), c, lambda r, j: f(rest(i, r), j))
    return lambda i: (train(i, x, w), train(i, t, wt), test(i, x, w), test(i, t, wt))


def check(c):
    b = c.fn('analysis::cross_validation::k_fold_validate')
    sh = c.fn('learning::toolkit::rand_utils::in_place_fisher_yates')
    n, w, wt, k = dim('rows'), dim('cols'), dim('tcols'), dim('k')
    X, Tm = Mx('x', n, w), Mx('t', n, wt)
    score = sym('score')
    key = 'k_fold_validate '
    root = ('A', 'indices')

    def start(sess, S):
        S[root] = arr(n, L1('i', lambda i: i))
        return vg.mref(root, ())
    s = c.run(sh, args={0: start})
    if s is None:
        c.add(key, UNDECIDED, 'value graph of the shuffle', sh, c.err)
        return
    perm = s.final('indices')
    good = ands(ge(k, num(2)), le(k, n))
    q = idiv(n, k)
    m = sub(n, mul(q, k))
    small = lambda a, b: ite(lt(a, b), a, b)
    starts = [lambda i: add(mul(i, q), small(i, m)), lambda i: add(mul(i, q), ite(lt(i, sub(k, m)), ZERO, sub(i, sub(k, m)))), lambda i: idiv(mul(i, n), k)]
    rds = [rounds(n, w, wt, k, perm, st) for st in starts]

    # a model that remembers exactly what it was last trained on and never fails
    def train(ev, S, args, v):
        ev.store_mref(S, args[0], app('m:trained', v[1], v[2]))
        return ok(UNIT)
    run = lambda tr, pr: c.run(b, args={1: X, 2: Tm, 3: k}, budget=c.budget * 4, hooks={'SupModel::train': tr, 'SupModel::predict': pr})
    r = run(train, lambda ev, S, args, v: ok(app('m:predicted', v[0], v[1])))
    if r is None:
        c.add(key, UNDECIDED, 'value graph', b, c.err)
        return
    c.same(key + 'refuses', 'between 2 and rows folds, as many targets as inputs', b, r.panic, b_not(good))
    want = [ok(vec(k, lambda i: app('call', score, app('m:predicted', app('m:trained', *rd(i)[:2]), rd(i)[2]), rd(i)[3]))) for rd in rds]
    c.same(key + 'rounds', 'round i trains on all rows but fold i and scores the predictions of fold i against its targets', b, r.full(), want, pre=good)
    # training and prediction may fail
    def train2(ev, S, args, v):
        ev.store_mref(S, args[0], app('m:trained', v[1], v[2]))
        return app('m:training', v[1], v[2])
    r = run(train2, lambda ev, S, args, v: app('m:prediction', v[0], v[1]))
    if r is None:
        c.add(key + 'failure', UNDECIDED, 'value graph', b, c.err)
        return
    fails = []
    for rd in rds[:1]:
        tr = lambda i: app('m:training', *rd(i)[:2])
        pr = lambda i: app('m:prediction', app('m:trained', *rd(i)[:2]), rd(i)[2])
        fails.append(some_i(k, lambda i: ors(models.opt_is(tr(i), 1), models.opt_is(pr(i), 1))))
    c.same(key + 'failure', 'a training or prediction that fails in any round is reported as an error', b, models.opt_is(r.full(), 1), fails, pre=good)
