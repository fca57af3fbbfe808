from ..spec import *
from ..core import *

G = 'learning::glm::'
INFO = {'level': 'proof',
        'explanation': 'Value graphs of the link functions: the gradient is the symbolic derivative, the inverse undoes the link. For each family, on vectors of symbolic length and an arbitrary index: '
                       'the working weight is 1/(Var(u) g\'(u)^2), the adjustment is g\'(u)(y-u), the link is the canonical one (Var(u) g\'(u) = 1), and the starting mean lies strictly inside the domain of the link. '
                       'Prediction is the inverse link of intercept plus weighted inputs.'}


def check(c):
    F = c.F
    x = sym('x', 'f')
    forms = {'Logit': ln(div(x, sub(ONE, x))), 'Log': ln(x), 'Identity': x}
    inverse = {'Logit': div(ONE, add(ONE, exp(neg(x)))), 'Log': exp(x), 'Identity': x}
    for n in sorted(forms):
        r = {}
        for m in ('func', 'func_grad', 'func_inv'):
            try:
                b = c.method(G + n, m, 'LinkFunc')
            except Missing:
                continue
            q = c.run(b, names=['x'])
            if q is None:
                c.add('%s::%s' % (n, m), UNDECIDED, 'value graph', b, c.err)
                continue
            r[m] = (b, q.full())
        inside = ands(gt(x, ZERO, True), lt(x, ONE, True)) if n == 'Logit' else gt(x, ZERO, True) if n == 'Log' else TRUE
        if 'func' in r:
            c.same('%s::func' % n, 'the link is the function it is named after', r['func'][0], r['func'][1], forms[n], pre=inside)
        if 'func_grad' in r:
            c.same('%s::func_grad' % n, 'gradient = derivative of the link', r['func_grad'][0], r['func_grad'][1], diff(forms[n], x), pre=inside)
        if 'func_inv' in r:
            c.same('%s::func_inv' % n, 'the inverse link undoes the link', r['func_inv'][0], r['func_inv'][1], inverse[n])
    n, i = dim('n'), sym('i', 'u')
    mu, y = Vx('mu', n), Vx('y', n)
    mi, yi = sel(mu, i), sel(y, i)
    lo, hi = num('1/256'), num('255/256')
    within = lambda t: ands(gt(t, lo, True), lt(t, hi, True))
    env = Env()
    env.bounded(i, n)
    for fam, link in (('Bernoulli', 'Logit'), ('Normal', 'Identity'), ('Poisson', 'Log')):
        self_ = agg(('adt', G + fam, 0, fam))
        lp = F.assoc_type(G + fam, 'Criterion', 'Link')
        if lp is None:
            c.add(fam + '::Link', VIOLATED, 'the family names its link function')
            continue
        assoc = {'LinkFunc': lp, 'Criterion': G + fam}
        g1 = diff(forms[link], x)
        g = lambda t: subst(g1, {x: t})

        def method(m):
            bs = F.method(G + fam, m, 'Criterion')
            b = bs[0] if bs else F.body(G + 'Criterion::' + m)
            if b is None:
                c.add('%s::%s' % (fam, m), VIOLATED, 'the family provides this part of the criterion')
                raise Missing()
            return c.check_body(b, '%s::%s' % (fam, m)), not bs

        def go(m, args):
            b, provided = method(m)
            r = c.run(b, args=args, assoc=assoc)
            if r is None:
                c.add('%s::%s' % (fam, m), UNDECIDED, 'value graph', b, c.err)
                raise Missing()
            return b, r.full()
        try:
            b, v = go('model_variance', {0: self_, 1: x})
            c.same(fam + '::model_variance', 'the link is canonical for the family: Var(u) * g\'(u) = 1', b, mul(v, g1), ONE, pre=within(x))
        except Missing:
            pass
        pre = ands(within(mi), within(yi), lt(i, n))
        try:
            b, w = go('compute_working_weight', {0: self_, 1: mu})
            c.same(fam + '::compute_working_weight', 'weight = 1/(Var(u) g\'(u)^2)', b, tup(length(w), sel(w, i)), tup(n, div(ONE, g(mi))), pre=pre, env=env)
        except Missing:
            pass
        try:
            b, w = go('compute_y_bar', {0: self_, 1: y, 2: mu})
            far = b_not(ands(lt(sub(yi, mi), num('1/1000000000'), True), gt(sub(yi, mi), num('-1/1000000000'), True)))
            c.same(fam + '::compute_y_bar', 'adjustment = g\'(u) * (y - u)', b, tup(length(w), sel(w, i)), tup(n, mul(g(mi), sub(yi, mi))), pre=b_and(pre, far), env=env)
        except Missing:
            pass
        try:
            b, w = go('initialize_mu', {0: self_, 1: y})
            ok_ = ands(ge(yi, ZERO, True), le(yi, ONE, True)) if link == 'Logit' else ge(yi, ZERO, True) if link == 'Log' else TRUE
            e = sel(w, i)
            dom = ands(gt(e, ZERO, True), lt(e, ONE, True)) if link == 'Logit' else gt(e, ZERO, True) if link == 'Log' else TRUE
            c.same(fam + '::initialize_mu', 'one starting mean per target, strictly inside the domain of the link', b, tup(length(w), dom), tup(n, TRUE), pre=b_and(ok_, lt(i, n)), env=env)
            if link != 'Logit':
                c.same(fam + '::initialize_mu value', 'the starting mean is the target where the link is defined', b, e, yi, pre=b_and(within(yi), lt(i, n)), env=env)
            for yv in ({'Bernoulli': (0, 1), 'Poisson': (0, 3)}.get(fam, ())):
                wv = c.run(b, args={0: self_, 1: vec(n, lambda k: num(yv))}, assoc=assoc)
                e = sel(wv.full(), i)
                dom = ands(gt(e, ZERO, True), lt(e, ONE, True)) if link == 'Logit' else gt(e, ZERO, True)
                c.same(fam + '::initialize_mu(%d)' % yv, 'the starting mean lies strictly inside the domain of the link', b, ite(lt(i, n), dom, UNDEF), ite(lt(i, n), TRUE, UNDEF), env=env)
        except Missing:
            pass
        for m, form in (('apply_link_func', forms[link]), ('apply_link_inv', inverse[link])):
            try:
                v = Vx('v', n)
                b, w = go(m, {0: self_, 1: v})
                vi = sel(v, i)
                p = lt(i, n)
                if m == 'apply_link_func':
                    p = b_and(p, within(vi))
                c.same('%s::%s' % (fam, m), 'applied to every element', b, tup(length(w), sel(w, i)), tup(n, subst(form, {x: vi})), pre=p, env=env)
            except Missing:
                pass
    provided(c)
    predict(c)


def predict(c):
    M = G + 'GenLinearModel'
    r, w = dim('rows'), dim('cols')
    X = Mx('x', r, w)
    try:
        bt, bp = c.method(M, 'train', 'SupModel'), c.method(M, 'predict', 'SupModel')
    except Missing:
        return
    q = c.run(bp, args={1: X})
    if q is None:
        c.add('GenLinearModel::predict', UNDECIDED, 'value graph', bp, c.err)
        return
    t = q.full()
    # the coefficient vector: the payload of the only optional field of the model
    ds = [s for s in subterms(t) if s.op == 'app' and s.a[0] == 'fld' and s.a[2].op == 'app' and s.a[2].a[0] == 'as']
    if len(set(ds)) != 1:
        c.add('GenLinearModel::predict', UNDECIDED, 'prediction = inverse link of intercept + weighted inputs', bp, 'the coefficients are not one optional vector: %s' % show(t)[:300])
        return
    p = ds[0]
    good = models.opt_is(p.a[2].a[2], 1)
    lin = lambda i: add(sel(p, ZERO), total(w, lambda j: mul(sel(p, add(j, ONE)), sel(sym('x'), add(mul(i, w), j)))))
    want = lambda f: ok(vec(r, lambda i: f(lin(i))))
    inv = lambda z: app('m:LinkFunc::func_inv', z)
    cand = [z for z in subterms(t) if z.op == 'app' and isinstance(z.a[0], str) and z.a[0].startswith('m:') and z.a[0].endswith('func_inv')]
    c.same('GenLinearModel::predict', 'prediction = inverse link of intercept + weighted inputs', bp, ite(good, t, UNDEF), ite(good, want(inv), UNDEF))


def provided(c):
    """the parts of the criterion a family inherits, over an arbitrary family"""
    n, i = dim('n'), sym('i', 'u')
    mu, y, me = Vx('mu', n), Vx('y', n), sym('family')
    env = Env()
    env.bounded(i, n)
    pre = lt(i, n)
    var = lambda t: app('m:Criterion::model_variance', me, t)
    grad = lambda t: app('m:Criterion::link_grad', me, t)
    mi, yi = sel(mu, i), sel(y, i)
    for m, args, rule, form in (('compute_working_weight', {0: me, 1: mu}, "weight = 1/(Var(u) g'(u)^2)", lambda g: div(ONE, mul(var(mi), powr(g(mi), 2)))),
                                ('compute_y_bar', {0: me, 1: y, 2: mu}, "adjustment = g'(u) * (y - u)", lambda g: mul(g(mi), sub(yi, mi))),
                                ('initialize_mu', {0: me, 1: y}, 'the starting mean is the target', lambda g: yi)):
        b = c.F.body(G + 'Criterion::' + m)
        if b is None:
            continue        # every family then provides its own, checked above
        c.see(b)
        q = c.run(b, args=args)
        if q is None:
            c.add('Criterion::' + m, UNDECIDED, 'value graph', b, c.err)
            continue
        t = q.full()
        # the gradient may be asked of the family or of its link directly
        forms = [form(grad), form(lambda u: app('m:LinkFunc::func_grad', u))]
        c.same('Criterion::' + m, rule, b, tup(length(t), sel(t, i)), [tup(n, f) for f in forms], pre=pre, env=env)
