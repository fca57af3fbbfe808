import math
from ..terms import *
from ..core import *
from .. import ri

G, E = 'stats::dist::gaussian::Gaussian', 'stats::dist::exponential::Exponential'
INFO = {'level': 'proof',
        'explanation': 'Each distribution object is taken as its constructors build it (value graph of the constructor) and passed into the value graphs of '
                       'pdf, logpdf, cdf and the two samplers; normal forms are compared with the defining densities: logpdf = ln pdf, cdf(0)=0 and cdf\' = pdf for the '
                       'exponential, the documented symmetric cdf approximation for the Gaussian, samples = location/scale transform of one draw from the given generator.'}


def check(c):
    F = c.F
    x = sym('x', 'f')
    m, v, sd, lam = sym('mean', 'f'), sym('variance', 'f'), sym('std_dev', 'f'), sym('lambda', 'f')
    pos = (v, sd, lam)
    two = num(2)
    pi = mk('app', 'pi')

    def objs(path, ctors):
        out = []
        for n, names in ctors:
            try:
                b = c.method(path, n, 'Default' if n == 'default' else None)
            except Missing:
                continue
            r = c.run(b, names=names)
            if r is None:
                c.add('%s::%s' % (path, n), UNDECIDED, 'value graph', b, c.err)
                continue
            ok_ = cmpop('Gt', lam if path == E else (v if n == 'new' else sd), ZERO, False) if n != 'default' else TRUE
            c.same('%s::%s accepts valid parameters' % (path.split('::')[-1], n), 'no panic for positive scale', b, ite(ok_, r.panic, UNDEF), ite(ok_, FALSE, UNDEF), pos=pos)
            out.append((n, b, r.ret))
        return out

    def meth(path, o, name, trait, names=('x',)):
        try:
            b = c.method(path, name, trait)
        except Missing:
            return None, None
        args = {0: o}
        r = c.run(b, names=['self'] + list(names), args=args)
        if r is None:
            c.add('%s::%s' % (path, name), UNDECIDED, 'value graph', b, c.err)
        return b, r

    # ------------------------------------------------------------ Gaussian
    for n, cb, o in objs(G, (('new', ['mean', 'variance']), ('from_std_dev', ['mean', 'std_dev']), ('default', []))):
        mu = m if n != 'default' else ZERO
        s = sqrt(v) if n == 'new' else sd if n == 'from_std_dev' else ONE
        z = div(sub(x, mu), s)
        pdf = div(exp(neg(div(mul(z, z), two))), mul(s, sqrt(mul(two, pi))))
        k = 'Gaussian(%s)' % n
        b, r = meth(G, o, 'pdf', 'Distribution')
        if r:
            c.same(k + '.pdf', 'pdf = exp(-z^2/2)/(sd*sqrt(2 pi))', b, r.full(), pdf, pos=pos)
        b, r = meth(G, o, 'logpdf', 'Distribution')
        if r:
            lp = sub(sub(neg(div(mul(z, z), two)), ln(s)), div(ln(mul(two, pi)), two))
            c.same(k + '.logpdf', 'logpdf = ln pdf', b, r.full(), lp, pos=pos)
        b, r = meth(G, o, 'cdf', 'Distribution')
        if r:
            root = sqrt(sub(ONE, exp(neg(div(mul(two, mul(z, z)), pi)))))
            d = sub(x, mu)
            sg = ite(cmpop('Lt', d, ZERO, True), num(-1), ONE)
            polya = div(add(ONE, mul(sg, root)), two)
            full = r.full()
            try:
                same = equal(full, polya) is None and not unknowns(full)
            except Undecided:
                same = False
            if same:
                c.add(k + '.cdf', PROVED, 'cdf = 1/2(1+sgn(z)sqrt(1-exp(-2z^2/pi))), whose distance to the normal cdf is below 0.004', b)
            else:
                bad, used = off_cdf(full, x, mu, s, c.seed, pos)
                if bad:
                    c.add(k + '.cdf', VIOLATED, 'cdf within 0.004 of the normal cdf', b, 'derived %s\n  %s' % (show(full)[:400], bad))
                else:
                    c.add(k + '.cdf', UNDECIDED, 'cdf within 0.004 of the normal cdf', b, 'another approximation (%d valuations)' % used)
        for nm, tr in (('sample', 'Sample'), ('ind_sample', 'IndependentSample')):
            sample(c, meth, G, o, nm, tr, k, lambda d: add(mu, mul(s, d)), 'gen StandardNormal', pos)
    # ------------------------------------------------------------ Exponential
    for n, cb, o in objs(E, (('new', ['lambda']), ('default', []))):
        l = lam if n == 'new' else ONE
        k = 'Exponential(%s)' % n
        ge = cmpop('Ge', x, ZERO, True)
        forms = {'pdf': mul(l, exp(neg(mul(l, x)))), 'logpdf': sub(ln(l), mul(l, x)), 'cdf': sub(ONE, exp(neg(mul(l, x))))}
        for nm, f in sorted(forms.items()):
            b, r = meth(E, o, nm, 'Distribution')
            if r:
                c.same(k + '.' + nm, {'pdf': 'pdf = l*exp(-l*x) for x >= 0', 'logpdf': 'logpdf = ln pdf', 'cdf': "cdf(0) = 0 and cdf' = pdf"}[nm], b, ite(ge, r.full(), UNDEF), ite(ge, f, UNDEF), pos=pos)
                c.same(k + '.' + nm + ' refuses negative points', 'panics exactly for x outside the support', b, r.panic, b_not(ge))
        b = c.method(E, 'lambda')
        r = c.run(b, names=['self'], args={0: o})
        if r:
            c.same(k + '.lambda', 'accessor returns the parameter', b, r.full(), l)
        for nm, tr in (('sample', 'Sample'), ('ind_sample', 'IndependentSample')):
            sample(c, meth, E, o, nm, tr, k, lambda d: div(d, l), 'gen Exp1', pos)
    # ------------------------------------------------------------ the provided logpdf
    try:
        b = c.fn('stats::dist::Distribution::logpdf')
        r = c.run(b)
        if r:
            want = ln(app('m:Distribution::pdf', sym('self'), r.args[1]))
            c.same('Distribution::logpdf provided method', 'logpdf = ln pdf', b, r.full(), want)
    except Missing:
        pass
    for n, w in (('SQRT_2_PI', sqrt(mul(two, pi))), ('LN_2_PI', ln(mul(two, pi)))):
        b = F.body('stats::dist::consts::' + n)
        if b is not None and 'blocks' in b:
            c.see(b)
            r = c.run(b)
            if r:
                c.same('consts::' + n, 'the constant is the nearest double', b, r.ret, w)


def sample(c, meth, path, o, nm, tr, k, form, kind, pos):
    try:
        b = c.method(path, nm, tr)
    except Missing:
        return
    mref_self = b['locals'][1]
    t = c.F.ty(mref_self['t'])
    if t.get('m'):
        def a0(S, st, o=o, t=t):
            root = ('A', 'self')
            st[root] = o
            S.types[root] = t['t']
            st[('G', 'rng', root)] = ZERO
            return vg.mref(root, ())
        arg = a0
    else:
        arg = o
    r = c.run(b, names=['self', 'rng'], args={0: arg})
    if r is None:
        c.add(k + '.' + nm, UNDECIDED, 'value graph', b, c.err)
        return
    d = [t for t in subterms(r.ret) if t.op == 'app' and t.a[0] == 'draw'] if True else []
    src = None
    for t in d:
        src = t
    # exactly one draw of the standard variate, from the generator passed in
    if len(d) != 1:
        if unknowns(r.ret) or any(x.op == 'app' and x.a[0] in ('fold', 'sum') for x in subterms(r.ret)):
            c.add(k + '.' + nm, UNDECIDED, 'one standard variate, shifted and scaled', b, show(r.ret)[:300])
        else:
            c.add(k + '.' + nm, VIOLATED if not d else UNDECIDED, 'one standard variate, shifted and scaled', b, '%d draws in %s' % (len(d), show(r.ret)[:300]))
        return
    t = d[0]
    kd = t.a[3].a[0] if t.a[3].op == 'str' else '?'
    if kd != kind:
        c.add(k + '.' + nm, VIOLATED if kd in ('gen StandardNormal', 'gen Exp1') or kd.startswith('unit') else UNDECIDED, 'the variate is drawn from the right standard distribution', b, 'draws %s' % kd)
        return
    if not (t.a[1].op == 'sym' and t.a[1].a[0] == 'rng' or t.a[1].op == 'str' and t.a[1].a[0] == 'rng'):
        c.add(k + '.' + nm + ' source', VIOLATED, 'the caller\'s generator is the only source of randomness', b, 'draws from %s' % show(t.a[1]))
    else:
        c.add(k + '.' + nm + ' source', PROVED, 'the caller\'s generator is the only source of randomness', b)
    base = app('fld', ZERO, t) if any(x.op == 'app' and x.a[0] == 'fld' for x in subterms(r.ret)) else t
    base = [x for x in subterms(r.ret) if x.op == 'app' and x.a[0] == 'fld' and x.a[2] is t]
    base = base[0] if base else t
    d0 = sym('standard variate', 'f')
    c.same(k + '.' + nm, 'sample = location + scale * standard variate', b, subst_atoms(r.full(), {base: d0}), form(d0), pos=pos + ((d0,) if 'Exp' in kind else ()))


def off_cdf(full, x, mu, s, seed, pos):
    used = 0
    for i in range(400):
        w = ri.Val((seed, 'cdf', i), pos=pos)
        try:
            got = w.numof(w.ev(full, {}))
            num_, den = float(w.numof(w.ev(x, {}))) - float(w.numof(w.ev(mu, {}))), w.numof(w.ev(s, {}))
            z = num_ / float(den)
        except (ri.Skip, ZeroDivisionError, OverflowError):
            continue
        used += 1
        want = 0.5 * (1 + math.erf(float(z) / math.sqrt(2)))
        if abs(float(got) - want) > 0.004:
            return 'at %s: %s against %s' % (', '.join('%s=%s' % p for p in w.log.items()), float(got), want), used
    return None, used
