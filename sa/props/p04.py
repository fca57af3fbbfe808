from ..core import *
from .. import interval as iv
from ..interval import I, INF, MAX, GiveUp

AF = 'learning::toolkit::activ_fn::'
G, E = 'stats::dist::gaussian::Gaussian', 'stats::dist::exponential::Exponential'
INFO = {'level': 'proof',
        'trusted': ['rustc (type checking, MIR)', '/verif/driver (MIR export)', '/verif/sa/interval.py (interval semantics of float operations, libm within 4 ulps)'],
        'explanation': 'Interval analysis with a NaN flag on the MIR of the scalar functions, over a cover of the whole finite input range by boxes that are refined where '
                       'the answer is open. A violation is reported only for a box on which every result is NaN or outside the required range.'}
TOL = 1e-9


def check(c):
    F = c.F
    full = (-MAX, MAX)
    R = {'Sigmoid': (0, 1), 'Tanh': (-1, 1), 'Linear': full, 'Exp': (0, INF)}
    for n, rng in sorted(R.items()):
        s = AF + n
        one(c, s, 'func', 'ActivationFunc', n + '::func', [full], rng)
        one(c, s, 'func_grad', 'ActivationFunc', n + '::func_grad', [full], {'Sigmoid': (0, 1), 'Tanh': (0, 1), 'Linear': (1, 1), 'Exp': (0, INF)}[n])
        dom = (rng[0], min(rng[1], MAX))
        one(c, s, 'func_grad_from_output', 'ActivationFunc', n + '::func_grad_from_output', [dom], {'Sigmoid': (0, 1), 'Tanh': (0, 1), 'Linear': (1, 1), 'Exp': (0, INF)}[n])
        one(c, s, 'func_inv', 'ActivationFunc', n + '::func_inv', [dom], (-INF, INF))
    big = (-1e100, 1e100)
    sc = (1e-100, 1e100)
    for ctor, trait, dom in (('new', None, [big, sc]), ('from_std_dev', None, [big, (1e-50, 1e50)]), ('default', 'Default', [])):
        dist(c, G, ctor, trait, dom, full, {'pdf': (0, INF), 'cdf': (0, 1), 'logpdf': (-INF, INF)})
    for ctor, trait, dom in (('new', None, [sc]), ('default', 'Default', [])):
        dist(c, E, ctor, trait, dom, (0.0, MAX), {'pdf': (0, INF), 'cdf': (0, 1), 'logpdf': (-INF, INF)})
    mid_, msc = (-1e50, 1e50), (1e-50, 1e50)
    fin = {'logpdf': (-MAX, MAX)}
    for ctor, trait, dom in (('new', None, [mid_, msc]), ('from_std_dev', None, [mid_, (1e-25, 1e25)]), ('default', 'Default', [])):
        dist(c, G, ctor, trait, dom, mid_, fin, ' is finite')
    for ctor, trait, dom in (('new', None, [msc]), ('default', 'Default', [])):
        dist(c, E, ctor, trait, dom, (0.0, 1e50), fin, ' is finite')


def dist(c, path, ctor, trait, dom, xdom, methods, tag=''):
    try:
        cb = c.method(path, ctor, trait)
    except Missing:
        return
    for m, rng in sorted(methods.items()):
        try:
            b = c.method(path, m, 'Distribution')
        except Missing:
            continue
        key = '%s(%s).%s' % (path.split('::')[-1], ctor, m) + tag

        def run(bx):
            def mk(r, tab):
                ps = [r.val(('in', i), I(lo, hi), tab) for i, (lo, hi) in enumerate(bx[:-1])]
                os = r.call(cb, ps, tab)
                if len(os) != 1:
                    raise GiveUp('constructor')
                o, t2 = os[0]
                tab.update(t2)
                return [o, r.val(('in', 'x'), I(*bx[-1]), tab)]
            return iv.analyse(c.F, b, mk)
        decide(c, key, b, [coarse(d) for d in dom] + [iv.boxes(*xdom)], run, rng)


def coarse(d):
    e = [x for x in (-1.0, 1.0) if d[0] < x < d[1]]
    e = [d[0]] + e + [d[1]]
    return list(zip(e, e[1:]))


def one(c, s, name, trait, key, doms, rng):
    try:
        b = c.method(s, name, trait)
    except Missing:
        return

    def run(bx):
        return iv.analyse(c.F, b, lambda r, tab: [r.val(('in', i), I(lo, hi), tab) for i, (lo, hi) in enumerate(bx)])
    decide(c, key, b, [iv.boxes(*d) for d in doms], run, rng)


def decide(c, key, b, doms, run, rng):
    import itertools, collections
    rule = 'finite input never gives NaN, and the result lies in [%g, %g]' % rng
    lob = rng[0] - (TOL * max(1, abs(rng[0])) if abs(rng[0]) < 1e300 else 0)
    hib = rng[1] + (TOL * max(1, abs(rng[1])) if abs(rng[1]) < 1e300 else 0)
    work = collections.deque((bx, 0) for bx in itertools.product(*doms))
    n = openb = 0
    ex = ''
    while work:
        bx, depth = work.popleft()
        n += 1
        if n > 6000:
            openb += 1
            break
        try:
            outs, seen = run(bx)
        except GiveUp as e:
            c.add(key, UNDECIDED, rule, b, 'not analysed: %s' % e)
            return
        for x in seen:
            c.covered[x] = 1
        good = all(not o.empty and not o.nan and o.lo >= lob and o.hi <= hib for o in outs)
        if good:
            continue
        bad = [o for o in outs if o.empty or o.lo > hib or o.hi < lob]
        if bad and len(bad) == len(outs):
            c.add(key, VIOLATED, rule, b, 'for every input in %s the result is %s' % (' x '.join('[%.17g, %.17g]' % q for q in bx), bad[0]))
            return
        w = max(range(len(bx)), key=lambda i: span(bx[i]) if bx[i][0] != bx[i][1] else -1)
        m = mid(*bx[w])
        if depth >= 14 or m is None:
            openb += 1
            ex = '%s gives %s' % (bx, outs)
            continue
        for q in ((bx[w][0], m), (m, bx[w][1])):
            work.append((bx[:w] + (q,) + bx[w + 1:], depth + 1))
    c.stats['boxes'] = c.stats.get('boxes', 0) + n
    if openb:
        c.add(key, UNDECIDED, rule, b, '%d boxes stay open, e.g. %s' % (openb, ex))
    else:
        c.add(key, PROVED, rule, b)


def span(q):
    import struct
    return ordn(q[1]) - ordn(q[0])


def ordn(x):
    import struct
    n = struct.unpack('<q', struct.pack('<d', x))[0]
    return n if n >= 0 else -(n & 0x7fffffffffffffff)


def unord(n):
    import struct
    return struct.unpack('<d', struct.pack('<q', n))[0] if n >= 0 else -struct.unpack('<d', struct.pack('<q', -n))[0]


def mid(lo, hi):
    a, b = ordn(lo), ordn(hi)
    if b - a < 2:
        return None
    return unord((a + b) // 2)
