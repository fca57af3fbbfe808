from ..spec import *
from ..core import *

K = 'learning::toolkit::kernel::'
INFO = {'level': 'proof',
        'explanation': 'Each kernel object is taken as its constructor (and its Default) builds it and passed into the value graph of its kernel function on two points of one symbolic '
                       'dimension; the normal form must be the documented formula and must be unchanged when the points are exchanged. Sum and product kernels are checked over arbitrary parts.'}


def check(c):
    F = c.F
    n = dim('n')
    X, Y = Vx('x1', n), Vx('x2', n)
    dot = total(n, lambda i: mul(sel(X, i), sel(Y, i)))
    sq = total(n, lambda i: powr(sub(sel(X, i), sel(Y, i)), 2))
    s = {k: sym(k, 'f') for k in ('c', 'alpha', 'd', 'ls', 'ampl')}
    pos = (s['ls'], s['alpha'], s['ampl'])
    sqd = div(sq, mul(TWO, powr(s['ls'], 2)))
    spec = {
        'Linear': (['c'], {'c': ZERO}, add(dot, s['c'])),
        'Polynomial': (['alpha', 'c', 'd'], {'alpha': ONE, 'c': ZERO, 'd': ONE}, models.powf(add(mul(s['alpha'], dot), s['c']), s['d'])),
        'SquaredExp': (['ls', 'ampl'], {'ls': ONE, 'ampl': ONE}, mul(s['ampl'], exp(neg(sqd)))),
        'Exponential': (['ls', 'ampl'], {'ls': ONE, 'ampl': ONE}, mul(s['ampl'], exp(neg(div(sqrt(sq), mul(TWO, powr(s['ls'], 2))))))),
        'HyperTan': (['alpha', 'c'], {'alpha': ONE, 'c': ZERO}, tanh(add(mul(s['alpha'], dot), s['c']))),
        'Multiquadric': (['c'], {'c': ZERO}, sqrt(add(sq, powr(s['c'], 2)))),
        'RationalQuadratic': (['alpha', 'ls'], {'alpha': ONE, 'ls': ONE}, models.powf(add(ONE, div(sq, mul(mul(TWO, s['alpha']), powr(s['ls'], 2)))), neg(s['alpha']))),
    }
    for name, (params, dflt, form) in sorted(spec.items()):
        try:
            bn, bd, bk = c.method(K + name, 'new'), c.method(K + name, 'default', 'Default'), c.method(K + name, 'kernel', 'Kernel')
        except Missing:
            continue
        for ctor, b, f in (('new', bn, form), ('default', bd, None)):
            r = c.run(b, names=params)
            if r is None:
                c.add('%s::%s' % (name, ctor), UNDECIDED, 'value graph', b, c.err)
                continue
            if f is None:
                f = subst(form, {s[p]: v for p, v in dflt.items()})
            q = c.run(bk, args={0: r.full(), 1: X, 2: Y})
            key = '%s(%s)' % (name, ctor)
            if q is None:
                c.add(key, UNDECIDED, 'value graph', bk, c.err)
                continue
            c.same(key + '.kernel', 'kernel(x,y) = the documented formula', bk, q.full(), f, pos=pos)
            q2 = c.run(bk, args={0: r.full(), 1: Y, 2: X})
            c.same(key + ' symmetric', 'kernel(x,y) = kernel(y,x)', bk, q2 and q2.full(), q.full(), pos=pos)
    # combinations, over arbitrary kernels
    x, y = sym('x1'), sym('x2')
    shipped = set(K + n for n in spec)
    for im in F.impls:
        if not im['trait'] or im['trait'].split('::')[-1] != 'Kernel':
            continue
        p = F.adt_path(im['self'])
        if p in shipped:
            continue
        n = p.split('::')[-1]
        try:
            bk = c.method(p, 'kernel', 'Kernel')
        except Missing:
            continue
        op = {'KernelSum': add, 'KernelProd': mul}.get(n)
        if op:
            # parts reached through the operators on KernelArith, the public way to combine kernels
            opn = 'add' if n == 'KernelSum' else 'mul'
            ba = c.method(K + 'KernelArith', opn, 'Add' if opn == 'add' else 'Mul')
            r = c.run(ba, args={0: agg(('adt', K + 'KernelArith', 0, 'KernelArith'), sym('k1')), 1: agg(('adt', K + 'KernelArith', 0, 'KernelArith'), sym('k2'))})
            if r is None:
                c.add('KernelArith ' + opn, UNDECIDED, 'value graph', ba, c.err)
                continue
            val = r.full()
            q = c.run(bk, args={0: val, 1: x, 2: y})
            ks = [app('m:Kernel::kernel', sym(k), x, y) for k in ('k1', 'k2')]
            c.same('KernelArith %s' % opn, 'the combined kernel is the %s of the two kernels' % ('sum' if opn == 'add' else 'product'), bk, q and q.full(), op(*ks))
    for t in ('KernelSum', 'KernelProd'):
        if not any(im['trait'] and im['trait'].split('::')[-1] == 'Kernel' and F.adt_path(im['self']) == K + t for im in F.impls):
            c.add(t, VIOLATED, 'sums and products of kernels are kernels')
