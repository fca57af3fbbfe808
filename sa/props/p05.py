from ..spec import *
from ..core import *

CF = 'learning::toolkit::cost_fn::'
INFO = {'level': 'proof',
        'explanation': 'For every implementation of the cost trait, on matrices and on vectors, the value graphs of cost and gradient are derived for outputs and targets '
                       'of one shape with a symbolic number of rows and columns. The cost equals its defining mean over rows; the gradient has the shape of the outputs and each entry equals '
                       'the derivative (symbolic differentiation) of the summand of that entry.'}


def check(c):
    F = c.F
    r, w, k = dim('rows'), dim('cols'), sym('k', 'u')
    o, t = sym('o', 'f'), sym('t', 'f')
    losses = {'MeanSqError': div(powr(sub(o, t), 2), TWO),
              'CrossEntropyError': neg(add(mul(t, ln(o)), mul(sub(ONE, t), ln(sub(ONE, o)))))}
    found = {n: 0 for n in losses}
    for im in F.impls:
        if not im['trait'] or im['trait'].split('::')[-1] != 'CostFunc':
            continue
        n = F.adt_path(im['self']).split('::')[-1]
        items = dict(im['items'])
        for m in ('cost', 'grad_cost'):
            b = F.body(items.get(m, ''))
            if b is None:
                c.add('%s::%s' % (n, m), VIOLATED, 'the cost trait is implemented', detail='no body for %s' % m)
                continue
        try:
            bc, bg = [c.check_body(F.body(items[m]), '%s::%s' % (n, m)) for m in ('cost', 'grad_cost')]
        except (Missing, KeyError):
            continue
        ty = F.tys(bc['locals'][1]['t'])
        mat = 'Matrix' in ty
        if not mat and 'Vector' not in ty:
            continue
        key = '%s<%s>' % (n, 'Matrix' if mat else 'Vector')
        size = mul(r, w) if mat else r
        O, Tg = (Mx('o', r, w), Mx('t', r, w)) if mat else (Vx('o', r), Vx('t', r))
        oi, ti = lambda i: sel(sym('o'), i), lambda i: sel(sym('t'), i)
        rc = c.run(bc, args={0: O, 1: Tg})
        if rc is None:
            c.add(key + '.cost', UNDECIDED, 'value graph', bc, c.err)
            continue
        rg = c.run(bg, args={0: O, 1: Tg})
        if n in losses:
            found[n] += 1
            l = losses[n]
            want = div(total(size, lambda i: subst(l, {o: oi(i), t: ti(i)})), r)
            c.same(key + '.cost', 'cost = (1/rows) * sum over all entries of the entry loss', bc, rc.full(), want)
            if rg is None:
                c.add(key + '.grad_cost', UNDECIDED, 'value graph', bg, c.err)
                continue
            g = diff(l, o)
            e = lambda i: subst(g, {o: oi(i), t: ti(i)})
            c.same(key + '.grad_cost', 'gradient entry = d(entry loss)/d(output entry)', bg, rg.full(), Mf(r, w, e) if mat else vec(r, e))
    for n, k in sorted(found.items()):
        if k != 2 and not any(o.key.startswith(n) for o in c.obs):
            c.add(n, VIOLATED, 'the shipped cost functions work on matrices and on vectors', detail='%d implementations' % k)
