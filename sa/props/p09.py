from ..spec import *
from ..core import *

S = 'analysis::score::'
INFO = {'level': 'proof',
        'explanation': 'Value graphs of the score functions over sequences (or matrices) of one symbolic length with arbitrary entries. Accuracy is the fraction of equal positions (rows), precision, '
                       'recall and f1 are the defining ratios of counts for 0/1 labels, the regression score is minus the mean over rows of the squared error; mismatched lengths and labels other than 0 and 1 panic, anything else does not.'}


def check(c):
    n = dim('n')
    o, t = Vx('o', n), Vx('t', n)
    oi, ti = lambda i: sel(sym('o'), i), lambda i: sel(sym('t'), i)
    count = lambda f: total(n, lambda i: ite(f(i), ONE, ZERO))
    is1 = lambda x: eq(x, ONE)
    is0 = lambda x: eq(x, ZERO)

    def go(name, args):
        try:
            b = c.fn(S + name)
        except Missing:
            return None, None
        r = c.run(b, args=args)
        if r is None:
            c.add(name, UNDECIDED, 'value graph', b, c.err)
        return b, r
    b, r = go('accuracy', {0: o, 1: t})
    if r:
        c.same('accuracy', 'accuracy = equal positions / length', b, r.ret, div(count(lambda i: eq(oi(i), ti(i))), n))
        c.same('accuracy panics', 'sequences of one length never panic', b, r.panic, FALSE)
    m = dim('m')
    o2, t2 = sym('o'), sym('t')
    if r:
        r2 = c.run(b, args={0: Vx('o', n), 1: Vx('t', m)})
        c.same('accuracy lengths', 'panics exactly when the lengths differ', b, r2 and r2.panic, b_not(eq(n, m)))
    # labels are 0 or 1 everywhere: encode each entry as a bit
    bit = lambda s: (lambda i: ite(boolatom(app('bitof', sym(s), i)), ONE, ZERO))
    O, Tg = vec(n, bit('o')), vec(n, bit('t'))
    bo, bt = (lambda i: boolatom(app('bitof', sym('o'), i))), (lambda i: boolatom(app('bitof', sym('t'), i)))
    tp = count(lambda i: b_and(bo(i), bt(i)))
    forms = {'precision': div(tp, count(bo)), 'recall': div(tp, count(bt)),
             'f1': div(mul(TWO, tp), add(count(bo), count(bt)))}
    for name, form in sorted(forms.items()):
        b, r = go(name, {0: O, 1: Tg})
        if r is None:
            continue
        c.same(name, {'precision': 'true positives / predicted positives', 'recall': 'true positives / actual positives',
                      'f1': '2 precision recall / (precision + recall) = 2 tp / (predicted + actual positives)'}[name], b, r.ret, form)
        c.same(name + ' on 0/1 labels', 'labels 0 and 1 of one length never panic', b, r.panic, FALSE)
        b, r = go(name, {0: o, 1: t})
        if r is None:
            continue
        bad = some_i(n, lambda i: b_not(b_and(b_or(is0(oi(i)), is1(oi(i))), b_or(is0(ti(i)), is1(ti(i))))))
        c.same(name + ' panics', 'panics exactly when some label is neither 0 nor 1', b, r.panic, bad)
        r = c.run(b, args={0: vec(n, bit('o')), 1: vec(m, bit('t'))})
        c.same(name + ' lengths', 'panics when the lengths differ', b, r and r.panic, TRUE, pre=b_not(eq(n, m)))
    # rows
    w = dim('w')
    Om, Tm = Mx('o', n, w), Mx('t', n, w)
    b, r = go('row_accuracy', {0: Om, 1: Tm})
    if r:
        same = lambda i: all_i(w, lambda j: eq(oi(add(mul(i, w), j)), ti(add(mul(i, w), j)), True))
        c.same('row_accuracy', 'equal rows / rows', b, r.full(), div(count(same), n), pre=gt(w, ZERO))
    b, r = go('neg_mean_squared_error', {0: Om, 1: Tm})
    if r:
        c.same('neg_mean_squared_error', 'minus the sum of squared errors / rows', b, r.full(), neg(div(total(mul(n, w), lambda i: powr(sub(oi(i), ti(i)), 2)), n)))
