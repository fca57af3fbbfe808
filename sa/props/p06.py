from ..spec import *
from ..core import *

R = 'learning::toolkit::regularization::Regularization'
INFO = {'level': 'proof',
        'explanation': 'Value graphs of the cost and the gradient for each variant, on a weight matrix with symbolic shape and entries: the cost is the penalty of its name, every gradient '
                       'entry is the symbolic derivative of the penalty by that weight (L1 away from zero), the elastic net is the sum of its two parts, and no regularization adds zero everywhere.'}


def check(c):
    F = c.F
    n, w = dim('rows'), dim('cols')
    x, y, z = sym('x', 'f'), sym('y', 'f'), sym('z', 'f')
    W = Mx('w', n, w)
    wi = lambda i: sel(sym('w'), i)
    bc, bg = c.method(R, 'reg_cost'), c.method(R, 'reg_grad')

    def go(b, name, *f):
        v = variant(F, R, name, *f)
        if v is None:
            c.add('Regularization::' + name, VIOLATED, 'the public variant exists', b)
            return None
        r = c.run(b, args={0: v, 1: W})
        return None if r is None else r.full()

    size = mul(n, w)
    n2 = mul(TWO, n)
    sign = ite(lt(z, ZERO), num(-1), ite(gt(z, ZERO), ONE, UNDEF))
    # none
    c.same('None cost', 'no regularization costs 0', bc, go(bc, 'None'), ZERO)
    c.same('None gradient', 'no regularization adds a zero gradient of the shape of the weights', bg, go(bg, 'None'), Mf(n, w, lambda i: ZERO))
    # L1
    c.same('L1 cost', 'L1 cost = x/(2 rows) * sum |w|', bc, go(bc, 'L1', x), div(mul(x, total(size, lambda i: absv(wi(i)))), n2))
    g = go(bg, 'L1', x)
    l1g = lambda i: ite(lt(wi(i), ZERO, True), neg(div(x, n2)), div(x, n2))
    off0 = lambda v: Mf(n, w, lambda i: ite(eq(wi(i), ZERO, True), UNDEF, sel(mat_data(v), i))) if v is not None else None
    c.same('L1 gradient', 'L1 gradient = x/(2 rows) * sign(w)', bg, g, Mf(n, w, l1g)) if g is None else c.same(
        'L1 gradient', 'L1 gradient = derivative of the L1 cost wherever w is not 0', bg, tup(mat_rows(g), mat_cols(g), mat_data(off0(g))), tup(n, w, mat_data(off0(Mf(n, w, l1g)))))
    # L2
    c.same('L2 gradient', 'L2 gradient = x/rows * w', bg, go(bg, 'L2', x), Mf(n, w, lambda i: div(mul(x, wi(i)), n)))
    sq = total(size, lambda i: powr(wi(i), 2))
    l2 = div(mul(x, sq), n2)
    got = go(bc, 'L2', x)
    unsq = div(mul(x, sqrt(sq)), n2)
    known = False
    try:
        known = got is not None and T.equal(got, unsq) is None
    except Undecided:
        pass
    c.same('L2 cost is x*|W|/(2 rows) with the norm not squared' if known else 'L2 cost', 'L2 cost = x/(2 rows) * sum w^2, the function the L2 gradient is the derivative of', bc, got, l2)
    # elastic net
    e = go(bc, 'ElasticNet', x, y)
    parts = None
    if got is not None:
        parts = add(go(bc, 'L1', x), subst(got, {x: y}))
    c.same('ElasticNet cost', 'elastic net cost = L1 cost + L2 cost', bc, e if parts is not None else None, parts)
    e = go(bg, 'ElasticNet', x, y)
    a, b2 = go(bg, 'L1', x), go(bg, 'L2', y)
    if e is None or a is None or b2 is None:
        c.add('ElasticNet gradient', UNDECIDED, 'elastic net gradient = L1 gradient + L2 gradient', bg, c.err)
    else:
        c.same('ElasticNet gradient', 'elastic net gradient = L1 gradient + L2 gradient', bg, e, Mf(n, w, lambda i: add(sel(mat_data(a), i), sel(mat_data(b2), i))))
