from ..spec import *
from ..core import *
from ..lifecycle import *

INFO = {'level': 'proof',
        'explanation': 'Value graphs of the layers of a neural network over inputs, parameters and output gradients of symbolic shape (arbitrary small shapes for the input gradient of a layer with bias): '
                       'forward pass in closed form, both gradients entry by entry the derivative of the weighted sum of the outputs, parameter counts, refusals.'}

L = 'learning::nnet::net_layer::'
P = L + 'Linear'




def check(c):
    linear(c)
    activation(c)


def linear(c):
    n, m, k, r = dim('rows'), dim('ins'), dim('outs'), dim('paramrows')
    xs = lambda i, j: sel(sym('x'), add(mul(i, m), j))
    X, Gr = Mx('x', n, m), Mx('g', n, k)
    O = Mx('o', n, k)
    for nm, bias in (('new', 1), ('without_bias', 0)):
        try:
            bn = c.method(P, nm)
            bf, bi, bp = c.method(P, 'forward', 'NetLayer'), c.method(P, 'back_input', 'NetLayer'), c.method(P, 'back_params', 'NetLayer')
            bd, bs = c.method(P, 'default_params', 'NetLayer'), c.method(P, 'param_shape', 'NetLayer')
        except Missing:
            continue
        what = 'Linear with bias ' if bias else 'Linear without bias '
        q = c.run(bn, args={0: m, 1: k})
        if q is None:
            c.add(what + 'new', UNDECIDED, 'value graph', bn, c.err)
            continue
        me = q.full()
        h = add(m, ONE) if bias else m
        A = lambda i, j: ite(eq(j, ZERO), ONE, xs(i, sub(j, ONE))) if bias else xs(i, j)
        W = Mx('p', h, k)
        Aug = Mij(n, h, A) if bias else X
        r_ = c.run(bf, args={0: me, 1: X, 2: W})
        if r_ is None:
            c.add(what + 'forward', UNDECIDED, 'value graph', bf, c.err)
        else:
            want = models.matmul(Aug, W)
            c.same(what + 'forward', 'output = weighted inputs, after the bias where there is one', bf, r_.full(), ok(want))
            c.same(what + 'forward panics', 'no panic', bf, r_.panic, FALSE)
        bad = c.run(bf, args={0: me, 1: X, 2: Mx('p', r, k)})
        if bad is None:
            c.add(what + 'forward with wrong columns', UNDECIDED, 'value graph', bf, c.err)
        else:
            refuses(c, what + 'forward with wrong columns', bf, bad, 'InvalidData', pre=b_not(eq(r, h)))
        r_ = c.run(bp, args={0: me, 1: Gr, 2: X, 3: O, 4: W})
        if r_ is None:
            c.add(what + 'back_params', UNDECIDED, 'value graph', bp, c.err)
        else:
            want = models.matmul(models.transpose(Aug), Gr)
            c.same(what + 'back_params', 'entry (a, b) = sum over the rows of input a times gradient b: the derivative by parameter (a, b)', bp, r_.full(), want)
        for rr, mm in ([(None, None)] if not bias else [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (1, 3), (1, 4), (4, 1), (4, 2), (6, 1), (3, 4), (5, 2)]):
            N, Mm = (n, m) if rr is None else (num(rr), num(mm))
            key = what + 'back_input' + ('' if rr is None else ' %dx%d' % (rr, mm))
            me_ = me if rr is None else c.run(bn, args={0: Mm, 1: k}).full()
            H = Mm if not bias else add(Mm, ONE)
            r_ = c.run(bi, args={0: me_, 1: Mx('g', N, k), 2: Mx('x', N, Mm), 3: Mx('o', N, k), 4: Mx('p', H, k)})
            if r_ is None:
                c.add(key, UNDECIDED, 'value graph', bi, c.err)
                continue
            want = models.matmul(Mx('g', N, k), models.transpose(Mx('p', H, k)))
            t, rule = r_.full(), 'entry (i, a) = sum over the outputs of gradient times weight of input a: the derivative by input (i, a)'
            if rr is None:
                c.same(key, rule, bi, t, want)
            else:
                t = unrolled(t, 24)
                c.same(key, rule, bi, tup(models.mat_rows(t), models.mat_cols(t), length(models.mat_data(t)), *[sel(models.mat_data(t), num(x)) for x in range(rr * mm)]),
                       tup(N, Mm, mul(N, Mm), *[sel(models.mat_data(want), num(i * (mm + 1) + a + 1)) for i in range(rr) for a in range(mm)]))
        s, d = c.run(bs, args={0: me}), c.run(bd, args={0: me})
        if s is not None:
            c.same(what + 'param_shape', 'one row per input (and the bias), one column per output', bs, s.full(), tup(h, k))
        if d is not None:
            c.same(what + 'default_params', 'as many starting parameters as the shape says', bd, length(d.full()), mul(h, k))
            i = sym('i', 'u')
            env = Env()
            env.bounded(i, mul(h, k))
            e = sel(d.full(), i)
            rule = 'every starting parameter is its own normal draw with mean 0 and the documented variance 2/(inputs + outputs)'
            if e.op == 'app' and e.a[0] == 'draw' and e.a[3].op == 'str' and e.a[3].a[0] == 'normal':
                std = [sqrt(div(TWO, add(x, k))) for x in (h, m)]
                c.same(what + 'default_params values', rule, bd, tup(e.a[4], e.a[5]), [tup(ZERO, x) for x in std], pre=ands(gt(m, ZERO), gt(k, ZERO), lt(i, mul(h, k))))
                c.same(what + 'default_params draws', rule, bd, sub(subst(e.a[2], {i: add(i, ONE)}), e.a[2]), ONE)
            else:
                c.add(what + 'default_params values', UNDECIDED, rule, bd, show(e)[:300])
        b = c.F.body(L + 'NetLayer::num_params')
        if b is not None:
            c.see(b)
            z = c.run(b, args={0: me})
            if z is not None:
                c.same(what + 'num_params', 'number of parameters = product of the shape', b, z.full(), mul(h, k))


def activation(c):
    n, m = dim('rows'), dim('cols')
    X, Gr, O, W = Mx('x', n, m), Mx('g', n, m), Mx('o', n, m), Mx('p', ZERO, ZERO)
    pre = '<T as ' + L + 'NetLayer>::'
    H = {'ActivationFunc::func': lambda ev, S, a, v: app('m:func', v[-1]), 'ActivationFunc::func_grad_from_output': lambda ev, S, a, v: app('m:slope', v[-1])}
    c.known |= {'m:func', 'm:slope'}
    at = lambda s: (lambda i, j: sel(sym(s), add(mul(i, m), j)))
    for f, args, rule, want in (
            ('forward', {1: X, 2: W}, 'the activation of every entry', ok(Mij(n, m, lambda i, j: app('m:func', at('x')(i, j))))),
            ('back_input', {1: Gr, 2: X, 3: O, 4: W}, 'gradient times the slope at every entry of the output', Mij(n, m, lambda i, j: mul(at('g')(i, j), app('m:slope', at('o')(i, j))))),
            ('back_params', {1: Gr, 2: X, 3: O, 4: W}, 'no parameters', Mx('none', ZERO, ZERO)),
            ('param_shape', {}, 'no parameters', tup(ZERO, ZERO)),
            ('default_params', {}, 'no parameters', ZERO)):
        b = c.F.body(pre + f)
        if b is None or 'blocks' not in b:
            c.add('activation ' + f, UNDECIDED, rule, None, 'not provided for every activation function')
            continue
        c.see(b)
        r = c.run(b, args={0: sym('activation'), **args}, hooks=H)
        if r is None:
            c.add('activation ' + f, UNDECIDED, 'value graph', b, c.err)
            continue
        t = r.full()
        if f == 'default_params':
            t = length(t)
        if f == 'back_params':
            t, want = tup(models.mat_rows(t), models.mat_cols(t)), tup(ZERO, ZERO)
        c.same('activation ' + f, rule, b, t, want)
