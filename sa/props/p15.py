from fractions import Fraction
from ..spec import *
from ..core import *

INFO = {'level': 'proof',
        'explanation': 'The value graph of each optimiser over an arbitrary objective (compute_grad uninterpreted) and symbolic settings, iteration count, start and data is compared with that of a reference '
                       'implementation of the published update rule (specs/lib.rs), derived by the same analysis and never run: parameters, evaluation points, carried state, stopping rule and random draws.'}

G = 'learning::optim::grad_desc::'


def objective(ev, S, args, v):
    """any objective with one derivative per parameter"""
    k = v[0], v[1], v[2], v[3]
    return tup(app('m:cost', *k), arr_fn(length(v[1]), lambda j: sel(app('m:grad', *k), j)))


HOOKS = {'Optimizable::compute_grad': objective}


def settings(*ns):
    return [sym(n, 'u' if n == 'iters' else 'f') for n in ns]


def check(c):
    c.budget *= 2
    al, mu, tau, it, rate, decay, eps = settings('alpha', 'mu', 'tau', 'iters', 'rate', 'decay', 'epsilon')
    pos = lambda x: gt(x, ZERO, True)
    cases = [('GradientDesc', 'gradient_desc', [al, it], [pos(al)], (.3, 100)),
             ('StochasticGD', 'stochastic_gd', [al, mu, it], [pos(al), pos(mu)], (.1, .1, 20)),
             ('AdaGrad', 'ada_grad', [al, tau, it], [pos(al), ge(tau, ZERO, True)], (1, 3, 100)),
             ('RMSProp', 'rms_prop', [rate, decay, eps, it], [pos(rate), pos(decay), lt(decay, ONE, True), pos(eps)], (.01, .9, 1e-5, 50))]
    X = Mx('x', dim('rows'), dim('cols'))
    Y = Mx('y', dim('rows'), dim('outs'))
    st = Vx('w', dim('params'))
    for nm, ref, args, dom, dflt in cases:
        try:
            bn, bo = c.method(G + nm, 'new'), c.method(G + nm, 'optimize', 'OptimAlgorithm')
        except Missing:
            continue
        r0 = c.run(bn, args=dict(enumerate(args)))
        if r0 is None:
            c.add(nm + '::new', UNDECIDED, 'value graph', bn, c.err)
            continue
        okc = ands(*dom)
        c.same(nm + '::new refuses', 'a panic exactly for settings outside the documented domain', bn, r0.panic, b_not(okc))
        data = {2: st, 3: X, 4: Y} if nm != 'GradientDesc' else {2: st, 3: sym('inputs'), 4: sym('targets')}
        r = c.run(bo, args={**{0: r0.ret, 1: sym('model')}, **data}, hooks=HOOKS)
        if r is None:
            c.add(nm + '::optimize', UNDECIDED, 'value graph', bo, c.err)
            continue
        n = len(args)
        q = c.ref(ref, dict(list(enumerate(args)) + [(n, sym('model')), (n + 1, data[2]), (n + 2, data[3]), (n + 3, data[4])]), hooks=HOOKS)
        if q is None:
            c.add(nm + '::optimize', UNDECIDED, 'value graph of the reference', bo, c.err)
            continue
        c.same(nm + '::optimize', 'parameters returned = those of the published update rule', bo, r.full(), q.full(), pre=b_and(okc, ne0(nm)))
        try:
            bd = c.method(G + nm, 'default', 'Default')
        except Missing:
            continue
        rd, rn = c.run(bd), c.run(bn, args={i: num(Fraction(v)) for i, v in enumerate(dflt)})
        if rd is not None and rn is not None:
            c.same(nm + '::default', 'documented default settings', bd, rd.full(), rn.full())


def ne0(nm):
    # the mean cost of no rows at all is not a number
    return TRUE if nm == 'GradientDesc' else gt(dim('rows'), ZERO)
