from fractions import Fraction
from ..spec import *
from ..core import *
from ..lifecycle import *
from .p19 import kernel

INFO = {'level': 'proof',
        'explanation': 'Value graphs over an arbitrary symmetric kernel, regularisation, number of iterations, data and query: the labels predicted after training equal those of a reference implementation of kernelised Pegasos '
                       '(specs/lib.rs) that is never run, draw by draw; training from any earlier state; the state before training.'}

P = 'learning::svm::SVM'
HOOKS = {'Kernel::kernel': kernel}


def check(c):
    c.budget *= 2
    c.known |= {'m:kernel'}
    bn, bt, bp = c.method(P, 'new'), c.method(P, 'train', 'SupModel'), c.method(P, 'predict', 'SupModel')
    ker, lam_, n, w, m, it = sym('ker'), sym('lambda', 'f'), dim('rows'), dim('cols'), dim('queries'), dim('iters')
    X, Q, y = Mx('x', n, w), Mx('q', m, w), Vx('y', n)
    r0 = c.run(bn, args={0: ker, 1: lam_})
    bd = c.method(P, 'default', 'Default', opt=True)
    if r0 is None:
        c.add('new', UNDECIDED, 'value graph', bn, c.err)
        return
    new = r0.full()
    r = c.run(bp, args={0: new, 1: Q}, hooks=HOOKS)
    if r is None:
        c.add('predict before training', UNDECIDED, 'value graph', bp, c.err)
    else:
        refuses(c, 'predict before training', bp, r, 'UntrainedModel')
    some_data = b_and(gt(n, ZERO), gt(lam_, ZERO, True))
    old = dirty(new)
    for nm, self0, its in (('', old, num(100)), (' with other iterations', with_field(c, P, old, 'optim_iters', it), it)):
        if self0 is None:
            continue
        tr = c.run(bt, args={0: by_ref('self', self0), 1: X, 2: y}, hooks=HOOKS)
        if tr is None:
            c.add('train' + nm, UNDECIDED, 'value graph', bt, c.err)
            continue
        c.same('train succeeds' + nm, 'training on at least one row succeeds', bt, b_and(models.opt_is(tr.ret, 0), b_not(tr.panic)), TRUE, pre=some_data)
        st = tr.S.get(('A', 'self'))
        args = {0: ker, 1: lam_, 2: its, 3: X, 4: y, 5: Q}
        r = c.run(bp, args={0: st, 1: Q}, hooks=HOOKS)
        q = c.ref('svm_predict', args, hooks=HOOKS)
        if r is None or q is None:
            c.add('predict' + nm, UNDECIDED, 'value graph', bp, c.err)
            continue
        c.same('predict' + nm, 'sign of the kernel expansion with the Pegasos coefficients of the training data', bp, r.ret, ok(q.ret), pre=b_and(some_data, gt(its, ZERO)))
        c.same('predict panics' + nm, 'no panic on queries of the width of the training data', bp, r.panic, FALSE, pre=some_data)
        if nm:
            continue
        r = c.run(bp, args={0: st, 1: Mx('q', m, dim('width'))}, hooks=HOOKS)
        if r is not None:
            refuses(c, 'predict of another width', bp, r, 'InvalidState', pre=b_and(some_data, b_not(eq(w, dim('width')))))
    if bd is not None:
        kd = c.run(c.method('learning::toolkit::kernel::SquaredExp', 'default', 'Default'))
        r = c.run(bd)
        if r is not None and kd is not None:
            want = c.run(bn, args={0: kd.full(), 1: num(Fraction(.3))})
            if want is not None:
                c.same('default', 'squared exponential kernel, lambda 0.3, 100 iterations', bd, r.full(), want.full())
