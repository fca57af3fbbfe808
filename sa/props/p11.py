from ..spec import *
from ..core import *

INFO = {'level': 'proof',
        'explanation': 'The value graph of confusion_matrix over arbitrary label sequences is compared with that of a reference implementation (specs/lib.rs), derived by the same analysis and never run: '
                       'counts, class order, ignored labels and the panics.'}


def check(c):
    b = c.fn('analysis::confusion_matrix::confusion_matrix')
    r = c.run(b)
    if r is None:
        c.add('confusion_matrix', UNDECIDED, 'value graph', b, c.err)
        return
    q = c.ref('confusion', {})
    if q is None:
        c.add('confusion_matrix', UNDECIDED, 'value graph of the reference', b, c.err)
        return
    c.same('counts', 'entry (i, j) counts the samples of class i predicted as class j', b, r.ret, q.ret, pre=b_not(q.panic))
    c.same('refusals', 'a panic exactly for different lengths and repeated labels', b, r.panic, q.panic)
