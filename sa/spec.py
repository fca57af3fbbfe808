"""Small vocabulary the required forms are written in."""
from .terms import *
from . import terms as T
from . import vg, models
from .vg import MATRIX, mat_rows, mat_cols, mat_data, at, fld

pi = mk('app', 'pi')
TWO, HALF = num(2), num('1/2')


def total(n, f):
    """sum of f(i) for i < n"""
    v = fresh('i', 'u')
    return vg.SSUM(n, lam(v, f(v)))


def prod_(n, f):
    v = fresh('i', 'u')
    return app('prod', n, lam(v, f(v)))


def vec(n, f):
    return arr_fn(n, f)


def some_i(n, f):
    v = fresh('i', 'u')
    return any_(n, lam(v, f(v)))


def all_i(n, f):
    return b_not(some_i(n, lambda i: b_not(f(i))))


def Mx(name, r, c):
    """a symbolic r x c matrix of floats"""
    return agg(MATRIX, r, c, arr_fn(mul(r, c), lambda i: sel(sym(name), i)))


def Mf(r, c, f):
    """matrix from f(flat index)"""
    return agg(MATRIX, r, c, arr_fn(mul(r, c), f))


def Mij(r, c, f):
    """matrix from f(row, column)"""
    def g(k):
        q = idiv(k, c)
        return f(q, sub(k, mul(q, c)))
    return agg(MATRIX, r, c, arr_fn(mul(r, c), g))


def Vx(name, n):
    return arr_fn(n, lambda i: sel(sym(name), i))


def dim(name):
    return sym(name, 'u')


def lt(a, b, flt=False):
    return cmpop('Lt', a, b, flt)


def le(a, b, flt=False):
    return cmpop('Le', a, b, flt)


def gt(a, b, flt=False):
    return cmpop('Gt', a, b, flt)


def ge(a, b, flt=False):
    return cmpop('Ge', a, b, flt)


def eq(a, b, flt=False):
    return cmpop('Eq', a, b, flt)


def ands(*xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def ors(*xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


def is_variant(v, i, names=None):
    """value v is variant number i (Option: 0 None 1 Some; Result: 0 Ok 1 Err)"""
    return models.opt_is(v, i)


def err_kind(v):
    return v


def variant(F, path, name, *fields):
    """value of an enum of the crate, by variant name; None if there is no such variant"""
    a = F.adts.get(path)
    if a is None:
        return None
    for i, v in enumerate(a['v']):
        if v['n'] == name and len(v['f']) == len(fields):
            return agg(('adt', path, i, name), *fields)
    return None


def by_ref(name, val):
    """argument: a mutable reference to val; its final value is r.S[('A', name)]"""
    def f(sess, S):
        S[('A', name)] = val
        return vg.mref(('A', name), ())
    return f


def products(t):
    """t with the entries of matrix products written out as sums"""
    memo = {}

    def is_product(s):
        return s.op == 'app' and s.a[0] == 'data' and s.a[1].op == 'app' and s.a[1].a[0] == 'matmul'

    def go(t):
        if t in memo:
            return memo[t]
        if not any(is_product(s) for s in subterms(t)):
            r = t
        elif is_product(t):
            A, B = go(t.a[1].a[1]), go(t.a[1].a[2])
            r = go(mat_data(Mij(mat_rows(A), mat_cols(B), lambda i, j: total(mat_cols(A), lambda x: mul(at(A, i, x), at(B, x, j))))))
        elif t.op == 'lam':
            v = fresh('i', t.a[1] if t.a[1] in ('u', 'i') else 'u')
            r = lam(v, go(T.app_lam(t, v)))
        elif t.op == 'arr':
            r = T.arr(go(t.a[0]), go(t.a[1]))
        elif t.op in ('app', 'agg') and not any(is_product(x) for x in t.a[1:] if isinstance(x, T.T)):
            a = [go(x) if isinstance(x, T.T) else x for x in t.a[1:]]
            r = T.rebuild_app(t.a[0], a) if t.op == 'app' else agg(t.a[0], *a)
        else:
            # replace the outermost parts that need it
            todo = {}

            def outer(x, top):
                if x in todo or not any(is_product(s) for s in subterms(x)):
                    return
                if not top and x.op in ('app', 'lam', 'arr', 'agg'):
                    todo[x] = go(x)
                    return
                for y in kids(x):
                    outer(y, False)
            outer(t, True)
            r = T.subst_atoms(t, todo)
        memo[t] = r
        return r

    def kids(x):
        if x.op == 'rat':
            return [a for p in x.a for mo, _ in p for a, _ in mo]
        if x.op == 'mdd':
            return [y for y in x.a[0].a if isinstance(y, T.T)] + list(x.a[1])
        return [y for y in x.a[1:] if isinstance(y, T.T)] + ([x.a[0]] if isinstance(x.a[0], T.T) else [])
    return go(t)
