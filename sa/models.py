"""Models of the dependencies' functions (core, alloc, std, num-traits, rand, rulinalg)
as terms.  A model returns the value, updates state S in place for &mut arguments, or
returns None where it does not apply (the call then counts as unmodelled)."""
import re
from fractions import Fraction
from .terms import *
from . import vg
from .vg import (MATRIX, mat_rows, mat_cols, mat_data, matrix, mat_fn, arr_fn, fld, mref, has_mref, leaves, push, cat, sub_slice,
                 write_slice, DIVERGE, restrict, cleanc, as_variant, flatten, SSUM, sum_body, MATFN, fn_trunc)

TABLE = {}


class Call(object):
    def __init__(self, ev, S, c, fc, key, site, dty):
        self.ev, self.S, self.c, self.fc, self.key, self.site, self.dty = ev, S, c, fc, key, site, dty

    def v(self, x):
        return self.ev.strip(self.S, x)

    def tys(self, i):
        a = self.fc['a']
        return self.ev.F.tys(a[i]) if i < len(a) else ''

    def put(self, r, new):
        # a method reached through a wrapper that is itself a mutable reference (RowMut, &mut &mut T)
        while r.op == 'mref':
            v = self.ev.load_mref(self.S, r)
            if not v.op == 'mref' and not (v.op == 'mdd' and all(x.op == 'mref' for x in leaves(v))) or has_mref(new):
                break
            r = v
        self.ev.store_mref(self.S, r, new)

    def panic(self, cond, kind):
        self.ev.panic(b_and(self.c, cond), kind, self.site)

    def apply(self, f, *args):
        r = self.ev.call_value(self.S, self.c, f, list(args), self.site)
        return UNDEF if r is DIVERGE else r


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# ---------------------------------------------------------------- numbers
@model('f64::exp', 'Float::exp', 'f32::exp')
def _(c, x): return exp(c.v(x))


@model('f64::ln', 'Float::ln')
def _(c, x): return ln(c.v(x))


@model('f64::log')
def _(c, x, b): return div(ln(c.v(x)), ln(c.v(b)))


@model('f64::log10')
def _(c, x): return div(ln(c.v(x)), ln(num(10)))


@model('f64::log2')
def _(c, x): return div(ln(c.v(x)), ln(num(2)))


@model('f64::exp2')
def _(c, x): return exp(mul(c.v(x), ln(num(2))))


@model('f64::exp_m1')
def _(c, x): return sub(exp(c.v(x)), ONE)


@model('f64::ln_1p')
def _(c, x): return ln(add(c.v(x), ONE))


@model('f64::sqrt', 'Float::sqrt')
def _(c, x): return sqrt(c.v(x))


@model('f64::cbrt')
def _(c, x): return app('cbrt', c.v(x))


@model('f64::tanh', 'Float::tanh')
def _(c, x): return tanh(c.v(x))


@model('f64::sinh')
def _(c, x):
    x = c.v(x)
    return div(sub(exp(x), exp(neg(x))), num(2))


@model('f64::cosh')
def _(c, x):
    x = c.v(x)
    return div(add(exp(x), exp(neg(x))), num(2))


@model('f64::atanh')
def _(c, x):
    x = c.v(x)
    return div(sub(ln(add(ONE, x)), ln(sub(ONE, x))), num(2))


@model('f64::sin', 'f64::cos', 'f64::tan', 'f64::asin', 'f64::acos', 'f64::atan', 'f64::floor', 'f64::ceil', 'f64::round', 'f64::trunc', 'f64::fract', 'f64::asinh', 'f64::acosh',
       'Float::sin', 'Float::cos', 'Float::tan', 'Float::asin', 'Float::acos', 'Float::atan', 'Float::floor', 'Float::ceil', 'Float::round', 'Float::trunc', 'Float::fract')
def _(c, x): return app(c.fc['name'], c.v(x))


@model('f64::abs', 'Float::abs', 'libnum::abs', 'num_traits::abs', 'i32::abs', 'Signed::abs', 'i64::abs', 'isize::abs', 'num::abs')
def _(c, x): return absv(c.v(x))


@model('f64::recip', 'Float::recip')
def _(c, x): return div(ONE, c.v(x))


@model('f64::mul_add')
def _(c, a, b, d): return add(mul(c.v(a), c.v(b)), c.v(d))


@model('f64::signum', 'Float::signum')
def _(c, x):
    x = c.v(x)
    # -1 for negative numbers and -0, 1 otherwise (NaN apart); zero is read as +0
    return ite(cmpop('Lt', x, ZERO, True), num(-1), ONE)


@model('Float::is_sign_negative', 'f64::is_sign_negative')
def _(c, x): return cmpop('Lt', c.v(x), ZERO, True)


@model('Float::is_sign_positive', 'f64::is_sign_positive')
def _(c, x): return b_not(cmpop('Lt', c.v(x), ZERO, True))


@model('f64::is_nan', 'Float::is_nan', 'f64::is_finite', 'Float::is_finite', 'f64::is_infinite', 'Float::is_infinite')
def _(c, x):
    x = c.v(x)
    n = c.fc['name']

    def f(x):
        if x.op == 'num':
            return TRUE if n == 'is_finite' else FALSE
        if n == 'is_finite':
            return b_and(b_not(boolatom(mk('app', 'is_nan', x))), b_not(boolatom(mk('app', 'is_infinite', x))))
        return boolatom(mk('app', n, x))
    return vg.lift2(f, x)


def powf(a, e):
    if a.op == 'mdd' or e.op == 'mdd':
        return lift(powf, a, e)
    if e.op == 'num':
        return powr(a, e.a[0])
    if e.op in ('undef', 'unk'):
        return e
    if a.op == 'app' and a.a[0] == 'exp':
        return exp(mul(a.a[1], e))
    return app('pow', a, e)


vg.REBUILD['pow'] = powf


@model('f64::powf', 'f64::powi', 'Float::powi', 'Float::powf', 'usize::pow', 'num_traits::pow', 'i32::pow', 'libnum::pow')
def _(c, a, e): return powf(c.v(a), c.v(e))


@model('f64::hypot')
def _(c, a, b):
    a, b = c.v(a), c.v(b)
    return sqrt(add(mul(a, a), mul(b, b)))


def fmax(a, b, flt, big):
    return ite(cmpop('Lt', a, b, flt), b if big else a, a if big else b)


@model('f64::max', 'Float::max')
def _(c, a, b):
    a, b = c.v(a), c.v(b)
    # NaN operands lose
    an = boolatom(mk('app', 'is_nan', a)) if a.op != 'num' else FALSE
    return fmax(a, b, False, True) if False else maxmin('max', a, b)


@model('f64::min', 'Float::min')
def _(c, a, b):
    return maxmin('min', c.v(a), c.v(b))


def maxmin(n, a, b):
    if a.op == 'num' and b.op == 'num':
        return a if (a.a[0] >= b.a[0]) == (n == 'max') else b
    return ite(cmpop('Lt', a, b, True), b if n == 'max' else a, a if n == 'max' else b)


@model('cmp::min', 'Ord::min', 'usize::min')
def _(c, a, b):
    a, b = c.v(a), c.v(b)
    return ite(cmpop('Gt', a, b, False), b, a)


@model('cmp::max', 'Ord::max', 'usize::max')
def _(c, a, b):
    a, b = c.v(a), c.v(b)
    return ite(cmpop('Gt', a, b, False), a, b)


@model('usize::saturating_sub')
def _(c, a, b):
    return monus(c.v(a), c.v(b))


@model('usize::wrapping_add')
def _(c, a, b): return add(c.v(a), c.v(b))


@model('One::one')
def _(c): return ONE


@model('Zero::zero')
def _(c): return ZERO


@model('Zero::is_zero')
def _(c, x): return cmpop('Eq', c.v(x), ZERO, True)


@model('Float::max_value', 'Bounded::max_value')
def _(c): return app('fmax')


@model('Float::min_value', 'Bounded::min_value')
def _(c): return neg(app('fmax'))


@model('Float::min_positive_value')
def _(c): return app('fminpos')


@model('Float::epsilon')
def _(c): return app('feps')


@model('Float::infinity')
def _(c): return app('inf')


@model('Float::neg_infinity')
def _(c): return neg(app('inf'))


@model('Float::nan')
def _(c): return app('nan')


@model('FromPrimitive::from_usize', 'FromPrimitive::from_f64', 'FromPrimitive::from_i32', 'FromPrimitive::from_u32', 'FromPrimitive::from_u64', 'FromPrimitive::from_i64')
def _(c, x): return some(c.v(x))


@model('ToPrimitive::to_f64', 'NumCast::from', 'libnum::cast', 'num_traits::cast')
def _(c, x): return some(c.v(x))


def monus(a, b):
    d = sub(a, b)
    if b is ZERO or nonneg(d) and d.op != 'mdd':
        return d
    return ite(cmpop('Lt', b, a, False), d, ZERO)


# ---------------------------------------------------------------- operators
OPS = {'add': add, 'sub': sub, 'mul': mul, 'div': div}


def kind_of(s):
    s = s.lstrip('&').replace('mut ', '').strip()
    while s.startswith('&') or s.startswith("'"):
        s = s.lstrip('&').split(' ', 1)[-1]
    if s.startswith(('rulinalg::matrix::', 'matrix::')):
        if 'Row' in s.split('<')[0] or 'Column' in s.split('<')[0]:
            return 'm'
        return 'm'
    if s.startswith('rulinalg::vector::'):
        return 'v'
    return 's'


def is_int_ty(s):
    return s.strip('&').split(' ')[-1] in ('usize', 'i32', 'u8', 'i64', 'u64', 'u32', 'isize', 'u16', 'i16', 'i8')


def elementwise(f, a, b):
    n = length(a)
    return arr_fn(n, lambda i: f(sel(a, i), sel(b, i)))


def mat_elem(f, a, b):
    return mat_fn(None, mat_rows(a), mat_cols(a), lambda i: f(sel(mat_data(a), i), sel(mat_data(b), i)))


def arith(c, op, a, b, ka, kb, ta=''):
    f = OPS.get(op)
    if ka == 's' and kb == 's':
        if op == 'rem':
            return imod(a, b) if is_int_ty(ta) else app('fmod', a, b)
        if op == 'div' and is_int_ty(ta):
            return idiv(a, b)
        if f is None:
            return None
        return f(a, b)
    if ka == 'v' and kb == 's':
        return arr_fn(length(a), lambda i: f(sel(a, i), b))
    if ka == 'm' and kb == 's':
        return mat_fn(None, mat_rows(a), mat_cols(a), lambda i: f(sel(mat_data(a), i), b))
    if ka == 'v' and kb == 'v':
        return elementwise(f, a, b) if op in ('add', 'sub') else None
    if ka == 'm' and kb == 'm':
        if op in ('add', 'sub'):
            return mat_elem(f, a, b)
        if op == 'mul':
            return matmul(a, b)
    if ka == 'm' and kb == 'v' and op == 'mul':
        return matvec(a, b)
    return None


def matmul(a, b):
    if a.op == 'mdd' or b.op == 'mdd':
        return lift(matmul, a, b)
    for x in (a, b):
        if x.op in ('undef', 'unk'):
            return x
    return mk('app', 'matmul', a, b)


def matvec(a, b):
    if a.op == 'mdd' or b.op == 'mdd':
        return lift(matvec, a, b)
    for x in (a, b):
        if x.op in ('undef', 'unk'):
            return x
    return arr_fn(mat_rows(a), lambda i: dot(sub_slice(mat_data(a), mul(i, mat_cols(a)), mat_cols(a)), b))


vg.REBUILD['matmul'] = matmul
MATFN['matmul'] = (lambda m: mat_rows(m.a[1]), lambda m: mat_cols(m.a[2]))


def transpose(m):
    if m.op == 'mdd':
        return lift(transpose, m)
    if m.op in ('undef', 'unk'):
        return m
    if m.op == 'app' and m.a[0] == 'transpose':
        return m.a[1]
    return mk('app', 'transpose', m)


vg.REBUILD['transpose'] = transpose


def _sel_transpose(x, i):
    if x.op == 'app' and x.a[0] == 'data' and x.a[1].op == 'app' and x.a[1].a[0] == 'transpose':
        m = x.a[1].a[1]
        r, c = mat_rows(m), mat_cols(m)
        q = idiv(i, r)
        return sel(mat_data(m), add(mul(sub(i, mul(r, q)), c), q))


SELRULES.append(_sel_transpose)
MATFN['transpose'] = (lambda m: mat_cols(m.a[1]), lambda m: mat_rows(m.a[1]))
MATFN['inverse'] = (lambda m: mat_rows(m.a[1]), lambda m: mat_cols(m.a[1]))


def dot(a, b):
    i = fresh('i', 'u')
    return SSUM(length(a), lam(i, mul(sel(a, i), sel(b, i))))


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem')
def _(c, a, b):
    ta, tb = c.tys(0), c.tys(1)
    return arith(c, c.fc['name'], c.v(a), c.v(b), kind_of(ta), kind_of(tb), ta)


@model('AddAssign::add_assign', 'SubAssign::sub_assign', 'MulAssign::mul_assign', 'DivAssign::div_assign', 'RemAssign::rem_assign')
def _(c, a, b):
    ta, tb = c.tys(0), c.tys(1)
    ka = kind_of(ta)
    old = c.v(a)
    if ka == 'm' and old.op in ('arr',) or (ka == 'm' and old.op == 'app' and old.a[0] in ('sel',)):
        ka = 'v'       # a matrix row
    r = arith(c, c.fc['name'].replace('_assign', ''), old, c.v(b), ka, kind_of(tb), ta)
    if r is None:
        return None
    c.put(a, r)
    return UNIT


@model('Neg::neg')
def _(c, a):
    k, x = kind_of(c.tys(0)), c.v(a)
    if k == 's':
        return neg(x)
    if k == 'v':
        return arr_fn(length(x), lambda i: neg(sel(x, i)))
    return mat_fn(None, mat_rows(x), mat_cols(x), lambda i: neg(sel(mat_data(x), i)))


@model('Not::not')
def _(c, a): return b_not(c.v(a))


def is_flt(t):
    t = t.lstrip('&').strip()
    return t in ('f64', 'f32', 'T')


def equal_vals(a, b, flt):
    if a.op == 'mdd' or b.op == 'mdd':
        return lift(lambda x, y: equal_vals(x, y, flt), a, b)
    if a.op in ('num', 'rat') or b.op in ('num', 'rat') or flt:
        return cmpop('Eq', a, b, flt)
    if a.op == 'const' or b.op == 'const':
        return TRUE if a is b else FALSE
    if (a.op == 'sym' and a.a[1] in ('u', 'f')) or (b.op == 'sym' and b.a[1] in ('u', 'f')):
        return cmpop('Eq', a, b, False)
    return eq_opaque(a, b)


@model('PartialEq::eq', 'PartialEq::ne')
def _(c, a, b):
    x, y = c.v(a), c.v(b)
    t = c.tys(0).lstrip('&')
    if t in ('f64', 'f32'):
        e = cmpop('Eq', x, y, True)
    elif is_int_ty(t):
        e = cmpop('Eq', x, y, False)
    elif t == 'bool':
        e = ite(boolatom(x), y, b_not(y))
    elif len(t) == 1:          # a type parameter
        e = eq_generic(x, y)
    elif re.match(r'(&|mut )*(\[[A-Za-z0-9]+(; \d+)?\]|(std::vec::|alloc::vec::)?Vec<[A-Za-z0-9]+>)$', t) and (x.op == 'arr' or y.op == 'arr'):
        e = lift(lambda p, q: eq_seq(p, q, 'f64' in t or 'f32' in t or '[T' in t or '<T' in t), x, y)
    else:
        e = equal_vals(x, y, False)
    return e if c.fc['name'] == 'eq' else b_not(e)


def eq_seq(x, y, flt):
    if x.op in ('undef', 'unk'):
        return x
    if y.op in ('undef', 'unk'):
        return y
    n, m = length(x), length(y)
    k = fresh('i', 'u')
    same = b_not(any_(n, lam(k, b_not(eq_generic(sel(x, k), sel(y, k), flt)))))
    return b_and(cmpop('Eq', n, m, False), same)


def eq_generic(x, y, flt=False):
    if x.op == 'mdd' or y.op == 'mdd':
        return lift(lambda p, q: eq_generic(p, q, flt), x, y)
    if x.op in ('undef', 'unk'):
        return x
    if y.op in ('undef', 'unk'):
        return y
    if x.op == 'arr' or y.op == 'arr':
        n, m = length(x), length(y)
        k = fresh('i', 'u')
        # sequences reached through a type parameter are rows of numbers
        same = b_not(any_(n, lam(k, b_not(eq_generic(sel(x, k), sel(y, k), True)))))
        return b_and(cmpop('Eq', n, m, False), same)
    return cmpop('Eq', x, y, flt)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(c, a, b):
    t = c.tys(0).lstrip('&')
    return cmpop(c.fc['name'].capitalize(), c.v(a), c.v(b), not is_int_ty(t))


@model('PartialOrd::partial_cmp')
def _(c, a, b):
    t = c.tys(0).lstrip('&')
    o = compare(c.v(a), c.v(b), not is_int_ty(t))
    return lift(lambda x: some(ORD[x.a[0]]) if x.a[0] != 'un' else NONE, o)


@model('Ord::cmp')
def _(c, a, b):
    o = compare(c.v(a), c.v(b), False)
    return lift(lambda x: ORD[x.a[0]], o)


# ---------------------------------------------------------------- panics
@model('rt::begin_panic', 'panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'panicking::panic_str_2015', 'panicking::begin_panic',
       'panicking::unreachable_display', 'panicking::panic_explicit', 'rt::panic_fmt', 'panicking::panic_nounwind', 'panicking::panic_bounds_check')
def _(c, *a):
    c.panic(TRUE, 'panic')
    return DIVERGE


@model('panicking::assert_failed', 'panicking::assert_failed_inner', 'panicking::assert_matches_failed')
def _(c, *a):
    c.panic(TRUE, 'assert')
    return DIVERGE


@model('process::exit', 'process::abort', 'intrinsics::abort')
def _(c, *a):
    c.panic(TRUE, 'exit')
    return DIVERGE


# ---------------------------------------------------------------- Option / Result
def opt_is(v, idx, n=2):
    d = disc(v, tuple(range(n)))
    return cleanc_keep(lift(lambda x: TRUE if x.a[0] == idx else FALSE, d))


def cleanc_keep(c):
    return c


def payload(v, idx):
    return fld(as_variant(v, idx), 0)


def is_result(t):
    return 'Result' in t.split('<')[0]


@model('Option::unwrap', 'Option::expect')
def _(c, o, *m):
    o = c.v(o) if not has_mref(o) else c.v(o)
    c.panic(b_not(opt_is(o, 1)), 'unwrap')
    return payload(o, 1)


@model('Result::unwrap', 'Result::expect')
def _(c, o, *m):
    o = c.v(o)
    c.panic(b_not(opt_is(o, 0)), 'unwrap')
    return payload(o, 0)


@model('Result::unwrap_err', 'Result::expect_err')
def _(c, o, *m):
    o = c.v(o)
    c.panic(b_not(opt_is(o, 1)), 'unwrap')
    return payload(o, 1)


@model('Option::unwrap_or')
def _(c, o, d):
    o = c.v(o)
    return ite(opt_is(o, 1), payload(o, 1), c.v(d))


@model('Result::unwrap_or')
def _(c, o, d):
    o = c.v(o)
    return ite(opt_is(o, 0), payload(o, 0), c.v(d))


@model('Option::is_some', 'Option::is_none')
def _(c, o):
    e = opt_is(c.v(o), 1)
    return e if c.fc['name'] == 'is_some' else b_not(e)


@model('Result::is_ok', 'Result::is_err')
def _(c, o):
    e = opt_is(c.v(o), 0)
    return e if c.fc['name'] == 'is_ok' else b_not(e)


@model('Option::as_ref', 'Option::cloned', 'Option::copied', 'Option::as_deref')
def _(c, o): return c.v(o)


@model('Result::as_ref')
def _(c, o): return c.v(o)


@model('Option::as_mut')
def _(c, o):
    v = c.v(o)
    if o.op != 'mref':
        return None
    return ite(opt_is(v, 1), some(mref(o.a[0], o.a[1] + (('v', 1), ('f', 0)))), NONE)


@model('Option::take')
def _(c, o):
    v = c.v(o)
    c.put(o, NONE)
    return v


@model('Option::ok_or')
def _(c, o, e):
    v = c.v(o)
    return ite(opt_is(v, 1), ok(payload(v, 1)), err(c.v(e)))


@model('Option::ok_or_else')
def _(c, o, f):
    v = c.v(o)
    cc, s = c.c, dict(c.S)
    c.c = b_and(cc, b_not(opt_is(v, 1)))
    e = c.apply(f)
    c.c = cc
    return ite(opt_is(v, 1), ok(payload(v, 1)), err(e))


@model('Option::or')
def _(c, o, e):
    v = c.v(o)
    return ite(opt_is(v, 1), v, c.v(e))


@model('Result::ok')
def _(c, o):
    v = c.v(o)
    return ite(opt_is(v, 0), some(payload(v, 0)), NONE)


@model('Result::err')
def _(c, o):
    v = c.v(o)
    return ite(opt_is(v, 1), some(payload(v, 1)), NONE)


def branch_apply(c, cond, f, *args):
    """apply f on the branch cond only; state changes are conditional"""
    S1 = dict(c.S)
    cc = c.c
    S0 = c.S
    c.S = S1
    c.c = b_and(cc, cond)
    if cleanc(cond) is FALSE:
        c.S, c.c = S0, cc
        return UNDEF
    r = c.apply(f, *args)
    c.S, c.c = S0, cc
    for k in S1:
        a, b = S0.get(k), S1[k]
        if a is not b and k[0] != 'L' or (a is not None and a is not b):
            S0[k] = ite(cond, b, a) if a is not None else b
    return r


@model('Option::map')
def _(c, o, f):
    if o.op == 'mref':
        o = c.v(o)
    s = opt_is(o, 1)
    r = branch_apply(c, s, f, payload(o, 1))
    return ite(s, lift2s(some, r), NONE)


def lift2s(f, v):
    return f(v)


@model('Option::and_then')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 1)
    r = branch_apply(c, s, f, payload(o, 1))
    return ite(s, r, NONE)


@model('Option::unwrap_or_else')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 1)
    r = branch_apply(c, b_not(s), f)
    return ite(s, payload(o, 1), r)


@model('Option::map_or')
def _(c, o, d, f):
    o = c.v(o)
    s = opt_is(o, 1)
    r = branch_apply(c, s, f, payload(o, 1))
    return ite(s, r, c.v(d))


@model('Option::map_or_else')
def _(c, o, d, f):
    o = c.v(o)
    s = opt_is(o, 1)
    r = branch_apply(c, s, f, payload(o, 1))
    q = branch_apply(c, b_not(s), d)
    return ite(s, r, q)


@model('Option::is_some_and')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 1)
    return b_and(s, branch_apply(c, s, f, payload(o, 1)))


@model('Result::map')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 0)
    r = branch_apply(c, s, f, payload(o, 0))
    return ite(s, ok(r), err(payload(o, 1)))


@model('Result::map_err')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 0)
    r = branch_apply(c, b_not(s), f, payload(o, 1))
    return ite(s, ok(payload(o, 0)), err(r))


@model('Result::and_then')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 0)
    r = branch_apply(c, s, f, payload(o, 0))
    return ite(s, r, err(payload(o, 1)))


@model('Result::unwrap_or_else')
def _(c, o, f):
    o = c.v(o)
    s = opt_is(o, 0)
    r = branch_apply(c, b_not(s), f, payload(o, 1))
    return ite(s, payload(o, 0), r)


CF = 'std::ops::ControlFlow'


@model('Try::branch')
def _(c, o):
    o = c.v(o)
    if is_result(c.tys(0).split('::')[-1]) or 'result::Result' in c.tys(0).split('<')[0]:
        s = opt_is(o, 0)
        return ite(s, agg(('adt', CF, 0, 'Continue'), payload(o, 0)), agg(('adt', CF, 1, 'Break'), err(payload(o, 1))))
    s = opt_is(o, 1)
    return ite(s, agg(('adt', CF, 0, 'Continue'), payload(o, 1)), agg(('adt', CF, 1, 'Break'), NONE))


@model('FromResidual::from_residual')
def _(c, r):
    r = c.v(r)
    if 'Option' in c.tys(0).split('<')[0]:
        return NONE
    e = payload(r, 1)
    t0, t1 = c.tys(0), c.tys(1)
    # the error type may be converted by From
    import re
    e0 = t0.rstrip('>').split(', ')[-1]
    e1 = t1.rstrip('>').split(', ')[-1]
    if e0 != e1:
        impl = [b for b in c.ev.F.trait_methods('From', 'from') if b['self'] is not None and c.ev.F.tys(b['self']) == e0 and 'blocks' in b]
        if len(impl) == 1:
            s = opt_is(r, 1)
            S = c.S
            x = c.ev.call_body(S, b_and(c.c, s), impl[0], [e], c.site)
            return err(UNDEF if x is DIVERGE else x)
        return err(app('from', e))
    return err(e)


@model('Try::from_output')
def _(c, x):
    return ok(c.v(x)) if 'Result' in c.tys(0) else some(c.v(x))


# ---------------------------------------------------------------- identity-like
@model('Deref::deref', 'AsRef::as_ref', 'Borrow::borrow', 'Clone::clone', 'slice::to_vec', 'slice::into_vec', 'ToOwned::to_owned', 'Vec::as_slice', 'Vector::data',
       'Vector::into_vec', 'hint::must_use', 'Box::new', 'Row::raw_slice', 'RowMut::raw_slice', 'Vec::into_boxed_slice', 'mem::drop',
       'slice::as_ref', 'Rc::new', 'hint::black_box', 'convert::identity', 'Cow::into_owned', 'String::as_str', 'ManuallyDrop::new', 'MaybeUninit::assume_init')
def _(c, x, *r):
    if c.fc['name'] == 'drop':
        return UNIT
    return snap(c, x)


def snap(c, x):
    v = c.v(x)
    return v


@model('DerefMut::deref_mut', 'Vector::mut_data', 'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'AsMut::as_mut', 'RowMut::raw_slice_mut')
def _(c, x):
    return x


@model('Into::into', 'From::from')
def _(c, x):
    ts, tt = (c.tys(0), c.tys(1)) if c.fc['name'] == 'into' else (c.tys(1), c.tys(0))
    seq = ('std::vec::Vec<', 'rulinalg::vector::Vector<', '&[', '[', '&std::vec::Vec<', 'std::boxed::Box<[', '&mut [')
    if tt.startswith(seq) and ts.startswith(seq):
        return c.v(x)
    if ts == tt:
        return c.v(x)
    if tt in ('f64', 'usize', 'i64', 'u64', 'f32'):
        return c.v(x)
    if 'Box<dyn' in tt and 'Error' in tt:
        return app('boxerr', c.v(x))
    if 'String' in tt:
        return c.v(x)
    return None


@model('Box::new_uninit')
def _(c): return UNDEF


@model('boxed::box_assume_init_into_vec_unsafe')
def _(c, x):
    return c.v(x)


@model('mem::swap')
def _(c, a, b):
    x, y = c.v(a), c.v(b)
    c.put(a, y)
    c.put(b, x)
    return UNIT


@model('mem::replace')
def _(c, a, n):
    x = c.v(a)
    c.put(a, c.v(n))
    return x


@model('mem::take')
def _(c, a):
    x = c.v(a)
    t = c.tys(0)
    d = default_of(t)
    if d is None:
        return None
    c.put(a, d)
    return x


def default_of(t):
    if t in ('f64', 'usize', 'i32'):
        return ZERO
    if t == 'bool':
        return FALSE
    if t.startswith(('std::vec::Vec<', 'rulinalg::vector::Vector<')):
        return EMPTY
    if t.startswith('std::option::Option<'):
        return NONE
    return None


@model('Default::default')
def _(c):
    return default_of(c.tys(0))


# ---------------------------------------------------------------- strings / formatting
@model('fmt::format', 'Arguments::new', 'Argument::new_display', 'Argument::new_debug', 'Arguments::new_const', 'Arguments::new_v1', 'Arguments::from_str', 'ToString::to_string',
       'Error::description', 'String::from', 'str::to_owned', 'str::to_string', 'rt::format')
def _(c, *a):
    return mk('str', '…')


# ---------------------------------------------------------------- sequences
def mkiter(a):
    return agg(('iter',), a, ZERO)


def range_seq(lo, hi):
    n = monus(hi, lo)
    k = fresh('i', 'u')
    return arr(n, lam(k, add(lo, k)))


def as_iter(c, x):
    """iterator value (('iter') or ('fiter') aggregate) for any iterable value"""
    if x.op == 'mref':
        v = c.v(x)
        if all(l.op == 'agg' and l.a[0][0] in ('iter', 'fiter') or l is UNDEF for l in leaves(v)):
            return v
        t = v
        if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1].split('::')[-1] in ('Range', 'RangeInclusive'):
            return as_iter(c, v)
        if v.op == 'agg' and v.a[0] == MATRIX:
            return unk('iteration over a matrix')
        i = fresh('i', 'u')
        return mkiter(arr(length(v), lam(i, mref(x.a[0], x.a[1] + (('i', i),)))))
    if x.op == 'mdd':
        return lift2(lambda y: as_iter(c, y), x)
    if x.op == 'agg':
        t = x.a[0]
        if t[0] in ('iter', 'fiter'):
            return x
        if t[0] == 'adt':
            n = t[1].split('::')[-1]
            if n == 'Range':
                return mkiter(range_seq(x.a[1], x.a[2]))
            if n == 'RangeInclusive':
                return mkiter(range_seq(x.a[1], add(x.a[2], ONE)))
            if n == 'Option':
                return mkiter(array([x.a[1]]) if t[2] == 1 else EMPTY)
        if t == MATRIX:
            return mkiter(mat_data(x))
        if t[0] == 'adt' and user_next(c, x) is not None:
            return mkiter(user_seq(c, x))
        return unk('iteration over %s' % (t,))
    if x.op in ('undef', 'unk', 'panic'):
        return x
    return mkiter(x)


def user_method(c, x, name, trait):
    """the crate's own implementation of an iterator method for the type of the value x"""
    if x.op != 'agg' or x.a[0][0] != 'adt':
        return None
    bs = [b for b in c.ev.F.method(x.a[0][1], name, trait) if 'blocks' in b]
    return bs[0] if len(bs) == 1 else None


def user_next(c, x):
    return user_method(c, x, 'next', 'Iterator')


_wraps = {}


def user_wraps(c, x, b):
    """index of the iterator field whose `next` the type's own `next` is, if it is that"""
    shape = (b['id'], len(x.a), tuple(i for i, v in enumerate(x.a[1:]) if v.op == 'agg' and v.a[0] == ('iter',)))
    if shape in _wraps:
        return _wraps[shape]
    _wraps[shape] = None
    its = {}
    fs = []
    for i, v in enumerate(x.a[1:]):
        if i in shape[2]:
            its[i] = agg(('iter',), fresh('a', 'v'), fresh('p', 'u'), *v.a[3:])
            fs.append(its[i])
        else:
            fs.append(fresh('f', 'o'))
    x0 = agg(x.a[0], *fs)
    _lid[0] += 1
    root = ('T', _lid[0], 'it')
    S = {root: x0}
    saved = c.ev.panics
    c.ev.panics = []
    try:
        r = c.ev.call_body(S, TRUE, b, [mref(root, ())], c.site)
        clean = not [p for p in c.ev.panics if p[0] is not FALSE]
        if r is not DIVERGE and clean:
            r = c.ev.strip(S, r)
            x1 = S[root]
            for i, it in its.items():
                a, pos = it.a[1], it.a[2]
                more = cmpop('Lt', pos, length(a), False)
                adv = agg(it.a[0], a, ite(more, add(pos, ONE), pos), *it.a[3:])
                want = agg(x.a[0], *[adv if j == i else f for j, f in enumerate(fs)])
                if r is ite(more, some(sel(a, pos)), NONE) and all(fld(x1, j) is want.a[j + 1] or equal(fld(x1, j), want.a[j + 1]) is None for j in range(len(fs))):
                    _wraps[shape] = i
    finally:
        c.ev.panics = saved
    return _wraps[shape]


def user_seq(c, x):
    """items of an iterator type of the crate: what `while let Some(e) = it.next() { items.push(e) }` collects"""
    b = user_next(c, x)
    w = user_wraps(c, x, b)
    if w is not None:
        return it_seq(x.a[w + 1])
    _lid[0] += 1
    root, acc = ('T', _lid[0], 'it'), ('T', _lid[0], 'acc')
    for i in range(len(c.ev.F.types)):
        t = c.ev.F.ty(i)
        if t['k'] == 'adt' and t['p'] == x.a[0][1]:
            c.ev.rtype[root] = i
            break
    S0 = dict(c.S)
    S0[root], S0[acc] = x, EMPTY

    def step(S):
        S1 = dict(S)
        r = c.ev.call_body(S1, TRUE, b, [mref(root, ())], c.site)
        if r is DIVERGE:
            return [], []
        r = c.ev.strip(S1, r)
        more = opt_is(r, 1)
        S2 = dict(S1)
        S2[acc] = push(S2[acc], payload(r, 1))
        return [('done', b_not(more), dict(S1))], [(more, S2)]
    ex = c.ev.solve(S0, step, c.c, 'iterator')
    if len(ex) != 1:
        return unk('iterator exits')
    SS = ex[0][2]
    r = SS.pop(acc)
    SS.pop(root, None)
    c.S.clear()
    c.S.update(SS)
    return r


def seq(c, x):
    """remaining items of an iterable as an array"""
    it = as_iter(c, x)
    return it_seq(it)


def it_seq(it):
    if it.op == 'mdd':
        return lift2(it_seq, it)
    if it.op != 'agg':
        return it
    if it.a[0][0] == 'fiter':
        return unk('filtered sequence')
    a, pos = it.a[1], it.a[2]
    return sub_slice(a, pos, sub(length(a), pos)) if pos is not ZERO else a


def filtered(it):
    return it.op == 'agg' and it.a[0][0] == 'fiter'


@model('RangeInclusive::new')
def _(c, a, b):
    return agg(('adt', 'std::ops::RangeInclusive', 0, 'RangeInclusive'), c.v(a), c.v(b))


@model('IntoIterator::into_iter')
def _(c, x):
    if user_next(c, x) is not None:
        return x
    return as_iter(c, x)


@model('slice::iter', 'Vector::iter', 'VecDeque::iter', 'Vec::drain')
def _(c, x, *r):
    if c.fc['name'] == 'drain':
        v = c.v(x)
        lo, n = range_of(c, r[0], length(v))
        k = fresh('i', 'u')
        rest = arr(sub(length(v), n), lam(k, ite(cmpop('Lt', k, lo, False), sel(v, k), sel(v, add(k, n)))))
        c.put(x, rest)
        return mkiter(sub_slice(v, lo, n))
    return mkiter(c.v(x))


@model('slice::iter_mut', 'Vector::iter_mut')
def _(c, x):
    return as_iter(c, x)


@model('Iterator::by_ref')
def _(c, x):
    return x


@model('Iterator::next')
def _(c, x):
    it = c.v(x)
    if it.op == 'agg' and it.a[0][0] == 'adt':
        it = as_iter(c, it)

    def nx(it):
        if it.op != 'agg' or it.a[0][0] not in ('iter', 'fiter'):
            return it if it.op in ('undef', 'unk') else unk('next on ' + it.op)
        a, pos = it.a[1], it.a[2]
        more = cmpop('Lt', pos, length(a), False)
        e = sel(a, pos)
        if it.a[0][0] == 'fiter':
            c.ev.has_skip = True
            g = app_lam(it.a[3], pos)
            return ite(more, ite(g, some(e), agg(('adt', 'std::option::Option', 2, 'Skip'))), NONE)
        return ite(more, some(e), NONE)

    def adv(it):
        if it.op != 'agg' or it.a[0][0] not in ('iter', 'fiter'):
            return it if it.op in ('undef', 'unk') else unk('next')
        a, pos = it.a[1], it.a[2]
        more = cmpop('Lt', pos, length(a), False)
        return agg(it.a[0], a, ite(more, add(pos, ONE), pos), *it.a[3:])
    r = vg.lift2(nx, it)
    new = vg.lift2(adv, it)
    c.put(x, new)
    return r


@model('DoubleEndedIterator::next_back')
def _(c, x):
    it = c.v(x)
    if it.op == 'agg' and it.a[0][0] == 'adt':
        it = as_iter(c, it)
    if it.op != 'agg' or it.a[0][0] != 'iter':
        return None
    a, pos = it.a[1], it.a[2]
    n = length(a)
    more = cmpop('Lt', pos, n, False)
    c.put(x, agg(it.a[0], sub_slice(a, ZERO, ite(more, sub(n, ONE), n)), pos))
    return ite(more, some(sel(a, sub(n, ONE))), NONE)


def lift_iter(f):
    def g(it):
        if it.op == 'mdd':
            return lift2(g, it)
        if it.op in ('undef', 'unk', 'panic'):
            return it
        if it.op == 'agg' and it.a[0][0] == 'fiter':
            return unk('adapter on a filtered sequence')
        return mkiter(f(it_seq(it)))
    return g


def each(c, n, f, what='closure'):
    """f(i) for a symbolic index i < n; -> lambda over i, or None when f changes the state"""
    i = fresh('i', 'u')
    saved = c.ev.panics
    c.ev.panics = []
    cc = c.c
    c.c = TRUE
    S1 = dict(c.S)
    S0 = c.S
    c.S = S1
    v = f(i)
    c.S = S0
    c.c = cc
    new = c.ev.panics
    c.ev.panics = saved
    changed = [k for k in S0 if S1.get(k) is not S0[k]]
    if changed:
        return None
    for pc, kind, s in new:
        c.ev.panic(b_and(cc, any_(n, lam(i, cleanc(pc)))), kind, s)
    return lam(i, v)


@model('Iterator::map')
def _(c, x, f):
    it = as_iter(c, x)
    if filtered(it):
        a, pos = it.a[1], it.a[2]
        l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
        return agg(('fiter',), arr(length(a), l), pos, it.a[3]) if l is not None else lazy(it, f)
    a = it_seq(it)
    if a.op in ('undef', 'unk'):
        return a

    def one(a):
        l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
        if l is None:
            return None
        return mkiter(arr(length(a), l))
    if a.op == 'mdd':
        r = vg.lift2(lambda y: one(y) or unk('closure with effects'), a)
        return r
    r = one(a)
    if r is None:
        # a closure with effects runs when the items are consumed; treat the common case of
        # immediate consumption by running it as a loop over all items
        return eager_map(c, a, f)
    return r


def lazy(it, f):
    return unk('closure with effects on a filtered sequence')


def eager_map(c, a, f):
    """effects of the closure for all items, in order"""
    out = run_loop(c, a, lambda c2, item, acc: push(acc, c2.apply(f, item)), EMPTY, vecacc=True)
    return mkiter(out)


_lid = [0]


def run_loop(c, a, body, acc0, vecacc=False, stop=None):
    """sequential loop over the array a; body(call, item, acc) -> acc.  State changes go to c.S"""
    _lid[0] += 1
    pos, acc = ('T', _lid[0], 'pos'), ('T', _lid[0], 'acc')
    S0 = dict(c.S)
    S0[pos] = ZERO
    S0[acc] = acc0
    n = length(a)
    keepS, keepc = c.S, c.c

    def step(S):
        p = S[pos]
        more = cmpop('Lt', p, n, False)
        S1 = dict(S)
        c.S, c.c = S1, more
        na = body(c, sel(a, p), S1[acc])
        S1 = c.S
        S1[acc] = na
        S1[pos] = add(p, ONE)
        c.S, c.c = keepS, keepc
        return [('done', b_not(more), dict(S))], [(more, S1)]
    ex = c.ev.solve(S0, step, c.c, 'iterator')
    c.S, c.c = keepS, keepc
    if len(ex) != 1:
        return unk('loop exits')
    _, cc, SS = ex[0]
    r = SS.pop(acc)
    SS.pop(pos, None)
    c.S.clear()
    c.S.update(SS)
    return r


@model('Iterator::enumerate')
def _(c, x):
    return lift_iter(lambda a: arr_fn(length(a), lambda i: tup(i, sel(a, i))))(as_iter(c, x))


@model('Iterator::rev')
def _(c, x):
    return lift_iter(lambda a: arr_fn(length(a), lambda i: sel(a, sub(sub(length(a), ONE), i))))(as_iter(c, x))


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::peekable', 'Iterator::fuse')
def _(c, x):
    return as_iter(c, x)


def vmin(a, b):
    if a is b:
        return a
    return ite(cmpop('Gt', a, b, False), b, a)


@model('Iterator::zip', 'iter::zip')
def _(c, x, y):
    a, b = seq(c, x), seq(c, y)
    for z in (a, b):
        if z.op in ('unk', 'undef'):
            return z

    def f(a, b):
        n = vmin(length(a), length(b))
        return mkiter(arr_fn(n, lambda i: tup(sel(a, i), sel(b, i))))
    return lift(f, a, b)


@model('Iterator::chain')
def _(c, x, y):
    a, b = seq(c, x), seq(c, y)
    if a.op == 'unk' or b.op == 'unk':
        return unk('chain')
    return mkiter(concat(a, b))


@model('Iterator::take')
def _(c, x, n):
    n = c.v(n)
    return lift_iter(lambda a: sub_slice(a, ZERO, vmin(length(a), n)))(as_iter(c, x))


@model('Iterator::skip')
def _(c, x, n):
    n = c.v(n)
    return lift_iter(lambda a: sub_slice(a, n, monus(length(a), n)))(as_iter(c, x))


@model('Iterator::step_by')
def _(c, x, n):
    n = c.v(n)
    return lift_iter(lambda a: arr_fn(vg.idiv_ceil(length(a), n), lambda i: sel(a, mul(i, n))))(as_iter(c, x))


@model('Iterator::filter')
def _(c, x, f):
    it = as_iter(c, x)
    if it.op != 'agg':
        return it if it.op in ('unk', 'undef') else unk('filter')
    a, pos = it.a[1], it.a[2]
    l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
    if l is None:
        return unk('filter closure with effects')
    if it.a[0][0] == 'fiter':
        i = fresh('i', 'u')
        l = lam(i, b_and(app_lam(it.a[3], i), app_lam(l, i)))
    return agg(('fiter',), a, pos, l)


@model('Iterator::filter_map')
def _(c, x, f):
    it = as_iter(c, x)
    if it.op != 'agg' or it.a[0][0] != 'iter':
        return unk('filter_map')
    a, pos = it.a[1], it.a[2]
    l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
    if l is None:
        return unk('filter_map closure with effects')
    i = fresh('i', 'u')
    o = app_lam(l, i)
    return agg(('fiter',), arr(length(a), lam(i, payload(o, 1))), pos, lam(i, opt_is(o, 1)))


@model('Iterator::flat_map')
def _(c, x, f):
    a = seq(c, x)
    if a.op in ('unk', 'undef'):
        return a
    l = each(c, length(a), lambda i: seq(c, c.apply(f, sel(a, i))))
    if l is None:
        return unk('flat_map closure with effects')
    i = fresh('i', 'u')
    b = app_lam(l, i)
    w = length(b)
    if i not in free(w):
        return mkiter(flatten(length(a), w, lambda r, j: sel(subst(b, {i: r}), j)))
    return mkiter(mk('app', 'flat', length(a), l))


@model('Iterator::flatten')
def _(c, x):
    a = seq(c, x)
    i = fresh('i', 'u')
    b = sel(a, i)
    w = length(b)
    if i not in free(w):
        return mkiter(flatten(length(a), w, lambda r, j: sel(sel(a, r), j)))
    return mkiter(mk('app', 'flat', length(a), lam(i, b)))


@model('slice::concat')
def _(c, x):
    return it_seq(TABLE['Iterator::flatten'](c, x))


@model('slice::windows')
def _(c, x, n):
    v, n = c.v(x), c.v(n)
    return mkiter(arr_fn(monus(length(v), sub(n, ONE)), lambda i: sub_slice(v, i, n)))


@model('slice::chunks', 'slice::chunks_exact')
def _(c, x, n):
    v, n = c.v(x), c.v(n)
    L = length(v)
    if c.fc['name'] == 'chunks_exact':
        return mkiter(arr_fn(idiv(L, n), lambda i: sub_slice(v, mul(i, n), n)))
    q = div(L, n)
    if idiv(L, n) is q:
        return mkiter(arr_fn(q, lambda i: sub_slice(v, mul(i, n), n)))
    return mkiter(arr_fn(vg.idiv_ceil(L, n), lambda i: sub_slice(v, mul(i, n), vmin(n, sub(L, mul(i, n))))))


@model('ExactSizeIterator::len')
def _(c, x):
    it = c.v(x)
    if it.op == 'agg' and it.a[0][0] == 'adt':
        it = as_iter(c, it)
    return length_it(it)


def length_it(it):
    if it.op == 'mdd':
        return vg.lift2(length_it, it)
    if it.op == 'agg' and it.a[0][0] == 'iter':
        return sub(length(it.a[1]), it.a[2])
    return length(it)


@model('Iterator::count')
def _(c, x):
    it = as_iter(c, x)
    if filtered(it):
        return fsum(it, lambda e: ONE)
    return length(it_seq(it))


def fsum(it, f):
    a, pos = it.a[1], it.a[2]
    i = fresh('i', 'u')
    j = add(pos, i)
    return SSUM(sub(length(a), pos), lam(i, ite(app_lam(it.a[3], j), f(sel(a, j)), ZERO)))


@model('Iterator::sum', 'Sum::sum')
def _(c, x):
    it = as_iter(c, x)
    if filtered(it):
        return fsum(it, lambda e: c.v(e))
    a = it_seq(it)
    if a.op in ('unk', 'undef'):
        return a
    return vg.lift2(lambda a: asum(c, a), a)


def asum(c, a):
    i = fresh('i', 'u')
    return SSUM(length(a), lam(i, c.v(sel(a, i))))


@model('Iterator::product')
def _(c, x):
    a = seq(c, x)
    i = fresh('i', 'u')
    return app('prod', length(a), lam(i, c.v(sel(a, i))))


@model('Iterator::fold')
def _(c, x, init, f):
    it = as_iter(c, x)
    if filtered(it):
        a = it_seq(agg(('iter',), it.a[1], it.a[2]))
        g = it.a[3]
        pos = it.a[2]
        n = length(a)
        pairs = arr_fn(n, lambda i: tup(sel(a, i), i))
        return run_loop(c, pairs, lambda c2, e, acc: cond_apply(c2, app_lam(g, add(pos, fld(e, 1))), lambda: c2.apply(f, acc, fld(e, 0)), acc), c.v(init))
    a = it_seq(it)
    if a.op in ('unk', 'undef'):
        return a
    return run_loop(c, a, lambda c2, e, acc: c2.apply(f, acc, e), c.v(init))


def cond_apply(c, g, f, other):
    S0 = c.S
    S1 = dict(S0)
    cc = c.c
    c.S, c.c = S1, b_and(cc, g)
    r = f()
    c.S, c.c = S0, cc
    for k in S0:
        if S1.get(k) is not S0[k]:
            S0[k] = ite(g, S1[k], S0[k])
    return ite(g, r, other)


@model('Iterator::for_each')
def _(c, x, f):
    it = as_iter(c, x)
    if filtered(it):
        a = it.a[1]
        g = it.a[3]
        pairs = arr_fn(length(a), lambda i: tup(sel(a, i), i))
        run_loop(c, pairs, lambda c2, e, acc: cond_apply(c2, app_lam(g, fld(e, 1)), lambda: (c2.apply(f, fld(e, 0)), ZERO)[1], ZERO), ZERO)
        return UNIT
    a = it_seq(it)
    if a.op in ('unk', 'undef'):
        return a
    run_loop(c, a, lambda c2, e, acc: (c2.apply(f, e), acc)[1], ZERO)
    return UNIT


@model('Iterator::any', 'Iterator::all')
def _(c, x, f):
    it = as_iter(c, x)
    g = None
    if filtered(it):
        g = it.a[3]
        a, pos = it.a[1], it.a[2]
        a = sub_slice(a, pos, sub(length(a), pos))
    else:
        a = it_seq(it)
    if a.op in ('unk', 'undef'):
        return a
    neg_ = c.fc['name'] == 'all'

    def one(a):
        l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
        if l is None:
            return unk('closure with effects')
        i = fresh('i', 'u')
        b = app_lam(l, i)
        b = b_not(b) if neg_ else boolatom(b)
        if g is not None:
            b = b_and(app_lam(g, i), b)
        r = any_(length(a), lam(i, cleanc(b)))
        return b_not(r) if neg_ else r
    r = vg.lift2(one, a)
    if x.op == 'mref':
        # consumed up to the hit; the rest of the iterator is not tracked
        c.put(x, unk('iterator after any/all'))
    return r


@model('Iterator::position', 'Iterator::find')
def _(c, x, f):
    it = as_iter(c, x)
    if filtered(it) or it.op != 'agg':
        return unk('find')
    a = it_seq(it)
    l = each(c, length(a), lambda i: c.apply(f, sel(a, i)))
    if l is None:
        return unk('closure with effects')
    n = length(a)
    A = any_(n, l)
    K = mk('app', 'first', n, l)
    if x.op == 'mref':
        c.put(x, unk('iterator after find'))
    return ite(A, some(K if c.fc['name'] == 'position' else sel(a, K)), NONE)


@model('Iterator::last')
def _(c, x):
    a = seq(c, x)
    if a.op in ('unk', 'undef'):
        return a
    n = length(a)
    return ite(cmpop('Gt', n, ZERO, False), some(sel(a, sub(n, ONE))), NONE)


@model('Iterator::nth')
def _(c, x, k):
    it = c.v(x)
    k = c.v(k)
    a = seq(c, it)
    if a.op in ('unk', 'undef'):
        return a
    n = length(a)
    c.put(x, mkiter(sub_slice(a, add(k, ONE), monus(n, add(k, ONE)))))
    return ite(cmpop('Lt', k, n, False), some(sel(a, k)), NONE)


@model('Iterator::max', 'Iterator::min')
def _(c, x):
    a = seq(c, x)
    if a.op in ('unk', 'undef'):
        return a
    n = length(a)
    i = fresh('i', 'u')
    return ite(cmpop('Gt', n, ZERO, False), some(app('seq' + c.fc['name'], n, lam(i, sel(a, i)))), NONE)


@model('Iterator::collect', 'FromIterator::from_iter')
def _(c, x):
    t = c.tys(1) if c.fc['name'] == 'collect' else c.tys(0)
    it = as_iter(c, x)
    if t.startswith(('std::vec::Vec<', 'rulinalg::vector::Vector<', 'std::boxed::Box<[', 'std::collections::VecDeque<')):
        if filtered(it):
            a, pos, g = it.a[1], it.a[2], it.a[3]
            i = fresh('i', 'u')
            j = add(pos, i)
            return mk('app', 'filter', sub(length(a), pos), lam(i, cleanc(app_lam(g, j))), lam(i, sel(a, j)))
        a = it_seq(it)
        if a.op == 'arr' or a.op == 'mdd':
            def strip_items(a):
                if a.op != 'arr':
                    return a
                i = fresh('i', 'u')
                e = sel(a, i)
                return arr(a.a[0], lam(i, c.v(e))) if has_mref(e) and not t.startswith('std::vec::Vec<&mut') else a
            return vg.lift2(strip_items, a)
        return a
    if t.startswith('std::result::Result<') and ('std::vec::Vec<' in t or 'rulinalg::vector::Vector<' in t) and not filtered(it):
        a = it_seq(it)
        if a.op in ('unk', 'undef'):
            return a
        i = fresh('i', 'u')
        e = sel(a, i)
        bad = any_(length(a), lam(i, cleanc(opt_is(e, 1))))
        K = mk('app', 'first', length(a), lam(i, cleanc(opt_is(e, 1))))
        good = arr(length(a), lam(i, payload(e, 0)))
        er = payload(e, 1)
        return ite(bad, err(er if i not in free(er) else subst(er, {i: K})), ok(good))
    if t.startswith('std::collections::'):
        return mk('app', 'collect:' + t.split('<')[0].split('::')[-1], it_seq(it)) if not filtered(it) else unk('collect')
    return unk('collect into ' + t)


@model('Extend::extend')
def _(c, v, x):
    it = as_iter(c, x)
    if filtered(it):
        a, pos, g = it.a[1], it.a[2], it.a[3]
        i = fresh('i', 'u')
        j = add(pos, i)
        a = mk('app', 'filter', sub(length(a), pos), lam(i, cleanc(app_lam(g, j))), lam(i, sel(a, j)))
    else:
        a = it_seq(it)
    c.put(v, vcat(c.v(v), a))
    return UNIT


def vcat(v, a):
    if a.op == 'mdd':
        return lift(cat, v, a)
    return cat(v, a)


def _len_misc(x):
    if x.op == 'app' and x.a[0] == 'filter':
        i = fresh('i', 'u')
        return SSUM(x.a[1], lam(i, ite(app_lam(x.a[2], i), ONE, ZERO)))
    if x.op == 'app' and x.a[0] == 'flat':
        i = fresh('i', 'u')
        return SSUM(x.a[1], lam(i, length(app_lam(x.a[2], i))))
    if x.op == 'app' and x.a[0] in ('sorted', 'sorted_by'):
        return length(x.a[1])


LENRULES.append(_len_misc)


# ---------------------------------------------------------------- slices and vectors
@model('slice::len', 'Vec::len', 'Vector::size', 'str::len', 'VecDeque::len')
def _(c, x):
    return length(c.v(x))


@model('slice::is_empty', 'Vec::is_empty', 'VecDeque::is_empty')
def _(c, x):
    return cmpop('Eq', length(c.v(x)), ZERO, False)


@model('slice::last')
def _(c, x):
    v = c.v(x)
    n = length(v)
    return ite(cmpop('Gt', n, ZERO, False), some(sel(v, sub(n, ONE))), NONE)


@model('slice::first')
def _(c, x):
    v = c.v(x)
    return ite(cmpop('Gt', length(v), ZERO, False), some(sel(v, ZERO)), NONE)


@model('slice::get')
def _(c, x, i):
    v, i = c.v(x), c.v(i)
    if i.op == 'agg':
        return None
    return ite(cmpop('Lt', i, length(v), False), some(sel(v, i)), NONE)


@model('slice::get_mut')
def _(c, x, i):
    v, i = c.v(x), c.v(i)
    if i.op == 'agg' or x.op != 'mref':
        return None
    return ite(cmpop('Lt', i, length(v), False), some(mref(x.a[0], x.a[1] + (('i', i),))), NONE)


@model('slice::last_mut')
def _(c, x):
    v = c.v(x)
    n = length(v)
    if x.op != 'mref':
        return None
    return ite(cmpop('Gt', n, ZERO, False), some(mref(x.a[0], x.a[1] + (('i', sub(n, ONE)),))), NONE)


@model('slice::get_unchecked', 'Vector::get_unchecked')
def _(c, x, i):
    v, i = c.v(x), c.v(i)
    if i.op == 'agg':
        return None
    return sel(v, i)


@model('slice::get_unchecked_mut', 'Vector::get_unchecked_mut')
def _(c, x, i):
    if x.op != 'mref':
        return None
    return mref(x.a[0], x.a[1] + (('i', c.v(i)),))


def range_of(c, r, n):
    """(start, length) of an index range over a sequence of length n"""
    r = c.v(r)
    if r.op == 'agg' and r.a[0][0] == 'adt':
        k = r.a[0][1].split('::')[-1]
        if k == 'Range':
            return r.a[1], sub(r.a[2], r.a[1])
        if k == 'RangeTo':
            return ZERO, r.a[1]
        if k == 'RangeFrom':
            return r.a[1], sub(n, r.a[1])
        if k == 'RangeFull':
            return ZERO, n
        if k == 'RangeInclusive':
            return r.a[1], sub(add(r.a[2], ONE), r.a[1])
        if k == 'RangeToInclusive':
            return ZERO, add(r.a[1], ONE)
    return None


def mindex(c, m, i):
    """flat index of a [row, col] index value into matrix m"""
    i = c.v(i)
    if i.op == 'agg' and i.a[0][0] == 'tuple':
        r, cc = i.a[1], i.a[2]
    else:
        r, cc = sel(i, ZERO), sel(i, ONE)
    return add(mul(r, mat_cols(m)), cc)


@model('Index::index')
def _(c, x, i):
    t = c.tys(0)
    if kind_of(t) == 'm' and not c.tys(1).startswith('usize'):
        m = c.v(x)
        return sel(mat_data(m), mindex(c, m, i))
    v = c.v(x)
    if t.startswith('std::collections::'):
        return mapget(v, c.v(i))
    if c.tys(1).startswith('std::ops::Range'):
        r = range_of(c, i, length(v))
        if r is None:
            return None
        return sub_slice(v, r[0], r[1])
    return sel(v if kind_of(t) != 'm' else mat_data(v), c.v(i))


@model('IndexMut::index_mut')
def _(c, x, i):
    t = c.tys(0)
    if x.op == 'mdd':
        return vg.lift2(lambda y: TABLE['IndexMut::index_mut'](c, y, i), x)
    if x.op != 'mref':
        return x if x.op in ('undef', 'unk') else None
    if kind_of(t) == 'm' and not c.tys(1).startswith('usize'):
        m = c.v(x)
        return mref(x.a[0], x.a[1] + (('md',), ('i', mindex(c, m, i))))
    if t.startswith('std::collections::'):
        return None
    if c.tys(1).startswith('std::ops::Range'):
        r = range_of(c, i, length(c.v(x)))
        if r is None:
            return None
        return mref(x.a[0], x.a[1] + (('sl', r[0], r[1]),))
    return mref(x.a[0], x.a[1] + (('i', c.v(i)),))


@model('slice::swap')
def _(c, x, i, j):
    v, i, j = c.v(x), c.v(i), c.v(j)
    a, b = sel(v, i), sel(v, j)
    c.put(x, swap(v, i, j))
    return UNIT


def swap(v, i, j):
    if v.op == 'mdd' or i.op == 'mdd' or j.op == 'mdd':
        return lift(swap, v, i, j)
    if v.op in ('undef', 'unk'):
        return v
    return store(store(v, i, sel(v, j)), j, sel(v, i))


@model('slice::contains')
def _(c, x, y):
    v, y = c.v(x), c.v(y)
    i = fresh('i', 'u')
    t = c.tys(0)
    e = sel(v, i)
    return any_(length(v), lam(i, cmpop('Eq', e, y, t == 'f64') if is_int_ty(t) or t in ('f64', 'T') else equal_vals(e, y, False)))


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(c, x, y):
    v, y = c.v(x), c.v(y)
    c.panic(b_not(cmpop('Eq', length(v), length(y), False)), 'length')
    c.put(x, y)
    return UNIT


@model('slice::fill')
def _(c, x, y):
    v, y = c.v(x), c.v(y)
    c.put(x, arr_fn(length(v), lambda i: y))
    return UNIT


@model('slice::reverse')
def _(c, x):
    v = c.v(x)
    c.put(x, arr_fn(length(v), lambda i: sel(v, sub(sub(length(v), ONE), i))))
    return UNIT


@model('slice::sort', 'slice::sort_unstable')
def _(c, x):
    v = c.v(x)
    c.put(x, app('sorted', v))
    return UNIT


@model('slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by')
def _(c, x, f):
    v = c.v(x)
    i, j = fresh('x', 'o'), fresh('y', 'o')
    # the comparison as a function of two arbitrary elements
    a, b = fresh('a', 'u'), fresh('b', 'u')
    l = each(c, ONE, lambda z: c.apply(f, sel(v, a), sel(v, b)) if 'key' not in c.fc['name'] else c.apply(f, sel(v, a)))
    if l is None:
        return None
    body = app_lam(l, ZERO)
    c.put(x, app('sorted_by', v, lam(a, lam(b, body))))
    return UNIT


@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity', 'String::new')
def _(c, *a): return EMPTY


@model('Vec::push', 'VecDeque::push_back')
def _(c, v, x):
    x = x if not has_mref(x) else x
    c.put(v, vpush(c.v(v), c.v(x) if not c.tys(0).startswith('&mut') else x))
    return UNIT


def vpush(v, x):
    return push(v, x)


@model('VecDeque::push_front')
def _(c, v, x):
    c.put(v, concat(array([c.v(x)]), c.v(v)))
    return UNIT


@model('VecDeque::pop_front')
def _(c, v):
    x = c.v(v)
    n = length(x)
    ne = cmpop('Gt', n, ZERO, False)
    c.put(v, ite(ne, sub_slice(x, ONE, sub(n, ONE)), x))
    return ite(ne, some(sel(x, ZERO)), NONE)


@model('Vec::pop', 'VecDeque::pop_back')
def _(c, v):
    x = c.v(v)
    n = length(x)
    ne = cmpop('Gt', n, ZERO, False)
    c.put(v, ite(ne, sub_slice(x, ZERO, sub(n, ONE)), x))
    return ite(ne, some(sel(x, sub(n, ONE))), NONE)


@model('Vec::insert')
def _(c, v, i, x):
    a, i, x = c.v(v), c.v(i), c.v(x)
    n = length(a)
    c.panic(cmpop('Gt', i, n, False), 'index')
    k = fresh('i', 'u')
    c.put(v, arr(add(n, ONE), lam(k, ite(cmpop('Lt', k, i, False), sel(a, k), ite(cmpop('Eq', k, i, False), x, sel(a, sub(k, ONE)))))))
    return UNIT


@model('Vec::remove', 'Vec::swap_remove')
def _(c, v, i):
    a, i = c.v(v), c.v(i)
    n = length(a)
    c.panic(cmpop('Ge', i, n, False), 'index')
    k = fresh('i', 'u')
    if c.fc['name'] == 'remove':
        c.put(v, arr(sub(n, ONE), lam(k, ite(cmpop('Lt', k, i, False), sel(a, k), sel(a, add(k, ONE))))))
    else:
        c.put(v, arr(sub(n, ONE), lam(k, ite(cmpop('Eq', k, i, False), sel(a, sub(n, ONE)), sel(a, k)))))
    return sel(a, i)


@model('Vec::append')
def _(c, v, w):
    a, b = c.v(v), c.v(w)
    c.put(v, vcat(a, b))
    c.put(w, EMPTY)
    return UNIT


@model('Vec::extend_from_slice')
def _(c, v, w):
    c.put(v, vcat(c.v(v), c.v(w)))
    return UNIT


@model('Vec::truncate')
def _(c, v, n):
    a, n = c.v(v), c.v(n)
    c.put(v, sub_slice(a, ZERO, vmin(length(a), n)))
    return UNIT


@model('Vec::clear')
def _(c, v):
    c.put(v, EMPTY)
    return UNIT


@model('Vec::resize')
def _(c, v, n, x):
    a, n, x = c.v(v), c.v(n), c.v(x)
    k = fresh('i', 'u')
    c.put(v, arr(n, lam(k, ite(cmpop('Lt', k, length(a), False), sel(a, k), x))))
    return UNIT


@model('Vec::set_len')
def _(c, v, n):
    a, n = c.v(v), c.v(n)
    k = fresh('i', 'u')
    c.put(v, arr(n, lam(k, ite(cmpop('Lt', k, length(a), False), sel(a, k), mk('app', 'uninit', k)))))
    return UNIT


@model('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def _(c, *a): return UNIT


@model('Vec::capacity')
def _(c, v): return app('capacity', c.v(v))


@model('Vec::dedup')
def _(c, v):
    c.put(v, app('dedup', c.v(v)))
    return UNIT


@model('vec::from_elem')
def _(c, x, n):
    x, n = c.v(x), c.v(n)
    return arr_fn(n, lambda i: x)


@model('slice::split_at')
def _(c, x, k):
    v, k = c.v(x), c.v(k)
    c.panic(cmpop('Gt', k, length(v), False), 'index')
    return tup(sub_slice(v, ZERO, k), sub_slice(v, k, sub(length(v), k)))


@model('slice::split_at_mut')
def _(c, x, k):
    v, k = c.v(x), c.v(k)
    if x.op != 'mref':
        return None
    c.panic(cmpop('Gt', k, length(v), False), 'index')
    return tup(mref(x.a[0], x.a[1] + (('sl', ZERO, k),)), mref(x.a[0], x.a[1] + (('sl', k, sub(length(v), k)),)))


@model('slice::split_first')
def _(c, x):
    v = c.v(x)
    n = length(v)
    return ite(cmpop('Gt', n, ZERO, False), some(tup(sel(v, ZERO), sub_slice(v, ONE, sub(n, ONE)))), NONE)


@model('slice::split_last')
def _(c, x):
    v = c.v(x)
    n = length(v)
    return ite(cmpop('Gt', n, ZERO, False), some(tup(sel(v, sub(n, ONE)), sub_slice(v, ZERO, sub(n, ONE)))), NONE)


@model('slice::as_ptr', 'Vec::as_ptr')
def _(c, x):
    return mk('app', 'ptr', c.v(x), ZERO)


@model('ptr::offset', 'ptr::add')
def _(c, p, n):
    p, n = c.v(p), c.v(n)
    if p.op == 'app' and p.a[0] == 'ptr':
        return mk('app', 'ptr', p.a[1], add(p.a[2], n))
    return None


# ---------------------------------------------------------------- maps
def mapget(m, k):
    """the value stored last under k"""
    if m.op == 'app' and m.a[0] == 'mapset' and m.a[2] is k:
        return m.a[3]
    return app('mapget', m, k)


def haskey(m, k):
    if m.op == 'mdd' or k.op == 'mdd':
        return lift(haskey, m, k)
    if m.op in ('undef', 'unk'):
        return m
    if m.op == 'app' and m.a[0] == 'map0':
        return FALSE
    if m.op == 'app' and m.a[0] == 'mapset':
        return b_or(eq_generic(m.a[2], k), haskey(m.a[1], k))
    if m.op == 'app' and m.a[0] == 'mapof':
        i = fresh('i', 'u')
        return any_(m.a[1], lam(i, eq_generic(vg.app_lam(m.a[2], i), k)))
    return boolatom(app('haskey', m, k))


vg.REBUILD['haskey'] = haskey
vg.REBUILD['mapget'] = mapget


def mapof(n, kk, vv):
    if n is ZERO:
        return mk('app', 'map0')
    if n.op == 'mdd':
        return lift(lambda x: mapof(x, kk, vv), n)
    return mk('app', 'mapof', n, kk, vv)


vg.REBUILD['mapof'] = mapof


@model('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashSet::new', 'BTreeSet::new')
def _(c, *a):
    return mk('app', 'map0')


@model('HashMap::insert', 'BTreeMap::insert')
def _(c, m, k, v):
    x, k, v = c.v(m), c.v(k), c.v(v)
    c.put(m, app('mapset', x, k, v))
    return ite(haskey(x, k), some(mapget(x, k)), NONE)


@model('HashMap::contains_key', 'BTreeMap::contains_key')
def _(c, m, k):
    return haskey(c.v(m), c.v(k))


@model('HashMap::get', 'BTreeMap::get')
def _(c, m, k):
    x, k = c.v(m), c.v(k)
    return ite(haskey(x, k), some(mapget(x, k)), NONE)


@model('HashMap::len', 'BTreeMap::len')
def _(c, m):
    return app('maplen', c.v(m))


# ---------------------------------------------------------------- matrices
@model('Matrix::new')
def _(c, r, cc, d):
    r, cc, d = c.v(r), c.v(cc), c.v(d)
    if d.op == 'agg':
        return None
    c.panic(b_not(cmpop('Eq', mul(r, cc), length(d), False)), 'shape')
    return lift3(matrix, r, cc, d)


def lift3(f, r, c, d):
    if d.op == 'mdd':
        return vg.lift2(lambda x: f(r, c, x), d)
    return f(r, c, d)


@model('Vector::new')
def _(c, d):
    return c.v(d)


@model('BaseMatrix::rows', 'Matrix::rows')
def _(c, m): return mat_rows(c.v(m))


@model('BaseMatrix::cols', 'Matrix::cols')
def _(c, m): return mat_cols(c.v(m))


@model('BaseMatrix::row_stride')
def _(c, m): return mat_cols(c.v(m))


@model('BaseMatrix::is_empty')
def _(c, m):
    m = c.v(m)
    return b_or(cmpop('Eq', mat_rows(m), ZERO, False), cmpop('Eq', mat_cols(m), ZERO, False))


@model('Matrix::data', 'Matrix::into_vec')
def _(c, m): return mat_data(c.v(m))


@model('Matrix::mut_data')
def _(c, m):
    return mref(m.a[0], m.a[1] + (('md',),)) if m.op == 'mref' else None


@model('BaseMatrix::as_slice', 'BaseMatrix::into_matrix', 'BaseMatrixMut::as_mut_slice')
def _(c, m):
    return m if c.fc['name'] == 'as_mut_slice' else c.v(m)


@model('BaseMatrix::iter')
def _(c, m): return mkiter(mat_data(c.v(m)))


@model('BaseMatrixMut::iter_mut')
def _(c, m):
    if m.op != 'mref':
        return None
    v = c.v(m)
    if v.op == 'arr' or (v.op == 'app' and v.a[0] == 'sel') or any(e[0] in ('md', 'sl') for e in m.a[1]):
        return as_iter(c, m)
    i = fresh('i', 'u')
    return mkiter(arr(length(mat_data(v)), lam(i, mref(m.a[0], m.a[1] + (('md',), ('i', i))))))


def row_of(m, r):
    return sub_slice(mat_data(m), mul(r, mat_cols(m)), mat_cols(m))


@model('BaseMatrix::row_iter', 'BaseMatrix::iter_rows')
def _(c, m):
    m = c.v(m)
    return mkiter(arr_fn(mat_rows(m), lambda r: row_of(m, r)))


@model('BaseMatrixMut::row_iter_mut')
def _(c, m):
    if m.op != 'mref':
        return None
    v = c.v(m)
    i = fresh('i', 'u')
    cc = mat_cols(v)
    return mkiter(arr(mat_rows(v), lam(i, mref(m.a[0], m.a[1] + (('md',), ('sl', mul(i, cc), cc))))))


@model('BaseMatrix::col_iter')
def _(c, m):
    m = c.v(m)
    return mkiter(arr_fn(mat_cols(m), lambda j: arr_fn(mat_rows(m), lambda i: at(m, i, j))))


def at(m, i, j):
    return sel(mat_data(m), add(mul(i, mat_cols(m)), j))


@model('BaseMatrix::row', 'BaseMatrix::row_unchecked')
def _(c, m, r):
    m, r = c.v(m), c.v(r)
    if c.fc['name'] == 'row':
        c.panic(cmpop('Ge', r, mat_rows(m), False), 'index')
    return row_of(m, r)


@model('BaseMatrixMut::row_mut', 'BaseMatrixMut::row_unchecked_mut')
def _(c, m, r):
    if m.op != 'mref':
        return None
    v, r = c.v(m), c.v(r)
    if c.fc['name'] == 'row_mut':
        c.panic(cmpop('Ge', r, mat_rows(v), False), 'index')
    return mref(m.a[0], m.a[1] + (('md',), ('sl', mul(r, mat_cols(v)), mat_cols(v))))


@model('BaseMatrix::col', 'BaseMatrix::col_unchecked')
def _(c, m, j):
    m, j = c.v(m), c.v(j)
    return matrix(mat_rows(m), ONE, arr_fn(mat_rows(m), lambda i: at(m, i, j)))


@model('BaseMatrix::get_unchecked')
def _(c, m, i):
    m = c.v(m)
    return sel(mat_data(m), mindex(c, m, i))


@model('BaseMatrixMut::get_unchecked_mut')
def _(c, m, i):
    if m.op != 'mref':
        return None
    v = c.v(m)
    return mref(m.a[0], m.a[1] + (('md',), ('i', mindex(c, v, i))))


@model('BaseMatrix::get')
def _(c, m, i):
    m = c.v(m)
    i2 = c.v(i)
    inb = b_and(cmpop('Lt', sel(i2, ZERO), mat_rows(m), False), cmpop('Lt', sel(i2, ONE), mat_cols(m), False))
    return ite(inb, some(sel(mat_data(m), mindex(c, m, i))), NONE)


@model('BaseMatrix::transpose')
def _(c, m): return transpose(c.v(m))


@model('BaseMatrix::elemul', 'BaseMatrix::elediv')
def _(c, a, b):
    f = mul if c.fc['name'] == 'elemul' else div
    return mat_elem(f, c.v(a), c.v(b))


@model('Vector::elemul', 'Vector::elediv')
def _(c, a, b):
    f = mul if c.fc['name'] == 'elemul' else div
    return elementwise(f, c.v(a), c.v(b))


@model('BaseMatrix::sum')
def _(c, m):
    return asum(c, mat_data(c.v(m)))


@model('BaseMatrix::sum_rows')
def _(c, m):
    m = c.v(m)

    def col(j):
        i = fresh('i', 'u')
        return SSUM(mat_rows(m), lam(i, at(m, i, j)))
    return arr_fn(mat_cols(m), col)


@model('BaseMatrix::sum_cols')
def _(c, m):
    m = c.v(m)

    def row(r):
        i = fresh('i', 'u')
        return SSUM(mat_cols(m), lam(i, at(m, r, i)))
    return arr_fn(mat_rows(m), row)


@model('BaseMatrix::hcat', 'BaseMatrix::vcat')
def _(c, a, b):
    a, b = c.v(a), c.v(b)
    if c.fc['name'] == 'vcat':
        return matrix(add(mat_rows(a), mat_rows(b)), mat_cols(a), concat(mat_data(a), mat_data(b)))
    ca, cb = mat_cols(a), mat_cols(b)
    w = add(ca, cb)
    return matrix(mat_rows(a), w, flatten(mat_rows(a), w, lambda r, j: ite(cmpop('Lt', j, ca, False), at(a, r, j), at(b, r, sub(j, ca)))))


@model('BaseMatrix::select_rows')
def _(c, m, idx):
    m = c.v(m)
    s = seq(c, idx)
    if s.op in ('unk', 'undef'):
        return s
    w = mat_cols(m)
    n = length(s)
    x = c.v(idx)
    b = user_method(c, x, 'len', 'ExactSizeIterator')
    if b is not None:
        _lid[0] += 1
        c.S[('T', _lid[0], 'it')] = x
        n = c.ev.call_body(c.S, c.c, b, [mref(('T', _lid[0], 'it'), ())], c.site)
    return matrix(n, w, flatten(length(s), w, lambda r, j: at(m, sel(s, r), j)))


@model('BaseMatrix::select_cols')
def _(c, m, idx):
    m = c.v(m)
    s = seq(c, idx)
    if s.op in ('unk', 'undef'):
        return s
    w = length(s)
    return matrix(mat_rows(m), w, flatten(mat_rows(m), w, lambda r, j: at(m, r, sel(s, j))))


@model('Vector::select')
def _(c, v, idx):
    v, s = c.v(v), c.v(idx)
    return arr_fn(length(s), lambda i: sel(v, sel(s, i)))


@model('BaseMatrixMut::swap_rows')
def _(c, m, a, b):
    v, a, b = c.v(m), c.v(a), c.v(b)
    w = mat_cols(v)
    d = mat_data(v)
    ra, rb = row_of(v, a), row_of(v, b)
    nd = app('swaprows', d, w, a, b)
    c.put(m, matrix(mat_rows(v), w, nd))
    return UNIT


@model('BaseMatrixMut::swap_cols')
def _(c, m, a, b):
    v, a, b = c.v(m), c.v(a), c.v(b)
    w = mat_cols(v)

    def f(k):
        r = idiv(k, w)
        j = sub(k, mul(r, w))
        return at(v, r, ite(cmpop('Eq', j, a, False), b, ite(cmpop('Eq', j, b, False), a, j)))
    c.panic(b_or(cmpop('Ge', a, w, False), cmpop('Ge', b, w, False)), 'index')
    c.put(m, mat_fn(None, mat_rows(v), w, f))
    return UNIT


def _len_swaprows(x):
    if x.op == 'app' and x.a[0] == 'swaprows':
        return length(x.a[1])


def _sel_swaprows(x, i):
    if x.op == 'app' and x.a[0] == 'swaprows' and False:
        d, w, a, b = x.a[1:]
        r = idiv(i, w)
        o = sub(i, mul(w, r))
        return ite(cmpop('Eq', r, a, False), sel(d, add(mul(b, w), o)), ite(cmpop('Eq', r, b, False), sel(d, add(mul(a, w), o)), sel(d, i)))


LENRULES.append(_len_swaprows)
SELRULES.append(_sel_swaprows)


@model('BaseMatrixMut::apply', 'Vector::apply')
def _(c, m, f):
    m = c.v(m)
    vec = c.key.startswith('Vector')
    d = m if vec else mat_data(m)
    l = each(c, length(d), lambda i: c.apply(f, sel(d, i)))
    if l is None:
        return None
    return arr(length(d), l) if vec else matrix(mat_rows(m), mat_cols(m), arr(length(d), l))


@model('Matrix::zeros', 'Matrix::ones')
def _(c, r, cc):
    v = ZERO if c.fc['name'] == 'zeros' else ONE
    r, cc = c.v(r), c.v(cc)
    return matrix(r, cc, arr_fn(mul(r, cc), lambda i: v))


@model('Vector::zeros', 'Vector::ones')
def _(c, n):
    v = ZERO if c.fc['name'] == 'zeros' else ONE
    return arr_fn(c.v(n), lambda i: v)


@model('Matrix::identity')
def _(c, n):
    n = c.v(n)
    return diag_matrix(n, lambda r: ONE)


def diag_matrix(n, f):
    return matrix(n, n, flatten(n, n, lambda r, j: ite(cmpop('Eq', r, j, False), f(r), ZERO)))


@model('Matrix::from_diag')
def _(c, d):
    d = c.v(d)
    return diag_matrix(length(d), lambda r: sel(d, r))


@model('Matrix::from_fn')
def _(c, r, cc, f):
    r, w = c.v(r), c.v(cc)
    l = each(c, mul(r, w), lambda i: c.apply(f, sub(i, mul(w, idiv(i, w))), idiv(i, w)))
    return None if l is None else matrix(r, w, arr(mul(r, w), l))


@model('Vector::from_fn')
def _(c, n, f):
    n = c.v(n)
    l = each(c, n, lambda i: c.apply(f, i))
    return None if l is None else arr(n, l)


def axis_is_row(a):
    return opt_is(a, 0)


@model('Matrix::mean')
def _(c, m, a):
    m, a = c.v(m), c.v(a)

    def cm(j):
        i = fresh('i', 'u')
        return div(SSUM(mat_rows(m), lam(i, at(m, i, j))), mat_rows(m))

    def rm(i):
        j = fresh('i', 'u')
        return div(SSUM(mat_cols(m), lam(j, at(m, i, j))), mat_cols(m))
    return ite(axis_is_row(a), arr_fn(mat_cols(m), cm), arr_fn(mat_rows(m), rm))


@model('Matrix::variance')
def _(c, m, a):
    m, a = c.v(m), c.v(a)

    def along(rows):
        n, w = (mat_rows(m), mat_cols(m)) if rows else (mat_cols(m), mat_rows(m))
        e = (lambda i, j: at(m, i, j)) if rows else (lambda i, j: at(m, j, i))

        def cv(j):
            i, k = fresh('i', 'u'), fresh('i', 'u')
            mean = div(SSUM(n, lam(i, e(i, j))), n)
            d = sub(e(k, j), mean)
            return div(SSUM(n, lam(k, mul(d, d))), sub(n, ONE))
        return ite(cmpop('Lt', n, num(2), False), err(app('linalg_err', m)), ok(arr_fn(w, cv)))
    return ite(axis_is_row(a), along(True), along(False))


def _len_colvar(x):
    if x.op == 'app' and x.a[0] == 'colvar':
        return mat_cols(x.a[1])


LENRULES.append(_len_colvar)


@model('Vector::dot', 'utils::dot')
def _(c, a, b):
    return dot(c.v(a), c.v(b))


@model('Vector::sum', 'utils::unrolled_sum')
def _(c, a): return asum(c, c.v(a))


@model('Vector::mean')
def _(c, a):
    a = c.v(a)
    return div(asum(c, a), length(a))


@model('utils::vec_bin_op')
def _(c, a, b, f):
    a, b = c.v(a), c.v(b)
    l = each(c, length(a), lambda i: c.apply(f, sel(a, i), sel(b, i)))
    if l is None:
        return None
    c.panic(b_not(cmpop('Eq', length(a), length(b), False)), 'length')
    return arr(length(a), l)


@model('utils::vec_sum', 'utils::vec_sub', 'utils::ele_mul', 'utils::ele_div')
def _(c, a, b):
    return elementwise({'vec_sum': add, 'vec_sub': sub, 'ele_mul': mul, 'ele_div': div}[c.fc['name']], c.v(a), c.v(b))


@model('utils::in_place_vec_bin_op')
def _(c, a, b, f):
    if a.op != 'mref':
        return None
    v, w = c.v(a), c.v(b)
    c.panic(b_not(cmpop('Eq', length(v), length(w), False)), 'length')
    i = fresh('i', 'u')
    items = arr(length(v), lam(i, tup(mref(a.a[0], a.a[1] + (('i', i),)), sel(w, i))))
    run_loop(c, items, lambda c2, e, acc: (c2.apply(f, fld(e, 0), fld(e, 1)), acc)[1], ZERO)
    return UNIT


@model('utils::argmax', 'utils::argmin', 'Vector::argmax', 'Vector::argmin')
def _(c, a):
    a = c.v(a)
    c.panic(cmpop('Eq', length(a), ZERO, False), 'empty')
    i = fresh('i', 'u')
    l = lam(i, sel(a, i))
    k = app(c.fc['name'], length(a), l)
    return tup(k, sel(a, k))


@model('VectorNorm::norm', 'MatrixNorm::norm', 'Vector::norm', 'BaseMatrix::norm')
def _(c, n, m):
    n, m = c.v(n), c.v(m)
    if c.key in ('Vector::norm', 'BaseMatrix::norm'):
        n, m = m, n
    d = m if m.op == 'arr' else mat_data(m) if kind_of(c.tys(2)) == 'm' else m
    if n.op == 'agg' and n.a[0][0] == 'adt' and n.a[0][1].split('::')[-1] == 'Euclidean':
        return sqrt(dot(d, d))
    return lp_norm(n, d)


def lp_norm(n, d):
    i = fresh('i', 'u')
    if n.op == 'agg' and n.a[0][0] == 'adt' and n.a[0][-1] == 'Integer' and len(n.a) == 2 and n.a[1].op == 'num' and n.a[1].a[0] >= 1:
        p = n.a[1].a[0]
        return powr(SSUM(length(d), lam(i, powr(absv(sel(d, i)), p))), 1 / p)
    return app('norm', n, d)


@model('VectorMetric::metric', 'MatrixMetric::metric')
def _(c, n, a, b):
    n, a, b = c.v(n), c.v(a), c.v(b)
    d = elementwise(sub, a, b)
    if n.op == 'agg' and n.a[0][0] == 'adt' and n.a[0][1].split('::')[-1] == 'Euclidean':
        return sqrt(dot(d, d))
    return lp_norm(n, d)


def fallible(name, *a, regular=False):
    """result of a decomposition or solve: Ok(name(args)) or Err; regular: for matrices without a defect only"""
    if regular:
        return ok(app(name, *a))
    # solving, inverting and decomposing all fail exactly on a singular matrix
    bad = boolatom(app('singular', a[0]) if name in ('solve', 'inverse', 'lu') else app(name + '_fails', *a))
    return ite(bad, err(app('linalg_err', *a)), ok(app(name, *a)))


@model('Matrix::solve')
def _(c, m, y):
    return fallible('solve', c.v(m), c.v(y), regular=c.ev.hooks.get('regular'))


@model('Matrix::inverse', 'PartialPivLu::inverse', 'Cholesky::inverse')
def _(c, m):
    m = c.v(m)
    if m.op == 'app' and m.a[0] == 'lu':
        m = m.a[1]
    return fallible('inverse', m, regular=c.ev.hooks.get('regular'))


@model('Matrix::det', 'PartialPivLu::det')
def _(c, m):
    m = c.v(m)
    if m.op == 'app' and m.a[0] == 'lu':
        m = m.a[1]
    return app('det', m)


@model('PartialPivLu::decompose')
def _(c, m):
    return fallible('lu', c.v(m))


@model('PartialPivLu::solve')
def _(c, m, y):
    m = c.v(m)
    if m.op == 'app' and m.a[0] == 'lu':
        m = m.a[1]
    return fallible('solve', m, c.v(y))


@model('Cholesky::decompose', 'Matrix::cholesky')
def _(c, m):
    return fallible('cholesky', c.v(m))


@model('Decomposition::unpack')
def _(c, m): return c.v(m)


MATFN['cholesky'] = (lambda m: mat_rows(m.a[1]), lambda m: mat_cols(m.a[1]))


@model('BaseMatrix::solve_l_triangular', 'BaseMatrix::solve_u_triangular')
def _(c, m, y):
    m, y = c.v(m), c.v(y)
    return fallible(c.fc['name'], m, y)


def _len_solve(x):
    if x.op == 'app' and x.a[0] in ('solve', 'solve_l_triangular', 'solve_u_triangular'):
        return mat_cols(x.a[1])


LENRULES.append(_len_solve)


@model('Matrix::svd')
def _(c, m):
    m = c.v(m)
    bad = boolatom(app('svd_fails', m))
    return ite(bad, err(app('linalg_err', m)), ok(tup(app('svd_s', m), app('svd_u', m), app('svd_v', m))))


MATFN['svd_v'] = (lambda m: mat_cols(m.a[1]), lambda m: ite(cmpop('Lt', mat_rows(m.a[1]), mat_cols(m.a[1]), False), mat_rows(m.a[1]), mat_cols(m.a[1])))


@model('Matrix::eigendecomp', 'Matrix::eigenvalues')
def _(c, m):
    m = c.v(m)
    bad = boolatom(app('eig_fails', m))
    return ite(bad, err(app('linalg_err', m)), ok(tup(app('eig_val', m), app('eig_vec', m)) if c.fc['name'] == 'eigendecomp' else app('eig_val', m)))


@model('MatrixSlice::from_matrix', 'BaseMatrix::sub_slice')
def _(c, m, st, r, cc):
    m, st, r, cc = c.v(m), c.v(st), c.v(r), c.v(cc)
    r0, c0 = sel(st, ZERO), sel(st, ONE)
    c.panic(b_or(cmpop('Gt', add(r0, r), mat_rows(m), False), cmpop('Gt', add(c0, cc), mat_cols(m), False)), 'shape')
    return matrix(r, cc, flatten(r, cc, lambda i, j: at(m, add(r0, i), add(c0, j))))


@model('MatrixSlice::from_raw_parts')
def _(c, p, r, cc, s):
    p, r, cc, s = c.v(p), c.v(r), c.v(cc), c.v(s)
    if p.op == 'app' and p.a[0] == 'ptr':
        v, off = p.a[1], p.a[2]
        return matrix(r, cc, flatten(r, cc, lambda i, j: sel(v, add(off, add(mul(i, s), j)))))
    return None


# ---------------------------------------------------------------- random numbers
@model('rand::thread_rng', 'thread_rng::thread_rng')
def _(c):
    return agg(('rng',), mk('str', 'thread'))


def draw(c, r, kind, *a):
    src = None
    x = r
    root = None
    if x.op == 'mref':
        v = c.v(x)
        if v.op == 'agg' and v.a[0] == ('rng',):
            root = ('G', 'rng', 'thread')
            s = mk('str', 'thread')
        else:
            # follow to the outermost reference target
            y = x
            z = c.S.get(y.a[0])
            root = ('G', 'rng', y.a[0])
            s = v
            for e in y.a[1]:
                pass
    else:
        v = c.v(x)
        if v.op == 'agg' and v.a[0] == ('rng',):
            root = ('G', 'rng', 'thread')
            s = mk('str', 'thread')
        else:
            return unk('random source')
    n = c.S.get(root)
    if n is None:
        n = ZERO
        return unk('random source')
    c.S[root] = add(n, ONE)
    return app('draw', s, n, mk('str', kind), *a)


@model('Rng::gen_range')
def _(c, r, lo, hi):
    lo, hi = c.v(lo), c.v(hi)
    c.panic(b_not(cmpop('Lt', lo, hi, 'f64' in c.tys(1))), 'gen_range')
    if 'f64' in c.tys(1) or 'f32' in c.tys(1):
        return add(lo, mul(sub(hi, lo), draw(c, r, 'unit')))
    # a uniform draw from lo..hi is lo plus a uniform draw from 0..hi-lo
    return add(lo, draw(c, r, 'range', ZERO, sub(hi, lo)))


@model('Rng::gen', 'random::random')
def _(c, r):
    return draw(c, r, 'gen ' + c.tys(1).split('::')[-1])


@model('Rng::gen_bool', 'Rng::gen_weighted_bool')
def _(c, r, p):
    return boolatom(draw(c, r, c.fc['name'], c.v(p)))


@model('Rng::next_u32', 'Rng::next_u64', 'Rng::next_f64')
def _(c, r): return draw(c, r, c.fc['name'])


@model('Rng::shuffle')
def _(c, r, x):
    v = c.v(x)
    d = draw(c, r, 'shuffle', length(v))
    c.put(x, app('shuffled', v, d))
    return UNIT


def _len_shuffled(x):
    if x.op == 'app' and x.a[0] == 'shuffled':
        return length(x.a[1])


LENRULES.append(_len_shuffled)


@model('Normal::new')
def _(c, m, s):
    return mk('app', 'Normal', c.v(m), c.v(s))


@model('Sample::sample', 'IndependentSample::ind_sample')
def _(c, d, r):
    d = c.v(d)
    if d.op == 'app' and d.a[0] == 'Normal':
        return draw(c, r, 'normal', d.a[1], d.a[2])
    return draw(c, r, 'sample', d)
