"""Hash-consed terms of the value graph and their normal forms.

 - numbers: exact rationals (floating point is read as real arithmetic);
 - arithmetic: reduced fractions of multivariate polynomials over atoms ('rat'),
   with exp/ln/sqrt/tanh/abs brought to a common form;
 - conditions and conditional values: ordered multi-way decision diagrams ('mdd')
   over finite-domain atoms (a comparison has the outcomes lt/eq/gt and, for
   floats, unordered), so a value does not depend on how control flow was written;
 - arrays: (length, element function).
Two equal normal forms are equal for every input.  No path is enumerated and no
solver is called: all of this is rewriting to a normal form."""
from fractions import Fraction
import math
from math import gcd
import sympy

_tab = {}
_by_id = []


class T(object):
    __slots__ = ('op', 'a', 'id', '_fv', '_unk')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_by_id)
        t._fv = None
        t._unk = None
        _tab[k] = t
        _by_id.append(t)
    return t


# ---------------------------------------------------------------- basics
def num(x):
    return mk('num', Fraction(x))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk('const', True), mk('const', False)
UNDEF = mk('undef')
PANIC = mk('panic')


def sym(name, sort='o'):
    return mk('sym', name, sort)


_uid = [0]


def fresh(name, sort='o'):
    _uid[0] += 1
    return mk('sym', '%s#%d' % (name, _uid[0]), sort)


def unk(reason):
    _uid[0] += 1
    return mk('unk', reason, _uid[0])


def app(f, *a):
    """uninterpreted application; conditional arguments are lifted"""
    for i, x in enumerate(a):
        if isinstance(x, T) and x.op == 'mdd':
            return lift(lambda *b: app(f, *b), *a)
    return mk('app', f, *a)


def agg(tag, *fields):
    """tag: ('adt', path, variant index, variant name) | ('tuple',) """
    return mk('agg', tag, *fields)


def tup(*f):
    return agg(('tuple',), *f)


UNIT = tup()


def some(x):
    return agg(('adt', 'std::option::Option', 1, 'Some'), x)


NONE = agg(('adt', 'std::option::Option', 0, 'None'))


def ok(x):
    return agg(('adt', 'std::result::Result', 0, 'Ok'), x)


def err(x):
    return agg(('adt', 'std::result::Result', 1, 'Err'), x)


ORD = {'lt': agg(('adt', 'std::cmp::Ordering', 0, 'Less')), 'eq': agg(('adt', 'std::cmp::Ordering', 1, 'Equal')),
       'gt': agg(('adt', 'std::cmp::Ordering', 2, 'Greater'))}


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction; monomial: tuple of (atom T, Fraction exponent), sorted by atom id
def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _norm_mono(d):
    """dict atom->exp  =>  (coef, monomial, extra polys to multiply)"""
    coef = Fraction(1)
    out = {}
    extra = []
    exparg = None
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'num':
            c, rest = _num_pow(a.a[0], e)
            coef *= c
            for b, f in rest.items():
                out[b] = out.get(b, 0) + f
            continue
        if a.op == 'app' and a.a[0] == 'exp':
            t = mul(num(e), a.a[1])
            exparg = t if exparg is None else add(exparg, t)
            continue
        if a.op == 'app' and a.a[0] == 'abs' and e.denominator == 1 and e.numerator % 2 == 0:
            extra.append((a.a[1], e))
            continue
        if a.op == 'rat' and e.denominator == 1:
            extra.append((a, e))
            continue
        out[a] = out.get(a, 0) + e
    # collapse sqrt-like constants created twice
    for a in [x for x in out if x.op == 'num']:
        e = out.pop(a)
        c, rest = _num_pow(a.a[0], e)
        coef *= c
        for b, f in rest.items():
            out[b] = out.get(b, 0) + f
    if exparg is not None and exparg is not ZERO:
        ea = mk('app', 'exp', exparg)
        out[ea] = out.get(ea, 0) + 1
    return coef, tuple(sorted(((a, e) for a, e in out.items() if e != 0), key=lambda p: p[0].id)), extra


def _num_pow(q, e):
    """q**e for rational q: (rational coefficient, {prime: fraction})"""
    if e.denominator == 1:
        return (q ** int(e) if q != 0 or e >= 0 else Fraction(0)), {}
    if q <= 0:
        return Fraction(1), {num(q): e} if q else {}
    coef = Fraction(1)
    rest = {}
    for base, sg in ((q.numerator, 1), (q.denominator, -1)):
        if base == 1:
            continue
        if base > 10 ** 9:
            fl = {base: 1}
        else:
            fl = sympy.factorint(base)
        for p, k in fl.items():
            x = e * k * sg
            i = x.numerator // x.denominator
            f = x - i
            coef *= Fraction(p) ** i
            if f:
                rest[num(p)] = rest.get(num(p), 0) + f
    return coef, rest


def to_poly(t):
    """(num poly dict, den poly dict)"""
    if t.op == 'num':
        return ({(): t.a[0]} if t.a[0] else {}), {(): Fraction(1)}
    if t.op == 'rat':
        return dict(t.a[0]), dict(t.a[1])
    return {((t, Fraction(1)),): Fraction(1)}, {(): Fraction(1)}


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def p_mul(p, q):
    r = {}
    post = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            co, m, extra = _norm_mono(_mono_mul(m1, m2))
            if extra:
                post.append((co * c1 * c2, m, extra))
                continue
            x = r.get(m, 0) + co * c1 * c2
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r, post


def _finish(n, d, post=()):
    t = make_rat(n, d)
    for co, m, extra in post:
        x = make_rat({m: co}, {(): Fraction(1)})
        for a, e in extra:
            x = mul(x, powr(a, e))
        x = div(x, make_rat(d, {(): Fraction(1)}))
        t = add(t, x)
    return t


ONEP = {(): Fraction(1)}


def _mono_inv(m):
    return tuple((a, -e) for a, e in m)


def make_rat(n, d):
    if not n:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if c != 1:
                n = {k: v / c for k, v in n.items()}
        else:
            r, post = p_mul(n, {_mono_inv(m): 1 / c})
            if post:
                return _finish(r, dict(ONEP), post)
            n = r
        if not n:
            return ZERO
        if len(n) == 1:
            (m, c), = n.items()
            if m == ():
                return num(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return mk('rat', tuple(sorted(n.items(), key=_mkey)), ((((), Fraction(1))),))
    return _cancel(n, d)


def _mkey(mc):
    return tuple((a.id, e) for a, e in mc[0])


_cancel_memo = {}


def _cancel(n, d):
    key = (tuple(sorted(n.items(), key=_mkey)), tuple(sorted(d.items(), key=_mkey)))
    if key in _cancel_memo:
        return _cancel_memo[key]
    r = _cancel0(n, d)
    _cancel_memo[key] = r
    return r


def _expbase(atoms):
    """group exp atoms with commensurable arguments: atom -> (base atom, multiple)"""
    groups = {}
    for a in atoms:
        if a.op == 'app' and a.a[0] == 'exp':
            pn, pd = to_poly(a.a[1])
            if not pn:
                continue
            lead = sorted(pn.items(), key=_mkey)[0][1]
            prim = make_rat({m: c / lead for m, c in pn.items()}, pd)
            groups.setdefault(prim, []).append((a, lead))
    out = {}
    for prim, l in groups.items():
        g = None
        for a, q in l:
            q = abs(q)
            g = q if g is None else Fraction(gcd(g.numerator * q.denominator, q.numerator * g.denominator), g.denominator * q.denominator)
        for a, q in l:
            out[a] = (prim, g, q / g)
    return out


def _cancel0(n, d):
    atoms = {}
    for p in (n, d):
        for m in p:
            for a, e in m:
                atoms.setdefault(a, []).append(e)
    eb = _expbase(atoms)
    keys = {}          # key -> (lcm of denominators)
    def keyof(a):
        return ('exp', eb[a][0], eb[a][1]) if a in eb else a
    def mult(a, e):
        return e * eb[a][2] if a in eb else e
    order = []
    for a in sorted(atoms, key=lambda t: t.id):
        k = keyof(a)
        if k not in keys:
            keys[k] = 1
            order.append(k)
        for e in atoms[a]:
            x = mult(a, e)
            keys[k] = keys[k] * x.denominator // gcd(keys[k], x.denominator)
    syms = {k: sympy.Symbol('t%d' % i, positive=True) for i, k in enumerate(order)}
    mins = {k: 0 for k in order}
    def exps(m):
        r = {}
        for a, e in m:
            k = keyof(a)
            r[k] = r.get(k, 0) + mult(a, e) * keys[k]
        return r
    for p in (n, d):
        for m in p:
            for k, e in exps(m).items():
                mins[k] = min(mins[k], int(e))
    def conv(p):
        out = {}
        for m, c in p.items():
            ex = exps(m)
            kk = tuple(int(ex.get(k, 0)) - mins[k] for k in order)
            out[kk] = out.get(kk, 0) + sympy.Rational(c.numerator, c.denominator)
        return sympy.Poly.from_dict(out, *[syms[k] for k in order], domain='QQ')
    P, Q = conv(n), conv(d)
    c, P, Q = P.cancel(Q)
    def back(p):
        out = {}
        post = []
        for ex, co in p.terms():
            dd = {}
            for k, e in zip(order, ex):
                if e == 0:
                    continue
                f = Fraction(int(e), keys[k])
                if isinstance(k, tuple):
                    arg = mul(num(f * k[2]), k[1])
                    ea = mk('app', 'exp', arg)
                    dd[ea] = dd.get(ea, 0) + 1
                else:
                    dd[k] = dd.get(k, 0) + f
            cc, m, extra = _norm_mono({a: Fraction(e) for a, e in dd.items()})
            assert not extra
            co = Fraction(int(co.p), int(co.q)) if hasattr(co, 'p') else Fraction(int(co.numerator), int(co.denominator))
            out[m] = out.get(m, 0) + cc * co
        return {m: c for m, c in out.items() if c}
    N, D = back(P), back(Q)
    c = sympy.Rational(c)
    cf = Fraction(int(c.p), int(c.q))
    N = {m: v * cf for m, v in N.items()}
    if len(D) == 1:
        return make_rat(N, D)
    # monomial content of the denominator goes to the numerator, leading coefficient 1
    com = None
    for m in D:
        s = dict(m)
        if com is None:
            com = s
        else:
            com = {a: min(e, s.get(a, 0)) for a, e in com.items() if a in s}
    com = {a: e for a, e in (com or {}).items() if e > 0}
    if com:
        inv = tuple(sorted(((a, -e) for a, e in com.items()), key=lambda p: p[0].id))
        N, p1 = p_mul(N, {inv: Fraction(1)})
        D, p2 = p_mul(D, {inv: Fraction(1)})
    # exp content: divide by the exp factor of the leading monomial so that exp(-x) and exp(x) forms agree
    items = sorted(D.items(), key=_mkey)
    ex0 = None
    for m, c0 in sorted(D.items(), key=lambda mc: (tuple((a.id, e) for a, e in mc[0] if not (a.op == 'app' and a.a[0] == 'exp')), _mkey(mc))):
        e = [a for a, _ in m if a.op == 'app' and a.a[0] == 'exp']
        if not e:
            ex0 = None
            break
        if ex0 is None:
            ex0 = e[0]
    if ex0 is not None:
        inv = ((ex0, Fraction(-1)),)
        N, _ = p_mul(N, {inv: Fraction(1)})
        D, _ = p_mul(D, {inv: Fraction(1)})
    items = sorted(D.items(), key=_mkey)
    lead = items[0][1]
    N = {m: v / lead for m, v in N.items()}
    D = {m: v / lead for m, v in D.items()}
    return mk('rat', tuple(sorted(N.items(), key=_mkey)), tuple(sorted(D.items(), key=_mkey)))


def _ismdd(*ts):
    for t in ts:
        if t.op == 'mdd':
            return True
    return False


def _bad(*ts):
    """absorbing leaves"""
    for t in ts:
        if t is UNDEF:
            return UNDEF
    for t in ts:
        if t.op in ('panic',):
            return t
    return None


def add(a, b):
    if _ismdd(a, b):
        return lift(add, a, b)
    x = _bad(a, b)
    if x is not None:
        return x
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    n1, d1 = to_poly(a)
    n2, d2 = to_poly(b)
    if d1 == d2:
        return make_rat(p_add(n1, n2), d1)
    x, p1 = p_mul(n1, d2)
    y, p2 = p_mul(n2, d1)
    z, p3 = p_mul(d1, d2)
    if p3:
        return div(add(_finish(x, dict(ONEP), p1), _finish(y, dict(ONEP), p2)), _finish(z, dict(ONEP), p3))
    return _finish(p_add(x, y), z, list(p1) + list(p2))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    if _ismdd(a, b):
        return lift(sub, a, b)
    return add(a, neg(b))


def mul(a, b):
    if _ismdd(a, b):
        return lift(mul, a, b)
    x = _bad(a, b)
    if x is not None:
        return x
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    n1, d1 = to_poly(a)
    n2, d2 = to_poly(b)
    x, p1 = p_mul(n1, n2)
    if d1 == ONEP and d2 == ONEP:
        return _finish(x, dict(ONEP), p1)
    z, p3 = p_mul(d1, d2)
    if p3:
        return div(_finish(x, dict(ONEP), p1), _finish(z, dict(ONEP), p3))
    return _finish(x, z, p1)


def div(a, b):
    if _ismdd(a, b):
        return lift(div, a, b)
    x = _bad(a, b)
    if x is not None:
        return x
    if b is ONE:
        return a
    if b is ZERO:
        return mk('app', 'div0', a)
    if a is ZERO:
        return ZERO
    n1, d1 = to_poly(a)
    n2, d2 = to_poly(b)
    x, p1 = p_mul(n1, d2)
    y, p2 = p_mul(d1, n2)
    if p2:
        y = to_poly(_finish(y, dict(ONEP), p2))
        return mul(_finish(x, dict(ONEP), p1), make_rat(y[1], y[0]))
    return _finish(x, y, p1)


def powr(a, e):
    """a ** e, e rational"""
    if _ismdd(a):
        return lift(lambda x: powr(x, e), a)
    x = _bad(a)
    if x is not None:
        return x
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if e.denominator == 1 and e > 0:
        r = a
        for _ in range(int(e) - 1):
            r = mul(r, a)
        return r
    if e.denominator == 1:
        return div(ONE, powr(a, -e))
    if a is ZERO:
        return ZERO if e > 0 else mk('app', 'div0', ONE)
    n, d = to_poly(a)
    if d == ONEP and len(n) == 1:
        (m, c), = n.items()
        if c > 0 or (c < 0 and not m):
            dd = {}
            res = ONE
            for b, f in m:
                if f.denominator == 1 and f.numerator % 2 == 0:
                    b2 = absv(b)       # (b^2k)^e
                    res = mul(res, _atom_pow(b2, f * e))
                else:
                    res = mul(res, _atom_pow(b, f * e))
            if c == 1:
                return res
            co, rest = _num_pow(c, e)
            r = num(co)
            for b, f in rest.items():
                r = mul(r, mk('rat', ((((b, f),), Fraction(1)),), (((), Fraction(1)),)))
            return mul(r, res)
    if d != ONEP:
        return div(powr(make_rat(n, dict(ONEP)), e), powr(make_rat(d, dict(ONEP)), e))
    # positive rational content out, then the sum becomes an atom
    lead = sorted(n.items(), key=_mkey)[0][1]
    cont = Fraction(0)
    for c in n.values():
        cont = Fraction(gcd(cont.numerator * c.denominator, abs(c.numerator) * cont.denominator), cont.denominator * c.denominator) if cont else abs(c)
    base = make_rat({m: c / cont for m, c in n.items()}, dict(ONEP))
    if cont != 1:
        return mul(powr(num(cont), e), _atom_pow(base, e))
    return _atom_pow(base, e)


def _atom_pow(b, e):
    if e == 0:
        return ONE
    if b.op == 'num':
        return powr(b, e)
    if e.denominator == 1 and b.op == 'rat':
        return powr(b, e)
    if b.op == 'app' and b.a[0] == 'exp':
        return exp(mul(num(e), b.a[1]))
    c, m, extra = _norm_mono({b: Fraction(e)})
    t = make_rat({m: c}, dict(ONEP))
    for a, f in extra:
        t = mul(t, powr(a, f))
    return t


def lead_sign(t):
    if t.op == 'num':
        return (t.a[0] > 0) - (t.a[0] < 0)
    if t.op == 'rat':
        return 1 if t.a[0][0][1] > 0 else -1
    return 1


def absv(a):
    if _ismdd(a):
        return lift(absv, a)
    x = _bad(a)
    if x is not None:
        return x
    if a.op == 'num':
        return num(abs(a.a[0]))
    if nonneg(a):
        return a
    if lead_sign(a) < 0:
        return absv(neg(a))
    n, d = to_poly(a)
    if d == ONEP and len(n) == 1:
        (m, c), = n.items()
        r = num(abs(c))
        for b, e in m:
            x = _atom_pow(b, e)
            if nonneg(x):
                r = mul(r, x)
            else:
                y = mk('app', 'abs', b)
                r = mul(r, _atom_pow(y, e))
        return r
    return mk('app', 'abs', a)


POSFN = {'exp', 'abs', 'len', 'rows', 'cols', 'pi', 'sqrt', 'inf', 'argmin', 'argmax'}


def is_draw(a):
    """an integer drawn uniformly from lo..hi: app('draw', source, counter, 'range', lo, hi)"""
    return a.op == 'app' and a.a[0] == 'draw' and len(a.a) == 6 and a.a[3].op == 'str' and a.a[3].a[0] == 'range'


def draw_bounds(p):
    """(least, greatest) value of p over the ranges of the draws in it, where p is linear in them"""
    lo = hi = p
    n, d = to_poly(p)
    if d != ONEP:
        return None
    ds = set(a for m in n for a, e in m if is_draw(a))
    if not ds:
        return None
    for x in ds:
        c = None
        for m, cf in n.items():
            if any(a is x for a, e in m):
                if len(m) != 1 or m[0][1] != 1:
                    return None
                c = cf
        mx = sub(x.a[5], ONE)
        if c > 0:
            lo, hi = subst_atoms(lo, {x: x.a[4]}), subst_atoms(hi, {x: mx})
        else:
            lo, hi = subst_atoms(lo, {x: mx}), subst_atoms(hi, {x: x.a[4]})
    return lo, hi


def positive(p):
    """an integer polynomial that is at least 1"""
    return nonneg(sub(p, ONE))


def counts(t):
    """every outcome of t is a number that is not negative"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen or x is UNDEF:
            continue
        seen.add(x)
        if x.op == 'mdd':
            st.extend(x.a[1])
        elif x.op != 'num' or x.a[0] < 0:
            return False
    return True


def nonneg(a):
    if a.op == 'num':
        return a.a[0] >= 0
    if a.op == 'app' and a.a[0] in POSFN:
        return True
    if a.op in ('sym', 'bv') and a.a[1] in ('u',):
        return True
    if is_draw(a) and nonneg(a.a[4]):
        return True
    if a.op == 'app' and a.a[0] == 'sum' and a.a[2].op == 'lam' and a.a[2].a[2].op == 'mdd':
        return counts(a.a[2].a[2])
    if a.op == 'rat':
        for p in a.a:
            for m, c in p:
                if c < 0:
                    return False
                for b, e in m:
                    if e.denominator == 1 and e.numerator % 2 == 0:
                        continue
                    if b.op != 'rat' and not nonneg(b):
                        return False
        return True
    return False


def exp(a):
    if _ismdd(a):
        return lift(exp, a)
    x = _bad(a)
    if x is not None:
        return x
    if a is ZERO:
        return ONE
    # exp(c*ln(x) + r) = x^c * exp(r)
    n, d = to_poly(a)
    if d == ONEP:
        out = ONE
        rest = dict(n)
        for m, c in list(n.items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'ln':
                out = mul(out, powr(m[0][0].a[1], c)) if c.denominator == 1 or True else out
                del rest[m]
        if len(rest) != len(n):
            return mul(out, exp(make_rat(rest, dict(ONEP))) if rest else ONE)
    return mk('app', 'exp', a)


def ln(a):
    if _ismdd(a):
        return lift(ln, a)
    x = _bad(a)
    if x is not None:
        return x
    if a is ONE:
        return ZERO
    n, d = to_poly(a)
    r = ZERO
    if d != ONEP:
        # the sign that makes the term of highest degree positive
        top = max(d, key=lambda m: (sum(e for _, e in m), sorted(x.id for x, _ in m)))
        if d[top] < 0:
            n, d = {m: -c for m, c in n.items()}, {m: -c for m, c in d.items()}
        return sub(ln(make_rat(n, dict(ONEP))), ln(make_rat(d, dict(ONEP))))
    if all(c < 0 for c in n.values()) and a is not num(-1):
        # only arises from the two halves of a quotient, where it cancels
        return add(mk('app', 'ln', num(-1)), ln(neg(a)))
    if len(n) == 1:
        (m, c), = n.items()
        if c > 0:
            for p, k in (sympy.factorint(c.numerator).items() if c.numerator < 10 ** 9 else [(c.numerator, 1)]):
                r = add(r, mul(num(k), mk('app', 'ln', num(p))))
            for p, k in (sympy.factorint(c.denominator).items() if c.denominator < 10 ** 9 else [(c.denominator, 1)]):
                r = sub(r, mul(num(k), mk('app', 'ln', num(p))))
            for b, e in m:
                if b.op == 'app' and b.a[0] == 'exp':
                    t = b.a[1]
                elif e.denominator == 1 and e.numerator % 2 == 0:
                    t = ln(absv(b)) if absv(b).op != 'app' or absv(b).a[0] != 'abs' else mk('app', 'ln', absv(b))
                else:
                    t = mk('app', 'ln', b)
                r = add(r, mul(num(e), t))
            return r
    # monomial and positive content out of a sum
    if len(n) > 1:
        com = None
        for m in n:
            s = dict(m)
            com = s if com is None else {a2: min(e, s[a2]) for a2, e in com.items() if a2 in s and (e > 0) == (s[a2] > 0)}
        com = {a2: e for a2, e in com.items() if e != 0}
        if com:
            mono = make_rat({tuple(sorted(com.items(), key=lambda p: p[0].id)): Fraction(1)}, dict(ONEP))
            rest = div(a, mono)
            if rest.op == 'rat' and len(rest.a[0]) > 1 and rest is not a:
                return add(ln(mono), ln(rest))
        g = Fraction(math.gcd(*[c.numerator for c in n.values()]), math.lcm(*[c.denominator for c in n.values()]))
        if g != 1:
            return add(ln(num(g)), ln(mul(num(1 / g), a)))
    return mk('app', 'ln', a)


def sqrt(a):
    return powr(a, Fraction(1, 2))


def tanh(a):
    e = exp(mul(num(2), a))
    return div(sub(e, ONE), add(e, ONE))


def idiv(a, b):
    if _ismdd(a, b):
        return lift(idiv, a, b)
    if a.op == 'num' and b.op == 'num' and b.a[0]:
        return num(a.a[0] // b.a[0])
    if b is ONE:
        return a
    q = div(a, b)
    if q.op != 'rat' or (q.a[1] == (((), Fraction(1)),) and all(c.denominator == 1 and all(e > 0 for _, e in m) for m, c in q.a[0])):
        if q.op != 'num' or q.a[0].denominator == 1:
            return q
    return mk('app', 'idiv', a, b)


def imod(a, b):
    if _ismdd(a, b):
        return lift(imod, a, b)
    if a.op == 'num' and b.op == 'num' and b.a[0]:
        return num(a.a[0] % b.a[0])
    q = idiv(a, b)
    if not (q.op == 'app' and q.a[0] == 'idiv'):
        return ZERO
    # a - b*(a/b): one form for % and the expanded spelling
    return sub(a, mul(b, q))


# ---------------------------------------------------------------- decision diagrams
# atom T: ('cmp', p, flt) outcomes lt eq gt [un]; ('bool', t) outcomes T F; ('disc', t, names)
def domain(atom):
    if atom.op == 'cmp':
        return ('lt', 'eq', 'gt', 'un') if atom.a[1] else ('lt', 'eq', 'gt')
    if atom.op == 'bool':
        return (True, False)
    return atom.a[1]


def node(atom, br):
    br = tuple(br)
    real = [b for b in br if b is not UNDEF]
    if not real:
        return UNDEF
    f = real[0]
    if all(b is f for b in real):
        return f
    return mk('mdd', atom, br)


_lift_memo = {}


def lift(f, *ts):
    """apply f at the leaves of the decision diagrams ts"""
    memo = {}

    def go(ts):
        if ts in memo:
            return memo[ts]
        top = None
        for t in ts:
            if isinstance(t, T) and t.op == 'mdd' and (top is None or t.a[0].id < top.id):
                top = t.a[0]
        if top is None:
            x = None
            for t in ts:
                if t is UNDEF:
                    x = UNDEF
                    break
            if x is None:
                for t in ts:
                    if isinstance(t, T) and t.op == 'panic':
                        x = t
                        break
            r = x if x is not None else f(*ts)
            if r.op == 'mdd':
                pass
        else:
            br = []
            mixed = False
            for i in range(len(domain(top))):
                sub_ = tuple(t.a[1][i] if isinstance(t, T) and t.op == 'mdd' and t.a[0] is top else t for t in ts)
                x = go(sub_)
                br.append(x)
            r = rebuild(top, br)
        memo[ts] = r
        return r
    return go(tuple(ts))


def _minatom(t):
    return t.a[0].id if t.op == 'mdd' else None


def rebuild(atom, br):
    """node(atom, br), restoring the variable order if a branch has an earlier atom on top"""
    if any(b.op == 'mdd' and b.a[0].id <= atom.id for b in br):
        dom = domain(atom)
        tops = [b.a[0] for b in br if b.op == 'mdd']
        top = min(tops, key=lambda x: x.id)
        if top is atom:
            return node(atom, [b.a[1][i] if b.op == 'mdd' and b.a[0] is atom else b for i, b in enumerate(br)])
        out = []
        for j in range(len(domain(top))):
            out.append(rebuild(atom, [b.a[1][j] if b.op == 'mdd' and b.a[0] is top else b for b in br]))
        return rebuild(top, out)
    return node(atom, br)


def boolatom(t):
    """a boolean term t (opaque) as a condition"""
    if t.op in ('mdd', 'const', 'undef', 'panic'):
        return t
    return node(mk('bool', t), (TRUE, FALSE))


def ite(c, a, b):
    """c: decision diagram with TRUE/FALSE leaves"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op not in ('mdd', 'const', 'undef', 'panic'):
        c = boolatom(c)
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c is UNDEF or c.op == 'panic':
            return c
        k = (c, a, b)
        if k in memo:
            return memo[k]
        if c.op != 'mdd':
            if c.op == 'unk':
                return c
            r = memo[k] = ite(boolatom(c), a, b)
            return r
        top = c.a[0]
        for t in (a, b):
            if t.op == 'mdd' and t.a[0].id < top.id:
                top = t.a[0]
        br = []
        for i in range(len(domain(top))):
            f = lambda t: t.a[1][i] if t.op == 'mdd' and t.a[0] is top else t
            br.append(go(f(c), f(a), f(b)))
        r = node(top, br)
        memo[k] = r
        return r
    return go(c, a, b)


def b_not(c):
    c = boolatom(c)
    return lift(lambda x: FALSE if x is TRUE else TRUE, c)


def b_and(a, b):
    return ite(boolatom(a), boolatom(b), FALSE)


def b_or(a, b):
    return ite(boolatom(a), TRUE, boolatom(b))


def compare(a, b, flt):
    """decision diagram over outcome strings 'lt','eq','gt','un' (as str terms)"""
    if _ismdd(a, b):
        return lift(lambda x, y: compare(x, y, flt), a, b)
    if a.op == 'const' and b.op == 'const':
        return S_[('lt', 'eq', 'gt')[(a.a[0] > b.a[0]) - (a.a[0] < b.a[0]) + 1]]
    p = sub(a, b)
    if p.op == 'num':
        if p is ZERO and flt and not _finite(a):
            # x compared with itself: equal unless NaN
            return node(mk('bool', mk('app', 'is_nan', a)), (S_['un'], S_['eq']))
        return S_['lt' if p.a[0] < 0 else 'gt' if p.a[0] > 0 else 'eq']
    # infinities
    for x, y, s in ((a, b, 1), (b, a, -1)):
        iv = _inf_sign(x)
        if iv and y.op == 'num':
            return S_['gt' if iv * s > 0 else 'lt']
    if flt and p.op == 'rat':
        # positive scaling only
        pass
    s = lead_sign(p)
    n, d = to_poly(p)
    if d == ONEP:
        lead = abs(sorted(n.items(), key=_mkey)[0][1])
        # content: divide by the gcd of coefficients
        cont = None
        for c in n.values():
            cont = abs(c) if cont is None else Fraction(gcd(cont.numerator * c.denominator, abs(c.numerator) * cont.denominator), cont.denominator * c.denominator)
        p = make_rat({m: c / cont for m, c in n.items()}, dict(ONEP))
    if s < 0:
        p = neg(p)
    at = mk('cmp', p, bool(flt))
    br = [S_['lt'], S_['eq'], S_['gt']] if s > 0 else [S_['gt'], S_['eq'], S_['lt']]
    if flt:
        br.append(S_['un'])
    else:
        if positive(p):
            return br[2]
        if positive(neg(p)):
            return br[0]
        if nonneg(p):
            br[0] = UNDEF
        elif nonneg(neg(p)):
            br[2] = UNDEF
        b = draw_bounds(p)
        if b and b[0].op != 'mdd' and b[1].op != 'mdd':
            if positive(b[0]):
                return br[2]
            if positive(neg(b[1])):
                return br[0]
            if nonneg(b[0]):
                br[0] = UNDEF
            if nonneg(neg(b[1])):
                br[2] = UNDEF
    return node(at, br)


S_ = {k: mk('str', k) for k in ('lt', 'eq', 'gt', 'un')}


def _finite(a):
    return a.op == 'num'


def _inf_sign(x):
    if x.op == 'app' and x.a[0] == 'inf':
        return 1
    if x.op == 'rat' and len(x.a[0]) == 1 and x.a[0][0][0] and len(x.a[0][0][0]) == 1 and x.a[0][0][0][0][0].op == 'app' and x.a[0][0][0][0][0].a[0] == 'inf':
        return 1 if x.a[0][0][1] > 0 else -1
    return 0


def cmpop(op, a, b, flt):
    want = {'Lt': ('lt',), 'Le': ('lt', 'eq'), 'Gt': ('gt',), 'Ge': ('gt', 'eq'), 'Eq': ('eq',), 'Ne': ('lt', 'gt', 'un')}[op]
    ws = [S_[w] for w in want]
    return lift(lambda x: TRUE if x in ws else FALSE, compare(a, b, flt))


def eq_opaque(a, b):
    if a is b:
        return TRUE
    if _ismdd(a, b):
        return lift(eq_opaque, a, b)
    if a.op == b.op == 'str':
        return FALSE
    if a.op == 'agg' and b.op == 'agg' and a.a[0][0] == b.a[0][0]:
        if a.a[0] != b.a[0]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[1:], b.a[1:]):
            r = b_and(r, eq_opaque(x, y))
        return r
    x, y = sorted((a, b), key=lambda t: t.id)
    return boolatom(mk('app', 'eq', x, y))


# ---------------------------------------------------------------- structure
def children(t):
    if t.op == 'rat':
        for p in t.a:
            for m, c in p:
                for a, e in m:
                    yield a
    elif t.op == 'mdd':
        yield t.a[0]
        for b in t.a[1]:
            yield b
    else:
        for x in t.a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        yield y
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                yield z


def free(t):
    """set of syms and bound variables occurring"""
    if t._fv is None:
        # iterative to avoid deep recursion
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x._fv is not None:
                continue
            if done:
                s = set()
                if x.op in ('sym', 'bv'):
                    s.add(x)
                for c in children(x):
                    s |= c._fv
                x._fv = frozenset(s)
            else:
                stack.append((x, True))
                for c in children(x):
                    if c._fv is None:
                        stack.append((c, False))
    return t._fv


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def unknowns(t):
    return [x for x in subterms(t) if x.op == 'unk']


def maxbv(t):
    m = -1
    for s in free(t):
        if s.op == 'bv':
            m = max(m, s.a[0])
    return m


def lam(var, body):
    """bind the symbol `var` in body; canonical name by nesting level"""
    lv = -1
    for x in subterms(body):
        if x.op == 'lam':
            lv = max(lv, x.a[0])
    lv += 1
    b = mk('bv', lv, var.a[1] if var.op in ('sym', 'bv') else 'i')
    return mk('lam', lv, b.a[1], subst(body, {var: b}))


def lam2(v1, v2, body):
    return lam(v1, lam(v2, body))


def app_lam(l, x):
    if l.op == 'mdd':
        return lift(lambda k: app_lam(k, x), l)
    if l.op in ('undef', 'panic', 'unk'):
        return l
    b = mk('bv', l.a[0], l.a[1])
    return subst(l.a[2], {b: x})


def subst(t, m):
    """capture is impossible: bound variables are numbered by nesting depth of their lambda and
    replaced values never contain a free bound variable of that level inside its own binder"""
    memo = dict(m)
    keys = frozenset(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not (free(t) & keys):
            memo[t] = t
            return t
        op = t.op
        if op == 'rat':
            def poly(p):
                s = ZERO
                for mo, c in p:
                    x = num(c)
                    for a, e in mo:
                        x = mul(x, powr(go(a), e))
                    s = add(s, x)
                return s
            r = div(poly(t.a[0]), poly(t.a[1])) if t.a[1] != (((), Fraction(1)),) else poly(t.a[0])
        elif op == 'mdd':
            at = t.a[0]
            br = [go(b) for b in t.a[1]]
            if at.op == 'cmp':
                o = compare(go(at.a[0]), ZERO, at.a[1])
                r = select_by(o, {S_[k]: b for k, b in zip(domain(at), br)})
            elif at.op == 'bool':
                r = ite(rebool(go(at.a[0])), br[0], br[1])
            else:
                d = disc(go(at.a[0]), at.a[1])
                r = select_by(d, {num(i): b for i, b in enumerate(br)})
        elif op == 'app':
            r = rebuild_app(t.a[0], [go(x) if isinstance(x, T) else x for x in t.a[1:]])
        elif op == 'lam':
            # rename the binder out of the way, then rebind (levels may change)
            b = mk('bv', t.a[0], t.a[1])
            v = fresh('z', t.a[1])
            body = subst(t.a[2], {b: v})
            r = lam(v, go(body))
        elif op == 'agg':
            fs = [go(x) for x in t.a[1:]]
            r = agg(t.a[0], *fs)
        elif op == 'arr':
            r = arr(go(t.a[0]), go(t.a[1]))
        else:
            na = tuple(go(x) if isinstance(x, T) else tuple(go(y) if isinstance(y, T) else (tuple(go(z) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y) for y in x) if isinstance(x, tuple) else x for x in t.a)
            r = mk(op, *na)
        memo[t] = r
        return r
    return go(t)


REBUILD = {}


def rebuild_app(f, a):
    g = REBUILD.get(f)
    if g is not None:
        return g(*a)
    return app(f, *a)


def rebool(t):
    if t.op in ('mdd', 'const', 'undef', 'panic'):
        return t
    return boolatom(t)


def select_by(o, table):
    """o: decision diagram with leaves in table; result table[leaf]"""
    ks = list(table)
    r = UNDEF
    for k in ks:
        c = lift(lambda x, k=k: TRUE if x is k else FALSE, o)
        r = ite(c, table[k], r) if r is not UNDEF else (lift(lambda x, v=None: x, ite(c, table[k], UNDEF)))
    return r


def disc(t, names):
    """variant index of t as a decision diagram over num leaves"""
    if t.op == 'mdd':
        return lift(lambda x: disc(x, names), t)
    if t.op == 'agg' and t.a[0][0] == 'adt':
        return num(t.a[0][2])
    if t.op in ('undef', 'panic'):
        return t
    return node(mk('disc', t, tuple(names)), tuple(num(i) for i in range(len(names))))


REBUILD.update({'exp': exp, 'ln': ln, 'abs': absv, 'idiv': idiv, 'eq': eq_opaque})


# ---------------------------------------------------------------- arrays
def arr(n, l):
    if n.op == 'mdd' or l.op == 'mdd':
        return lift(arr, n, l)
    # eta: (len x, i -> x[i]) is x
    b = mk('bv', l.a[0], l.a[1]) if l.op == 'lam' else None
    if b is not None:
        e = l.a[2]
        if e.op == 'app' and e.a[0] == 'sel' and e.a[2] is b and b not in free(e.a[1]) and length(e.a[1]) is n:
            return e.a[1]
    return mk('arr', n, l)


def arr_fn(n, f, sort='i'):
    v = fresh('i', 'u')
    return arr(n, lam(v, f(v)))


LENRULES = []


def length(x):
    if x.op == 'mdd':
        return lift(length, x)
    if x.op == 'arr':
        return x.a[0]
    if x.op in ('undef', 'panic', 'unk'):
        return x
    if x.op == 'str':
        return num(len(x.a[0]))
    for r in LENRULES:
        y = r(x)
        if y is not None:
            return y
    return app('len', x)


SELRULES = []


def sel(x, i):
    if x.op == 'mdd' or i.op == 'mdd':
        return lift(sel, x, i)
    if x.op == 'arr':
        return app_lam(x.a[1], i)
    if x.op in ('undef', 'panic', 'unk'):
        return x
    for r in SELRULES:
        y = r(x, i)
        if y is not None:
            return y
    return app('sel', x, i)


def store(x, i, v):
    """array x with element i replaced"""
    if x.op == 'mdd' or i.op == 'mdd' or (v.op == 'mdd' and False):
        return lift(lambda a, b: store(a, b, v), x, i)
    if x.op in ('undef', 'panic', 'unk'):
        return x
    if x.op == 'arr' and x.a[0].op == 'num' and i.op == 'num' and x.a[0].a[0] <= 64:
        k = fresh('i', 'u')
        return arr(x.a[0], lam(k, ite(cmpop('Eq', k, i, False), v, sel(x, k))))
    return app('store', x, i, v)


def _len_store(x):
    if x.op == 'app' and x.a[0] == 'store':
        return length(x.a[1])
    if x.op == 'app' and x.a[0] == 'swap':
        return length(x.a[1])


def _sel_store(x, i):
    if x.op == 'app' and x.a[0] == 'store':
        w = x.a[3]
        e = cmpop('Eq', i, x.a[2], False)
        if e is not TRUE and e is not FALSE:
            old = mk('app', 'sel', x.a[1], x.a[2])
            if old in subterms_of(w):      # where i is the stored index, the old element is element i
                w = subst_atoms(w, {old: sel(x.a[1], i)})
        return ite(e, w, sel(x.a[1], i))


LENRULES.append(_len_store)
SELRULES.append(_sel_store)
REBUILD.update({'sel': sel, 'len': length, 'store': store})


def concat(a, b):
    if a.op == 'mdd' or b.op == 'mdd':
        return lift(concat, a, b)
    la, lb = length(a), length(b)
    if la is ZERO:
        return b
    if lb is ZERO:
        return a
    k = fresh('i', 'u')
    return arr(add(la, lb), lam(k, ite(cmpop('Lt', k, la, False), sel(a, k), sel(b, sub(k, la)))))


def slice_(x, lo, n):
    k = fresh('i', 'u')
    return arr(n, lam(k, sel(x, add(lo, k))))


EMPTY = arr(ZERO, mk('lam', 0, 'u', UNDEF))


def array(elems):
    """literal array"""
    if not elems:
        return EMPTY
    k = fresh('i', 'u')
    if all(e is elems[0] for e in elems):
        return arr(num(len(elems)), lam(k, elems[0]))
    if len(elems) > 16:
        return mk('arr', num(len(elems)), mk('lam', 0, 'u', mk('app', 'table', mk('tab', *elems), mk('bv', 0, 'u'))))
    r = elems[-1]
    for i in range(len(elems) - 2, -1, -1):
        r = ite(cmpop('Eq', k, num(i), False), elems[i], r)
    return arr(num(len(elems)), lam(k, r))


def table(t, i):
    if i.op == 'mdd':
        return lift(lambda x: table(t, x), i)
    if i.op == 'num' and 0 <= i.a[0] < len(t.a):
        return t.a[int(i.a[0])]
    return mk('app', 'table', t, i)


REBUILD['table'] = table


# ---------------------------------------------------------------- sums and folds
def ssum(n, l):
    """sum of l(i) for i < n"""
    if n.op == 'mdd' or l.op == 'mdd':
        return lift(ssum, n, l)
    if n is ZERO:
        return ZERO
    if n.op == 'num' and n.a[0] <= 16:
        r = ZERO
        for i in range(int(n.a[0])):
            r = add(r, app_lam(l, num(i)))
        return r
    v = fresh('i', l.a[1])
    body = in_range(n, v, app_lam(l, v))
    # over the elements a filter keeps: over all of them, where it keeps them
    for x in subterms(body) if v in free(body) else ():
        if x.op == 'app' and x.a[0] == 'sel' and x.a[2] is v and x.a[1].op == 'app' and x.a[1].a[0] == 'filter' and n is length(x.a[1]):
            h = fresh('h', 'u')
            b2 = subst_atoms(body, {x: h})
            if v not in free(b2):
                f = x.a[1]
                i = fresh('i', 'u')
                return ssum(f.a[1], lam(i, ite(app_lam(f.a[2], i), subst(b2, {h: app_lam(f.a[3], i)}), ZERO)))
            break
    cut = split_point(n, v, body)
    if cut is not None:
        return add(ssum(cut, lam(v, body)), ssum(sub(n, cut), lam(v, subst(body, {v: add(v, cut)}))))
    return _sum_body(n, v, body)


def split_point(n, v, body):
    """t with 0 < t <= n at which a comparison of the index v in the body changes its outcome"""
    if body.op != 'mdd':
        return None
    st, seen = [body], set()
    while st:
        x = st.pop()
        if x.op != 'mdd' or x in seen:
            continue
        seen.add(x)
        st.extend(x.a[1])
        a = x.a[0]
        if a.op != 'cmp' or a.a[1]:
            continue
        l = lin_of(a.a[0])
        if l is None:
            continue
        d, c = l
        k = d.get(((v, Fraction(1)),))
        if k not in (1, -1):
            continue
        rest = sub(a.a[0], mul(num(k), v))
        if v in free(rest):
            continue
        t = neg(mul(num(k), rest))          # the comparison is k*(v - t)
        if not _intpoly(t):
            continue
        lo, eq_, hi = x.a[1] if k == 1 else (x.a[1][2], x.a[1][1], x.a[1][0])
        for c_ in ((t,) if eq_ is hi else (add(t, ONE),) if eq_ is lo else (t, add(t, ONE))):
            if c_ is ZERO or c_ is n:
                continue
            if nonneg(c_) and nonneg(sub(n, c_)):
                return c_
    return None


def _sum_body(n, v, body):
    if v not in free(body):
        return mul(n, body)
    if body.op == 'rat' and body.a[1] == (((), Fraction(1)),):
        total = ZERO
        for m, c in body.a[0]:
            out = num(c)
            ins = ONE
            for a, e in m:
                f = make_rat({((a, e),): Fraction(1)}, dict(ONEP))
                if v in free(a):
                    ins = mul(ins, f)
                else:
                    out = mul(out, f)
            if ins is ONE:
                total = add(total, mul(n, out))
            else:
                total = add(total, mul(out, _sum_atom(n, v, ins)))
        return total
    return _sum_atom(n, v, body)


def _sum_atom(n, v, ins):
    if ins is v:
        return div(mul(n, sub(n, ONE)), num(2))
    # sum of an indicator-selected value over i == c is handled by the caller where needed
    return mk('app', 'sum', n, lam(v, ins))


REBUILD['sum'] = ssum


def any_(n, l):
    """exists i < n: l(i)"""
    if n.op == 'mdd':
        return lift(lambda x: any_(x, l), n)
    if n is ZERO:
        return FALSE
    v = fresh('i', l.a[1])
    body = in_range(n, v, app_lam(l, v))
    if body is FALSE:
        return FALSE
    if n.op == 'num' and n.a[0] <= 16:
        r = FALSE
        for i in range(int(n.a[0])):
            r = b_or(r, app_lam(l, num(i)))
        return r
    if v not in free(body):
        return b_and(cmpop('Gt', n, ZERO, False), body)
    return any_body(n, v, body)


def any_body(n, v, body, most=3):
    """conditions that do not depend on the index outside"""
    if v not in free(body):
        return b_and(cmpop('Gt', n, ZERO, False), body)
    at = None
    st, seen = [body], set()
    while st and most:
        x = st.pop()
        if x in seen or x.op != 'mdd':
            continue
        seen.add(x)
        if v not in free(x.a[0]) and (at is None or x.a[0].id < at.id):
            at = x.a[0]
        st.extend(x.a[1])
    if at is None:
        return boolatom(mk('app', 'any', n, lam(v, body)))
    return rebuild(at, [any_body(n, v, cofactor_(body, at, i), most - 1) for i in range(len(domain(at)))])


def cofactor_(t, at, i):
    memo = {}

    def go(x):
        if x.op != 'mdd':
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = go(x.a[1][i]) if x.a[0] is at else node(x.a[0], [go(b) for b in x.a[1]])
        return r
    return go(t)


def first_(n, l):
    """least i < n with l(i), n if there is none"""
    if l.op == 'lam' and n.op != 'mdd':
        v = fresh('i', l.a[1])
        l = lam(v, in_range(n, v, app_lam(l, v)))
    return mk('app', 'first', n, l)


REBUILD['first'] = lambda n, l: first_(n, l)
REBUILD['any'] = lambda n, l: any_(n, l)


def prune(t, env, budget=None):
    """drop the branches of t that contradict env"""
    if t.op != 'mdd':
        return t
    budget = budget if budget is not None else [200]

    def go(t, env):
        if t.op != 'mdd':
            return t
        budget[0] -= 1
        if budget[0] < 0:
            return t
        br = []
        for o, b in zip(domain(t.a[0]), t.a[1]):
            if b is UNDEF:
                br.append(b)
                continue
            e = env.copy()
            if not e.assume(t.a[0], o) or (o != 'un' and t.a[0].op == 'cmp' and not t.a[0].a[1] and not e.consistent()):
                br.append(UNDEF)
            else:
                br.append(go(b, e))
        return node(t.a[0], br)
    return go(t, env)


def int_divide(p, d):
    """quotients q, remainders r with p = q*d + r, one per choice of the leading monomial of d"""
    if d.op == 'num':
        l = lin_of(p)
        if l is None or d.a[0] <= 0 or d.a[0].denominator != 1:
            return
        n, c = l
        q, r = {}, {}
        for m, v in n.items():
            if v.denominator != 1:
                return
            a, b = divmod(v, d.a[0])
            if a:
                q[m] = a
            if b:
                r[m] = b
        if c.denominator != 1:
            return
        a, b = divmod(c, d.a[0])
        q[()], r[()] = a, b
        f = lambda x: make_rat({k: w for k, w in x.items() if w}, dict(ONEP)) if any(x.values()) else ZERO
        yield f(q), f(r)
        return
    n0, dn = to_poly(p)
    dd, dd1 = to_poly(d)
    if dn != ONEP or dd1 != ONEP or not n0:
        return
    if not all(v.denominator == 1 for v in n0.values()) or not all(v.denominator == 1 for v in dd.values()):
        return
    mods = set(m for m in n0 if any(a.op == 'app' and a.a[0] == 'idiv' and a.a[2] is d for a, e in m))
    for lm, lc, keep in [(lm, lc, keep) for keep in ([frozenset(), mods] if mods else [frozenset()]) for lm, lc in dd.items()]:
        if lm == () or abs(lc) != 1:
            continue
        lmd = dict(lm)
        n, q = dict(n0), {}
        for _ in range(40):
            hit = None
            for m in n:
                md = dict(m)
                if m not in keep and all(md.get(a, 0) >= e for a, e in lmd.items()):
                    hit = m
                    break
            if hit is None:
                break
            md = dict(hit)
            for a, e in lmd.items():
                md[a] -= e
                if not md[a]:
                    del md[a]
            qm = tuple(sorted(md.items(), key=lambda x: x[0].id))
            qt = make_rat({qm: n[hit] / lc}, dict(ONEP)) if qm else num(n[hit] / lc)
            q[qm] = q.get(qm, Fraction(0)) + n[hit] / lc
            rest, _d = to_poly(sub(make_rat(n, dict(ONEP)), mul(qt, d)))
            n = dict(rest)
            if not n:
                break
        else:
            continue
        qq = ZERO
        for m, v in q.items():
            qq = add(qq, make_rat({m: v}, dict(ONEP)) if m else num(v))
        yield qq, sub(p, mul(qq, d))


def proves(env, p):
    """env implies p >= 0 (integers)"""
    if p.op == 'num':
        return p.a[0] >= 0
    if nonneg(p):
        return True
    l = lin_of(neg(add(p, ONE)))
    if l is None:
        return False
    e = env.copy()
    e.iv.setdefault(neg(add(p, ONE)), (Fraction(0), False, None, False))
    return empty_polyhedron(e.constraints())


def resolve_div(t, env):
    """integer quotients decided by what env knows about the ranges of the indices"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'idiv' and x not in m:
                for q, r in int_divide(x.a[1], x.a[2]):
                    if q is ZERO and r is ZERO:
                        continue
                    if proves(env, r) and proves(env, sub(sub(x.a[2], r), ONE)):
                        m[x] = q
                        break
        if not m:
            return t
        t = subst_atoms(t, m)
    return t


def has_div(t):
    return any(x.op == 'app' and x.a[0] == 'idiv' for x in subterms(t))


def in_range(n, v, body):
    """body simplified for 0 <= v < n"""
    if v in free(body) and has_div(body):
        e = Env()
        if e.bounded(v, n):
            body = resolve_div(body, e)
    if body.op != 'mdd':
        return body
    st, seen, hit = [body], set(), False
    while st and not hit:
        x = st.pop()
        if x.op != 'mdd' or x in seen:
            continue
        seen.add(x)
        if x.a[0].op == 'cmp' and not x.a[0].a[1] and v in free(x.a[0].a[0]):
            hit = True
        st.extend(x.a[1])
    if not hit:
        return body
    e = Env()
    if not e.bounded(v, n):
        return body
    return prune(body, e)


def arr_in(n, l):
    """arr(n, l) with the element function simplified for the valid indices"""
    if n.op == 'mdd' or l.op != 'lam' or n.op == 'undef':
        return arr(n, l)
    v = fresh('i', 'u')
    b = in_range(n, v, app_lam(l, v))
    return arr(n, lam(v, b))


# ---------------------------------------------------------------- calculus
def diff(t, x):
    if x not in free(t):
        return ZERO
    if t is x:
        return ONE
    if t.op == 'rat':
        def dpoly(p):
            s = ZERO
            for m, c in p:
                for i, (a, e) in enumerate(m):
                    if x in free(a):
                        o = num(c * e)
                        o = mul(o, powr(a, e - 1) if e.denominator == 1 else _atom_pow(a, e - 1))
                        for j, (b, f) in enumerate(m):
                            if j != i:
                                o = mul(o, _atom_pow(b, f))
                        s = add(s, mul(o, diff(a, x)))
            return s
        n, d = make_rat(dict(t.a[0]), dict(ONEP)), make_rat(dict(t.a[1]), dict(ONEP))
        if d is ONE:
            return dpoly(t.a[0])
        return div(sub(mul(dpoly(t.a[0]), d), mul(n, dpoly(t.a[1]))), mul(d, d))
    if t.op == 'app':
        f = t.a[0]
        if f == 'exp':
            return mul(t, diff(t.a[1], x))
        if f == 'ln':
            return div(diff(t.a[1], x), t.a[1])
        if f == 'abs':
            return mul(diff(t.a[1], x), div(t.a[1], t))
        if f == 'sum':
            v = fresh('i', t.a[2].a[1])
            if x in free(t.a[1]):
                return unk('derivative of a bound')
            return _sum_body(t.a[1], v, diff(app_lam(t.a[2], v), x))
        if f == 'Phi':      # the standard normal distribution function
            u = t.a[1]
            return mul(diff(u, x), div(exp(div(mul(u, u), num(-2))), sqrt(mul(num(2), mk('app', 'pi')))))
        return unk('derivative of ' + f)
    if t.op == 'mdd':
        return lift2(lambda b: diff(b, x), t)
    return unk('derivative of ' + t.op)


def lift2(f, t):
    if t.op == 'mdd':
        return rebuild(t.a[0], [lift2(f, b) for b in t.a[1]])
    if t.op in ('undef', 'panic'):
        return t
    return f(t)


def subterms_of(t):
    return set(subterms(t))


# ---------------------------------------------------------------- equality up to infeasible branches
class Env(object):
    """what is known on a branch: an interval for every polynomial compared so far, and
    outcomes of the other atoms"""

    def __init__(self):
        self.iv = {}     # base poly -> (lo, lo_strict, hi, hi_strict)
        self.pos = {}
        self.ints = set()
        self.ordered = frozenset()     # atoms known to be numbers (not NaN)
        self.nl = ()                   # nonlinear comparisons and their outcomes
        self.uns = ()                  # comparisons assumed unordered

    def copy(self):
        e = Env()
        e.ordered, e.nl, e.uns = self.ordered, self.nl, self.uns
        e.iv = dict(self.iv)
        e.pos = dict(self.pos)
        e.ints = set(self.ints)
        return e

    def bounded(self, v, n):
        """0 <= v < n"""
        self.iv.setdefault(v, (Fraction(0), False, None, False))
        lt = compare(v, n, False)
        if lt.op == 'mdd':
            o = [domain(lt.a[0])[k] for k, x in enumerate(lt.a[1]) if x is S_['lt']]
            if not o:
                return False
            return self.assume(lt.a[0], o[0])
        return lt is S_['lt']

    def constraints(self):
        cons = []
        ms = set()
        for base, (lo, ls, hi, hs) in self.iv.items():
            l = lin_of(base)
            if l is None:
                continue
            d, c = l
            if lo is not None:
                cons.append((d, c - lo, ls))
            if hi is not None:
                cons.append(({k: -v for k, v in d.items()}, hi - c, hs))
            ms.update(d)
        for p, out in self.nl:
            sb = {}
            for a in atoms_of(p):
                if a.op == 'app' and a.a[0] == 'abs':
                    base, c, lead = self.split(a.a[1])
                    lo, ls, hi, hs = self.iv.get(base, (None, False, None, False))
                    if lead < 0:
                        lo, hi = hi, lo
                    if lo is not None and lead * lo + c >= 0:
                        sb[a] = a.a[1]
                    elif hi is not None and lead * hi + c <= 0:
                        sb[a] = neg(a.a[1])
            if sb:
                l = lin_of(subst_atoms(p, sb))
                if l is not None:
                    d, c = l
                    if out in ('gt', 'eq'):
                        cons.append((d, c, out == 'gt'))
                    if out in ('lt', 'eq'):
                        cons.append(({k: -v for k, v in d.items()}, -c, out == 'lt'))
                    ms.update(d)
        seen = set()
        work = list(ms)
        quot = set()
        while work:
            m = work.pop()
            if m in seen:
                continue
            seen.add(m)
            for a, e in m:
                if a.op == 'app' and a.a[0] == 'idiv' and a not in quot:
                    # 0 <= p - d*q <= d - 1 for q = p div d
                    quot.add(a)
                    rem = sub(a.a[1], mul(a.a[2], a))
                    for p in (rem, sub(sub(a.a[2], ONE), rem)):
                        l = lin_of(p)
                        if l is not None:
                            cons.append((l[0], l[1], False))
                            work.extend(l[0])
            t = make_rat({m: Fraction(1)}, dict(ONEP))
            if nonneg(t):
                cons.append(({m: Fraction(1)}, Fraction(0), False))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] in ('argmin', 'argmax'):
                l = lin_of(sub(sub(m[0][0].a[1], ONE), m[0][0]))
                if l is not None:
                    cons.append((l[0], l[1], False))
                    work.extend(l[0])
            if len(m) == 1 and m[0][1] == 1 and is_draw(m[0][0]):
                l = lin_of(sub(sub(m[0][0].a[5], ONE), m[0][0]))
                if l is not None:
                    cons.append((l[0], l[1], False))
                    work.extend(l[0])
        # facts times a size, where the products occur already
        deep = set(m for d, _, _ in cons for m in d if sum(e for _, e in m) > 1)
        if deep:
            sizes = sorted(set(a for m in deep for a, e in m if a.op == 'sym' and a.a[1] == 'u'), key=lambda a: a.id)
            more = []
            for d, c, s in cons if len(sizes) <= 8 and len(cons) <= 60 else ():
                if len(d) < 2 and not c:
                    continue
                for z in sizes:
                    l = lin_of(mul(make_rat({**d, (): c} if c else d, dict(ONEP)), z))
                    if l is not None and all(m in deep for m in l[0] if sum(e for _, e in m) > 1):
                        more.append((l[0], l[1], False))
            cons += more
        return cons

    def consistent(self):
        for p in self.uns:
            if self.ordered and value_atoms(p) <= self.ordered:
                return False
        for p, out in self.nl:
            sg = sign_over(p, self)
            if sg is not None and sg != out:
                return False
        return not empty_polyhedron(self.constraints())

    def equalities(self):
        """{atom: polynomial} solved from the equalities on this branch"""
        out = {}
        for base, (lo, ls, hi, hs) in self.iv.items():
            if lo is None or lo != hi:
                continue
            b = sub(base, num(lo))
            if out:
                b = subst_atoms(b, out)
            l = lin_of(b)
            if l is None:
                continue
            d, c = l
            for m, v in sorted(d.items(), key=lambda x: -max([a.id for a, e in x[0]] or [0])):
                if len(m) != 1 or m[0][1] != 1:
                    continue
                a = m[0][0]
                others = [x for y in d if y != m for x, e in y]
                if any(a is x or a in subterms_of(x) for x in others) or a.op not in ('sym', 'app', 'bv'):
                    continue
                rhs = div(neg(make_rat({**{k: w for k, w in d.items() if k != m}, (): c} if c else {k: w for k, w in d.items() if k != m}, dict(ONEP))), num(v))
                out = {k: subst_atoms(w, {a: rhs}) for k, w in out.items()}
                out[a] = rhs
                break
        return out

    @staticmethod
    def split(p):
        n, d = to_poly(p)
        if d != ONEP:
            return p, Fraction(0), Fraction(1)
        c = n.pop((), Fraction(0))
        if not n:
            return ZERO, c, Fraction(1)
        lead = sorted(n.items(), key=_mkey)[0][1]
        base = make_rat({m: v / lead for m, v in n.items()}, dict(ONEP))
        return base, c, lead

    def assume(self, atom, out):
        """False if contradictory"""
        if atom.op != 'cmp':
            k = atom
            if k in self.pos:
                return self.pos[k] == out
            self.pos[k] = out
            return True
        if out in ('le', 'ge'):
            if nonlinear(atom.a[0]):
                return True
            base, c, lead = self.split(atom.a[0])
            v = -c / lead
            up = (out == 'le') == (lead > 0)
            lo, ls, hi, hs = self.iv.get(base, (None, False, None, False))
            if up and (hi is None or v < hi):
                hi, hs = v, False
            if not up and (lo is None or v > lo):
                lo, ls = v, False
            self.iv[base] = (lo, ls, hi, hs)
            return True
        if out == 'un':
            self.uns += (atom.a[0],)
            return not (self.ordered and value_atoms(atom.a[0]) <= self.ordered)
        if atom.a[1]:
            self.ordered = self.ordered | value_atoms(atom.a[0])
        if nonlinear(atom.a[0]):
            self.nl += ((atom.a[0], out),)
            sg = sign_over(atom.a[0], self)
            if sg is not None and sg != out:
                return False
        base, c, lead = self.split(atom.a[0])
        # lead*base + c (out) 0  ->  base ? -c/lead
        v = -c / lead
        o = out
        if lead < 0 and o in ('lt', 'gt'):
            o = 'gt' if o == 'lt' else 'lt'
        lo, ls, hi, hs = self.iv.get(base, (None, False, None, False))
        if lo is None and nonneg(base):
            lo, ls = Fraction(0), False
        isint = not atom.a[1]
        if o == 'eq':
            nl, nh = (v, False), (v, False)
        elif o == 'lt':
            nl, nh = None, (v, True)
        else:
            nl, nh = (v, True), None
        if isint and lead in (1, -1) and v.denominator == 1 and _intpoly(base):
            if nh and nh[1]:
                nh = (v - 1, False)
            if nl and nl[1]:
                nl = (v + 1, False)
        if nl and (lo is None or nl[0] > lo or (nl[0] == lo and nl[1])):
            lo, ls = nl
        if nh and (hi is None or nh[0] < hi or (nh[0] == hi and nh[1])):
            hi, hs = nh
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return False
        self.iv[base] = (lo, ls, hi, hs)
        return True


def value_atoms(p):
    """the atoms a number is computed from"""
    out = set()
    for a in atoms_of(p):
        if a.op == 'num':
            continue
        if a.op == 'app' and a.a[0] in ('abs', 'exp') and len(a.a) == 2 and isinstance(a.a[1], T):
            out |= value_atoms(a.a[1])
        else:
            out.add(a)
    return frozenset(out)


def iv_mul(a, b):
    ps = [x * y if x is not None and y is not None else None for x in a for y in b]
    if any(p is None for p in ps):
        return (None, None)
    return (min(ps), max(ps))


def bounds(p, iv):
    """interval of a number, given intervals of atoms"""
    if p.op == 'num':
        return (p.a[0], p.a[0])
    n, d = to_poly(p)
    if d != ONEP:
        return (None, None)
    lo = hi = Fraction(0)
    for m, c in n.items():
        b = (c, c)
        for a, e in m:
            if e.denominator != 1 or e < 0 or e > 8:
                return (None, None)
            if a in iv:
                x = iv[a]
            elif a.op == 'app' and a.a[0] == 'abs':
                x = bounds(a.a[1], iv)
                if x[0] is not None and x[1] is not None:
                    x = (Fraction(0), max(-x[0], x[1])) if x[0] <= 0 <= x[1] else (min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
            else:
                return (None, None)
            if e % 2 == 0 and x[0] is not None and x[1] is not None and x[0] < 0 < x[1]:
                y = (Fraction(0), max(-x[0], x[1]) ** int(e))
            else:
                y = x
                for _ in range(int(e) - 1):
                    y = iv_mul(y, x)
            b = iv_mul(b, y)
        if b[0] is None:
            return (None, None)
        lo, hi = lo + b[0], hi + b[1]
    return (lo, hi)


def nonlinear(p):
    return p.op == 'rat' and not all(len(m) <= 1 and all(e == 1 and (a.op != 'app' or a.a[0] != 'abs') for a, e in m) for m, c in p.a[0])


def sign_over(p, env):
    """'lt'/'gt' when a nonlinear number keeps that strict sign on the known ranges of its atoms"""
    if not nonlinear(p):
        return None
    vs = value_atoms(p)
    if not 1 <= len(vs) <= 2:
        return None
    iv = {}
    for a in vs:
        r = env.iv.get(a)
        if r is None or r[0] is None or r[2] is None:
            return None
        iv[a] = (r[0], r[2])
    n = 16 if len(vs) == 1 else 6
    boxes = [dict()]
    for a in vs:
        lo, hi = iv[a]
        w = (hi - lo) / n
        boxes = [b | {a: (lo + w * k, lo + w * (k + 1))} for b in boxes for k in range(n)]
    sg = None
    left = 400
    while boxes:
        b = boxes.pop()
        left -= 1
        lo, hi = bounds(p, b)
        if lo is None:
            return None
        s = 'gt' if lo > 0 else 'lt' if hi < 0 else None
        if s is None:
            # cut the widest side in two and look again
            if left < 0:
                return None
            a = max(vs, key=lambda x: b[x][1] - b[x][0])
            x, y = b[a]
            if y - x < Fraction(1, 10 ** 6):
                return None
            m = (x + y) / 2
            boxes.append({**b, a: (x, m)})
            boxes.append({**b, a: (m, y)})
            continue
        if sg is not None and s != sg:
            return None
        sg = s
    return sg


def lin_of(p):
    """polynomial -> ({monomial: coef}, const) or None"""
    n, d = to_poly(p)
    if d != ONEP:
        return None
    n = dict(n)
    c = n.pop((), Fraction(0))
    return n, c


def empty_polyhedron(cons, cap=160):
    """cons: list of (dict, const, strict) meaning sum + const >= 0 (or > 0).  True if certainly
    unsatisfiable (variable elimination on the linear constraint domain)"""
    cons = list(cons)
    while True:
        live = []
        for d, c, s in cons:
            if not d:
                if c < 0 or (c == 0 and s):
                    return True
                continue
            live.append((d, c, s))
        # dedupe: keep the strongest constant per direction
        best = {}
        for d, c, s in live:
            lead = abs(sorted(d.items(), key=_mkey)[0][1])
            key = tuple(sorted(((m, v / lead) for m, v in d.items()), key=_mkey))
            c2 = c / lead
            o = best.get(key)
            if o is None or c2 < o[0] or (c2 == o[0] and s):
                best[key] = (c2, s)
        cons = [(dict(k), c, s) for k, (c, s) in best.items()]
        if not cons:
            return False
        cnt = {}
        for d, c, s in cons:
            for m, v in d.items():
                a = cnt.setdefault(m, [0, 0])
                a[0 if v > 0 else 1] += 1
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], tuple((a.id, e) for a, e in m)))
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        negs = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if m not in x[0]]
        if len(pos) * len(negs) + len(rest) > cap:
            return False
        for d1, c1, s1 in pos:
            for d2, c2, s2 in negs:
                a, b = -d2[m], d1[m]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + a * v
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + b * v
                d = {k: v for k, v in d.items() if v != 0}
                rest.append((d, a * c1 + b * c2, s1 or s2))
        cons = rest


def _intpoly(p):
    n, d = to_poly(p)
    return d == ONEP and all(c.denominator == 1 for c in n.values())


class Undecided(Exception):
    pass


BIND = {'sum': 2, 'any': 2, 'first': 2, 'prod': 2, 'fold': 2, 'foldn': 3, 'filter': 2, 'flat': 2, 'runmin': 2, 'runmax': 2}


def binders(t):
    return [x for x in atoms_of(t) if x.op == 'app' and x.a[0] in BIND]


def atoms_of(t):
    if t.op == 'rat':
        s = []
        for p in t.a:
            for m, c in p:
                for a, e in m:
                    if a not in s:
                        s.append(a)
        return s
    return [t]


def canon(t, env):
    """merge binder atoms of t that are equal on this branch"""
    return t


def same_binders(a, b, env, go):
    """are a and b equal once binder atoms that are equal on this branch are identified"""
    A, B = binders(a), binders(b)
    if len(A) > 12 or len(B) > 12:
        return False
    m = {}
    for x in B:
        if x in A:
            continue
        for y in A:
            if y.a[0] == x.a[0] and len(x.a) == len(y.a) and _same_binder(y, x, env, go):
                m[x] = y
                break
    if a.op == 'app' and b.op == 'app':
        return b in m
    if not m:
        return False
    return subst_atoms(b, m) is a


def _same_binder(x, y, env, go):
    if go(x.a[1], y.a[1], env, ()) is not None if x.a[0] != 'foldn' else go(x.a[2], y.a[2], env, ()) is not None:
        return False
    i = BIND[x.a[0]]
    for p, q in zip(x.a[1:], y.a[1:]):
        if not (isinstance(p, T) and p.op == 'lam' and q.op == 'lam'):
            if p is not q and go(p, q, env, ()) is not None:
                return False
            continue
        n = x.a[2] if x.a[0] == 'foldn' else x.a[1]
        e = env.copy()
        v = fresh('i', 'u')
        if not e.bounded(v, n):
            return True
        l, r = resolve_div(app_lam(p, v), e), resolve_div(app_lam(q, v), e)
        while l.op == 'lam' and r.op == 'lam':
            w = fresh('s', l.a[1])
            l, r = app_lam(l, w), app_lam(r, w)
        if go(l, r, e, ()) is not None:
            return False
    return True


def equal(a, b, env=None, facts=None, pre=None):
    """None if equal on every feasible branch (on which pre holds), else (branch description, leaf a, leaf b)"""
    if pre is not None and pre is not TRUE and a is not b:
        e = implied(pre, env)
        if deep_prune(a, e) is deep_prune(b, e):
            return None
    r = _equal(a, b, env, facts, pre)
    if r is not None:
        e = implied(pre, env)
        b2 = congruent(a, b, e)
        pre2 = congruent(a, pre, env) if pre is not None else None
        if b2 is not b or pre2 is not pre:
            return _equal(a, b2, env, facts, pre2)
    return r


def deep_prune(t, e):
    t = prune(t, e)
    if t.op == 'agg':
        return agg(t.a[0], *[deep_prune(x, e) if isinstance(x, T) else x for x in t.a[1:]])
    return t


def implied(pre, env):
    """env with the comparisons every way of satisfying pre agrees on"""
    if pre is None or pre.op != 'mdd':
        return env
    e = env.copy() if env is not None else Env()
    p = pre
    while p.op == 'mdd':
        live = [(o, x) for o, x in zip(domain(p.a[0]), p.a[1]) if x is not FALSE and x is not UNDEF]
        if p.a[0].op == 'cmp' and not p.a[0].a[1]:
            os_ = frozenset(o for o, _ in live)
            o = {frozenset(['lt', 'eq']): 'le', frozenset(['gt', 'eq']): 'ge'}.get(os_) or (list(os_)[0] if len(os_) == 1 else None)
            if o:
                e.assume(p.a[0], o)
        elif len(live) == 1:
            e.assume(p.a[0], live[0][0])
        rest = set(x for _, x in live)
        if len(rest) != 1:
            break
        p = list(rest)[0]
    if p.op == 'mdd':
        # outcomes no way of satisfying the rest has
        seen, st = set(), [p]
        while st:
            x = st.pop()
            if x in seen or x.op != 'mdd':
                continue
            seen.add(x)
            st.extend(x.a[1])
        for a in sorted(set(x.a[0] for x in seen), key=lambda t: t.id) if len(seen) <= 60 else ():
            dom = domain(a)
            os_ = frozenset(o for i, o in enumerate(dom) if cofactor_(p, a, i) not in (FALSE, UNDEF))
            if a.op == 'cmp' and not a.a[1]:
                o = {frozenset(['lt', 'eq']): 'le', frozenset(['gt', 'eq']): 'ge'}.get(os_) or (list(os_)[0] if len(os_) == 1 else None)
                if o:
                    e.assume(a, o)
            elif len(os_) == 1:
                e.assume(a, list(os_)[0])
    return e


OPAQUE = {'singular', 'matmul', 'transpose', 'inverse', 'solve', 'solve_fails', 'inverse_fails', 'det', 'lu', 'lu_fails', 'cholesky', 'cholesky_fails', 'linalg_err',
          'solve_l_triangular', 'solve_u_triangular', 'solve_l_triangular_fails', 'solve_u_triangular_fails', 'svd_fails', 'svd_s', 'svd_u', 'svd_v',
          'eigen_fails', 'eq', 'boxerr', 'fold', 'foldn', 'first', 'argmax', 'argmin', 'norm', 'app', 'call'}


def closed(t):
    lv = -1
    for x in subterms(t):
        if x.op == 'lam':
            lv = max(lv, x.a[0])
    return maxbv(t) <= lv


def congruent(a, b, env=None, depth=0):
    """b with its uninterpreted applications renamed to those of a that have equal arguments"""
    def apps(t):
        return [x for x in subterms(t) if x.op == 'app' and isinstance(x.a[0], str) and (x.a[0] in OPAQUE or x.a[0] in BIND or x.a[0].startswith('m:')) and closed(x)]
    def go(p, q, e, path):
        r = _equal(p, q, e)
        if r is not None and depth < 2:
            q2 = congruent(p, q, e, depth + 1)
            if q2 is not q:
                r = _equal(p, q2, e)
        return r
    A = apps(a)
    for _ in range(12):
        sa = set(A)
        m = {}
        for y in sorted((y for y in apps(b) if y not in sa), key=lambda t: len(subterms(t))):
            for x in A:
                if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                    continue
                try:
                    if x.a[0] in BIND and len(subterms(x)) < 4000 and _same_binder(x, y, env.copy() if env else Env(), go):
                        m[y] = x
                        break
                    if all(p is q or isinstance(p, T) and isinstance(q, T) and p.op != 'lam' and q.op != 'lam' and _equal(p, q, env.copy() if env else None) is None
                           for p, q in zip(x.a[1:], y.a[1:])):
                        m[y] = x
                        break
                except (Undecided, RecursionError):
                    pass
            if m:
                break
        if not m:
            return b
        b = subst_atoms(b, m)
    return b


SHOW_INNER = False


def _equal(a, b, env=None, facts=None, pre=None):
    if a is b:
        return None
    if pre is not None and pre is not TRUE:
        def under(p, env):
            if p is TRUE:
                return _equal(a, b, env)
            if p.op != 'mdd':
                return None
            for o, x in zip(domain(p.a[0]), p.a[1]):
                if x is FALSE or x is UNDEF:
                    continue
                e = env.copy()
                if e.assume(p.a[0], o) and e.consistent():
                    r = under(x, e)
                    if r is not None:
                        return r
            return None
        return under(pre, env or Env())
    count = [0]
    trail = set()

    def go(a, b, env, path):
        count[0] += 1
        if count[0] > 20000:
            raise Undecided('comparison too large')
        if a is b or a is UNDEF or b is UNDEF:
            return None
        top = None
        for t in (a, b):
            if t.op == 'mdd' and (top is None or t.a[0].id < top.id):
                top = t.a[0]
        if top is None:
            return leaf(a, b, env, path)
        for i, o in enumerate(domain(top)):
            e = env.copy()
            if not e.assume(top, o):
                continue
            f = lambda t: t.a[1][i] if t.op == 'mdd' and t.a[0] is top else t
            r = go(f(a), f(b), e, path + ((top, o),))
            if r is not None:
                return r
        return None

    def leaf(a, b, env, path):
        if a is b:
            return None
        # equalities learnt on the branch (x == c) may make the two leaves agree
        eqs = env.equalities()
        if eqs:
            a2, b2 = subst_atoms(a, eqs), subst_atoms(b, eqs)
            if a2 is b2:
                return None
            if a2 is not a or b2 is not b:
                key = (a2, b2)
                if key not in trail:
                    trail.add(key)
                    try:
                        return go(a2, b2, env, path)
                    finally:
                        trail.discard(key)
        if not env.consistent():
            return None
        if a.op == b.op == 'agg' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            for x, y in zip(a.a[1:], b.a[1:]):
                r = go(x, y, env, path)
                if r is not None:
                    return r
            return None
        for x, y in ((a, b), (b, a)):
            if x.op == 'agg' and x.a[0] == ('adt', 'Matrix', 0, 'Matrix') and y.op in ('app', 'sym'):
                y2 = agg(x.a[0], rebuild_app('rows', [y]), rebuild_app('cols', [y]), rebuild_app('data', [y]))
                return go(x, y2, env, path) if x is a else go(y2, x, env, path)
        if (a.op == 'arr') != (b.op == 'arr') and a.op in ('arr', 'app', 'sym') and b.op in ('arr', 'app', 'sym'):
            r = go(length(a), length(b), env, path)
            if r is not None:
                return r
            v = fresh('i', 'u')
            e = env.copy()
            if not e.bounded(v, length(a)):
                return None
            return go(resolve_div(sel(a, v), e), resolve_div(sel(b, v), e), e, path)
        if a.op == b.op == 'arr':
            r = go(a.a[0], b.a[0], env, path)
            if r is not None:
                return r
            v = fresh('i', 'u')
            e = env.copy()
            if not e.bounded(v, a.a[0]):
                return None
            return go(resolve_div(app_lam(a.a[1], v), e), resolve_div(app_lam(b.a[1], v), e), e, path)
        if a.op in ('app', 'rat') and b.op in ('app', 'rat') and (binders(a) or binders(b)):
            a2, b2 = canon(a, env), canon(b, env)
            if a2 is b2 or conjunctive(a2) is conjunctive(b2):
                return None
            if same_binders(a2, b2, env, go):
                return None
        if a.op == b.op == 'app' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and not any(x is not y and not (isinstance(x, T) and isinstance(y, T) and x.op != 'lam' and y.op != 'lam')
                                                                                          for x, y in zip(a.a[1:], b.a[1:])):
            # same function of equal arguments
            for x, y in zip(a.a[1:], b.a[1:]):
                r = go(x, y, env, path) if x is not y else None
                if r is not None:
                    return r if SHOW_INNER else (path, a, b)
            return None
        return (path, a, b)

    return go(a, b, env or Env(), ())


def conjunctive(t):
    """t with every sum of a decision tree over two-valued conditions written over sums of conjunctions of
    conditions (the unique multilinear form), so that sums which count the same cases agree"""
    m = {}
    for s in subterms(t):
        if s.op == 'app' and s.a[0] == 'sum' and s.a[2].op == 'lam':
            n, l = s.a[1], s.a[2]
            v = fresh('i', l.a[1])
            poly = multilinear(app_lam(l, v))
            if poly is None or len(poly) > 64:
                continue
            r = ZERO
            for conds, coef in poly.items():
                c = TRUE
                for x in conds:
                    c = b_and(c, node(x, (TRUE, FALSE)))
                out = coef if v not in free(coef) else ONE
                body = ite(c, ONE if out is coef else coef, ZERO) if conds else (ONE if out is coef else coef)
                r = add(r, mul(out, _sum_body(n, v, body)))
            if r is not s:
                m[s] = r
    return subst_atoms(t, m) if m else t


def multilinear(t):
    """{set of conditions: coefficient} of a decision tree over two-valued conditions"""
    if t.op != 'mdd':
        return {frozenset(): t} if t.op in ('num', 'rat', 'sym', 'app') else None
    if len(t.a[1]) != 2 or tuple(domain(t.a[0])) != tuple(domain(boolatom(mk('app', 'b')).a[0])):
        return None
    hi, lo = multilinear(t.a[1][0]), multilinear(t.a[1][1])
    if hi is None or lo is None:
        return None
    r = dict(lo)
    for sgn, p in ((1, hi), (-1, lo)):
        for k, c in p.items():
            k2 = k | {t.a[0]}
            x = add(r.get(k2, ZERO), c if sgn == 1 else neg(c))
            if x is ZERO:
                r.pop(k2, None)
            else:
                r[k2] = x
    return r


def subst_atoms(t, m):
    """replace whole atoms (not only symbols)"""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if t in memo:
            return memo[t]
        if t.op == 'rat':
            def poly(p):
                s = ZERO
                for mo, c in p:
                    x = num(c)
                    for a, e in mo:
                        x = mul(x, powr(go(a), e))
                    s = add(s, x)
                return s
            dn = poly(t.a[1])
            r = div(poly(t.a[0]), dn)
        elif t.op == 'app':
            na = [go(x) if isinstance(x, T) else x for x in t.a[1:]]
            r = t if all(x is y for x, y in zip(na, t.a[1:])) else rebuild_app(t.a[0], na)
        elif t.op == 'agg':
            r = agg(t.a[0], *[go(x) for x in t.a[1:]])
        elif t.op == 'mdd':
            at = t.a[0]
            br = [go(b) for b in t.a[1]]
            if at.op == 'cmp':
                o = compare(go(at.a[0]), ZERO, at.a[1])
                r = select_by(o, {S_[k]: b for k, b in zip(domain(at), br)})
            elif at.op == 'bool':
                r = ite(rebool(go(at.a[0])), br[0], br[1])
            else:
                d = disc(go(at.a[0]), at.a[1])
                r = select_by(d, {num(i): b for i, b in enumerate(br)})
        elif t.op == 'arr':
            r = arr(go(t.a[0]), go(t.a[1]))
        elif t.op == 'lam':
            r = mk('lam', t.a[0], t.a[1], go(t.a[2]))
        else:
            r = t
        memo[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 14:
        return '…'
    d = depth + 1
    op = t.op
    if op == 'num':
        return str(t.a[0])
    if op == 'const':
        return str(t.a[0]).lower()
    if op == 'sym':
        return t.a[0]
    if op == 'bv':
        return '$%d' % t.a[0]
    if op == 'str':
        return repr(t.a[0])
    if op in ('undef', 'panic'):
        return op
    if op == 'unk':
        return '?(%s)' % t.a[0]
    if op == 'rat':
        def poly(p):
            out = []
            for m, c in p:
                s = '*'.join((show(a, d) if a.op != 'rat' else '(' + show(a, d) + ')') + ('^%s' % e if e != 1 else '') for a, e in m)
                if c == 1 and s:
                    out.append(s)
                elif c == -1 and s:
                    out.append('-' + s)
                else:
                    out.append(str(c) + ('*' + s if s else ''))
            return ' + '.join(out)
        if t.a[1] == (((), Fraction(1)),):
            return poly(t.a[0]) if len(t.a[0]) == 1 else '(' + poly(t.a[0]) + ')'
        return '(%s)/(%s)' % (poly(t.a[0]), poly(t.a[1]))
    if op == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in t.a[1:]))
    if op == 'agg':
        tag = t.a[0]
        nm = '' if tag[0] == 'tuple' else (tag[3] if len(tag) > 3 else str(tag[-1]))
        return '%s(%s)' % (nm, ', '.join(show(x, d) for x in t.a[1:]))
    if op == 'lam':
        return 'λ$%d.%s' % (t.a[0], show(t.a[2], d))
    if op == 'arr':
        return '[%s | %s]' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'cmp':
        return 'cmp(%s)' % show(t.a[0], d)
    if op == 'bool':
        return show(t.a[0], d)
    if op == 'disc':
        return 'variant(%s)' % show(t.a[0], d)
    if op == 'mdd':
        at = t.a[0]
        return '{%s ? %s}' % (show(at, d), ' ; '.join('%s: %s' % (o, show(b, d)) for o, b in zip(domain(at), t.a[1]) if b is not UNDEF))
    return '%s<%s>' % (op, ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in t.a))


def show_path(path):
    return ' & '.join('%s=%s' % (show(a), o) for a, o in path)
