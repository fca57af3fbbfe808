"""Random interpretation of normal forms (Gulwani & Necula): two value-graph terms that
differ as normal forms are reported as different only if some valuation of their free
symbols gives them different values.  Nothing of the analysed program is executed; what
is evaluated is the pair of terms the analysis derived.  The filter can only silence a
report (an incomplete normal form), never create one."""
import hashlib, math
from fractions import Fraction
import mpmath
from mpmath import mpf
from .terms import *
from . import terms as T_

mpmath.mp.dps = 60
TIE = mpf(10) ** -40
BIG = mpf(10) ** 300
MT = ('adt', 'Matrix', 0, 'Matrix')
POOL = [Fraction(x) for x in (-2, -1, '-1/2', 0, '1/2', 1, 1, 2, 3, '1/3', '3/4', '-5/4')]


def half_up(a):
    return math.floor(a + Fraction(1, 2)) if a >= 0 else -math.floor(-a + Fraction(1, 2))


class Skip(Exception):
    """this valuation says nothing (undefined value, unmodelled operator, too large)"""


class Tok(object):
    """an opaque value, known only by its name"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Tok) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return '<%s>' % (self.n,)


class Agg(object):
    __slots__ = ('tag', 'f')

    def __init__(self, tag, f):
        self.tag, self.f = tag, tuple(f)

    def __repr__(self):
        return '%s%r' % (self.tag[-1] if len(self.tag) > 1 else '', self.f)


class Store(list):
    pass


def isnum(x):
    return isinstance(x, (int, float, Fraction, mpf)) and not isinstance(x, bool)


def MP(x):
    return mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpf(x)


def plus(a, b):
    return MP(a) + MP(b) if isinstance(a, mpf) or isinstance(b, mpf) else a + b


def less(a, b):
    d = a - b if type(a) is type(b) else MP(a) - MP(b)
    if isinstance(d, mpf) and d and abs(d) < TIE * (1 + abs(a)):
        raise Skip('tie')
    return d < 0


def times(a, b):
    return MP(a) * MP(b) if isinstance(a, mpf) or isinstance(b, mpf) else a * b


SCALES = (1, 1, 1, 1, 12, 1, 1, Fraction(1, 500), 1, 200)


_FB, _WT = {}, {}


def freebv(t):
    """the bound variables t depends on, in a fixed order"""
    r = _FB.get(t)
    if r is None:
        if t.op == 'bv':
            r = (t,)
        elif t.op == 'lam':
            b = mk('bv', t.a[0], t.a[1])
            r = tuple(x for x in freebv(t.a[2]) if x is not b)
        else:
            s = set()
            for c in children(t):
                s.update(freebv(c))
            r = tuple(sorted(s, key=lambda x: x.id))
        _FB[t] = r
    return r


def weight(t):
    r = _WT.get(t)
    if r is None:
        r = _WT[t] = min(50, 1 + sum(weight(c) for c in children(t)))
    return r


class Val(object):
    def __init__(self, seed, sizes=(0, 1, 2, 3), pos=(), over=None, steps=400000, special=None):
        self.seed, self.sizes, self.pos = seed, sizes, pos
        self.over = over or {}
        self.ieee, self.lax, self.blind, self.few = False, 0, 0, False
        self.memo, self.keep = {}, {}
        self.special = special or {}
        self.left = steps
        self.sized = set()
        self.near = ()
        self.log = {}
        self.scale = SCALES[seed[1] % len(SCALES)] if isinstance(seed, tuple) and isinstance(seed[1], int) else 1

    def h(self, *k):
        d = hashlib.sha256(repr((self.seed,) + k).encode()).digest()
        return int.from_bytes(d[:6], 'big')

    def numof(self, x, what='number'):
        if isnum(x):
            return x
        if isinstance(x, Tok):
            if self.ieee and self.h('special', x.n) % 9 == 0 and x.n[0] in ('el', 'sym', 'norm', 'sel'):
                return mpf(('nan', 'inf', '-inf')[self.h('which', x.n) % 3])
            h = self.h('num', x.n)
            if self.few:
                return Fraction(h % 3)
            v = POOL[h % len(POOL)]
            if (h >> 8) % 3 == 0:
                v = Fraction((h >> 12) % 97 - 40, 16)
            if self.near:
                # numbers that lie within the constants compared with of each other
                d = self.near[self.h('delta') % len(self.near)]
                return (Fraction(1, 2), Fraction(1), Fraction(0), Fraction(3))[self.h('base') % 4] + d * (0, 1, -1, 2, Fraction(1, 2), Fraction(-1, 2))[h % 6]
            return v * self.scale
        raise Skip('%s is no number' % (x,))

    def intof(self, x):
        if isinstance(x, Tok):
            return self.sizes[self.h('int', x.n) % len(self.sizes)]
        if isinstance(x, Fraction) and x.denominator == 1:
            return int(x)
        if isinstance(x, int):
            return x
        raise Skip('no integer')

    def key(self, x):
        """hashable name of a value"""
        if isinstance(x, Tok):
            return x.n
        if isinstance(x, Fraction):
            return ('q', x.numerator, x.denominator)
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return ('q', x, 1)
        if isinstance(x, mpf):
            return ('f', mpmath.nstr(x, 15))
        if isinstance(x, list):
            return ('l',) + tuple(self.key(y) for y in x)
        if isinstance(x, Agg):
            return ('a', x.tag) + tuple(self.key(y) for y in x.f)
        if callable(x):
            return ('fn', tuple(self.key(x(Fraction(i))) for i in (0, 1, 2)))
        return x

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env):
        self.left -= 1
        if self.left < 0:
            raise Skip('too many steps')
        m = getattr(self, 'e_' + t.op, None)
        if m is None:
            raise Skip(t.op)
        if t.op not in ('app', 'rat', 'arr', 'mdd', 'agg') or weight(t) < 6:
            return m(t, env)
        # everything is evaluated once per value of the indices it really depends on
        k = []
        for b in freebv(t):
            x = env.get(b)
            if isinstance(x, Fraction):
                k.append(x)
            elif isinstance(x, (list, Agg, Tok)):
                # known by identity (and kept, so that the identity stays its own)
                if id(x) not in self.keep:
                    self.keep[id(x)] = x
                k.append(id(x))
            else:
                return m(t, env)
        k = (t, self.lax > 0, self.blind) + tuple(k)
        r = self.memo.get(k)
        if r is None:
            try:
                r = self.memo[k] = m(t, env)
            except Skip as e:
                if self.left >= 0:
                    self.memo[k] = e
                raise
        elif isinstance(r, Skip):
            raise r
        return r

    def e_num(self, t, env):
        return t.a[0]

    def e_const(self, t, env):
        return t.a[0]

    def e_str(self, t, env):
        return Tok(('str', t.a[0]))

    def e_undef(self, t, env):
        raise Skip('undef')

    def e_panic(self, t, env):
        return Tok(('panic',))

    def e_unk(self, t, env):
        raise Skip('unmodelled: %s' % (t.a[0],))

    def e_sym(self, t, env):
        if t in self.over:
            return self.over[t]
        n, s = t.a
        if '#' in n or n.startswith('μ'):
            raise Skip('internal symbol')
        if s == 'f':
            if t in self.pos and t in self.special and self.h('special', n) % 3 == 0:
                sp = [x for x in self.special[t] if x > 0] or [Fraction(1)]
                v = sp[self.h('which', n) % len(sp)]
            elif t in self.pos:
                v = Fraction(self.h('pos', n) % 60 + 1, 16)
            elif t in self.special and self.h('special', n) % 3 == 0:
                sp = self.special[t]
                v = sp[self.h('which', n) % len(sp)]
            else:
                h = self.h('flt', n)
                v = POOL[h % len(POOL)] if (h >> 9) % 2 else Fraction((h >> 12) % 97 - 48, 16) if (h >> 10) % 4 else GRID[(h >> 12) % len(GRID)]
        elif s == 'u':
            v = Fraction(self.sizes[self.h('u', n) % len(self.sizes)])
            if t in self.special and self.h('special', n) % 4 == 0:
                sp = [x for x in self.special[t] if x >= 0 and x.denominator == 1] or [v]
                v = sp[self.h('which', n) % len(sp)]
        elif s == 'b':
            v = bool(self.h('b', n) % 2)
        else:
            v = Tok(('ou' if s == 'ou' else 'o', n))
        self.log[n] = v
        return v

    def e_bv(self, t, env):
        if t in env:
            return env[t]
        raise Skip('free index')

    def e_lam(self, t, env):
        b = mk('bv', t.a[0], t.a[1])

        def f(x):
            e = dict(env)
            e[b] = x
            return self.ev(t.a[2], e)
        return f

    def e_agg(self, t, env):
        return Agg(t.a[0], [self.ev(x, env) for x in t.a[1:]])

    def e_arr(self, t, env):
        n = self.size(self.ev(t.a[0], env))
        f = self.ev(t.a[1], env)
        return [f(Fraction(i)) for i in range(n)]

    def size(self, n):
        n = self.intof(n)
        if n < 0 or n > 4096:
            raise Skip('size')
        return n

    def e_rat(self, t, env):
        def poly(p):
            s = Fraction(0)
            for m, c in p:
                x, turn = c, Fraction(0)
                for a, e in m:
                    b = self.numof(self.ev(a, env))
                    if e.denominator != 1 and b < 0:
                        # the root of a quotient of two negative numbers is kept as a quotient of roots
                        turn += e
                        b = -b
                    x = times(x, self.pw(b, e))
                if turn.denominator != 1:
                    raise Skip('root of a negative number')
                s = plus(s, -x if turn % 2 else x)
            return s
        n, d = poly(t.a[0]), poly(t.a[1])
        if d == 0:
            if self.lax and (n != n or n == 0):
                return mpf('nan')
            if self.lax:
                return mpf('inf')
            raise Skip('division by zero')
        if isinstance(d, mpf):
            if abs(d) < TIE:
                raise Skip('near zero division')
            return MP(n) / d
        return MP(n) / MP(d) if isinstance(n, mpf) else n / d

    def pw(self, b, e):
        try:
            if e.denominator == 1:
                if b == 0 and e < 0:
                    if self.lax:
                        return mpf('inf')
                    raise Skip('division by zero')
                if isinstance(b, mpf) and abs(b) < TIE and e < 0:
                    raise Skip('near zero division')
                return b ** int(e)
            if b < 0:
                raise Skip('root of a negative number')
            if b == 0 and e < 0:
                raise Skip('division by zero')
            if isinstance(b, Fraction) and e.denominator == 2:
                r = Fraction(math.isqrt(b.numerator), math.isqrt(b.denominator))
                if r * r == b:
                    return r ** e.numerator
            return MP(b) ** MP(e)
        except OverflowError:
            raise Skip('overflow')

    def e_mdd(self, t, env):
        try:
            i = self.branch(t, env)
        except Skip:
            # a test that has no value: it does not matter where all outcomes agree
            if self.blind > 3:
                raise
            self.blind += 1
            try:
                vs = [self.ev(b, env) for b in t.a[1]]
                if all(self.same(vs[0], v) for v in vs[1:]):
                    return vs[0]
            finally:
                self.blind -= 1
            raise
        return self.ev(t.a[1][i], env)

    def branch(self, t, env):
        a = t.a[0]
        if a.op == 'cmp':
            v = self.numof(self.ev(a.a[0], env))
            if isinstance(v, mpf) and abs(v) < TIE:
                raise Skip('tie')
            if v != v:
                if len(t.a[1]) < 4:
                    raise Skip('not a number')
                return 3
            return 0 if v < 0 else 1 if v == 0 else 2
        if a.op == 'bool':
            v = self.ev(a.a[0], env)
            if not isinstance(v, bool):
                v = bool(self.h('bool', self.key(v)) % 2)
            return 0 if v else 1
        v = self.ev(a.a[0], env)
        if isinstance(v, Agg) and v.tag[0] == 'adt':
            return v.tag[2]
        return self.h('disc', self.key(v)) % len(a.a[1])

    def seq(self, x, n=None):
        if isinstance(x, list):
            return x
        if isinstance(x, Tok):
            if n is None:
                n = self.lenof(x)
            ou = x.n[0] == 'ou'
            return [self.item(x, i) for i in range(n)]
        raise Skip('no sequence')

    def lenof(self, x):
        if isinstance(x, list):
            return len(x)
        if isinstance(x, Tok):
            if x.n[0] == 'data':
                return self.dim(x.n[1], 'rows') * self.dim(x.n[1], 'cols')
            if ('len', x.n) in self.over:
                return self.over[('len', x.n)]
            return self.sizes[self.h('len', x.n) % len(self.sizes)]
        raise Skip('no length')

    def dim(self, n, which):
        if (which, n) in self.over:
            return self.over[(which, n)]
        return self.sizes[self.h(which, n) % len(self.sizes)]

    def item(self, x, i):
        if x.n[0] == 'ou':
            return Fraction(self.h('ou', x.n, i) % 4)
        # elements of small pools, so that equal elements occur
        return Tok(('el', self.h('el', x.n, i) % 5)) if self.h('pool', x.n) % 2 else Tok(('el', x.n, i))

    def e_app(self, t, env):
        if t.a[0] != 'foldn':
            return self.e_app2(t, env)
        # the components of one loop share it
        k = ('foldn', t.a[2], t.a[3], t.a[4], self.lax > 0, self.blind)
        for b in freebv(t):
            x = env.get(b)
            if isinstance(x, Fraction):
                k += x,
            elif isinstance(x, (list, Agg, Tok)):
                self.keep[id(x)] = x
                k += id(x),
            else:
                return self.e_app2(t, env).f[int(t.a[1].a[0])]
        r = self.memo.get(k)
        if r is None:
            try:
                r = self.memo[k] = self.e_app2(t, env)
            except Skip as e:
                if self.left >= 0:
                    self.memo[k] = e
                raise
        elif isinstance(r, Skip):
            raise r
        return r.f[int(t.a[1].a[0])]

    def e_app2(self, t, env):
        f = t.a[0]
        if f in ('fold', 'foldn'):
            o = 1 if f == 'foldn' else 0
            n = self.size(self.ev(t.a[1 + o], env))
            l = self.ev(t.a[2 + o], env)
            s = self.ev(t.a[3 + o], env)
            if o:
                if not hasattr(s, 'f'):
                    raise Skip('not an aggregate')
                for i in range(n):
                    g = l(Fraction(i))
                    for x in s.f:
                        g = g(x)
                    s = g
                    if not hasattr(s, 'f'):
                        raise Skip('not an aggregate')
                return s
            for i in range(n):
                s = l(Fraction(i))(s)
            return s
        if f == 'sum' or f == 'prod':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            r = Fraction(0 if f == 'sum' else 1)
            for i in range(n):
                x = self.numof(l(Fraction(i)))
                r = plus(r, x) if f == 'sum' else times(r, x)
            return r
        if f == 'runmin' or f == 'runmax':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            r = self.numof(self.ev(t.a[3], env))
            for i in range(n):
                x = self.numof(l(Fraction(i)))
                if less(x, r) if f == 'runmin' else less(r, x):
                    r = x
            return r
        if f == 'argmin' or f == 'argmax':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            if not n:
                raise Skip('extremum of nothing')
            best, r = 0, self.numof(l(Fraction(0)))
            for i in range(1, n):
                x = self.numof(l(Fraction(i)))
                if less(x, r) if f == 'argmin' else less(r, x):
                    best, r = i, x
            return Fraction(best)
        if f == 'any':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            return any([self.truth(l(Fraction(i))) for i in range(n)])
        if f == 'first':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            for i in range(n):
                if self.truth(l(Fraction(i))):
                    return Fraction(i)
            return Fraction(n)
        if f == 'filter':
            n = self.size(self.ev(t.a[1], env))
            g, l = self.ev(t.a[2], env), self.ev(t.a[3], env)
            return [l(Fraction(i)) for i in range(n) if self.truth(g(Fraction(i)))]
        if f == 'flat':
            n = self.size(self.ev(t.a[1], env))
            l = self.ev(t.a[2], env)
            r = []
            for i in range(n):
                r += self.seq(l(Fraction(i)))
            return r
        if f in ('is_nan', 'is_infinite'):
            self.lax += 1
            try:
                x = self.numof(self.ev(t.a[1], env))
            finally:
                self.lax -= 1
            return isinstance(x, mpf) and (x != x if f == 'is_nan' else x in (mpf('inf'), mpf('-inf')))
        if f == 'div0':
            if not self.lax:
                raise Skip('division by zero')
            x = self.numof(self.ev(t.a[1], env))
            return mpf('nan') if x == 0 or x != x else mpf('inf')
        if f == 'table':
            i = self.intof(self.ev(t.a[2], env))
            if 0 <= i < len(t.a[1].a):
                return self.ev(t.a[1].a[i], env)
            raise Skip('index')
        a = [self.ev(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        m = getattr(self, 'f_' + f.replace(':', '_'), None)
        if m is not None:
            return m(*a)
        return self.uf(f, *a)

    def uf(self, f, *a):
        """uninterpreted"""
        return Tok((f,) + tuple(self.key(x) for x in a))

    def truth(self, x):
        if isinstance(x, bool):
            return x
        return bool(self.h('bool', self.key(x)) % 2)

    # interpreted operators
    def f_sel(self, x, i):
        i = self.intof(i)
        if isinstance(x, list):
            if not 0 <= i < len(x):
                raise Skip('index')
            return x[i]
        if isinstance(x, Tok):
            if i < 0 or not (x.n[0] == 'o' and x.n[1] not in self.sized or isinstance(x.n[0], str) and x.n[0].startswith('m:') and x.n[0] not in self.sized) and i >= self.lenof(x):
                raise Skip('index')
            return self.item(x, i)
        raise Skip('sel')

    def f_len(self, x):
        return Fraction(self.lenof(x))

    def f_rows(self, x):
        if isinstance(x, Tok):
            return Fraction(self.dim(x.n, 'rows'))
        return x.f[0]

    def f_cols(self, x):
        if isinstance(x, Tok):
            return Fraction(self.dim(x.n, 'cols'))
        return x.f[1]

    def f_data(self, x):
        if isinstance(x, Tok):
            return [Tok(('el', ('data', x.n), i)) if self.h('pool', x.n) % 2 else Tok(('el', self.h('el', x.n, i) % 5))
                    for i in range(self.dim(x.n, 'rows') * self.dim(x.n, 'cols'))]
        return x.f[2]

    def f_fld(self, i, x):
        if isinstance(x, Agg):
            return x.f[int(i)]
        if isinstance(x, Tok):
            return Tok(('fld', int(i), x.n))
        raise Skip('fld')

    def f_as(self, i, x):
        return x

    def f_store(self, x, i, v):
        x = list(self.seq(x))
        i = self.intof(i)
        if not 0 <= i < len(x):
            raise Skip('index')
        x[i] = v
        return x

    def f_swap(self, x, i, j):
        x = list(self.seq(x))
        i, j = self.intof(i), self.intof(j)
        if not (0 <= i < len(x) and 0 <= j < len(x)):
            raise Skip('index')
        x[i], x[j] = x[j], x[i]
        return x

    def f_swaprows(self, d, w, a, b):
        d = list(self.seq(d))
        w, a, b = self.intof(w), self.intof(a), self.intof(b)
        for k in range(w):
            if max(a, b) * w + k >= len(d) or min(a, b) < 0:
                raise Skip('index')
            d[a * w + k], d[b * w + k] = d[b * w + k], d[a * w + k]
        return d

    def f_push(self, x, v):
        return list(self.seq(x)) + [v]

    def f_cat(self, x, y):
        return list(self.seq(x)) + list(self.seq(y))

    def f_exp(self, x):
        x = self.numof(x)
        if x == 0:
            return Fraction(1)
        if abs(x) > 690:
            raise Skip('exp')
        return mpmath.exp(MP(x))

    def f_ln(self, x):
        x = self.numof(x)
        if x <= 0:
            raise Skip('ln')
        return Fraction(0) if x == 1 else mpmath.log(MP(x))

    def f_abs(self, x):
        return abs(self.numof(x))

    def f_pi(self):
        return +mpmath.pi

    def f_idiv(self, a, b):
        a, b = self.intof(a), self.intof(b)
        if b <= 0 or a < 0:
            raise Skip('idiv')
        return Fraction(a // b)

    def f_pow(self, a, b):
        a, b = self.numof(a), self.numof(b)
        return self.pw(a, Fraction(b)) if isinstance(b, Fraction) and (b.denominator == 1 and abs(b) < 40) else self.fpow(a, b)

    def fpow(self, a, b):
        if a <= 0:
            raise Skip('pow')
        try:
            return MP(a) ** MP(b)
        except OverflowError:
            raise Skip('overflow')

    def f_trunc(self, a):
        a = self.numof(a)
        if isinstance(a, mpf) and abs(a - mpmath.nint(a)) < TIE:
            raise Skip('tie')
        return Fraction(int(a))

    def rounded(self, a, f):
        a = self.numof(a)
        if isinstance(a, mpf):
            if abs(a - mpmath.nint(a)) < TIE or abs(2 * a - mpmath.nint(2 * a)) < TIE:
                raise Skip('tie')
            if abs(a) > 1e15:
                raise Skip('large')
            a = Fraction(int(mpmath.floor(a))) + Fraction(1, 3) if f is not half_up else Fraction(int(mpmath.nint(a)))
        return Fraction(f(a))

    def f_floor(self, a):
        return self.rounded(a, math.floor)

    def f_ceil(self, a):
        return self.rounded(a, math.ceil)

    def f_round(self, a):
        return self.rounded(a, half_up)

    def f_fract(self, a):
        a = self.numof(a)
        if isinstance(a, mpf):
            return a - int(a)
        return a - int(a)

    def trig(self, f, a):
        r = f(MP(self.numof(a)))
        if not isinstance(r, mpf):
            raise Skip('not real')
        return r

    def f_sin(self, a):
        return self.trig(mpmath.sin, a)

    def f_cos(self, a):
        return self.trig(mpmath.cos, a)

    def f_tan(self, a):
        return self.trig(mpmath.tan, a)

    def f_atan(self, a):
        return self.trig(mpmath.atan, a)

    def f_asin(self, a):
        return self.trig(mpmath.asin, a)

    def f_acos(self, a):
        return self.trig(mpmath.acos, a)

    def f_eq(self, a, b):
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.tag == b.tag and all(self.f_eq(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, list) or isinstance(b, list):
            a, b = self.seq(a), self.seq(b)
            return len(a) == len(b) and all(self.f_eq(x, y) for x, y in zip(a, b))
        if isnum(a) or isnum(b):
            return self.numof(a) == self.numof(b)
        if isinstance(a, Tok) and isinstance(b, Tok):
            return a.n == b.n or self.numof(a) == self.numof(b)
        return self.key(a) == self.key(b)

    def f_draw(self, src, n, kind, *a):
        k = kind.n[1] if isinstance(kind, Tok) else kind
        h = self.h('draw', self.key(src), self.key(n), k)
        if k == 'range':
            lo, hi = self.intof(a[0]), self.intof(a[1])
            if hi <= lo:
                raise Skip('empty range')
            return Fraction(lo + h % (hi - lo))
        if k == 'unit':
            return Fraction(h % 97, 97)
        return Tok(('draw', self.key(src), self.key(n), k) + tuple(self.key(x) for x in a))

    # matrices
    def mat(self, x):
        """rows, cols, list of numbers"""
        if isinstance(x, Tok):
            x = Agg(MT, [self.f_rows(x), self.f_cols(x), self.f_data(x)])
        if not (isinstance(x, Agg) and x.tag == MT):
            raise Skip('no matrix')
        r, c, d = self.intof(x.f[0]), self.intof(x.f[1]), self.seq(x.f[2])
        if len(d) != r * c:
            raise Skip('shape')
        return r, c, [self.numof(y) for y in d]

    def f_transpose(self, x):
        r, c, d = self.mat(x)
        return Agg(MT, [Fraction(c), Fraction(r), [d[i * c + j] for j in range(c) for i in range(r)]])

    def f_matmul(self, a, b):
        r, c, d = self.mat(a)
        r2, c2, e = self.mat(b)
        if c != r2:
            raise Skip('shape')
        return Agg(MT, [Fraction(r), Fraction(c2), [self.total(times(d[i * c + k], e[k * c2 + j]) for k in range(c)) for i in range(r) for j in range(c2)]])

    def total(self, xs):
        r = Fraction(0)
        for x in xs:
            r = plus(r, x)
        return r

    def gauss(self, n, a, rhs):
        """rhs columns solved against the n x n matrix a (rows)"""
        a = [list(r) + list(s) for r, s in zip(a, rhs)]
        for i in range(n):
            p = max(range(i, n), key=lambda k: MP(abs(a[k][i])))
            if MP(abs(a[p][i])) < TIE or a[p][i] == 0:
                raise Skip('singular')
            a[i], a[p] = a[p], a[i]
            for k in range(n):
                if k != i and a[k][i] != 0:
                    f = MP(a[k][i]) / MP(a[i][i]) if isinstance(a[k][i], mpf) or isinstance(a[i][i], mpf) else a[k][i] / a[i][i]
                    a[k] = [plus(x, times(-f, y)) for x, y in zip(a[k], a[i])]
        return [[(MP(x) / MP(r[i]) if isinstance(x, mpf) or isinstance(r[i], mpf) else x / r[i]) for x in r[n:]] for i, r in enumerate(a)]

    def square(self, m):
        r, c, d = self.mat(m)
        if r != c:
            raise Skip('shape')
        return r, [d[i * c:(i + 1) * c] for i in range(r)]

    def f_inverse(self, m):
        n, a = self.square(m)
        x = self.gauss(n, a, [[Fraction(int(i == j)) for j in range(n)] for i in range(n)])
        return Agg(MT, [Fraction(n), Fraction(n), [y for r in x for y in r]])

    def f_solve(self, m, y):
        n, a = self.square(m)
        y = [self.numof(v) for v in self.seq(y)]
        if len(y) != n:
            raise Skip('shape')
        return [r[0] for r in self.gauss(n, a, [[v] for v in y])]

    def tri(self, m, y, low):
        n, a = self.square(m)
        return self.f_solve(Agg(MT, [Fraction(n), Fraction(n), [a[i][j] if (j <= i if low else j >= i) else Fraction(0) for i in range(n) for j in range(n)]]), y)

    def f_solve_l_triangular(self, m, y):
        return self.tri(m, y, True)

    def f_solve_u_triangular(self, m, y):
        return self.tri(m, y, False)

    def f_singular(self, *a):
        return self.h('fails', *[self.key(x) for x in a]) % 4 == 0

    f_solve_l_triangular_fails = f_solve_u_triangular_fails = f_cholesky_fails = f_svd_fails = f_eig_fails = f_singular

    def f_svd_v(self, m):
        r, c, d = self.mat(m)
        k = min(r, c)
        return Agg(MT, [Fraction(c), Fraction(k), [Fraction(self.h('svd', i, *[self.key(x) for x in d]) % 19 - 9, 4) for i in range(c * k)]])

    def f_lu(self, m):
        return m

    def f_det(self, m):
        n, a = self.square(m)
        if n > 3:
            raise Skip('det')

        def det(a):
            if not a:
                return Fraction(1)
            return self.total(times(times(Fraction((-1) ** j), a[0][j]), det([r[:j] + r[j + 1:] for r in a[1:]])) for j in range(len(a)))
        return det(a)

    def f_fminpos(self):
        return Fraction(1, 2 ** 1022)

    def f_feps(self):
        return Fraction(1, 2 ** 52)

    def f_fmax(self):
        return Fraction(2) ** 1023

    # ------------------------------------------------------------ comparison
    def same(self, a, b):
        pa, pb = isinstance(a, Tok) and a.n == ('panic',), isinstance(b, Tok) and b.n == ('panic',)
        if pa or pb:
            return pa and pb
        if isnum(a) or isnum(b):
            a, b = self.numof(a), self.numof(b)
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                return a == b
            a, b = MP(a), MP(b)
            m = max(abs(a), abs(b))
            if m > BIG or m and m < 1 / BIG:
                raise Skip('beyond the range of doubles')
            return abs(a - b) <= m * mpf(10) ** -9 or m < mpf(10) ** -50
        if isinstance(a, bool) or isinstance(b, bool):
            return self.truth(a) == self.truth(b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.tag == b.tag and len(a.f) == len(b.f) and all(self.same(x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, Agg) and a.tag == ('adt', 'Matrix', 0, 'Matrix') and isinstance(b, Tok):
            b = Agg(a.tag, [self.f_rows(b), self.f_cols(b), self.f_data(b)])
            return self.same(a, b)
        if isinstance(b, Agg) and b.tag == ('adt', 'Matrix', 0, 'Matrix') and isinstance(a, Tok):
            return self.same(b, a)
        if isinstance(a, list) or isinstance(b, list):
            a, b = self.seq(a), self.seq(b)
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Tok) and isinstance(b, Tok):
            return a.n == b.n
        if callable(a) and callable(b):
            return all(self.same(a(Fraction(i)), b(Fraction(i))) for i in range(3))
        return False


def constants(*ts):
    """constants that differences are compared with"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'mdd' and x.a[0].op == 'cmp' and x.a[0].a[0].op == 'rat':
                n, d = x.a[0].a[0].a
                for m, c in n:
                    if m == () and len(n) > 1:
                        k = max(abs(q) for o, q in n if o != ())
                        out.add(abs(c / k))
    return tuple(sorted(out))[:12]


def thresholds(*ts):
    """{symbol: values around which a comparison of the terms changes}"""
    out = {}
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x.op != 'mdd' or x.a[0].op != 'cmp' or x.a[0] in seen:
                continue
            seen.add(x.a[0])
            p = x.a[0].a[0]
            n, d = to_poly(p)
            for s in free(p):
                if s.op != 'sym' or s.a[1] not in ('f', 'u'):
                    continue
                if s.a[1] == 'f' and free(p) == frozenset([s]):
                    for r in roots(p, s):
                        out.setdefault(s, set()).update((r, r + Fraction(1, 64), r - Fraction(1, 64), r + 1, r - 1))
                # p linear in s with a constant rest
                try:
                    p0 = subst(p, {s: ZERO})
                    p1 = sub(subst(p, {s: ONE}), p0)
                except Exception:
                    continue
                if p0.op == 'num' and p1.op == 'num' and p1.a[0] != 0:
                    r = -p0.a[0] / p1.a[0]
                    if r != 0:
                        out.setdefault(s, set()).update((r, r + 1, r - 1, r + Fraction(1, 16), r - Fraction(1, 16), 2 * r, -r, 3 * r + 1))
                        if s.a[1] == 'u':
                            out[s] |= {Fraction(int(r)) + k for k in (-1, 0, 1, 2)}
    return {s: sorted(v) for s, v in out.items()}


GRID = sorted(set(Fraction(x) * k for x in ('0', '1/100', '1/10', '1/2', '1', '2', '3', '5', '8', '12', '17', '25', '40', '70', '150', '400') for k in (1, -1)))


def roots(p, s):
    """places where p changes sign, as fractions close to both sides"""
    def val(x):
        try:
            return Val(0, over={s: x}).numof(Val(0, over={s: x}).ev(p, {}))
        except Skip:
            return None
    vs = [(x, val(x)) for x in GRID]
    out = []
    for (x, a), (y, b) in zip(vs, vs[1:]):
        if a is None or b is None or (a < 0) == (b < 0):
            continue
        for _ in range(40):
            m = (x + y) / 2
            v = val(m)
            if v is None:
                break
            if (v < 0) == (a < 0):
                x = m
            else:
                y = m
        out += [Fraction(x).limit_denominator(2 ** 20) - Fraction(1, 2 ** 12), Fraction(y).limit_denominator(2 ** 20) + Fraction(1, 2 ** 12)]
    return out[:24]


def distinguish(a, b, pre=None, seed=1, tries=300, pos=(), overs=(None,), want=None):
    """(valuation, value of a, value of b) on which a and b differ, or None.  `pre`: condition
    under which they are compared.  Returns also how many valuations were informative."""
    used = 0
    special = thresholds(a, b)
    near = constants(a, b)
    # names whose own length is looked at; the others only name the elements of a sequence of given length
    sized = set()
    for t in (a, b) + ((pre,) if pre is not None else ()):
        for x in subterms(t):
            if x.op == 'app' and x.a[0] != 'sel':
                sized.update(y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == 'sym')
                if x.a[0] == 'len':
                    sized.update(y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == 'app')
            elif x.op == 'agg':
                sized.update(y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == 'sym')
    ieee = any(x.op == 'app' and x.a[0] in ('is_nan', 'is_infinite') for t in (a, b) for x in subterms(t))
    long = met = 0
    zero = []
    for i in range(tries * 12):
        if met >= tries:
            break
        sizes = (0, 1, 2, 3) if i % 4 == 0 else (1, 2, 3) if i % 4 == 1 else (2, 3, 4)
        if long > 2 and i % 4:
            sizes = ((2, 2, 1), (1, 2), (2, 3, 1), (2, 3))[i % 5 % 4]
        few = i % 7 == 3            # numbers that often coincide, all lengths the same
        if few:
            sizes = (2 + i % 3,)
        v = Val((seed, i), sizes=sizes, pos=pos, over=overs[i % len(overs)], special=special)
        v.sized = sized
        v.ieee = ieee and i % 3 == 1
        v.near = near if i % 3 == 2 else ()
        v.few = few
        try:
            if pre is not None and v.ev(pre, {}) is not True:
                continue
            met += 1
            x, y = v.ev(a, {}), v.ev(b, {})
            eq = v.same(x, y)
        except Skip as e:
            long += v.left < 0
            if str(e) in ('division by zero', 'ln', 'root of a negative number'):
                # a is no number there: is b?
                try:
                    y = v.ev(b, {})
                    v.same(y, y)
                    zero.append((dict(v.log), 'no number (%s)' % e, y))
                except (Skip, RecursionError):
                    pass
            continue
        except RecursionError:
            continue
        used += 1
        if not eq:
            return (dict(v.log), x, y), used
    if len(zero) >= 20 and len(zero) >= 5 * used:
        return zero[0], used       # practically everywhere
    return None, used
