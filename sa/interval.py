"""Interval analysis of scalar floating-point functions on MIR, with a NaN flag.

Values are numbered (a value computed twice from the same operands gets one number) and
carry the product they stand for, so squares are known to be non-negative.  +,-,*,/ and
sqrt are monotone and correctly rounded, so their end points are exact; other library
functions are widened by a few ulps.  Acyclic functions only; conditions on numbered
values refine their intervals."""
import math, struct
from .facts import op_s

INF = float('inf')
MAX = 1.7976931348623157e308


class GiveUp(Exception):
    pass


def up(x, n=4):
    for _ in range(n):
        x = math.nextafter(x, INF)
    return x


def dn(x, n=4):
    for _ in range(n):
        x = math.nextafter(x, -INF)
    return x


class I(object):
    """interval; lo > hi: no number at all; nan: may be NaN"""
    __slots__ = ('lo', 'hi', 'nan')

    def __init__(self, lo, hi, nan=False):
        self.lo, self.hi, self.nan = lo, hi, nan

    @property
    def empty(self):
        return self.lo > self.hi

    def __repr__(self):
        return ('[%.6g, %.6g]' % (self.lo, self.hi) if not self.empty else 'none') + (' or NaN' if self.nan else '')


NONE = I(1.0, 0.0, True)
TOP = I(-INF, INF, True)


def hull(xs, nan):
    xs = [x for x in xs if x == x]
    if not xs:
        return I(1.0, 0.0, nan)
    return I(min(xs), max(xs), nan)


def has(a, x):
    return not a.empty and a.lo <= x <= a.hi


def inf(a):
    return not a.empty and (a.lo == -INF or a.hi == INF)


def fadd(a, b):
    if a.empty or b.empty:
        return NONE
    nan = a.nan or b.nan or (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if lo != lo:
        if a.lo == a.hi and b.lo == b.hi:
            return NONE
        lo = -INF
    if hi != hi:
        if a.lo == a.hi and b.lo == b.hi:
            return NONE
        hi = INF
    return I(lo, hi, nan)


def fneg(a):
    return I(-a.hi, -a.lo, a.nan) if not a.empty else a


def fmul(a, b):
    if a.empty or b.empty:
        return NONE
    nan = a.nan or b.nan or (has(a, 0.0) and inf(b)) or (has(b, 0.0) and inf(a))
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            p = x * y
            if p != p:
                # zero times an infinite end point: the products close to it
                if a.lo != a.hi or b.lo != b.hi:
                    ps.append(0.0)
                    if not (a.lo == a.hi == 0.0 or b.lo == b.hi == 0.0):
                        s = (1 if (y if x == 0 else x) > 0 else -1)
                        o = a if x == 0 else b
                        if o.hi > 0:
                            ps.append(s * INF)
                        if o.lo < 0:
                            ps.append(-s * INF)
            else:
                ps.append(p)
    return hull(ps, nan)


def fdiv(a, b):
    if a.empty or b.empty:
        return NONE
    nan = a.nan or b.nan or (has(a, 0.0) and has(b, 0.0)) or (inf(a) and inf(b))
    if has(b, 0.0):
        if b.lo == b.hi == 0.0:
            if a.lo == a.hi == 0.0:
                return NONE
            return I(-INF, INF, nan)
        if b.lo == 0.0 and a.lo >= 0:          # sign of zero: taken as either
            return I(dquo(a.lo, b.hi), INF, nan) if True else None
        if b.lo == 0.0 and a.hi <= 0:
            return I(-INF, dquo(a.hi, b.hi), nan)
        return I(-INF, INF, nan)
    if a.lo == a.hi and b.lo == b.hi and abs(a.lo) == INF and abs(b.lo) == INF:
        return NONE
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            if abs(x) == INF and abs(y) == INF:
                ps += [0.0, (1 if (x > 0) == (y > 0) else -1) * INF]
            elif abs(y) == INF:
                ps.append(0.0)
            else:
                ps.append(x / y)
    if inf(a) and inf(b) and a.lo == a.hi and b.lo == b.hi:
        return NONE
    return hull(ps, nan)


def dquo(x, y):
    if abs(y) == INF:
        return 0.0
    return x / y


def mono(f, a, lo=-INF, hi=INF):
    if a.empty:
        return NONE
    l, h = f(a.lo), f(a.hi)
    l = max(lo, dn(l)) if abs(l) != INF else l
    h = min(hi, up(h)) if abs(h) != INF else h
    return I(l, h, a.nan)


def e_exp(x):
    if x == -INF or x < -746:
        return 0.0
    if x > 709.9:
        return INF
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def e_ln(x):
    return -INF if x == 0 else INF if x == INF else math.log(x)


def f_sqrt(a):
    if a.empty or a.hi < 0:
        return NONE
    return I(math.sqrt(max(a.lo, 0.0)), math.sqrt(a.hi) if a.hi != INF else INF, a.nan or a.lo < 0)


def f_ln(a, f=e_ln):
    if a.empty or a.hi < 0:
        return NONE
    r = mono(f, I(max(a.lo, 0.0), a.hi, a.nan))
    if a.lo <= 0:
        r.lo = -INF
    r.nan = r.nan or a.lo < 0
    if a.lo >= 1:
        r.lo = max(r.lo, 0.0)
    if a.hi <= 1:
        r.hi = min(r.hi, 0.0)
    return r


def f_abs(a):
    if a.empty:
        return a
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return fneg(a)
    return I(0.0, max(-a.lo, a.hi), a.nan)


def signum(a):
    if a.empty:
        return NONE
    if a.lo > 0:
        return I(1.0, 1.0, a.nan)
    if a.hi < 0:
        return I(-1.0, -1.0, a.nan)
    return I(-1.0, 1.0, a.nan)


def minmax(a, b, mx):
    if a.empty and b.empty:
        return NONE
    f = max if mx else min
    if a.empty:
        return I(b.lo, b.hi, b.nan)
    if b.empty:
        return I(a.lo, a.hi, a.nan)
    lo, hi = f(a.lo, b.lo), f(a.hi, b.hi)
    if a.nan:
        lo, hi = min(lo, b.lo), max(hi, b.hi)
    if b.nan:
        lo, hi = min(lo, a.lo), max(hi, a.hi)
    return I(lo, hi, a.nan and b.nan)


def f_exp(a):
    r = mono(e_exp, a, lo=0.0)
    if not a.empty and a.hi <= 0:
        r.hi = min(r.hi, 1.0)
    if not a.empty and a.hi < -746:
        r.hi = 0.0
    if not a.empty and a.lo >= 0:
        r.lo = max(r.lo, 1.0)
    return r


FUN = {'exp': f_exp, 'ln': f_ln, 'sqrt': f_sqrt, 'abs': f_abs, 'signum': signum,
       'tanh': lambda a: mono(math.tanh, a, -1.0, 1.0), 'log10': lambda a: f_ln(a, lambda x: e_ln(x) / math.log(10)), 'log2': lambda a: f_ln(a, lambda x: e_ln(x) / math.log(2)),
       'exp_m1': lambda a: mono(lambda x: INF if x > 709.9 else math.expm1(x), a, lo=-1.0),
       'atan': lambda a: mono(math.atan, a, -1.5707963267948968, 1.5707963267948968),
       'sinh': lambda a: mono(lambda x: math.copysign(INF, x) if abs(x) > 710.5 else math.sinh(x), a),
       'recip': lambda a: fdiv(I(1.0, 1.0), a), 'neg': fneg,
       'cosh': lambda a: NONE if a.empty else I(dn(1.0), INF, a.nan) if a.lo <= 0 <= a.hi else mono(lambda x: INF if x > 710.5 else math.cosh(x), f_abs(a), lo=1.0),
       'floor': lambda a: mono(math.floor_ if False else (lambda x: x if abs(x) == INF else float(math.floor(x))), a), 'cbrt': lambda a: mono(lambda x: math.copysign(abs(x) ** (1 / 3.), x) if abs(x) != INF else x, a)}


def ln_1p(a):
    if a.empty or a.hi < -1:
        return NONE
    r = mono(lambda x: -INF if x == -1 else INF if x == INF else math.log1p(x), I(max(a.lo, -1.0), a.hi, a.nan))
    r.nan = r.nan or a.lo < -1
    return r


FUN['ln_1p'] = ln_1p


def f_atanh(a):
    if a.empty or a.hi < -1 or a.lo > 1:
        return NONE
    r = mono(lambda x: -INF if x <= -1 else INF if x >= 1 else math.atanh(x), I(max(a.lo, -1.0), min(a.hi, 1.0), a.nan))
    r.nan = a.nan or a.lo < -1 or a.hi > 1
    return r


FUN['atanh'] = f_atanh


class Num(object):
    """a numbered float value"""
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class Run(object):
    def __init__(self, F):
        self.F = F
        self.keys = {}
        self.paths = 0
        self.seen = set()

    def number(self, key):
        if key not in self.keys:
            self.keys[key] = len(self.keys) + 1
        return self.keys[key]

    def val(self, key, iv, tab, mono=None):
        i = self.number(key)
        if i not in tab:
            tab[i] = (iv, mono or (1, ((i, 1),)))
        return Num(i)

    def const(self, x, tab):
        return self.val(('const', struct.pack('<d', x)), I(x, x) if x == x else NONE, tab, (1 if x >= 0 else -1, ()))

    def mulmono(self, a, b, s):
        d = dict(a[1])
        for i, e in b[1]:
            d[i] = d.get(i, 0) + s * e
        return (a[0] * b[0], tuple(sorted((i, e) for i, e in d.items() if e)))

    def signof(self, m, tab):
        s = m[0]
        for i, e in m[1]:
            if e % 2 == 0:
                continue
            iv = tab[i][0]
            if iv.empty:
                return 0
            if iv.lo >= 0:
                continue
            if iv.hi <= 0:
                s = -s
                continue
            return 0
        return s

    # ------------------------------------------------------------ execution over intervals
    def call(self, b, args, tab, depth=0):
        """[(value, table)] of the returning paths; a panicking path returns nothing"""
        if 'blocks' not in b or depth > 12:
            raise GiveUp('no body %s' % b.get('id'))
        self.seen.add(b['id'])
        L = {}
        for i, a in enumerate(args):
            L[i + 1] = a
        return self.block(b, 0, L, tab, depth, frozenset())

    def block(self, b, n, L, tab, depth, visited):
        F = self.F
        while True:
            if n in visited:
                raise GiveUp('loop')
            visited = visited | {n}
            bl = b['blocks'][n]
            for s in bl['ss']:
                if s['s'] == '=':
                    self.write(L, s['p'], self.rvalue(b, s['v'], L, tab))
                elif s['s'] not in ('nop', 'live', 'dead', 'storage'):
                    pass
            t = bl['tm']
            k = t['t']
            if k == 'goto' or k == 'drop':
                n = t['to']
                continue
            if k == 'return':
                self.paths += 1
                if self.paths > 400:
                    raise GiveUp('paths')
                return [(L.get(0), tab)]
            if k == 'unreachable':
                return []
            if k == 'assert':
                n = t['to']
                continue
            if k == 'switch':
                d = self.op(b, t['d'], L, tab)
                out = []
                done = False
                targets = [(int(v), to) for v, to in t['c']] + [(None, t['o'])]
                if isinstance(d, (int, bool)):
                    for v, to in targets:
                        if v is None or v == int(d):
                            return out + self.block(b, to, L, tab, depth, visited)
                if isinstance(d, tuple) and d[0] == 'cmp':
                    vals = [v for v, _ in targets if v is not None]
                    for v, to in targets:
                        want = (v != 0) if v is not None else (True if 0 in vals else False)
                        t2 = self.refine(d, want, tab)
                        if t2 is not None:
                            out += self.block(b, to, dict(L), t2, depth, visited)
                    return out
                raise GiveUp('switch')
            if k == 'call':
                rs = self.invoke(b, t, L, tab, depth)
                if t['to'] is None:
                    return []
                if len(rs) == 1:
                    v, tab = rs[0]
                    self.write(L, t['d'], v)
                    n = t['to']
                    continue
                out = []
                for v, t2 in rs:
                    L2 = dict(L)
                    self.write(L2, t['d'], v)
                    out += self.block(b, t['to'], L2, dict(t2), depth, visited)
                return out
            raise GiveUp(k)

    def write(self, L, p, v):
        if len(p) == 1:
            L[p[0]] = v
            return
        o = L.get(p[0])
        e = p[1]
        if e[0] == 'f' and len(p) == 2 and isinstance(o, list):
            o = list(o)
            o[e[1]] = v
            L[p[0]] = o
            return
        raise GiveUp('write')

    def read(self, L, p):
        v = L.get(p[0])
        for e in p[1:]:
            if e[0] == 'd':
                continue
            if e[0] == 'f' and isinstance(v, list):
                v = v[e[1]]
                continue
            raise GiveUp('read')
        if v is None:
            raise GiveUp('unset')
        return v

    def op(self, b, o, L, tab):
        if 'cp' in o:
            return self.read(L, o['cp'])
        if 'mv' in o:
            return self.read(L, o['mv'])
        c = o['c']
        if c['k'] == 's':
            v = c['v']
            if isinstance(v, dict) and 'f' in v:
                x = struct.unpack('<d', struct.pack('<Q', int(v['b'])))[0]
                return self.const(x, tab)
            if isinstance(v, bool):
                return v
            if isinstance(v, int) or (isinstance(v, str) and v.lstrip('-').isdigit()):
                return int(v)
        if c['k'] == 'fn':
            return ('fn', c)
        return ('other', str(c)[:40])

    def iv(self, v, tab):
        if isinstance(v, Num):
            return tab[v.id][0]
        raise GiveUp('no float')

    def arith(self, op, x, y, tab):
        a, b_ = self.iv(x, tab), self.iv(y, tab)
        ids = (x.id, y.id)
        if op in ('Add', 'Mul') and ids[0] > ids[1]:
            ids = (ids[1], ids[0])
        m = None
        if op == 'Add':
            r = fadd(a, b_)
        elif op == 'Sub':
            r = fadd(a, fneg(b_))
            if x.id == y.id and not inf(a) and not a.nan:
                r = I(0.0, 0.0)
        elif op in ('Mul', 'Div'):
            r = fmul(a, b_) if op == 'Mul' else fdiv(a, b_)
            if x.id == y.id and op == 'Mul' and not a.empty:
                r = fmul(f_abs(a), f_abs(a))
                r.nan = a.nan
            m = self.mulmono(tab[x.id][1], tab[y.id][1], 1 if op == 'Mul' else -1)
            s = self.signof(m, tab)
            if not r.empty and s:
                r = I(max(r.lo, 0.0), r.hi, r.nan) if s > 0 else I(r.lo, min(r.hi, 0.0), r.nan)
        else:
            raise GiveUp(op)
        return self.val((op,) + ids, r, tab, m)

    def rvalue(self, b, r, L, tab):
        k = r['r']
        if k == 'use':
            return self.op(b, r['o'], L, tab)
        if k in ('ref', 'rawptr'):
            return self.read(L, r['p'])
        if k == 'bin':
            x, y = self.op(b, r['a'], L, tab), self.op(b, r['b'], L, tab)
            if isinstance(x, Num) and isinstance(y, Num):
                if r['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    return ('cmp', r['op'], x, y, True)
                return self.arith(r['op'], x, y, tab)
            raise GiveUp('integers')
        if k == 'un':
            x = self.op(b, r['a'], L, tab)
            if r['op'] == 'Neg' and isinstance(x, Num):
                m = tab[x.id][1]
                return self.val(('Neg', x.id), fneg(self.iv(x, tab)), tab, (-m[0], m[1]))
            if r['op'] == 'Not':
                if isinstance(x, tuple) and x[0] == 'cmp':
                    return x[:4] + (not x[4],)
                if isinstance(x, bool):
                    return not x
            raise GiveUp('un')
        if k == 'agg':
            return [self.op(b, o, L, tab) for o in r['os']]
        if k == 'cast':
            v = self.op(b, r['o'], L, tab)
            if isinstance(v, int) and self.F.tys(r['t']) == 'f64':
                return self.const(float(v), tab)
            if isinstance(v, Num) and self.F.tys(r['t']) == 'f64':
                return v
            raise GiveUp('cast')
        raise GiveUp(k)

    def refine(self, c, want, tab):
        """the table where comparison c has the given outcome, None if impossible"""
        _, op, x, y, pol = c
        want = want == pol
        a, b_ = self.iv(x, tab), self.iv(y, tab)
        nan = a.nan or b_.nan
        if not want:
            # the negation; a NaN operand makes every comparison but Ne false
            if op == 'Ne':
                op, can_nan = 'Eq', False
            else:
                op, can_nan = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne'}[op], True
        else:
            can_nan = op == 'Ne'
        t2 = dict(tab)
        if a.empty or b_.empty:
            return t2 if can_nan else None
        na, nb = a, b_
        if op in ('Lt', 'Le'):
            na, nb = I(a.lo, min(a.hi, b_.hi), a.nan and can_nan), I(max(b_.lo, a.lo), b_.hi, b_.nan and can_nan)
        elif op in ('Gt', 'Ge'):
            na, nb = I(max(a.lo, b_.lo), a.hi, a.nan and can_nan), I(b_.lo, min(b_.hi, a.hi), b_.nan and can_nan)
        elif op == 'Eq':
            na = nb = I(max(a.lo, b_.lo), min(a.hi, b_.hi), False)
        imp = na.empty or nb.empty or (op in ('Lt', 'Gt') and a.lo == a.hi == b_.lo == b_.hi) or (op == 'Ne' and a.lo == a.hi == b_.lo == b_.hi) or \
            (op == 'Lt' and not a.lo < b_.hi) or (op == 'Gt' and not a.hi > b_.lo)
        if imp:
            return t2 if (can_nan and nan) else None
        if op != 'Ne':
            t2[x.id] = (na, tab[x.id][1])
            t2[y.id] = (nb, tab[y.id][1])
        return t2

    def invoke(self, b, t, L, tab, depth):
        F = self.F
        f = t['f'].get('c')
        if not f or f['k'] != 'fn':
            raise GiveUp('indirect call')
        if t['to'] is None:
            return [(None, tab)]
        args = [self.op(b, a, L, tab) for a in t['a']]
        p = f['res'] or f['p']
        body = F.body(p)
        nm = f['name']
        if body is not None and 'blocks' in body:
            return self.call(body, args, tab, depth + 1)
        if args and all(isinstance(a, Num) for a in args):
            ivs = [self.iv(a, tab) for a in args]
            key = (nm,) + tuple(a.id for a in args)
            if len(args) == 1 and nm in FUN:
                m = None
                if nm == 'neg':
                    m0 = tab[args[0].id][1]
                    m = (-m0[0], m0[1])
                return [(self.val(key, FUN[nm](ivs[0]), tab, m), tab)]
            if nm in ('add', 'sub', 'mul', 'div') and len(args) == 2:
                return [(self.arith(nm.capitalize(), args[0], args[1], tab), tab)]
            if nm in ('max', 'min') and len(args) == 2:
                return [(self.val(key, minmax(ivs[0], ivs[1], nm == 'max'), tab), tab)]
            if nm == 'mul_add':
                return [(self.arith('Add', self.arith('Mul', args[0], args[1], tab), args[2], tab), tab)]
            if nm == 'clone':
                return [(args[0], tab)]
        if len(args) == 2 and nm == 'powi' and isinstance(args[0], Num) and isinstance(args[1], int) and 0 < args[1] < 8:
            r = args[0]
            for _ in range(args[1] - 1):
                r = self.arith('Mul', r, args[0], tab)
            return [(r, tab)]
        if nm in ('powf', 'pow') and len(args) == 2 and isinstance(args[1], Num):
            e = self.iv(args[1], tab)
            if e.lo == e.hi == 2.0:
                return [(self.arith('Mul', args[0], args[0], tab), tab)]
        if nm == 'clone' and len(args) == 1:
            return [(args[0], tab)]
        raise GiveUp('call %s' % p)


def analyse(F, b, mkargs):
    """[(interval)] joined over the paths.  mkargs(run, tab) -> arguments"""
    r = Run(F)
    tab = {}
    args = mkargs(r, tab)
    outs = []
    for v, t in r.call(b, args, tab):
        outs.append(r.iv(v, t))
    return outs, r.seen


EDGES = [0.0, 5e-324, 1e-300, 1e-154, 1e-16, 1e-3, 0.1, 0.5, 0.999, 1.0, 2.0, 5.0, 18.0, 37.0, 100.0, 355.0, 700.0, 709.0, 710.0, 746.0, 1e3, 1e8, 1e100, 1e154, 1.4e154, 1e200, 1e300, MAX]


def boxes(lo, hi):
    e = sorted(set([-x for x in EDGES] + EDGES))
    e = [x for x in e if lo < x < hi]
    e = [lo] + e + [hi]
    return [(x, y) for x, y in zip(e, e[1:])]
