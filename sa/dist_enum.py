"""Exact outcome distribution of a derived term over its random draws, for concrete small
sizes: every combination of draw values is substituted into the term (the term, not the
program, is evaluated)."""
from fractions import Fraction
from . import ri


class TooMany(Exception):
    pass


class DVal(ri.Val):
    def __init__(self, script, over, seed=0):
        ri.Val.__init__(self, seed, over=over, steps=100000)
        self.script, self.pos_, self.seen, self.weight, self.widths = script, 0, {}, Fraction(1), []

    def f_draw(self, src, n, kind, *a):
        k = kind.n[1] if isinstance(kind, ri.Tok) else kind
        if k != 'range':
            raise ri.Skip('draw kind')
        key = (self.key(src), self.key(n))
        lo, hi = self.intof(a[0]), self.intof(a[1])
        if hi <= lo:
            return ri.Tok(('panic',))
        if key not in self.seen:
            i = len(self.seen)
            if i == len(self.script):
                self.script.append(0)
            self.widths.append(hi - lo)
            self.weight /= hi - lo
            self.seen[key] = (Fraction(lo + self.script[i]), lo, hi)
        v, l2, h2 = self.seen[key]
        if (l2, h2) != (lo, hi):
            raise ri.Skip('one draw with two ranges')
        return v


def outcomes(term, over, cap=4000, read=None):
    """{hashable outcome: probability} or raises ri.Skip"""
    out = {}
    script = []
    n = 0
    while True:
        n += 1
        if n > cap:
            raise ri.Skip('too many draw combinations')
        v = DVal(script, over)
        try:
            x = v.ev(term, {})
            if isinstance(x, list) and read:
                x = [read(v, y) for y in x]
            k = v.key(x)
        except ri.Skip as e:
            if str(e) != 'index':
                raise
            k = ('panic',)      # an element that is not there was asked for
        out[k] = out.get(k, 0) + v.weight
        script = v.script[:len(v.widths)]
        i = len(script) - 1
        while i >= 0 and script[i] + 1 >= v.widths[i]:
            i -= 1
        if i < 0:
            return out
        script = script[:i] + [script[i] + 1]


class RVal(DVal):
    """one pseudo-random path"""
    def __init__(self, seed, over):
        DVal.__init__(self, [], over, seed)
        self.left = 400000

    def size(self, n):
        n = self.intof(n)
        if n < 0 or n > 400:
            raise ri.Skip('size')
        return n

    def f_draw(self, src, n, kind, *a):
        k = kind.n[1] if isinstance(kind, ri.Tok) else kind
        if k == 'range' and (self.key(src), self.key(n)) not in self.seen:
            self.script.append(self.h('d', len(self.script)) % max(1, self.intof(a[1]) - self.intof(a[0])))
        return DVal.f_draw(self, src, n, kind, *a)


def path(term, over, seed):
    """(outcome, product of the numbers of choices) along one path"""
    v = RVal(seed, over)
    try:
        k = v.key(v.ev(term, {}))
    except ri.Skip as e:
        if str(e) != 'index':
            raise
        k = ('panic',)          # an element that is not there was asked for
    p = 1
    for w in v.widths:
        p *= w
    return k, p


def fixed_choices(term):
    """the number of choices of each draw, and the rounds, do not depend on other draws"""
    from . import terms as T
    for x in T.subterms(term):
        if x.op == 'app' and x.a[0] == 'draw':
            if not T.is_draw(x):
                return False
            for y in (x.a[2], x.a[4], x.a[5]):
                if y is not x.a[2] and any(z.op == 'app' and z.a[0] == 'draw' for z in T.subterms(y)):
                    return False
                # a count kept in a fold state may depend on draws
                if free_state(y):
                    return False
        if x.op == 'app' and x.a[0] in ('fold', 'foldn'):
            k = x.a[1 if x.a[0] == 'fold' else 2]
            if any(z.op == 'app' and z.a[0] == 'draw' for z in T.subterms(k)):
                return False
        if x.op == 'mdd':
            # a draw under a condition on draws would make the choices depend on them
            if any(z.op == 'app' and z.a[0] == 'draw' for z in T.subterms(x.a[0])) or free_state(x.a[0]):
                sets = [frozenset(z for z in T.subterms(b) if z.op == 'app' and z.a[0] == 'draw') - frozenset(z for z in T.subterms(x.a[0]) if z.op == 'app' and z.a[0] == 'draw') for b in x.a[1]]
                if any(sets):
                    return False
    return True


def free_state(t):
    """mentions the running value of an enclosing loop"""
    from . import terms as T
    if t.op in ('cmp', 'bool', 'disc'):
        t = t.a[0]
    return any(x.op == 'bv' and x.a[1] != 'u' for x in T.free(t))


def sizes(term):
    """lengths worth a look: small primes, and just past the constants of the term"""
    from . import terms as T
    out = {5, 6, 7, 11, 13}
    for x in T.subterms(term):
        cs = [x] if x.op == 'num' else [T.num(c) for p in x.a for m, c in p] if x.op == 'rat' else []
        for q in cs:
            v = abs(q.a[0])
            if v.denominator == 1 and 3 < v <= 256:
                v = int(v)
                out |= {v - 1, v, v + 1, v + 2}
                k = v + 1
                while not prime(k):
                    k += 1
                out.add(k)
                out.add(2 * v + 1)
    return sorted(x for x in out if 0 <= x <= 300)


def prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))
