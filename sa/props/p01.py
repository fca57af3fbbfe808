import itertools, math
from fractions import Fraction
from ..terms import *
from ..core import *
from .. import ri, dist_enum

RU = 'learning::toolkit::rand_utils::'
INFO = {'level': 'proof',
        'explanation': 'The loops of the three sampling functions are summarised as folds over the symbolic length with their random draws as symbolic values; '
                       'the fold (range of every draw, index written, value written, number of rounds) is compared with the folds of the shuffles and of reservoir '
                       'sampling whose uniformity is a theorem. A fold of another shape is refuted by the exact distribution it has at lengths 0..4, computed from the derived term.'}
THR = None


def draws_of(t):
    return [x for x in subterms(t) if is_draw(x)]


def check(c):
    for nm in ('fisher_yates', 'in_place_fisher_yates'):
        try:
            b = c.fn(RU + nm)
        except Missing:
            continue
        r = c.run(b, names=['arr'])
        if r is None:
            c.add(nm, UNDECIDED, 'value graph', b, c.err)
            continue
        arr_ = sym('arr', 'o')
        got = r.final('arr') if nm.startswith('in_place') else r.ret
        n = length(arr_)
        rule = 'every ordering of the input has probability 1/n!'
        c.same(nm + ' never panics', 'no reachable panic', b, r.panic, FALSE)
        got = ite(r.panic, PANIC, got)
        perm(c, nm, b, got, arr_, n, rule)
        clobber(c, nm, b, r, ('arr',) if nm.startswith('in_place') else ())
    try:
        b = c.fn(RU + 'reservoir_sample')
    except Missing:
        return
    r = c.run(b, names=['pool', 'reservoir_size'])
    if r is None:
        c.add('reservoir_sample', UNDECIDED, 'value graph', b, c.err)
        return
    pool, k = sym('pool', 'o'), sym('reservoir_size', 'u')
    n = length(pool)
    le = cmpop('Le', k, n, False)
    c.same('reservoir_sample refuses a sample larger than the pool', 'panics exactly when the sample size exceeds the pool', b, r.panic, b_not(le))
    rule = 'every subset of the requested size is returned with equal probability, without repetition'
    got = ite(le, r.full(), UNDEF)
    res = match_reservoir(c, got, pool, k, n, le)
    if res:
        c.add('reservoir_sample is a uniform sample', PROVED, rule, b)
    else:
        bad = None
        try:
            for nn in range(0, 5):
                for kk in range(0, nn + 1):
                    p = [ri.Tok(('item', i)) for i in range(nn)]
                    o = dist_enum.outcomes(got, {pool: p, k: Fraction(kk)})
                    sets = {}
                    for out, pr in o.items():
                        if out == ('panic',) or out[0] != 'l' or len(out) != kk + 1 or len(set(out[1:])) != kk or not set(out[1:]) <= set(x.n for x in p):
                            bad = bad or 'pool of %d, sample of %d: result %s with probability %s' % (nn, kk, out, pr)
                            continue
                        sets[frozenset(out[1:])] = sets.get(frozenset(out[1:]), 0) + pr
                    nsub = sum(1 for _ in itertools.combinations(range(nn), kk))
                    if not bad and (len(sets) != nsub or any(q != Fraction(1, nsub) for q in sets.values())):
                        bad = 'pool of %d, sample of %d: subset probabilities %s' % (nn, kk, sorted(str(q) for q in sets.values()))
                    if bad:
                        break
                if bad:
                    break
            if bad:
                c.add('reservoir_sample is a uniform sample', VIOLATED, rule, b, 'derived %s\n  %s' % (show(got)[:500], bad))
            else:
                bad = larger(c, got, pool, k)
                if bad:
                    c.add('reservoir_sample is a uniform sample', VIOLATED, rule, b, 'derived %s\n  %s' % (show(got)[:500], bad))
                else:
                    c.add('reservoir_sample is a uniform sample', UNDECIDED, rule, b, 'no known sampling fold; uniform at lengths 0..4')
        except (ri.Skip, RecursionError) as e:
            c.add('reservoir_sample is a uniform sample', UNDECIDED, rule, b, 'no known sampling fold: %s' % e)
    clobber(c, 'reservoir_sample', b, r, ())


def larger(c, got, pool, k):
    fixed = dist_enum.fixed_choices(got)
    for nn in dist_enum.sizes(got):
        items = [ri.Tok(('item', i)) for i in range(nn)]
        for kk in sorted(set(x for x in (1, 2, nn // 2, nn - 2, nn - 1, nn) if 0 <= x <= nn)):
            for run in range(3):
                try:
                    o, p = dist_enum.path(got, {pool: items, k: Fraction(kk)}, (c.seed, nn, kk, run))
                except ri.Skip:
                    break
                if o == ('panic',) or len(o) != kk + 1 or len(set(o[1:])) != kk or not set(o[1:]) <= set(x.n for x in items):
                    return 'pool of %d, sample of %d: a result is no sample without repetition' % (nn, kk)
                if fixed and p % math.comb(nn, kk):
                    return 'pool of %d, sample of %d: the number of equally likely draw combinations is not divisible by the number of subsets' % (nn, kk)
    return None


def clobber(c, nm, b, r, outs):
    """nothing but the result (or the array given) is changed"""
    bad = [k for k in (r.S or {}) if k[0] == 'A' and k[1] not in outs]
    c.add(nm + ' changes nothing else', PROVED if not bad else VIOLATED, 'no other argument is written', b, str(bad))


def perm(c, nm, b, got, a, n, rule):
    key = nm + ' is a uniform permutation'
    for f in families(got, a, n):
        try:
            if equal(got, f) is None and not unknowns(got):
                c.add(key, PROVED, rule, b)
                return
        except Undecided:
            pass
    try:
        for nn in range(0, 5):
            items = [ri.Tok(('item', i)) for i in range(nn)]
            o = dist_enum.outcomes(got, {a: items})
            want = {('l',) + tuple(('item', i) for i in p): Fraction(1) for p in itertools.permutations(range(nn))}
            bad = [x for x in o if x not in want]
            if bad or any(o.get(w) != Fraction(1, len(want)) for w in want):
                c.add(key, VIOLATED, rule, b, 'derived %s\n  length %d: %s' % (show(got)[:500], nn,
                      'result %s is no ordering of the input' % (bad[0],) if bad else 'orderings have probabilities %s' % sorted(set(str(o.get(w, 0)) for w in want))))
                return
        fixed = dist_enum.fixed_choices(got)
        for nn in dist_enum.sizes(got):
            items = [ri.Tok(('item', i)) for i in range(nn)]
            for run in range(4):
                try:
                    o, p = dist_enum.path(got, {a: items}, (c.seed, nn, run))
                except ri.Skip:
                    break
                if o == ('panic',) or sorted(o[1:]) != sorted(x.n for x in items):
                    c.add(key, VIOLATED, rule, b, 'derived %s\n  length %d: a result is no ordering of the input' % (show(got)[:500], nn))
                    return
                if fixed and p % math.factorial(nn):
                    c.add(key, VIOLATED, rule, b, 'derived %s\n  length %d: %d! does not divide the number of equally likely draw combinations, so the orderings cannot be equally likely' % (show(got)[:500], nn, nn))
                    return
        c.add(key, UNDECIDED, rule, b, 'no known shuffle fold; uniform at lengths 0..4: %s' % show(got)[:300])
    except (ri.Skip, RecursionError) as e:
        c.add(key, UNDECIDED, rule, b, 'no known shuffle fold: %s' % e)


def D(src, cnt, lo, hi):
    return add(lo, mk('app', 'draw', src, cnt, mk('str', 'range'), ZERO, sub(hi, lo)))


def families(got, a, n):
    """the shuffles, with the generator and the first draw number of `got`"""
    ds = draws_of(got)
    if not ds:
        return
    srcs = set(d.a[1] for d in ds)
    if len(srcs) != 1:
        return
    src = srcs.pop()
    from ..vg import fold_
    i, s = fresh('i', 'u'), fresh('s')

    def F(rounds, step, init):
        return fold_(rounds, lam2(i, s, step), init)

    def swap(x, p, q):
        return store(store(x, p, sel(x, q)), q, sel(x, p))
    init_any = [x.a[3] for x in subterms(got) if x.op == 'app' and x.a[0] == 'fold' and x.a[3].op == 'arr' and length(x.a[3]) is n]
    up = D(src, i, i, n)                                  # draw in i..n
    for rounds in (n, sub(n, ONE)):
        # forward Durstenfeld
        yield F(rounds, swap(a, i, up) if False else swap(s, i, up), a)
        yield F(rounds, swap(s, up, i), a)
        # backward Durstenfeld: element n-1-i with one of 0..=n-1-i
        top = sub(sub(n, ONE), i)
        dn = D(src, i, ZERO, add(top, ONE))
        yield F(rounds, swap(s, top, dn), a)
        yield F(rounds, swap(s, dn, top), a)
    # inside-out
    j = D(src, i, ZERO, add(i, ONE))
    for ini in init_any + [a]:
        full = store(store(s, i, sel(s, j)), j, sel(a, i))
        yield F(n, ite(cmpop('Eq', i, j, False), store(s, j, sel(a, i)), full), ini)
        yield F(n, full, ini)
    # the same, in place from position 1
    j1 = D(src, i, ZERO, add(i, num(2)))
    i1 = add(i, ONE)
    yield ite(cmpop('Gt', n, ZERO, False), F(sub(n, ONE), swap(s, i1, j1), a), a)
    yield ite(cmpop('Gt', n, ZERO, False), F(sub(n, ONE), swap(s, j1, i1), a), a)


def match_reservoir(c, got, pool, k, n, le):
    ds = draws_of(got)
    if unknowns(got):
        return False
    srcs = set(d.a[1] for d in ds)
    if len(srcs) != 1:
        return False
    src = srcs.pop()
    from ..vg import fold_
    i, s, q = fresh('i', 'u'), fresh('s'), fresh('q', 'u')
    r = D(src, i, ZERO, add(add(k, i), ONE))
    x = sel(pool, add(k, i))
    cond = b_and(cmpop('Lt', r, k, False), cmpop('Eq', r, q, False))
    elem = arr(k, lam(q, fold_(sub(n, k), lam2(i, s, ite(cond, x, s)), sel(pool, q))))
    el2 = ite(cmpop('Lt', k, n, False), elem, arr(k, lam(q, sel(pool, q))))
    ini = arr(k, lam(q, sel(pool, q)))
    whole = fold_(sub(n, k), lam2(i, s, ite(cmpop('Lt', r, k, False), store(s, r, x), s)), ini)
    for f in (el2, elem, whole):
        try:
            if equal(got, ite(le, f, UNDEF)) is None:
                return True
        except Undecided:
            pass
    return False
