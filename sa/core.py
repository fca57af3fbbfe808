"""Obligations, verdicts, known findings and evidence."""
import json, os, signal, sys, time, traceback
from .build import VERIF, REPO, BuildError
from . import facts, vg, terms as T, ri, models  # noqa

sys.setrecursionlimit(200000)

PROVED, UNDECIDED, VIOLATED, KNOWN = 'proved', 'undecided', 'violated', 'known-finding'


class Ob(object):
    def __init__(self, key, status, rule, where='', detail=''):
        self.key, self.status, self.rule, self.where, self.detail = key, status, rule, where, detail

    def json(self):
        d = {'obligation': self.key, 'status': self.status, 'rule': self.rule}
        if self.where:
            d['where'] = self.where
        if self.detail and self.status != PROVED:
            d['detail'] = self.detail[:1500]
        return d


class TimeUp(BaseException):
    """the time for one comparison is over"""


def within(seconds, f):
    """f(), or TimeUp"""
    def ring(*a):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Missing(Exception):
    """an anchor is not there or cannot be analysed: the obligation is already recorded"""


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.F = facts.load()
        self.obs = []
        self.covered = {}
        self.cache = {}
        self.known = set()          # uninterpreted calls the property declares
        self.stats = {'call_sites': 0, 'paths': 0}
        self.budget = 20.0 if tier == 'quick' else 120.0
        self.t0 = time.time()
        self.total = 420.0 if tier == 'quick' else 780.0      # after that what is left stays undecided

    # ---------------------------------------------------------- recording
    def where(self, b, line=None):
        if b is None or not b.get('sp'):
            return ''
        return '%s:%s in %s' % (os.path.relpath(b['sp'][0], REPO), line or b['sp'][1], b['id'])

    def add(self, key, status, rule, b=None, detail='', line=None):
        self.obs.append(Ob(key, status, rule, self.where(b, line), detail))
        return status

    def see(self, b):
        self.covered[b['id']] = 1

    # ---------------------------------------------------------- anchors
    def fn(self, path):
        b = self.F.body(path)
        if b is None:
            self.add('anchor ' + path, VIOLATED, 'the public item this property is anchored at exists', detail='no function %s' % path)
            raise Missing()
        return self.check_body(b, path)

    def method(self, self_path, name, trait=None, opt=False):
        bs = self.F.method(self_path, name, trait)
        if not bs:
            if opt:
                return None
            self.add('anchor %s::%s' % (self_path, name), VIOLATED, 'the public item this property is anchored at exists', detail='no method')
            raise Missing()
        return self.check_body(bs[0], '%s::%s' % (self_path, name))

    def check_body(self, b, key):
        if 'blocks' not in b:
            self.add('body ' + key, UNDECIDED, 'the body type-checks against the dependency stand-ins', b, 'no intermediate representation')
            raise Missing()
        self.see(b)
        return b

    # ---------------------------------------------------------- value graph
    def ref(self, name, args, **kw):
        """value graph of a reference algorithm of specs/lib.rs"""
        if 'specs' not in self.cache:
            self.cache['specs'] = facts.specs()
        return self.run(self.cache['specs'].bodies[name], args=args, F=self.cache['specs'], **kw)

    def run(self, b, **kw):
        """the value graph of b, or None"""
        try:
            bud = self.left(kw.pop('budget', self.budget))
            op = kw.pop('opaque', ())
            F = kw.pop('F', self.F)
            r = within(bud * 2, lambda: vg.Session(F, bud, op).run(b, **kw))
        except TimeUp:
            self.err = 'gave up: out of time'
            return None
        except (vg.Budget, T.Undecided, RecursionError) as e:
            self.err = 'gave up: %s %s' % (type(e).__name__, e)
            return None
        except Exception as e:
            self.err = 'internal: %s %s' % (type(e).__name__, ' | '.join(traceback.format_exc(limit=-3).splitlines()[-4:]))
            return None
        for x in getattr(r.ev, 'visited', ()) if F is self.F else ():
            self.covered[x] = 1
        return r

    def left(self, most):
        return max(1.0, min(most, self.total - (time.time() - self.t0)))

    def same(self, key, rule, b, got, specs, pre=None, pos=(), overs=(None,), tries=400, detail='', env=None):
        """got equals one of specs wherever pre holds"""
        if not isinstance(specs, (list, tuple)):
            specs = [specs]
        if got is None:
            return self.add(key, UNDECIDED, rule, b, getattr(self, 'err', 'not analysed'))
        if nothing(got, pre) and not all(nothing(s, pre) for s in specs):
            return self.add(key, UNDECIDED, rule, b, 'no value where the property speaks')
        why = ''
        for s in specs:
            try:
                g = got
                d = within(self.left(self.budget * 2 if s is specs[0] else self.budget / 2), lambda: T.equal(got, s, env.copy() if env is not None else None, pre=pre))
            except (T.Undecided, RecursionError, TimeUp) as e:
                d = ((), got, s)
            except Exception as e:
                d = ((), got, s)
                why = 'internal: %r' % (e,)
            if d is None:
                if not T.unknowns(g):
                    return self.add(key, PROVED, rule, b)
                why = 'unmodelled part'
        open_ = set(s.a[0] for s in T.subterms(got) if s.op == 'app' and isinstance(s.a[0], str) and s.a[0].startswith('m:')) - self.known
        if open_ and not any(s.op == 'app' and isinstance(s.a[0], str) and s.a[0].startswith('m:') for w in specs for s in T.subterms(w)):
            return self.add(key, UNDECIDED, rule, b, 'calls on an unknown type: %s' % sorted(open_))
        # refutation: some valuation of the free symbols tells got from every accepted form
        cex = None
        for n, s in enumerate(specs):
            try:
                c, used = within(self.left(self.budget * 3), lambda: ri.distinguish(got, s, pre, self.seed, tries, pos, overs))
            except (Exception, TimeUp) as e:
                return self.add(key, UNDECIDED, rule, b, 'normal forms differ; no valuation: %r' % (e,))
            if c is None:
                return self.add(key, UNDECIDED, rule, b, '%s normal forms differ but no valuation tells them apart (%d informative)' % (why, used))
            cex = cex or c
        va = ', '.join('%s=%s' % (k, v) for k, v in sorted(cex[0].items())[:12])
        return self.add(key, VIOLATED, rule, b, '%s\n  derived:  %s\n  required: %s\n  they differ e.g. at %s: %s against %s' % (
            detail, T.show(got)[:500], T.show(specs[0])[:500], va, str(cex[1])[:300], str(cex[2])[:300]))


def nothing(t, pre):
    """t, or a part of it, is undefined wherever pre holds"""
    if t.op == 'agg':
        return any(nothing(x, pre) for x in t.a[1:] if isinstance(x, T.T))
    if t.op == 'mdd' and any(x is T.UNDEF for x in vg.leaves(t)):
        try:
            t = T.prune(t, T.implied(pre, T.Env()))
        except T.Undecided:
            return False
        return all(x is T.UNDEF for x in vg.leaves(t))
    return t is T.UNDEF


# -------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                _, prop, key, what = [x.strip() for x in l.split('|')] if False else parse(l)
                out[(prop, key)] = what
    return out


def parse(l):
    """finding: property=<id> key=<<exact obligation key>> <what fails>"""
    r = l[len('finding: '):]
    prop = r.split()[0].split('=')[1]
    key = r[r.index('key=<<') + 6:r.index('>>')]
    return None, prop, key, r[r.index('>>') + 2:].strip()


def finish(ctx, t0, info):
    prop = ctx.prop
    kf = known_findings()
    viol, known = [], []
    for o in ctx.obs:
        if o.status == VIOLATED:
            if (prop, o.key) in kf:
                o.status = KNOWN
                known.append(o)
            else:
                viol.append(o)
    n = len(ctx.obs)
    proved = sum(o.status == PROVED for o in ctx.obs)
    und = [o for o in ctx.obs if o.status == UNDECIDED]
    ev = {'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': info['level'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'assumptions': info.get('assumptions', []),
          'coverage': {'obligations': n, 'discharged': proved, 'undecided': len(und), 'known_findings': len(known),
                       'checker_cmd': 'bash /verif/check.sh %s %s' % (prop, ctx.tier),
                       'trusted_base': info.get('trusted', TRUSTED),
                       'explanation': info.get('explanation', ''),
                       'functions_analysed': sorted(ctx.covered),
                       'function_count': len(ctx.covered),
                       'counts': {k: v for k, v in ctx.stats.items() if v},
                       'rules': sorted(set(o.rule for o in ctx.obs)),
                       'samples': [o.json() for o in ctx.obs]}}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d proved, %d undecided, %d known, %d violated; %d functions; %.1f s' % (prop, n, proved, len(und), len(known), len(viol), len(ctx.covered), time.time() - t0))
    for o in und:
        print('  undecided: %s [%s] %s' % (o.key, o.where, o.detail[:300]))
    for o in known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o.key, kf[(prop, o.key)]))
    if viol:
        p = os.path.join(d, prop + '.violation.txt')
        with open(p, 'w') as f:
            for o in viol:
                s = '%s\n  rule: %s\n  at: %s\n  %s\n' % (o.key, o.rule, o.where, o.detail)
                f.write(s)
                print(s, end='')
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    return 0


TRUSTED = ['rustc (type checking, MIR)', '/verif/driver (MIR export)', '/verif/stubs (signatures of the dependencies)',
           '/verif/sa/models.py (meaning of library functions)', '/verif/sa/vg.py and /verif/sa/terms.py (value graph, normal forms)',
           'floating point read as real arithmetic']
