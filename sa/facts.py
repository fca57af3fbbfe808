"""Loads the extractor's facts and indexes them by public path."""
import json, re
from . import build


class Facts:
    def __init__(self, path):
        j = json.load(open(path))
        self.errors = j['errors']
        self.types = j['types']
        self.bodies = {}
        self.dup = []
        for b in j['bodies']:
            b['id'] = b['p']
            if b['p'] in self.bodies:           # e.g. two impls printing alike
                n = 2
                while '%s#%d' % (b['p'], n) in self.bodies:
                    n += 1
                b['id'] = '%s#%d' % (b['p'], n)
            self.bodies[b['id']] = b
        self.adts = {a['p']: a for a in j['adts']}
        self.impls = j['impls']
        # (self adt path, trait path, item name) -> [body path]
        self.trait_items = {}
        for im in self.impls:
            sp = self.adt_path(im['self'])
            for name, p in im['items']:
                self.trait_items.setdefault((sp, im['trait'], name), []).append(p)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def adt_path(self, i):
        t = self.types[i]
        while t['k'] in ('ref', 'ptr'):
            t = self.types[t['t']]
        if t['k'] == 'adt':
            return t['p']
        return t['s']

    def body(self, p):
        return self.bodies.get(p)

    def has_body(self, p):
        b = self.bodies.get(p)
        return b is not None and 'blocks' in b

    def method(self, self_path, name, trait=None):
        """bodies of `name` implemented for the ADT `self_path` (optionally by one trait,
        matched on its last path segment)"""
        out = []
        for b in self.bodies.values():
            if b['kind'] != 'method' or b['name'] != name or b['self'] is None:
                continue
            if self.adt_path(b['self']) != self_path:
                continue
            if trait is None and b['trait'] is not None:
                continue
            if trait is not None and (b['trait'] is None or b['trait'].split('::')[-1] != trait):
                continue
            out.append(b)
        return out

    def impl_takes_self(self, trait, name):
        """does the method `name` of the crate's trait take a receiver (judged on its bodies)"""
        for b in self.trait_methods(trait, name):
            if 'nargs' in b:
                if not b['nargs']:
                    return False
                return b['locals'][1]['n'] == 'self'
        return True

    def assoc_type(self, self_path, trait, name):
        for im in self.impls:
            if im['trait'] and im['trait'].split('::')[-1] == trait and self.adt_path(im['self']) == self_path:
                for n, t in im.get('assoc', ()):
                    if n == name:
                        return self.adt_path(t)

    def trait_methods(self, trait, name):
        return [b for b in self.bodies.values() if b['kind'] == 'method' and b['name'] == name and b['trait'] and b['trait'].split('::')[-1] == trait]


def load(repo=None):
    return Facts(build.facts_path(repo))


def specs():
    return Facts(build.specs_path())


# ---------------------------------------------------------------- printing
def place_s(b, p):
    s = '_%d' % p[0]
    n = b['locals'][p[0]]['n']
    if n:
        s += ':' + n
    for e in p[1:]:
        if e[0] == 'd':
            s = '(*' + s + ')'
        elif e[0] == 'f':
            s += '.' + (e[2] or str(e[1]))
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        elif e[0] == 'c':
            s += '[%s%d]' % ('-' if e[3] else '', e[1])
        elif e[0] == 'v':
            s += '@' + e[2]
        elif e[0] == 's':
            s += '[%d..%s%d]' % (e[1], '-' if e[3] else '', e[2])
        else:
            s += '.?'
    return s


def op_s(F, b, o):
    if 'cp' in o:
        return place_s(b, o['cp'])
    if 'mv' in o:
        return 'move ' + place_s(b, o['mv'])
    if 'c' in o:
        c = o['c']
        if c['k'] == 'fn':
            r = c['p']
            if c['res'] and c['res'] != c['p']:
                r += '=>' + c['res']
            return r + '<' + ','.join(F.tys(a) for a in c['a']) + '>'
        if c['k'] == 's':
            v = c['v']
            return str(v['f'] if isinstance(v, dict) else v) + ('{%s}' % c['n'] if c['n'] else '')
        if c['k'] == 'str':
            return json.dumps(c['v'])
        if c['k'] == 'promoted':
            return 'promoted[%d]' % c['i']
        return c.get('s', '?')
    return '?'


def rv_s(F, b, r):
    k = r['r']
    if k == 'use':
        return op_s(F, b, r['o'])
    if k in ('ref', 'rawptr'):
        return ('&mut ' if r['m'] else '&') + ('raw ' if k == 'rawptr' else '') + place_s(b, r['p'])
    if k == 'bin':
        return '%s(%s, %s)' % (r['op'], op_s(F, b, r['a']), op_s(F, b, r['b']))
    if k == 'un':
        return '%s(%s)' % (r['op'], op_s(F, b, r['a']))
    if k == 'cast':
        return '%s as %s (%s)' % (op_s(F, b, r['o']), F.tys(r['t']), r['k'])
    if k == 'discr':
        return 'discr(%s)' % place_s(b, r['p'])
    if k == 'agg':
        return '%s %s{%s}' % (r['k'], r.get('p', '') + ('::' + r['vn'] if r.get('en') else ''), ', '.join(op_s(F, b, o) for o in r['os']))
    if k == 'repeat':
        return '[%s; %s]' % (op_s(F, b, r['o']), r['n'])
    return json.dumps(r)


def dump(F, b):
    out = ['fn %s  nargs=%s' % (b['id'], b.get('nargs'))]
    if 'blocks' not in b:
        return out[0] + ' (no body)'
    for i, l in enumerate(b['locals']):
        out.append('  _%d: %s %s' % (i, F.tys(l['t']), l['n'] or ''))
    for i, bl in enumerate(b['blocks']):
        if bl['cl']:
            continue
        out.append(' bb%d:' % i)
        for s in bl['ss']:
            if s['s'] == '=':
                out.append('    %s = %s' % (place_s(b, s['p']), rv_s(F, b, s['v'])))
            else:
                out.append('    ' + json.dumps(s))
        t = bl['tm']
        if t['t'] == 'call':
            out.append('    %s = %s(%s) -> %s' % (place_s(b, t['d']), op_s(F, b, t['f']), ', '.join(op_s(F, b, a) for a in t['a']), t['to']))
        elif t['t'] == 'switch':
            out.append('    switch %s %s else %s' % (op_s(F, b, t['d']), t['c'], t['o']))
        elif t['t'] in ('goto', 'drop'):
            out.append('    %s -> %s' % (t['t'], t['to']))
        elif t['t'] == 'assert':
            out.append('    assert %s == %s (%s) -> %s' % (op_s(F, b, t['c']), t['e'], t['k'], t['to']))
        else:
            out.append('    ' + t['t'])
    return '\n'.join(out)


if __name__ == '__main__':
    import sys
    F = load()
    pat = sys.argv[1]
    for p, b in F.bodies.items():
        if re.search(pat, p):
            print(dump(F, b))
            for i, pr in enumerate(b.get('promoted', [])):
                print('promoted', i)
                q = dict(pr); q['id'] = p + '::promoted'
                print(dump(F, q))
