"""Loads the MIR dump: types as tuples, CFG analyses (RPO, loops, liveness)."""
import json, re

def T_(j):
    if j is None: return None
    k = j['k']
    if k in ('bool', 'char', 'str', 'never'): return (k,)
    if k in ('int', 'float', 'param'): return (k, j['n'])
    if k == 'adt': return ('adt', j['p'], tuple(T_(a) for a in j['a']))
    if k == 'ref': return ('ref', j['m'], T_(j['t']))
    if k == 'ptr': return ('ptr', j['m'], T_(j['t']))
    if k == 'tuple': return ('tuple', tuple(T_(a) for a in j['a']))
    if k == 'slice': return ('slice', T_(j['t']))
    if k == 'array': return ('array', T_(j['t']), T_(j['n']))
    if k == 'const': return ('const', j['v'])
    if k == 'closure': return ('closure', j['p'], tuple(T_(a) for a in j['up']), tuple(T_(a) for a in j['a']))
    if k == 'fndef':
        return ('fndef', j['p'], tuple(T_(a) for a in j['a']), j.get('trait'), j.get('name'), T_(j.get('self')), j.get('rp'), tuple(T_(a) for a in j.get('ra', [])) if 'ra' in j else None, j['local'])
    if k == 'alias': return ('alias', j['ak'], j['p'], tuple(T_(a) for a in j['a']), T_(j.get('h')))
    return ('other', j.get('d', str(j)))

def tsubst(t, env):
    if t is None or not env: return t
    k = t[0]
    if k == 'param': return env.get(t[1], t)
    if k in ('bool', 'char', 'str', 'never', 'int', 'float', 'const', 'other'): return t
    r = []
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in KINDS: r.append(tsubst(x, env))
        elif isinstance(x, tuple): r.append(tuple(tsubst(y, env) if isinstance(y, tuple) else y for y in x))
        else: r.append(x)
    return tuple(r)
KINDS = {'bool', 'char', 'str', 'never', 'int', 'float', 'param', 'adt', 'ref', 'ptr', 'tuple', 'slice', 'array', 'const', 'closure', 'fndef', 'alias', 'other'}

def strip(p):
    """drop generic argument lists `::<..>` from a path"""
    out = []; i = 0; n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0; i += 2
            while i < n:
                if p[i] == '<': d += 1
                elif p[i] == '>' and p[i-1] != '-':
                    d -= 1
                    if d == 0: i += 1; break
                i += 1
        else:
            out.append(p[i]); i += 1
    return ''.join(out)

class Body:
    def __init__(self, key, j):
        self.key = key; self.j = j
        self.nargs = j['nargs']; self.generics = j['generics']; self.local = j['local']; self.at = j['at']
        self.ltypes = [T_(t) for t in j['locals']]
        self.blocks = j['blocks']
        self.names = {n: l for l, n in j['names']}
        self.vis = j.get('vis', '')
        self.impl_self = T_(j.get('impl_self')); self.impl_trait = j.get('impl_trait'); self.name = j.get('name')
        self.promoted = [Body(f'{key}#p{i}', p) for i, p in enumerate(j.get('promoted', []))]
        self._an = False
    def succ(self, b):
        t = self.blocks[b]['te']
        k = t['t']
        if k in ('goto', 'drop', 'assert'): return [t['to']]
        if k == 'call': return [t['to']] if t['to'] is not None else []
        if k == 'switch': return [x[1] for x in t['v']] + [t['else']]
        return []
    def analyse(self):
        if self._an: return
        self._an = True
        # reachable + rpo
        seen = set(); post = []
        st = [(0, iter(self.succ(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ(s)))); break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]; self.num = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in seen}
        for b in seen:
            for s in self.succ(b): preds[s].append(b)
        # dominators
        dom = {b: None for b in seen}; dom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == 0: continue
                nd = None
                for p in preds[b]:
                    if dom[p] is None: continue
                    if nd is None: nd = p
                    else:
                        x, y = nd, p
                        while x != y:
                            while self.num[x] > self.num[y]: x = dom[x]
                            while self.num[y] > self.num[x]: y = dom[y]
                        nd = x
                if nd != dom[b]: dom[b] = nd; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = dom[b]
        self.loops = {}
        self.irreducible = False
        for b in seen:
            for s in self.succ(b):
                if self.num[s] <= self.num[b]:
                    if not dominates(s, b): self.irreducible = True; continue
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L: L.add(x); st.extend(preds[x])
        # liveness of locals at block starts (borrowed locals are live while initialised: treated as always live)
        borrowed = set()
        use = {}; de = {}
        def pl_use(p, u, d):
            if p['l'] not in d: u.add(p['l'])
            for e in p['p']:
                if e['e'] == 'index' and e['l'] not in d: u.add(e['l'])
        def op_use(o, u, d):
            if o['o'] in ('copy', 'move'): pl_use(o['pl'], u, d)
        for b in seen:
            u, d = set(), set()
            for s in self.blocks[b]['st']:
                if s['s'] == 'assign':
                    rv = s['rv']
                    for k in ('x', 'a', 'b'):
                        if k in rv:
                            for o in (rv[k] if isinstance(rv[k], list) else [rv[k]]): op_use(o, u, d)
                    if 'pl' in rv:
                        pl_use(rv['pl'], u, d)
                        if rv['r'] in ('ref', 'rawptr', 'reborrow') and rv.get('m') and not any(e['e'] == 'deref' for e in rv['pl']['p']): borrowed.add(rv['pl']['l'])
                    if s['pl']['p']: pl_use(s['pl'], u, d)
                    else: d.add(s['pl']['l'])
                elif s['s'] == 'setdiscr': pl_use(s['pl'], u, d)
            t = self.blocks[b]['te']
            if t['t'] == 'switch': op_use(t['x'], u, d)
            elif t['t'] == 'assert': op_use(t['c'], u, d)
            elif t['t'] == 'call':
                op_use(t['f'], u, d)
                for o in t['a']: op_use(o, u, d)
                if t['d']['p']: pl_use(t['d'], u, d)
                else: d.add(t['d']['l'])
            elif t['t'] == 'return': u.add(0)
            use[b] = u; de[b] = d
        live = {b: set() for b in seen}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ(b): o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live; self.borrowed = borrowed

class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.raw = d['fns']; self.adts = d['adts']
        self._b = {}
        self.bystrip = {}
        for k in self.raw: self.bystrip.setdefault(strip(k), k)
        self._af = {}
    def body(self, key):
        k = key if key in self.raw else self.bystrip.get(strip(key))
        if k is None: return None
        b = self._b.get(k)
        if b is None: b = self._b[k] = Body(k, self.raw[k])
        return b
    def adt(self, path):
        a = self._af.get(path)
        if a is None:
            j = self.adts.get(path)
            if j is None: return None
            a = {'kind': j['kind'], 'generics': j['generics'], 'deep': j['deep'], 'local': j['local'],
                 'variants': [{'name': v['name'], 'discr': v['discr'], 'fields': [(n, T_(t)) for n, t in v['fields']]} for v in j['variants']]}
            self._af[path] = a
        return a
