"""Strings and regular expressions: the contract of the regex crate for patterns without look-around, translated to z3's sequence theory.

For a pattern the verifier can read (a sequence of items: fragments, capture groups, optional sequences), `captures(s)` is described by
  match(s)  <=>  s is in the pattern's language
  match(s)   =>  s is the concatenation of the texts of the items, a group's text being what `name`/`get` returns for it
Case-insensitive and other flags, alternations around groups and repeated groups are refused (Unsupported)."""
import re._parser as P
import re._constants as C
import unicodedata, sys
import z3

class NoRegex(Exception): pass
_nd = []
def nd_ranges():
    if not _nd:
        cur = None
        for c in range(0x30000):
            if unicodedata.category(chr(c)) == 'Nd':
                if cur and cur[1] == c - 1: cur[1] = c
                else: cur = [c, c]; _nd.append(cur)
    return _nd
def ch(c): return z3.StringVal(chr(c)) if 32 <= c < 127 and chr(c) != '\\' else z3.StringVal('\\u{%x}' % c)
def rng(a, b): return z3.Range(ch(a), ch(b))
ANYC = lambda: z3.AllChar(z3.ReSort(z3.StringSort()))
def union(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)
def concat(rs):
    rs = list(rs)
    if not rs: return z3.Re('')
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)
def cat(c):
    if c is C.CATEGORY_DIGIT: return union(rng(a, b) for a, b in nd_ranges())
    if c is C.CATEGORY_NOT_DIGIT: return z3.Intersect(ANYC(), z3.Complement(cat(C.CATEGORY_DIGIT)))
    raise NoRegex('character class')
def lang(items):
    """z3 regular expression of a parsed sequence"""
    out = []
    for op, a in items:
        if op is C.LITERAL: out.append(z3.Re(ch(a)))
        elif op is C.ANY: out.append(z3.Intersect(ANYC(), z3.Complement(z3.Re(ch(10)))))
        elif op is C.IN:
            neg = a and a[0][0] is C.NEGATE
            r = union((z3.Re(ch(x)) if o is C.LITERAL else rng(*x) if o is C.RANGE else cat(x) if o is C.CATEGORY else bad(o)) for o, x in (a[1:] if neg else a))
            out.append(z3.Intersect(ANYC(), z3.Complement(r)) if neg else r)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, b = a; r = lang(b)
            if hi is C.MAXREPEAT: out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1): out.append(z3.Option(r))
            else: out.append(z3.Loop(r, lo, hi))
        elif op is C.SUBPATTERN:
            if a[1] or a[2]: raise NoRegex('flags')
            out.append(lang(a[3]))
        elif op is C.BRANCH: out.append(union(lang(b) for b in a[1]))
        else: bad(op)
    return concat(out)
def bad(o): raise NoRegex(str(o))
def has_group(items):
    for op, a in items:
        if op is C.SUBPATTERN and (a[0] is not None or has_group(a[3])): return True
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(a[2]): return True
        if op is C.BRANCH and any(has_group(b) for b in a[1]): return True
    return False
class Regex:
    def __init__(self, pat):
        """items: ('frag', re) | ('group', number, re, inner items or None) | ('opt', items)"""
        try: t = P.parse(pat.replace('(?<', '(?P<'))
        except Exception as e: raise NoRegex(str(e))
        if t.state.flags & ~32: raise NoRegex('flags')
        self.names = dict(t.state.groupdict); self.n = t.state.groups - 1
        it = list(t)
        self.start = bool(it) and it[0] == (C.AT, C.AT_BEGINNING)
        if self.start: it = it[1:]
        self.end = bool(it) and it[-1] == (C.AT, C.AT_END)
        if self.end: it = it[:-1]
        self.items = self.split(it)
        if not (self.start and self.end): raise NoRegex('not anchored')
        full = ([] if self.start else [z3.Full(z3.ReSort(z3.StringSort()))]) + [lang(it)] + ([] if self.end else [z3.Full(z3.ReSort(z3.StringSort()))])
        self.re = concat(full)
        self.mandatory = set()
        def walk(items, opt):
            for x in items:
                if x[0] == 'group':
                    if not opt: self.mandatory.add(x[1])
                    if x[3]: walk(x[3], opt)
                elif x[0] == 'opt': walk(x[1], True)
        walk(self.items, False)
    def split(self, it):
        out = []; frag = []
        def flush():
            if frag: out.append(('frag', lang(list(frag)), ''.join(map(chr, (a for o, a in frag))) if all(o is C.LITERAL and 32 <= a < 127 and a != 92 for o, a in frag) else None)); frag.clear()
        for op, a in it:
            if op is C.SUBPATTERN and (a[0] is not None or has_group(a[3])):
                if a[1] or a[2]: raise NoRegex('flags')
                flush()
                inner = self.split(list(a[3])) if has_group(a[3]) else None
                if a[0] is not None: out.append(('group', a[0], lang(a[3]), inner))
                else: out += inner
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and has_group(a[2]):
                if (a[0], a[1]) != (0, 1): raise NoRegex('repeated group')
                flush(); out.append(('opt', self.split(list(a[2]))))
            elif op is C.BRANCH and has_group([(op, a)]): raise NoRegex('alternation around a group')
            else: frag.append((op, a))
        flush()
        return out
    def group(self, g):
        if isinstance(g, str): return self.names.get(g)
        return g if 0 <= g <= self.n else None
_rx = {}
def regex(pat):
    if pat not in _rx: _rx[pat] = Regex(pat)
    return _rx[pat]
def facts(rx, s, m, grp, has, uid):
    """z3 facts about captures(s): m = match flag, grp(n) / has(n) = text and presence of group n"""
    out = [z3.Or(m, z3.Not(z3.InRe(s, rx.re)))]        # the converse follows from the texts of the items below
    cnt = [0]
    def piece(kind):
        cnt[0] += 1; return z3.Const(f're_{kind}_{uid}_{cnt[0]}', z3.StringSort() if kind != 'b' else z3.BoolSort())
    def walk(items, live):
        parts = []
        for x in items:
            if x[0] == 'frag':
                if x[2] is not None: parts.append(z3.StringVal(x[2])); continue
                p = piece('p'); out.append(z3.Implies(live, z3.InRe(p, x[1]))); parts.append(p)
            elif x[0] == 'group':
                g = grp(x[1]); out.append(has(x[1]) == live); parts.append(g)
                if not x[3]: out.append(z3.Implies(live, z3.InRe(g, x[2])))
                else: out.append(z3.Implies(live, g == cat(walk(x[3], live))))
            else:
                b = z3.And(live, piece('b')); p = piece('p')
                q = walk(x[1], b)
                out.append(p == z3.If(b, cat(q), z3.StringVal(''))); parts.append(p)
        return parts
    def cat(ps): return z3.StringVal('') if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)
    ps = walk(rx.items, m)
    if not rx.start: ps = [piece('p')] + ps
    if not rx.end: ps = ps + [piece('p')]
    out.append(z3.Implies(m, s == cat(ps)))
    g0 = grp(0)
    if rx.start and rx.end: out.append(z3.Implies(m, g0 == s))
    return out
