"""Hash-consed term language of the verifier (locally nameless binders)."""
import sys
from fractions import Fraction
sys.setrecursionlimit(200000)

# ---------------------------------------------------------------- sorts
BOOL = ('Bool',); REAL = ('Real',); F64 = ('F64',); STR = ('Str',); PTR = ('Ptr',); FN = ('Fn',); ANY = ('Any',)
def INT(n=''): return ('Int', n)
IDX = ('Int', 'idx'); USIZE = ('Int', 'usize')
def U(n): return ('U', n)
def SEQ(e): return ('Seq', e)
def MAP(k, v): return ('Map', k, v)
def ADT(p, *a): return ('Adt', p, tuple(a))
MAXLEN = 2 ** 31 - 1025   # assumed bound on the length of every collection
RANGES = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'usize': (0, 2**64-1), 'u128': (0, 2**128-1),
          'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1),
          'idx': (0, MAXLEN), 'score10': (0, 1023), 'len': (0, MAXLEN), 'char': (0, 0x10ffff), 'nat': (0, None), '': (None, None)}

class T:
    __slots__ = ('op', 'args', 'attr', 'sort', 'id', 'fv', 'loose', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_tab = {}
_cnt = [0]
EMPTY = frozenset()
# op -> number of binders per argument (default all 0)
BIND = {'isum': (0, 1), 'fsum': (0, 1), 'rsum': (0, 1), 'all': (0, 1), 'first': (0, 1), 'mkseq': (0, 1), 'fseq': (0, 1, 1), 'flat': (0, 1),
        'mcomp': (0, 1), 'mofseq': (0, 1, 1), 'iter': (0, 0, 2), 'sortby': (0, 2), 'smax': (0, 1), 'smin': (0, 1), 'fsmax': (0, 1), 'fsmin': (0, 1),
        'rsmax': (0, 1), 'rsmin': (0, 1), 'mmerge': (0, 0, 0, 1), 'msel': (0, 1)}

def mk(op, args=(), attr=None, sort=None):
    key = (op, tuple(a.id for a in args), attr, sort)
    t = _tab.get(key)
    if t is not None: return t
    t = T.__new__(T)
    t.op = op; t.args = args; t.attr = attr; t.sort = sort
    _cnt[0] += 1
    t.id = _cnt[0]
    if op == 'sym': t.fv = frozenset((t,)); t.loose = 0
    elif op == 'bv': t.fv = EMPTY; t.loose = attr + 1
    else:
        fv = EMPTY; lo = 0
        b = BIND.get(op)
        for i, a in enumerate(args):
            if a.fv:
                fv = a.fv if not fv else (fv if a.fv <= fv else fv | a.fv)
            l = a.loose - (b[i] if b else 0)
            if l > lo: lo = l
        t.fv = fv; t.loose = lo
    _tab[key] = t
    return t

_symc = [0]
def sym(name, sort): return mk('sym', (), name, sort)
def fresh(prefix, sort):
    _symc[0] += 1
    return mk('sym', (), f"{prefix}!{_symc[0]}", sort)
def bv(i, sort): return mk('bv', (), i, sort)

TRUE = mk('c', (), True, BOOL); FALSE = mk('c', (), False, BOOL)
def B(b): return TRUE if b else FALSE
def I(n): return mk('c', (), int(n), INT())
def R(q):
    return mk('c', (), Fraction(q), REAL)
def FC(q): return mk('c', (), Fraction(q), F64)
NAN = mk('fspecial', (), 'nan', F64); PINF = mk('fspecial', (), 'inf', F64); NINF = mk('fspecial', (), '-inf', F64)
def S(x): return mk('s', (), x, STR)
ZERO = I(0); ONE = I(1)
UNDEF = mk('undef', (), None, ANY)
def isc(t): return t.op == 'c'

# ---------------------------------------------------------------- traversal
def subst(t, m):
    """replace symbols (terms of op sym) by terms without loose bound variables"""
    if not m: return t
    keys = frozenset(m)
    memo = {}
    def go(t):
        if not (t.fv & keys): return t
        if t.op == 'sym': return m.get(t, t)
        r = memo.get(t.id)
        if r is None:
            r = rebuild(t, tuple(go(a) for a in t.args)); memo[t.id] = r
        return r
    return go(t)

def replace(t, m):
    """replace arbitrary closed subterms (identity) by closed terms; does not enter subterms already replaced"""
    memo = {}
    fvk = None
    for k in m:
        fvk = k.fv if fvk is None else fvk & k.fv
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if not t.args: return t
        if fvk and not (fvk <= t.fv): return t
        r = memo.get(t.id)
        if r is None:
            a = tuple(go(x) for x in t.args)
            r = t if a == t.args else rebuild(t, a)
            memo[t.id] = r
        return r
    return go(t)

def abst(t, *syms):
    """abstract symbols: last symbol becomes bv(0)"""
    n = len(syms)
    idx = {s: n - 1 - i for i, s in enumerate(syms)}
    keys = frozenset(syms)
    memo = {}
    def go(t, d):
        if not (t.fv & keys): return t
        if t.op == 'sym': return bv(idx[t] + d, t.sort) if t in idx else t
        k = (t.id, d); r = memo.get(k)
        if r is None:
            b = BIND.get(t.op)
            r = rebuild(t, tuple(go(a, d + (b[i] if b else 0)) for i, a in enumerate(t.args))); memo[k] = r
        return r
    return go(t, 0)

def inst(body, *ts):
    """instantiate the outermost len(ts) loose variables: last of ts replaces bv(0)"""
    n = len(ts)
    memo = {}
    def go(t, d):
        if t.loose <= d: return t
        if t.op == 'bv':
            i = t.attr - d
            if i < 0: return t
            if i < n: return ts[n - 1 - i]
            return bv(t.attr - n, t.sort)
        k = (t.id, d); r = memo.get(k)
        if r is None:
            b = BIND.get(t.op)
            r = rebuild(t, tuple(go(a, d + (b[i] if b else 0)) for i, a in enumerate(t.args))); memo[k] = r
        return r
    return go(body, 0)

def opensym(body, sort=IDX, tag='i'):
    """deterministic fresh symbol for opening `body`"""
    n = 0
    for s in body.fv:
        if s.attr.startswith(f'\u03b9{tag}'):
            try: n = max(n, int(s.attr[2:]) + 1)
            except ValueError: pass
    return sym(f'\u03b9{tag}{n}', sort)

def subterms(t, acc=None):
    seen = set(); out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
        st.extend(x.args)
    return out

def contains(t, s):
    if not (s.fv <= t.fv): return False
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x is s: return True
        if x.id in seen or not (s.fv <= x.fv): continue
        seen.add(x.id); st.extend(x.args)
    return False

# ---------------------------------------------------------------- rebuild dispatch
def rebuild(t, args):
    f = CONS.get(t.op)
    if f is None: return mk(t.op, args, t.attr, t.sort)
    return f(t, args)

# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le' and a.args[0].sort[0] == 'Int': return le0(isub(ONE, a.args[0]))
    if a.op == 'and': return Or(*[Not(x) for x in a.args])
    if a.op == 'or': return And(*[Not(x) for x in a.args])
    if a.op == 'ite' : return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return mk('not', (a,), None, BOOL)

def _nary(op, xs, unit, zero):
    s = {}
    for x in xs:
        if x.op == op:
            for y in x.args: s[y.id] = y
        elif x is unit: continue
        elif x is zero: return zero
        else: s[x.id] = x
    for y in list(s.values()):
        if Not(y).id in s: return zero
    if not s: return unit
    if len(s) == 1: return next(iter(s.values()))
    # absorption / simplification of members under the others (one level)
    vals = list(s.values())
    other = 'or' if op == 'and' else 'and'
    out = []
    changed = False
    ids = set(s)
    for y in vals:
        if y.op == other:
            if any(z.id in ids for z in y.args): changed = True; continue    # absorption
            keep = [z for z in y.args if Not(z).id not in ids]
            if len(keep) != len(y.args):
                changed = True
                out.append((Or if op == 'and' else And)(*keep)); continue
        out.append(y)
    if changed: return _nary(op, out, unit, zero)
    vals.sort(key=lambda x: x.id)
    return mk(op, tuple(vals), None, BOOL)
def And(*xs): return _bounds(_nary('and', xs, TRUE, FALSE))
def Or(*xs): return _nary('or', xs, FALSE, TRUE)
def _bounds(t):
    """drop implied integer bounds in a conjunction; detect contradictions between them"""
    if t.op != 'and': return t
    les = {}; vs = {}
    for x in t.args:
        if x.op == 'varis':
            if vs.setdefault(x.args[0], x) is not x: return FALSE
    for x in t.args:
        if x.op == 'le' and x.args[0].sort[0] == 'Int':
            d = pdict(x.args[0]); c = d.get((), 0)
            k = tuple(sorted((m, q) for m, q in d.items() if m != ()))
            les.setdefault(k, []).append((c, x))
    drop = set()
    for k, v in les.items():
        if len(v) > 1:
            v.sort(key=lambda z: z[0])
            for c, x in v[:-1]: drop.add(x.id)
        neg = tuple(sorted((m, -q) for m, q in k))
        w = les.get(neg)
        if w:
            # p + c <= 0 and -p + c2 <= 0 : c2 <= p <= -c
            if max(z[0] for z in v) + max(z[0] for z in w) > 0: return FALSE
    if drop: return _nary('and', [x for x in t.args if x.id not in drop], TRUE, FALSE)
    return t
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return Eq(a, b)

def conj(t): return list(t.args) if t.op == 'and' else ([] if t is TRUE else [t])

def Eq(a, b):
    if a is b: return TRUE
    if a.op == 'ite' or b.op == 'ite':
        if a.op != 'ite': a, b = b, a
        # push equalities with constants/constructors into ite
        if leafy(a) and (b.op in ('c', 's', 'con')):
            return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
        if b.op == 'c':
            v = variant_chain(a, b)
            if v is not None: return v
    if a.op == 'mlen' and a.args[0].op == 'mofseq' and b is ONE and not a.loose:       # one key: the keys are the same
        m = a.args[0]; n = m.args[0]; k0 = inst(m.args[1], ZERO)
        return And(Lt(ZERO, n), All(n, lambda i: Eq(inst(m.args[1], i), k0)))
    s = a.sort[0]
    if s == 'Bool':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if Not(a) is b: return FALSE
    elif s in ('Int', 'Real'):
        d = psub(a, b)
        if isc(d): return B(d.attr == 0)
        lo, hi = rng(d) if s == 'Int' else (None, None)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return FALSE
        # canonical sign
        dd = pdict(d)
        lead = min(k for k in dd if k != ())
        if dd[lead] < 0: d = pneg(d)
        if s == 'Real':
            q = pdict(d)[min(k for k in dd if k != ())]
            d = pscale(d, Fraction(1) / q)
        return mk('eq0', (d,), None, BOOL)
    elif a.op == 'con' and b.op == 'con':
        if a.attr != b.attr: return FALSE
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    elif a.op == 's' and b.op == 's':
        return B(a.attr == b.attr)
    elif a.op == 'con' and b.op != 'ite' and b.sort[0] == 'Adt' and isstruct(a):
        return And(*[Eq(x, Fld(b, a.attr[1], i, x.sort)) for i, x in enumerate(a.args)])
    elif b.op == 'con' and a.op != 'ite' and a.sort[0] == 'Adt' and isstruct(b):
        return Eq(b, a)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), None, BOOL)

def variant_chain(t, k):
    """equality of a long chain 'variant 0: c0, variant 1: c1, ...' (the discriminant of an enumeration) with k"""
    x = None; r = None
    while t.op == 'ite' and t.args[0].op == 'varis' and t.args[1].op == 'c':
        if x is None: x = t.args[0].args[0]
        if t.args[0].args[0] is not x: return None
        if t.args[1] is k:
            if r is not None: return None
            r = t.args[0]
        t = t.args[2]
    return r if t.op == 'c' and t is not k else None
def leafy(t, depth=6):
    if t.op == 'ite': return depth > 0 and leafy(t.args[1], depth - 1) and leafy(t.args[2], depth - 1)
    return t.op in ('c', 's', 'con', 'undef')

STRUCTS = {'tuple', 'It', 'BufWriter', 'Stdout', 'std::fs::File', 'polars_core::series::Series', 'polars_core::frame::DataFrame', 'polars_io::csv::write::writer::CsvWriter', 'FmtArg'}
def isstruct(con):
    p = con.attr[0]
    return p in STRUCTS or p.startswith('closure:')

def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.op == 'undef': return b
    if b.op == 'undef': return a
    if c.op == 'not': return Ite(c.args[0], b, a)
    if c.op == 'ite' and c.args[1].op == 'c': 
        return Ite(c.args[0], Ite(c.args[1], a, b), Ite(c.args[2], a, b))
    if a.sort == BOOL:
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        if a is c: return Or(c, b)
        if b is c: return And(c, a)
    if a.op == 'ite' and a.args[0] is c: return Ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c: return Ite(c, a, b.args[2])
    if a.op == 'con' and b.op == 'con' and a.attr == b.attr and len(a.args) == len(b.args):
        return Con(a.attr, tuple(Ite(c, x, y) for x, y in zip(a.args, b.args)), a.sort)
    if a.op == 'con' and isstruct(a) and b.op not in ('con', 'ite') and b.sort[0] == 'Adt':
        return Con(a.attr, tuple(Ite(c, x, Fld(b, a.attr[1], i, x.sort)) for i, x in enumerate(a.args)), a.sort)
    if b.op == 'con' and isstruct(b) and a.op not in ('con', 'ite') and a.sort[0] == 'Adt':
        return Con(b.attr, tuple(Ite(c, Fld(a, b.attr[1], i, x.sort), x) for i, x in enumerate(b.args)), b.sort)
    if a.op == 'ite' and a.args[2] is b: return Ite(And(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b: return Ite(And(c, Not(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a: return Ite(Or(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a: return Ite(And(Not(c), b.args[0]), b.args[1], a)
    # prune with the condition
    if c.op != 'c':
        a2 = assume(a, c); b2 = assume(b, Not(c))
        if a2 is not a or b2 is not b: return Ite(c, a2, b2)
    if c.op in ('le',) and a.sort[0] == 'Int':
        # min/max recognition: c: p<=0
        d = psub(a, b)
        p = c.args[0]
        if p is d or p is psub(d, ONE) or p is padd(d, ONE) : return imin(a, b)
        nd = pneg(d)
        if p is nd or p is psub(nd, ONE) or p is padd(nd, ONE): return imax(a, b)
    if c.op in ('eq0', 'eq') and a.sort[0] in ('Int', 'Real'):
        pass
    return mk('ite', (c, a, b), None, a.sort if a.sort[0] != 'Any' else b.sort)

def other_variants(x, m):
    """a term is of one variant only"""
    if x.op == 'varis':
        for v in range(24):
            if v != x.attr:
                y = mk('varis', x.args, v, BOOL); m[y] = FALSE; m[Not(y)] = TRUE
def assume(t, c):
    """simplify t knowing c holds"""
    m = {}
    for x in conj(c):
        if x.loose or x.op == 'c': continue
        m[x] = TRUE
        n = Not(x)
        if n.op != 'and' and not n.loose: m[n] = FALSE
        other_variants(x, m)
        if x.op == 'le' and len(x.args) == 1 and x.args[0].op == 'poly' and x.args[0].sort[0] == 'Int' and dict(x.args[0].attr).get(()) == 1:      # q < 0
            q = isub(x.args[0], ONE)
            m.setdefault(Eq(q, ZERO), FALSE); m.setdefault(le0(q), TRUE)
    if c.op == 'or': m[c] = TRUE; m[Not(c)] = FALSE
    if not m or not t.args: return t
    # quick reject: none of the atoms occurs
    seen = set(); st = [t]; hit = False
    while st:
        x = st.pop()
        if x in m: hit = True; break
        if x.id in seen: continue
        seen.add(x.id); st.extend(x.args)
    if not hit: return t
    return replace(t, m)

# ---------------------------------------------------------------- polynomials (Int and Real)
_mono_atoms = {}
def pdict(t):
    """term -> {mono: coef}; mono = tuple of (atom id, exp) sorted"""
    if t.op == 'c': return {(): t.attr} if t.attr != 0 else {}
    if t.op == 'poly': return dict(t.attr)
    return {((t.id, 1),): (1 if t.sort[0] == 'Int' else Fraction(1))}
_byid = {}
def patoms(t):
    if t.op == 'c': return {}
    if t.op == 'poly': return {a.id: a for a in t.args}
    return {t.id: t}
def mkp(d, atoms, real):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return R(0) if real else ZERO
    if len(d) == 1:
        (k, v), = d.items()
        if k == (): return R(v) if real else I(v)
        if v == 1 and len(k) == 1 and k[0][1] == 1: return atoms[k[0][0]]
    used = sorted({i for k in d for i, _ in k})
    return mk('poly', tuple(atoms[i] for i in used), tuple(sorted(d.items())), REAL if real else INT())
def rebuild_poly(t, args):
    m = {a.id: x for a, x in zip(t.args, args)}
    real = t.sort[0] == 'Real'
    acc = {}; atoms = {}
    for k, v in t.attr:
        term = {(): v}
        ats = {}
        for i, e in k:
            x = m[i]; xd = pdict(x); ats.update(patoms(x))
            for _ in range(e): term = pmuld(term, xd)
        atoms.update(ats)
        for kk, vv in term.items(): acc[kk] = acc.get(kk, 0) + vv
    return mkp(acc, atoms, real)
def pmuld(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            if not k1: k = k2
            elif not k2: k = k1
            else:
                e = dict(k1)
                for i, x in k2: e[i] = e.get(i, 0) + x
                k = tuple(sorted(e.items()))
            r[k] = r.get(k, 0) + v1 * v2
    return r
def padd(a, b):
    d = pdict(a)
    for k, v in pdict(b).items(): d[k] = d.get(k, 0) + v
    at = dict(patoms(a)); at.update(patoms(b))
    return mkp(d, at, a.sort[0] == 'Real')
def psub(a, b):
    d = pdict(a)
    for k, v in pdict(b).items(): d[k] = d.get(k, 0) - v
    at = dict(patoms(a)); at.update(patoms(b))
    return mkp(d, at, a.sort[0] == 'Real')
def pscale(a, q): return mkp({k: v * q for k, v in pdict(a).items()}, patoms(a), a.sort[0] == 'Real')
def pneg(a): return pscale(a, -1)
def pmul(a, b):
    at = dict(patoms(a)); at.update(patoms(b))
    return mkp(pmuld(pdict(a), pdict(b)), at, a.sort[0] == 'Real')
iadd, isub, imul = padd, psub, pmul
def isumn(*xs):
    r = ZERO
    for x in xs: r = padd(r, x)
    return r

_rng = {}
def rng(t):
    r = _rng.get(t.id)
    if r is None:
        r = _rng0(t)
        ty = RANGES.get(t.sort[1] if len(t.sort) > 1 and isinstance(t.sort[1], str) else '', (None, None)) if t.sort[0] == 'Int' else (None, None)
        lo = r[0] if ty[0] is None else (ty[0] if r[0] is None else max(r[0], ty[0]))
        hi = r[1] if ty[1] is None else (ty[1] if r[1] is None else min(r[1], ty[1]))
        r = (lo, hi); _rng[t.id] = r
    return r
def _rng0(t):
    if t.op == 'c': return (t.attr, t.attr)
    if t.op == 'poly':
        lo = hi = 0
        at = {a.id: a for a in t.args}
        for k, v in t.attr:
            l, h = 1, 1
            for i, e in k:
                al, ah = rng(at[i])
                for _ in range(e):
                    l, h = _imuli((l, h), (al, ah))
            if v < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return (lo, hi)
    if t.op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if t.op == 'imin':
        rs = [rng(a) for a in t.args]
        return (None if any(r[0] is None for r in rs) else min(r[0] for r in rs), min([r[1] for r in rs if r[1] is not None], default=None))
    if t.op == 'imax':
        rs = [rng(a) for a in t.args]
        return (max([r[0] for r in rs if r[0] is not None], default=None), None if any(r[1] is None for r in rs) else max(r[1] for r in rs))
    if t.op in ('len', 'mlen'): return (0, MAXLEN)
    if t.op == 'first': return (0, rng(t.args[0])[1])
    if t.op == 'isum':
        n = rng(t.args[0]); b = rng(t.args[1])
        lo = 0 if b[0] is not None and b[0] >= 0 else None
        hi = None
        if b[1] is not None and n[1] is not None and b[1] >= 0: hi = b[1] * max(n[1], 0)
        if b[1] is not None and b[1] <= 0: hi = 0
        return (lo, hi)
    if t.op == 'imod':
        b = rng(t.args[1]); a = rng(t.args[0])
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0: return (0, None if b[1] is None else b[1] - 1)
    if t.op == 'idiv':
        a, b = rng(t.args[0]), rng(t.args[1])
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] > 0: return (0, a[1])
    return (None, None)
def _imuli(a, b):
    if None in a or None in b:
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    c = [x * y for x in a for y in b]
    return (min(c), max(c))

def le0(p):
    """p <= 0"""
    if p.sort[0] == 'Int':
        lo, hi = rng(p)
        if hi is not None and hi <= 0: return TRUE
        if lo is not None and lo > 0: return FALSE
        # push into ite when the polynomial is a single ite atom plus constant with constant leaves
        d = pdict(p)
        g = 0
        from math import gcd
        for k, v in d.items():
            if k != (): g = gcd(g, abs(v))
        if g > 1:
            c = d.get((), 0)
            d = {k: v // g for k, v in d.items() if k != ()}
            d[()] = -((-c) // g)  # ceil(c/g)
            p = mkp(d, patoms(p), False)
            lo, hi = rng(p)
            if hi is not None and hi <= 0: return TRUE
            if lo is not None and lo > 0: return FALSE
        ats = patoms(p)
        if len(ats) == 1:
            a = next(iter(ats.values()))
            if a.op == 'ite' and leafy(a): return Ite(a.args[0], le0(_repl_atom(p, a, a.args[1])), le0(_repl_atom(p, a, a.args[2])))
        # p linear with imin/imax atom of coefficient +-1
        for a in ats.values():
            if a.op in ('imin', 'imax'):
                k = ((a.id, 1),)
                dd = pdict(p); v = dd.get(k)
                if v in (1, -1) and all(not any(i == a.id for i, _ in kk) or kk == k for kk in dd):
                    parts = [le0(_repl_atom(p, a, x)) for x in a.args]
                    conjv = (a.op == 'imin' and v == -1) or (a.op == 'imax' and v == 1)
                    return And(*parts) if conjv else Or(*parts)
        for a in ats.values():          # greatest and least item of a non-empty sequence
            if a.op in ('smax', 'smin') and not p.loose:
                dd = pdict(p); v = dd.get(((a.id, 1),))
                if v in (1, -1) and all(not any(i == a.id for i, _ in kk) or kk == ((a.id, 1),) for kk in dd):
                    each = (a.op == 'smax') == (v == 1)
                    part = lambda i: le0(_repl_atom(p, a, inst(a.args[1], i)))
                    return (All if each else Any)(a.args[0], part)
        return mk('le', (p,), None, BOOL)
    if isc(p): return B(p.attr <= 0)
    d = pdict(p); lead = min((k for k in d if k != ()))
    p = pscale(p, Fraction(1) / abs(d[lead]))
    return mk('le', (p,), None, BOOL)
def _repl_atom(p, a, x):
    r = rebuild_poly(p, tuple(x if y is a else y for y in p.args)) if p.op == 'poly' else x
    return r
def Le(a, b): return le0(psub(a, b))
def Lt(a, b):
    if a.sort[0] == 'Int': return le0(padd(psub(a, b), ONE))
    return Not(le0(psub(b, a)))
def imin(*xs): return _mm('imin', xs)
def imax(*xs): return _mm('imax', xs)
def _mm(op, xs):
    s = {}
    for x in xs:
        for y in (x.args if x.op == op else (x,)): s[y.id] = y
    v = list(s.values())
    # drop dominated
    out = []
    for i, x in enumerate(v):
        dom = False
        for j, y in enumerate(v):
            if i == j: continue
            d = psub(x, y) if op == 'imin' else psub(y, x)   # min: x dominated if x-y>=0
            lo, hi = rng(d)
            if lo is not None and lo >= 0 and not (lo == 0 and hi == 0 and i < j): dom = True; break
        if not dom: out.append(x)
    if len(out) == 1: return out[0]
    # common offset: min(a+c, b+c)
    out.sort(key=lambda x: x.id)
    return mk(op, tuple(out), None, INT())

def IDiv(a, b, sort=None):
    if isc(b) and b.attr == 1: return a
    if isc(a) and isc(b) and b.attr != 0:
        q = abs(a.attr) // abs(b.attr); return I(q if (a.attr < 0) == (b.attr < 0) else -q)
    return mk('idiv', (a, b), None, INT())
def IMod(a, b):
    if isc(a) and isc(b) and b.attr != 0:
        r = abs(a.attr) % abs(b.attr); return I(r if a.attr >= 0 else -r)
    return mk('imod', (a, b), None, INT())
def Wrap(t, ty):
    lo, hi = RANGES[ty]; l, h = rng(t)
    if l is not None and h is not None and l >= lo and h <= hi: return t
    if isc(t): return I((t.attr - lo) % (hi - lo + 1) + lo)
    if t.op == 'ite': return Ite(t.args[0], Wrap(t.args[1], ty), Wrap(t.args[2], ty))
    return mk('wrap', (t,), ty, INT(ty))

# ---------------------------------------------------------------- constructors / fields
def Con(attr, args, sort=None):
    return mk('con', tuple(args), attr, sort or ADT(attr[0]))
def Tup(*xs): return Con(('tuple', 0), xs, ADT('tuple', *[x.sort for x in xs]))
UNIT = Con(('tuple', 0), (), ADT('tuple'))
OPT = 'core::option::Option'; RES = 'core::result::Result'; ORD = 'core::cmp::Ordering'
def Some(x): return Con((OPT, 1), (x,), ADT(OPT, x.sort))
def NoneT(s=ANY): return Con((OPT, 0), (), ADT(OPT))
def Ok(x): return Con((RES, 0), (x,), ADT(RES))
def Err(x): return Con((RES, 1), (x,), ADT(RES))
LESS, EQUAL, GREATER = (Con((ORD, i), (), ADT(ORD)) for i in range(3))
def Fld(t, variant, i, sort):
    if t.op == 'con':
        if t.attr[1] != variant: return UNDEF
        return t.args[i]
    if t.op == 'ite':
        return Ite(t.args[0], Fld(t.args[1], variant, i, sort), Fld(t.args[2], variant, i, sort))
    if t.op == 'undef': return UNDEF
    return mk('fld', (t,), (variant, i), sort)
def VarIs(t, v):
    """t is of variant v"""
    if t.op == 'con': return B(t.attr[1] == v)
    if t.op == 'ite': return Ite(t.args[0], VarIs(t.args[1], v), VarIs(t.args[2], v))
    if t.op == 'undef': return UNDEF
    return mk('varis', (t,), v, BOOL)
def isSome(t): return VarIs(t, 1)
def optval(t, sort=ANY): return Fld(t, 1, 0, sort)

# ---------------------------------------------------------------- sequences
def esort(s): return s.sort[1] if s.sort[0] == 'Seq' else ANY
def MkSeq(n, fn, tag='i'):
    """fn: index term -> element term"""
    i = fresh('k', IDX); b = fn(i)
    return mkseq(n, abst(b, i), b.sort)
def mkseq(n, body, es=None):
    if n is ZERO: return mk('mkseq', (ZERO, UNIT), None, SEQ(body.sort))
    while body.op == 'ite' and body.args[0].loose == 1 and not n.loose and Lt(bv(0, IDX), n) in (body.args[0], Not(body.args[0])):      # positions are below the length
        body = body.args[1] if Lt(bv(0, IDX), n) is body.args[0] else body.args[2]
    if body.op == 'at' and body.args[1].op == 'bv' and body.args[1].attr == 0 and body.args[0].loose == 0 and Len(body.args[0]) is n: return body.args[0]
    return mk('mkseq', (n, body), None, SEQ(body.sort))
EMPTYSEQ = mk('mkseq', (ZERO, UNIT), None, SEQ(ANY))
def EmptySeq(es=ANY): return mk('mkseq', (ZERO, UNIT), None, SEQ(es))
def isempty(s): return s.op == 'mkseq' and s.args[0] is ZERO
def Len(s):
    if s.op in ('mkseq',): return s.args[0] if rng(s.args[0])[0] is not None and rng(s.args[0])[0] >= 0 else imax(s.args[0], ZERO)
    if s.op == 'fseq':
        return mkbind('isum', s.args[0], Ite(s.args[1], ONE, ZERO))
    if s.op == 'sortby' or s.op == 'upd' or s.op == 'shuffled': return Len(s.args[0])
    if s.op == 'concat': return padd(Len(s.args[0]), Len(s.args[1]))
    if s.op == 'ite': return Ite(s.args[0], Len(s.args[1]), Len(s.args[2]))
    if s.op == 'flat': return mkbind('isum', s.args[0], Len(s.args[1]))
    if s.op == 'undef': return UNDEF
    if s.op == 'iter' and s.args[1].sort[0] == 'Seq':       # every iteration keeps the length
        l = Len(s.args[2])
        if l.op == 'len' and l.args[0].op == 'bv' and l.args[0].attr == 1: return Len(s.args[1])
    return mk('len', (s,), None, INT('len'))
def At(s, i):
    if s.op == 'mkseq': return inst(s.args[1], i) if not s.loose and not i.loose else _at_loose(s, i)
    if s.op == 'ite': return Ite(s.args[0], At(s.args[1], i), At(s.args[2], i))
    if s.op == 'concat':
        la = Len(s.args[0])
        return Ite(Lt(i, la), At(s.args[0], i), At(s.args[1], psub(i, la)))
    if s.op == 'upd': return Ite(Eq(i, s.args[1]), s.args[2], At(s.args[0], i))
    if s.op == 'undef': return UNDEF
    return mk('at', (s, i), None, esort(s))
def _at_loose(s, i):
    # instantiation when loose variables are around: bv(0) of the body := i (shifted correctly)
    def shift(t, d, c=0):
        if t.loose <= c: return t
        if t.op == 'bv': return bv(t.attr + d, t.sort) if t.attr >= c else t
        b = BIND.get(t.op)
        return rebuild(t, tuple(shift(a, d, c + (b[j] if b else 0)) for j, a in enumerate(t.args)))
    memo = {}
    def go(t, d):
        if t.loose <= d: return t
        if t.op == 'bv':
            if t.attr == d: return shift(i, d)
            return bv(t.attr - 1, t.sort)
        k = (t.id, d); r = memo.get(k)
        if r is None:
            b = BIND.get(t.op)
            r = rebuild(t, tuple(go(a, d + (b[j] if b else 0)) for j, a in enumerate(t.args))); memo[k] = r
        return r
    return go(s.args[1], 0)
def Upd(s, i, x):
    if s.op == 'upd' and s.args[1] is i: return Upd(s.args[0], i, x)
    if x.op == 'at' and x.args[0] is s and x.args[1] is i: return s
    if s.op == 'mkseq' and isc(s.args[0]) and isc(i) and s.args[0].attr <= 16 and not s.loose:
        return SeqLit([x if j == i.attr else At(s, I(j)) for j in range(s.args[0].attr)])
    return mk('upd', (s, i, x), None, s.sort)
def Concat(a, b):
    la, lb = Len(a), Len(b)
    if la is ZERO: return b
    if lb is ZERO: return a
    if isc(la) and isc(lb) and la.attr + lb.attr <= 32: return SeqLit([At(a, I(j)) for j in range(la.attr)] + [At(b, I(j)) for j in range(lb.attr)])
    return mk('concat', (a, b), None, a.sort if a.sort[1] != ANY else b.sort)
def SeqLit(xs):
    if not xs: return EMPTYSEQ
    if any(x.loose for x in xs):
        return mk('lit', tuple(xs), None, SEQ(xs[0].sort)) if False else _lit(xs)
    return _lit(xs)
def _lit(xs):
    # nested ite on the index; bodies keep their own loose variables shifted by one
    def shift(t, c=0):
        if t.loose <= c: return t
        if t.op == 'bv': return bv(t.attr + 1, t.sort) if t.attr >= c else t
        b = BIND.get(t.op)
        return rebuild(t, tuple(shift(a, c + (b[j] if b else 0)) for j, a in enumerate(t.args)))
    j = bv(0, IDX)
    r = shift(xs[-1])
    for i in range(len(xs) - 2, -1, -1): r = mk('ite', (Eq(j, I(i)), shift(xs[i]), r), None, xs[0].sort) if shift(xs[i]) is not r else r
    return mk('mkseq', (I(len(xs)), r), None, SEQ(xs[0].sort))

def reached(x):
    """x is m <= %0: m"""
    if x.op != 'le' or x.args[0].sort[0] != 'Int' or x.loose != 1: return None
    d = pdict(x.args[0]); q = d.pop(((bv(0, IDX).id, 1),), None)
    if q != -1: return None
    m = mkp(d, patoms(x.args[0]), False)
    return m if not m.loose else None
def unordered(n, body):
    """the body of a sum or conjunction over all of a sorted sequence, over the unsorted one"""
    k = fresh('k', IDX); b = inst(body, k)
    for x in subterms(b):
        if x.op == 'at' and x.args[1] is k and x.args[0].op == 'sortby' and not x.loose and k not in x.args[0].fv and Len(x.args[0]) is n:
            E = fresh('E', x.sort); c = replace(b, {x: E})
            if k not in c.fv: return abst(subst(c, {E: At(x.args[0].args[0], k)}), k)
        if x.op == 'sidx' and x.args[1] is k and not x.loose and k not in x.args[0].fv and Len(x.args[0]) is n:
            q = fresh('q', IDX); c = replace(b, {x: q})
            if k not in c.fv: return abst(c, q)
    return None
def mkbind(op, n, body, sort=None):
    """n-bounded binders: isum fsum rsum all first"""
    if op in ('isum', 'fsum', 'rsum'):
        z = {'isum': ZERO, 'fsum': FC(0), 'rsum': R(0)}[op]
        if n is ZERO or body is z: return z
        if op == 'isum' and isc(body): return imul(imax(n, ZERO) if not (rng(n)[0] is not None and rng(n)[0] >= 0) else n, body)
        if op == 'isum' and body.op == 'poly' and () in dict(body.attr):
            d = dict(body.attr); c = d.pop(())
            return padd(mkbind('isum', n, mkp(d, patoms(body), False)), mkbind('isum', n, I(c)))
        if isc(n) and 0 < n.attr <= 3 and not body.loose > 1 and not n.loose:
            r = z
            for j in range(n.attr):
                r = padd(r, inst(body, I(j))) if op != 'fsum' else FAdd(r, inst(body, I(j)))
            return r
        s = {'isum': INT(), 'fsum': F64, 'rsum': REAL}[op]
        return mk(op, (n, body), None, s)
    if op == 'all':
        if n is ZERO or body is TRUE: return TRUE
        if body.op == 'and':
            return And(*[mkbind('all', n, x) for x in body.args])
        if body is FALSE: return le0(n)
        if isc(n) and 0 < n.attr <= 3 and body.loose <= 1: return And(*[inst(body, I(j)) for j in range(n.attr)])
        if n.op == 'isum' and not n.loose and body.loose <= 1:
            F = selected(n, body)
            if F is not None:       # all items of a selection
                q = fresh('k', IDX)
                return All(F.args[0], lambda i: Or(Not(inst(F.args[1], i)), subst(replace(inst(body, q), {At(F, q): inst(F.args[2], i)}), {q: i})))
        return mk('all', (n, body), None, BOOL)
    if op == 'first':
        if body is FALSE: return n if rng(n)[0] is not None and rng(n)[0] >= 0 else imax(n, ZERO)
        if body is TRUE or n is ZERO: return ZERO
        if not body.loose: return Ite(body, ZERO, n if rng(n)[0] is not None and rng(n)[0] >= 0 else imax(n, ZERO))
        for x in body.args if body.op == 'or' else (body,):
            m = reached(x)
            if m is not None:       # from position m on
                return mkbind('first', imin(n, imax(m, ZERO)), Or(*[y for y in body.args if y is not x]) if body.op == 'or' else FALSE)
        return mk('first', (n, body), None, INT('nat'))
    if op in ('fsmax', 'fsmin', 'rsmax', 'rsmin', 'smax', 'smin'):
        return mk(op, (n, body), None, F64 if op[0] == 'f' else REAL if op[0] == 'r' else INT())
    raise ValueError(op)
def Bind(op, n, fn, sort=IDX):
    i = fresh('k', sort); b = fn(i)
    return mkbind(op, n, abst(b, i))
def ISum(n, fn): return Bind('isum', n, fn)
def FSum(n, fn): return Bind('fsum', n, fn)
def RSum(n, fn): return Bind('rsum', n, fn)
def All(n, fn): return Bind('all', n, fn)
def First(n, fn): return Bind('first', n, fn)
def Any(n, fn): return Not(All(n, lambda i: Not(fn(i))))
def FSeq(n, cfn, vfn):
    i = fresh('k', IDX); c, v = cfn(i), vfn(i)
    return fseq(n, abst(c, i), abst(v, i))
def fseq(n, c, v):
    if c is TRUE: return mkseq(n, v)
    if c is FALSE: return EMPTYSEQ
    if v.op == 'at' and v.args[1].op == 'bv' and v.args[1].attr == 0 and v.args[0].op == 'fseq' and not v.args[0].loose and Len(v.args[0]) is n:
        F = v.args[0]; i = fresh('k', IDX); E = fresh('E', v.sort)      # a selection of the items selected by F
        ci = replace(inst(c, i), {At(F, i): E})
        if i not in ci.fv:
            e = inst(F.args[2], i)
            return fseq(F.args[0], abst(And(inst(F.args[1], i), subst(ci, {E: e})), i), abst(e, i))
    t = mk('fseq', (n, c, v), None, SEQ(v.sort))
    return FSEQRULE[0](t) or t if FSEQRULE[0] and not t.loose else t
FSEQRULE = [None]
def Flat(n, fn):
    i = fresh('k', IDX); b = fn(i)
    return flat(n, abst(b, i))
def flat(n, b):
    if n is ZERO: return EMPTYSEQ
    if isc(n) and 0 < n.attr <= 32 and b.op == 'ite' and b.loose == 1:       # a few items, one by one
        r = EMPTYSEQ
        for i in range(n.attr): r = Concat(r, inst(b, I(i)))
        return r
    return mk('flat', (n, b), None, b.sort)
def Iter(n, init, fn):
    """fn(state, j) -> state"""
    s = fresh('st', init.sort); j = fresh('k', IDX)
    return itern(n, init, abst(fn(s, j), s, j))
def itern(n, init, body):
    if n is ZERO: return init
    if body.op == 'bv' and body.attr == 1: return init
    if isc(n) and n.attr == 1 and not init.loose and body.loose <= 2: return inst(body, init, ZERO)
    if init.op == 'con' and init.attr == ('core::option::Option', 0) and body.loose <= 2 and not n.loose and body.sort[2][0] is not ANY:
        b0 = inst(body, init, ZERO)             # nothing yet, and something from the first step on
        if VarIs(b0, 1) is TRUE:
            x, j = fresh('st', body.sort[2][0]), fresh('k', IDX)
            b = inst(body, Some(x), iadd(j, ONE))
            if VarIs(b, 1) is TRUE:
                p = lambda t: Fld(t, 1, 0, x.sort)
                return Ite(le0(n), init, Some(itern(isub(n, ONE), p(b0), abst(p(b), x, j))))
    return mk('iter', (n, init, body), None, init.sort)
def SortBy(s, fn):
    """fn(a, b) -> Bool: a strictly before b"""
    a = fresh('a', esort(s)); b = fresh('b', esort(s))
    return mk('sortby', (s, abst(fn(a, b), a, b)), None, s.sort)

# ---------------------------------------------------------------- maps
def MEmpty(ks=ANY, vs=ANY): return mk('mempty', (), None, MAP(ks, vs))
def MIns(m, k, v):
    if m.op == 'mins' and m.args[1] is k: return MIns(m.args[0], k, v)
    return mk('mins', (m, k, v), None, m.sort if m.sort[0] == 'Map' and m.sort[1] != ANY else MAP(k.sort, v.sort))
def MHas(m, k):
    if m.op == 'mempty': return FALSE
    if m.op == 'mins': return Or(Eq(m.args[1], k), MHas(m.args[0], k))
    if m.op == 'mrem': return And(Not(Eq(m.args[1], k)), MHas(m.args[0], k))
    if m.op == 'mcomp': return MHas(m.args[0], k)
    if m.op == 'msel': return And(MHas(m.args[0], k), inst(m.args[1], k) if not m.loose and not k.loose else _at_loose(mk('mkseq', (ZERO, m.args[1]), None, SEQ(BOOL)), k))
    if m.op == 'ite': return Ite(m.args[0], MHas(m.args[1], k), MHas(m.args[2], k))
    if m.op == 'undef': return UNDEF
    if k.op == 'keyat' and samekeys(k.args[0], m): return TRUE
    if m.op == 'mofseq' and not m.loose and not k.loose:
        F = selected(*m.args[:2])
        if F is not None:
            q = fresh('k', IDX)
            return Any(F.args[0], lambda i: And(inst(F.args[1], i), Eq(subst(replace(inst(m.args[1], q), {At(F, q): inst(F.args[2], i)}), {q: i}), k)))
        return Not(Bind('all', m.args[0], lambda i: Not(Eq(inst(m.args[1], i), k))))
    return mk('has', (m, k), None, BOOL)
def samekeys(a, b):
    while a.op == 'mcomp': a = a.args[0]
    while b.op == 'mcomp': b = b.args[0]
    return a is b
def MGet(m, k):
    if m.op == 'mins': return Ite(Eq(m.args[1], k), m.args[2], MGet(m.args[0], k))
    if m.op in ('mrem', 'msel'): return MGet(m.args[0], k)
    if m.op == 'mempty': return UNDEF
    if m.op == 'mcomp': return inst(m.args[1], k) if not m.loose and not k.loose else _at_loose(mk('mkseq', (ZERO, m.args[1]), None, SEQ(ANY)), k)
    if m.op == 'ite': return Ite(m.args[0], MGet(m.args[1], k), MGet(m.args[2], k))
    if m.op == 'undef': return UNDEF
    return mk('get', (m, k), None, m.sort[2] if m.sort[0] == 'Map' else ANY)
def MLen(m):
    if m.op == 'mempty': return ZERO
    if m.op == 'mcomp': return MLen(m.args[0])
    if m.op == 'msel' and not m.loose: return Bind('isum', MLen(m.args[0]), lambda i: Ite(inst(m.args[1], KeyAt(m.args[0], i)), ONE, ZERO))
    if m.op == 'mins': return padd(MLen(m.args[0]), Ite(MHas(m.args[0], m.args[1]), ZERO, ONE))
    if m.op == 'ite': return Ite(m.args[0], MLen(m.args[1]), MLen(m.args[2]))
    if m.op == 'undef': return UNDEF
    return mk('mlen', (m,), None, INT('len'))
def KeyAt(m, i):
    if m.op == 'mcomp': return KeyAt(m.args[0], i)
    if m.op == 'ite': return Ite(m.args[0], KeyAt(m.args[1], i), KeyAt(m.args[2], i))
    if m.op == 'undef': return UNDEF
    return mk('keyat', (m, i), None, m.sort[1] if m.sort[0] == 'Map' else ANY)
def MRem(m, k): return mk('mrem', (m, k), None, m.sort)
def MComp(m, fn):
    """same keys as m, value fn(key)"""
    k = fresh('q', m.sort[1]); v = fn(k)
    return mcomp(m, abst(v, k), v.sort)
def mcomp(m, body, vs=None):
    if m.op == 'mempty': return m
    if body.op == 'get' and body.args[1].op == 'bv' and body.args[1].attr == 0 and body.args[0] is m and m.loose == 0: return m
    if m.op == 'mcomp': return mcomp(m.args[0], body)
    if m.op == 'msel': return msel(mcomp(m.args[0], body), m.args[1])
    return mk('mcomp', (m, body), None, MAP(m.sort[1], body.sort))
def msel(m, c):
    """the entries of m whose key satisfies c"""
    if c is TRUE or m.op == 'mempty': return m
    if m.op == 'msel' and not m.loose and c.loose <= 1:
        q = fresh('q', m.sort[1]); return msel(m.args[0], abst(And(inst(m.args[1], q), inst(c, q)), q))
    return mk('msel', (m, c), None, m.sort)
def selected(n, kb):
    """the selection whose items the n keys are taken from"""
    if kb.loose > 1: return None
    q = fresh('k', IDX); st = [inst(kb, q)]; seen = set()
    while st:
        t = st.pop()
        if t.id in seen or q not in t.fv: continue
        seen.add(t.id)
        if t.op == 'at' and t.args[0].op == 'fseq' and t.args[1] is q:
            F = t.args[0]
            if q not in F.fv and Len(F) is n and not contains_sym(replace(inst(kb, q), {t: fresh('E', t.sort)}), q): return F
            return None
        st += t.args
    return None
def contains_sym(t, s): return s in t.fv
def MOfSeq(n, kfn, vfn):
    """map built by inserting (k_i, v_i) for i = 0..n-1 in order"""
    i = fresh('k', IDX); kb, vb = kfn(i), vfn(i)
    return mofseq_open(n, i, kb, vb)
def mofseq_open(n, i, kb, vb):
    if n is ZERO: return MEmpty(kb.sort, vb.sort)
    if n is ONE: return MIns(MEmpty(kb.sort, vb.sort), subst(kb, {i: ZERO}), subst(vb, {i: ZERO}))
    # keys enumerated from a map in order
    if kb.op == 'keyat' and kb.args[1] is i and not contains(kb.args[0], i) and MLen(kb.args[0]) is n:
        m = kb.args[0]
        q = fresh('q', kb.sort)
        v2 = replace(vb, {kb: q})
        if not contains(v2, i): return mcomp(m, abst(v2, q))
        v3 = subst(v2, {i: MIdx(m, q)})
        return mcomp(m, abst(v3, q))
    F = selected(n, abst(kb, i))
    if F is not None:
        q = fresh('k', IDX); x = inst(F.args[2], q); g = {At(F, i): x, i: q}
        k2, v2 = replace(kb, g), replace(vb, g)
        if k2.op == 'keyat' and k2.args[1] is q and MLen(k2.args[0]) is F.args[0] and i not in v2.fv and not contains(v2, F):
            m = mofseq_open(F.args[0], q, k2, v2); kk = fresh('q', kb.sort)
            if m.op != 'mofseq': return msel(m, abst(subst(replace(inst(F.args[1], q), {k2: kk}), {q: MIdx(k2.args[0], kk)}), kk))
    return mk('mofseq', (n, abst(kb, i), abst(vb, i)), None, MAP(kb.sort, vb.sort))
def MIdx(m, k):
    if k.op == 'keyat' and samekeys(k.args[0], m): return k.args[1]
    while m.op == 'mcomp': m = m.args[0]
    return mk('midx', (m, k), None, INT('idx'))
def mselect(m, f):
    """f(key) for the entries of m in order"""
    if m.op == 'ite': return Ite(m.args[0], mselect(m.args[1], f), mselect(m.args[2], f))
    if m.op == 'msel': return FSeq(MLen(m.args[0]), lambda i: inst(m.args[1], KeyAt(m.args[0], i)), lambda i: f(KeyAt(m.args[0], i)))
    return MkSeq(MLen(m), lambda i: f(KeyAt(m, i)))
def MEntries(m):
    if m.op == 'msel' or m.op == 'ite': return mselect(m, lambda k: Tup(k, MGet(m, k)))
    return MkSeq(MLen(m), lambda i: Tup(KeyAt(m, i), MGet(m, KeyAt(m, i))))

# ---------------------------------------------------------------- floats
def I2F(t):
    if isc(t): return FC(t.attr)
    if t.op == 'ite' and leafy(t): return Ite(t.args[0], I2F(t.args[1]), I2F(t.args[2]))
    return mk('i2f', (t,), None, F64)
def FOp(op, *a):
    if op == 'fadd':
        if a[0].op == 'c' and a[0].attr == 0: return a[1]
        if a[1].op == 'c' and a[1].attr == 0: return a[0]
    if op == 'fsub' and a[1].op == 'c' and a[1].attr == 0: return a[0]
    if op in ('fadd', 'fsub', 'fmul') and all(x.op == 'c' for x in a):
        x, y = a[0].attr, a[1].attr
        return FC(x + y if op == 'fadd' else x - y if op == 'fsub' else x * y)
    if op == 'fneg' and a[0].op == 'c': return FC(-a[0].attr)
    if op == 'fneg' and a[0].op == 'fneg': return a[0].args[0]
    if op == 'fabs' and a[0].op == 'c': return FC(abs(a[0].attr))
    if op in ('fadd', 'fmul', 'fmin', 'fmax') and a[0].id > a[1].id: a = (a[1], a[0])
    return mk(op, tuple(a), None, F64)
def FAdd(a, b): return FOp('fadd', a, b)
def FSub(a, b): return FOp('fsub', a, b)
def FMul(a, b): return FOp('fmul', a, b)
def FDiv(a, b): return FOp('fdiv', a, b)
def FNeg(a): return FOp('fneg', a)
def FCmp(op, a, b):
    # comparisons with a NaN are false; an infinity is compared with finite values (sound: symbolic floats stand for finite values)
    if a is NAN or b is NAN: return FALSE
    if a.op == 'fspecial' or b.op == 'fspecial':
        fin = lambda x: x.op == 'c' or x.op == 'sym'
        if a is b: return B(op != 'flt')
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'fspecial' and (fin(y) or y.op == 'fspecial'):
                if op == 'feq': return FALSE
                less = (x is NINF or y is PINF) and x is not y
                return B(less if not sw else not less)
    if a.op == 'c' and b.op == 'c':
        return B({'flt': a.attr < b.attr, 'fle': a.attr <= b.attr, 'feq': a.attr == b.attr}[op])
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite' and leafy(x) and y.op in ('c', 'fspecial'):
            f = (lambda z: FCmp(op, z, y)) if not sw else (lambda z: FCmp(op, y, z))
            return Ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if a.op == 'i2f' and b.op == 'i2f':
        x, y = a.args[0], b.args[0]
        return Lt(x, y) if op == 'flt' else Le(x, y) if op == 'fle' else Eq(x, y)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == 'i2f' and y.op == 'c' and y.attr.denominator == 1:
            p, q = (x.args[0], I(y.attr)) if not sw else (I(y.attr), x.args[0])
            return Lt(p, q) if op == 'flt' else Le(p, q) if op == 'fle' else Eq(p, q)
    if op == 'feq' and a.id > b.id: a, b = b, a
    return mk(op, (a, b), None, BOOL)
def FUn(name, *a): return mk('ff', tuple(a), name, F64)
UFRULE = {}         # rewriting rules of uninterpreted functions: name -> arguments -> term or None
def UF(name, sort, *a):
    f = UFRULE.get(name)
    if f is not None:
        r = f(*a)
        if r is not None: return r
    return mk('uf', tuple(a), name, sort)
UFRULE['dec'] = lambda x: S(str(x.attr)) if x.op == 'c' else None
# total orders on opaque sorts
def OLt(a, b):
    if a is b: return FALSE
    s = a.sort[0]
    if s == 'Int': return Lt(a, b)
    if s == 'F64': return FCmp('flt', a, b)
    if s == 'Bool': return And(Not(a), b)
    if a.op == 'con' and b.op == 'con' and a.attr == b.attr:
        if a.attr[0].startswith('ordered_float::'): return mk('oflt', (a.args[0], b.args[0]), None, BOOL)
        if a.attr[0] == 'core::cmp::Reverse': return OLt(b.args[0], a.args[0])
        r = FALSE
        for x, y in reversed(list(zip(a.args, b.args))): r = Or(OLt(x, y), And(Eq(x, y), r))
        return r
    if s == 'Adt' and a.sort[1].startswith('ordered_float::'):
        return mk('oflt', (Fld(a, 0, 0, F64), Fld(b, 0, 0, F64)), None, BOOL)
    return mk('olt', (a, b), None, BOOL)

def mofseq(n, kb, vb):
    if n is ZERO: return MEmpty(kb.sort, vb.sort)
    if n is ONE and kb.loose <= 1 and vb.loose <= 1: return MIns(MEmpty(kb.sort, vb.sort), inst(kb, ZERO), inst(vb, ZERO))
    if (kb.op == 'keyat' or n.op == 'isum' and selected(n, kb) is not None) and not n.loose and kb.loose <= 1 and vb.loose <= 1:
        i = fresh('k', IDX)
        return mofseq_open(n, i, inst(kb, i), inst(vb, i))
    return mk('mofseq', (n, kb, vb), None, MAP(kb.sort, vb.sort))
CONS = {
    'uf': lambda t, a: UF(t.attr, t.sort, *a),
    'mofseq': lambda t, a: mofseq(*a),
    'not': lambda t, a: Not(a[0]), 'and': lambda t, a: And(*a), 'or': lambda t, a: Or(*a), 'eq': lambda t, a: Eq(*a),
    'eq0': lambda t, a: Eq(a[0], R(0) if a[0].sort[0] == 'Real' else ZERO), 'ite': lambda t, a: Ite(*a), 'poly': rebuild_poly,
    'le': lambda t, a: le0(a[0]), 'imin': lambda t, a: imin(*a), 'imax': lambda t, a: imax(*a), 'idiv': lambda t, a: IDiv(*a), 'imod': lambda t, a: IMod(*a),
    'wrap': lambda t, a: Wrap(a[0], t.attr), 'fld': lambda t, a: Fld(a[0], t.attr[0], t.attr[1], t.sort), 'varis': lambda t, a: VarIs(a[0], t.attr),
    'mkseq': lambda t, a: mkseq(*a), 'len': lambda t, a: Len(a[0]), 'at': lambda t, a: At(*a), 'upd': lambda t, a: Upd(*a), 'concat': lambda t, a: Concat(*a),
    'isum': lambda t, a: mkbind('isum', *a), 'fsum': lambda t, a: mkbind('fsum', *a), 'rsum': lambda t, a: mkbind('rsum', *a), 'all': lambda t, a: mkbind('all', *a),
    'first': lambda t, a: mkbind('first', *a), 'fseq': lambda t, a: fseq(*a), 'flat': lambda t, a: flat(*a), 'iter': lambda t, a: itern(*a),
    'mins': lambda t, a: MIns(*a), 'has': lambda t, a: MHas(*a), 'get': lambda t, a: MGet(*a), 'mlen': lambda t, a: MLen(*a), 'keyat': lambda t, a: KeyAt(*a),
    'msel': lambda t, a: msel(*a), 'mrem': lambda t, a: MRem(*a), 'mcomp': lambda t, a: mcomp(*a), 'midx': lambda t, a: MIdx(*a),
    'i2f': lambda t, a: I2F(a[0]), 'flt': lambda t, a: FCmp('flt', *a), 'fle': lambda t, a: FCmp('fle', *a), 'feq': lambda t, a: FCmp('feq', *a),
    'olt': lambda t, a: OLt(*a),
    'con': lambda t, a: Con(t.attr, a, t.sort),
}
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'fmin', 'fmax', 'fpowi'):
    CONS[_o] = (lambda o: lambda t, a: FOp(o, *a))(_o)

# ---------------------------------------------------------------- printing
def show(t, depth=60):
    if depth < 0: return '..'
    o = t.op; g = lambda x: show(x, depth - 1)
    if o == 'sym': return t.attr
    if o == 'bv': return f'%{t.attr}'
    if o == 'c': return str(t.attr)
    if o == 's': return repr(t.attr)
    if o == 'poly':
        at = {a.id: a for a in t.args}; r = []
        for k, v in t.attr:
            m = '*'.join(g(at[i]) + (f'^{e}' if e > 1 else '') for i, e in k)
            r.append(f'{v}*{m}' if m and v != 1 else m or str(v))
        return '(' + ' + '.join(r) + ')'
    if o == 'con':
        n = t.attr[0].split('::')[-1]
        return f"{n}#{t.attr[1]}(" + ', '.join(g(a) for a in t.args) + ')'
    if o == 'le': return f'({g(t.args[0])} <= 0)'
    if o == 'eq0': return f'({g(t.args[0])} == 0)'
    if o == 'ite': return f'if({g(t.args[0])}; {g(t.args[1])}; {g(t.args[2])})'
    a = ', '.join(g(x) for x in t.args)
    return f"{o}{'' if t.attr is None else '<' + str(t.attr) + '>'}({a})"
