"""Discharging obligations: normal forms over the reals, structural rules for binders, ground/quantified SMT (z3)."""
import time
from fractions import Fraction
from terms import *
import z3

# ================================================================ real normal form
def F2R(t):
    if t.sort == REAL: return t
    if t.op == 'ite': return Ite(t.args[0], F2R(t.args[1]), F2R(t.args[2]))
    if t.op == 'undef': return t
    if t.op == 'c': return R(t.attr)
    return mk('f2r', (t,), None, REAL)
def I2R(n):
    if isc(n): return R(n.attr)
    if n.op == 'ite': return Ite(n.args[0], I2R(n.args[1]), I2R(n.args[2]))
    if n.op == 'poly':
        acc = {}; ats = {}
        for k, v in n.attr:
            d = {(): Fraction(v)}
            at = {a.id: a for a in n.args}
            for i, e in k:
                x = I2R(at[i])
                ats.update(patoms(x))
                for _ in range(e): d = pmuld(d, pdict(x))
            for kk, vv in d.items(): acc[kk] = acc.get(kk, 0) + vv
        return mkp(acc, ats, True)
    if n.op == 'isum': return nsum('rsum', n.args[0], I2R(n.args[1]))
    if n.op == 'imin' and len(n.args) == 2: return Ite(Le(*n.args), I2R(n.args[0]), I2R(n.args[1]))
    if n.op == 'imax' and len(n.args) == 2: return Ite(Le(*n.args), I2R(n.args[1]), I2R(n.args[0]))
    return mk('i2r', (n,), None, REAL)
def Inv(d):
    if isc(d):
        if d.attr == 0: return mk('inv', (d,), None, REAL)
        return R(1 / d.attr)
    if d.op == 'ite': return Ite(d.args[0], Inv(d.args[1]), Inv(d.args[2]))
    if d.op == 'inv': return d.args[0]
    if d.op == 'poly':
        dd = pdict(d)
        if len(dd) == 1:
            (k, v), = dd.items()
            r = R(1 / Fraction(v)); at = patoms(d)
            for i, e in k:
                x = Inv(at[i])
                for _ in range(e): r = PMul(r, x)
            return r
        # factor out common atoms and the leading coefficient
        at = patoms(d)
        common = None
        for k in dd:
            s = dict(k)
            common = s if common is None else {i: min(e, s[i]) for i, e in common.items() if i in s}
        if common:
            rest = {}
            for k, v in dd.items():
                s = dict(k)
                for i, e in common.items():
                    s[i] -= e
                    if not s[i]: del s[i]
                rest[tuple(sorted(s.items()))] = v
            r = Inv(mkp(rest, at, True))
            for i, e in common.items():
                x = Inv(at[i])
                for _ in range(e): r = PMul(r, x)
            return r
        lead = dd[min(dd)]
        if lead != 1: return pscale(Inv(pscale(d, 1 / Fraction(lead))), 1 / Fraction(lead))
    return mk('inv', (d,), None, REAL)
def Sqrt(x):
    if isc(x):
        import math
        n, d = x.attr.numerator, x.attr.denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return R(Fraction(math.isqrt(n), math.isqrt(d)))
    if x.op == 'ite': return Ite(x.args[0], Sqrt(x.args[1]), Sqrt(x.args[2]))
    if x.op == 'inv' and natr(x.args[0]): return Inv(Sqrt(x.args[0]))
    if x.op == 'poly':
        # factors that are a natural number or the inverse of one: sqrt(n y) = sqrt(n) sqrt(y)
        dd = pdict(x); at = patoms(x); common = None
        for k in dd:
            c = {i: e for i, e in k if natr(at[i]) or at[i].op == 'inv' and natr(at[i].args[0])}
            common = c if common is None else {i: min(e, c[i]) for i, e in common.items() if i in c}
        if common and (len(dd) > 1 or sum(e for _, e in next(iter(dd))) > sum(common.values()) or len(common) > 1 or max(common.values()) > 1):
            rest = {}
            for k, v in dd.items():
                q = {i: e - common.get(i, 0) for i, e in k}
                rest[tuple(sorted((i, e) for i, e in q.items() if e))] = v
            r = Sqrt(mkp(rest, at, True))
            for i, e in common.items():
                for _ in range(e // 2): r = PMul(r, at[i])
                if e % 2: r = PMul(r, Sqrt(at[i]))
            return r
    return mk('rsqrt', (x,), None, REAL)
def natr(a): return a.op == 'i2r' and rng(a.args[0])[0] is not None and rng(a.args[0])[0] >= 0
def RAbs(x):
    if isc(x): return R(abs(x.attr))
    if x.op == 'ite': return Ite(x.args[0], RAbs(x.args[1]), RAbs(x.args[2]))
    d = pdict(x)
    if d[min(d)] < 0: x = pneg(x)
    if x.op == 'rabs': return x
    return mk('rabs', (x,), None, REAL)
def has_ite(t): return t.op == 'ite' or (t.op == 'poly' and any(a.op == 'ite' for a in t.args))
def PMul(a, b): return cancel(pmul(a, b))
def cancel(t):
    """x * inv(x) = 1 (x is nonzero: well-definedness obligations), sqrt(x)^2 = x"""
    if t.op != 'poly': return t
    at = {a.id: a for a in t.args}
    inv = {a.args[0].id: a.id for a in t.args if a.op == 'inv'}
    todo = any(i in at for i in inv) or any(a.op == 'rsqrt' for a in t.args) or any(a.op == 'inv' and a.args[0].op == 'rsqrt' for a in t.args)
    halves = []     # x * inv(sqrt(x)) = sqrt(x), inv(x) * sqrt(x) = inv(sqrt(x))
    for a in t.args:
        if a.op == 'rsqrt' and a.args[0].id in inv: halves.append((a, inv[a.args[0].id], lambda a=a: Inv(a)))
        if a.op == 'inv' and a.args[0].op == 'rsqrt' and a.args[0].args[0].id in at: halves.append((a, a.args[0].args[0].id, lambda a=a: a.args[0]))
    if not todo: return t
    acc = R(0)
    for k, v in t.attr:
        s = dict(k); extra = R(1)
        for x, iv in inv.items():
            if x in s and iv in s:
                e = min(s[x], s[iv]); s[x] -= e; s[iv] -= e
        for h, o, f in halves:
            while s.get(h.id, 0) and s.get(o, 0):
                s[h.id] -= 1; s[o] -= 1; extra = PMul(extra, f())
        for i in list(s):
            a = at[i]
            if a.op == 'rsqrt' and s[i] >= 2:
                q, s[i] = divmod(s[i], 2)
                for _ in range(q): extra = PMul(extra, a.args[0])
            if a.op == 'inv' and a.args[0].op == 'rsqrt' and s[i] >= 2:
                q, s[i] = divmod(s[i], 2)
                for _ in range(q): extra = PMul(extra, Inv(a.args[0].args[0]))
        m = mkp({tuple(sorted((i, e) for i, e in s.items() if e)): v}, at, True)
        acc = padd(acc, pmul(m, extra) if extra.op == 'c' else PMul(m, extra))
    return acc

def shift(t, d, c=0):
    if t.loose <= c or d == 0: return t
    if t.op == 'bv': return bv(t.attr + d, t.sort) if t.attr >= c else t
    b = BIND.get(t.op)
    return rebuild(t, tuple(shift(a, d, c + (b[i] if b else 0)) for i, a in enumerate(t.args)))
def uses0(t, c=0):
    """does bv(c) occur in t (at depth c)"""
    if t.loose <= c: return False
    if t.op == 'bv': return t.attr == c
    b = BIND.get(t.op)
    return any(uses0(a, c + (b[i] if b else 0)) for i, a in enumerate(t.args))

_nid = [0]
def opened(body, sort=IDX):
    s = opensym(body, sort, 'n')
    return s, inst(body, s)

def split_off(n):
    """n = m + c with c > 0 constant and m >= 0 known: returns (m, c)"""
    if n.op != 'poly': return None
    c = dict(n.attr).get((), 0)
    if c <= 0 or c > 4: return None
    m = isub(n, I(c))
    lo, _ = rng(m)
    if lo is None or lo < 0: return None
    return m, c

def nsum(op, n, body):
    """normal form of a sum; body has the index as bv(0)"""
    real = op == 'rsum'
    z = R(0) if real else ZERO
    if n is ZERO or body is z: return z
    if n.op == 'ite': return Ite(n.args[0], nsum(op, n.args[1], body), nsum(op, n.args[2], body))
    if n.loose or body.loose > 1:
        # open surrounding variables through symbols: callers normalise bottom-up under opened binders, so this does not happen
        return mkbind(op, n, body)
    so = split_off(n)
    if so:
        m, c = so
        r = nsum(op, m, body)
        for j in range(c): r = padd(r, inst(body, iadd(m, I(j))))
        return r
    i, b = opened(body)
    # elements of a filtered sequence
    if n.op == 'isum' and n.args[1].op == 'ite' and i in b.fv:
        F = find_fseq(b, n, i)
        if F is not None:
            e = At(F, i)
            s = fresh('e', e.sort)
            b2 = replace(b, {e: s})
            if i not in b2.fv:
                k = fresh('k', IDX)
                v = subst(b2, {s: inst(F.args[2], k)}); c = inst(F.args[1], k)
                return nsum(op, F.args[0], abst(norm(Ite(c, v, z)), k))
            k, c, v = reindex(F, b, i, e, real_z=lambda o: R(0) if o == 'rsum' else ZERO)
            return nsum(op, F.args[0], abst(norm(Ite(c, v, z)), k))
    parts = []   # (coef term free of i, cond, monomial term)
    def go(t, cond, coef):
        if cond is FALSE: return
        if t.op == 'ite':
            for c, x in ((t.args[0], t.args[1]), (Not(t.args[0]), t.args[2])):
                # the indicator of (e or r) is that of r plus that of (e and not r), for an equation e that holds at one position
                e = next((y for y in c.args if c.op == 'or' and key_eq(y, n, i)), None)
                if e is None: go(x, And(cond, c), coef); continue
                r = Or(*[y for y in c.args if y is not e])
                go(x, And(cond, r), coef); go(x, And(cond, e, Not(r)), coef)
            return
        if isc(t):
            if t.attr != 0: parts.append((PM(coef, t), cond, one))
            return
        at = patoms(t)
        for k, v in pdict(t).items():
            ites = [at[q] for q, e in k if at[q].op == 'ite' and i in at[q].fv]
            if ites:
                x = ites[0]
                for br, cc in ((x.args[1], x.args[0]), (x.args[2], Not(x.args[0]))):
                    m = R(v) if real else I(v)
                    for q, e in k:
                        y = br if at[q] is x else at[q]
                        for _ in range(e): m = PM(m, y)
                    go(m, And(cond, cc), coef)
                continue
            c2 = R(v) if real else I(v); m = one
            for q, e in k:
                for _ in range(e):
                    if i in at[q].fv: m = PM(m, at[q])
                    else: c2 = PM(c2, at[q])
            parts.append((PM(coef, c2), cond, m))
    one = R(1) if real else ONE
    PM = PMul if real else pmul
    go(b, TRUE, one)
    groups = {}
    for coef, cond, m in parts: groups.setdefault((cond.id, m.id), [cond, m, []])[2].append(coef)
    # merge groups with the same monomial and coefficient
    r = z
    bym = {}
    for cond, m, cs in groups.values():
        c = cs[0]
        for x in cs[1:]: c = padd(c, x)
        if isc(c) and c.attr == 0: continue
        bym.setdefault((m.id, c.id), [m, c, []])[2].append(cond)
    for m, c, conds in bym.values():
        conds, keyed = [x for x in conds if not key_eq(x, n, i)], [x for x in conds if key_eq(x, n, i)]
        cond = Or(*conds) if disjoint(conds) else None
        for cd in ([cond] if cond is not None else conds) + keyed:
            # split i-free conjuncts of the condition
            free = [x for x in conj(cd) if i not in x.fv]; dep = And(*[x for x in conj(cd) if i in x.fv])
            ne = next((y for y in conj(dep) if y.op == 'not' and key_eq(y.args[0], n, i)), None)
            ke = key_eq(dep, n, i) if ne is None else None
            if ne is not None:                                 # not (e) and r: r without (e and r)
                rest = And(*[y for y in conj(dep) if y is not ne])
                s = psub(*[nsum(op, n, abst(Ite(y, m, z), i)) for y in (rest, And(ne.args[0], rest))])
            elif ke is not None:                                 # the keys of a map are distinct: only the position of d counts
                M, d, e = ke
                at_d = lambda t: norm(subst(replace(t, {KeyAt(M, i): d}), {i: MIdx(M, d)}))
                s = Ite(And(MHas(M, d), at_d(And(*[x for x in conj(dep) if x is not e]))), at_d(m), z)
            elif m is one:
                if dep is TRUE: s = I2R(n) if real else n
                else:
                    pos = []
                    for x in conj(dep):
                        y = countpol(x)
                        if y is not None: pos.append((x, y))
                    cs = lambda c: mkbind('isum', n, abst(Ite(c, ONE, ZERO), i))
                    if len(pos) == 1 and rng(n)[0] is not None and rng(n)[0] >= 0:
                        rest = And(*[x for x in conj(dep) if x is not pos[0][0]])
                        s = isub(n if rest is TRUE else cs(rest), cs(And(rest, pos[0][1])))
                    else: s = cs(dep)
                    if real and s.op == 'poly': s = I2R(s)
                    elif real: s = mk('i2r', (s,), None, REAL) if not isc(s) else R(s.attr)
            elif i not in m.fv: s = PM(m, I2R(n) if real else n)
            else:
                if m.op == 'i2r' and real and False: pass
                s = mkbind(op, n, abst(Ite(dep, m, z), i))
            t = PM(c, s)
            r = padd(r, Ite(And(*free), t, z))
    return r
def key_eq(dep, n, i):
    if n.op != 'mlen': return None
    M = n.args[0]; k = KeyAt(M, i)
    for e in conj(dep):
        if e.op == 'eq' and k in e.args:
            d = e.args[1] if e.args[0] is k else e.args[0]
            if i not in d.fv: return M, d, e
    return None
def countpol(c):
    """counts of x <= const are expressed through counts of x >= const + 1: the complement when c has the former form"""
    if c.op == 'not' and c.args[0].op == 'eq0':
        p = c.args[0].args[0]
        if p.sort[0] == 'Int' and p.op != 'poly' and rng(p)[0] == 0: return None
        return None
    if c.op == 'eq0' and c.args[0].sort[0] == 'Int' and c.args[0].op != 'poly' and rng(c.args[0])[0] == 0: return Not(Le(c.args[0], ZERO))
    if c.op == 'le' and c.args[0].sort[0] == 'Int':
        t = [(k, v) for k, v in pdict(c.args[0]).items() if k]
        if len(t) == 1 and t[0][1] > 0: return Not(c)
    return None
def disjoint(conds):
    if not conds: return False
    if len(conds) == 1: return True
    for a in range(len(conds)):
        for b in range(a + 1, len(conds)):
            if And(conds[a], conds[b]) is not FALSE: return False
    return True
def reindex(F, b, i, e, real_z):
    """b ranges over the positions i of the filtered sequence F = [el(k) : k < N, keep(k)], e = F[i]: the same body over the
    indices k of the unfiltered sequence. F[i] is el(k), i is the number of kept indices below k, and a sum over the positions
    below i is a sum over the kept indices below k. Returns (k, keep(k), body)."""
    k = fresh('k', IDX); c = inst(F.args[1], k)
    m = {e: inst(F.args[2], k)}
    for x in subterms(b):
        if x.op in ('isum', 'rsum', 'fsum') and x.args[0] is i and not x.args[1].loose > 1 and i not in x.args[1].fv:
            j = fresh('i', IDX); y = inst(x.args[1], j); ej = At(F, j)
            sj = fresh('e', ej.sort)
            y = replace(y, {ej: sj})
            if j in y.fv: continue
            j2 = fresh('i', IDX)
            body = Ite(inst(F.args[1], j2), subst(y, {sj: inst(F.args[2], j2)}), real_z(x.op))
            m[x] = mk(x.op, (k, abst(body, j2)), None, x.sort)
    b2 = replace(b, m)
    cnt = norm(mk('isum', (k, abst(Ite(inst(F.args[1], (j := fresh('i', IDX))), ONE, ZERO), j)), None, INT))
    return k, c, subst(b2, {i: cnt})
def find_fseq(b, n, i):
    for x in subterms(b):
        if x.op == 'at' and x.args[1] is i and x.args[0].op == 'fseq':
            F = x.args[0]
            if not F.loose and norm(Len(F)) is n: return F
    return None

_norm = {}
FBIN = {'fadd': padd, 'fsub': psub, 'fmul': PMul, 'fdiv': lambda a, b: PMul(a, Inv(b))}
def bvsort(body, d=0, memo=None):
    """sort of the variable bv(d) in body"""
    if body.loose <= d: return None
    if body.op == 'bv': return body.sort if body.attr == d else None
    b = BIND.get(body.op)
    for i, a in enumerate(body.args):
        r = bvsort(a, d + (b[i] if b else 0))
        if r is not None: return r
    return None
def nsort(s):
    return REAL if s == F64 else s
def norm(t):
    r = _norm.get(t.id)
    if r is None:
        r = norm0(t); _norm[t.id] = r; _norm[r.id] = r
    return r
def norm_binder(t, i, k):
    """normalise argument i of t that binds k variables; returns body with loose variables"""
    a = t.args[i]
    syms = []
    body = a
    sorts = [nsort(bvsort(a, k - 1 - j) or IDX) for j in range(k)]
    syms = [fresh('v', s) for s in sorts]
    o = inst(body, *syms)
    return abst(norm(o), *syms)
def norm0(t):
    o = t.op
    if t.loose: raise ValueError('norm of an open term')
    if not t.args:
        if o == 'fspecial': return mk('rspecial', (), t.attr, REAL)
        if t.sort == F64: return F2R(t)
        return t
    if o in FBIN: return FBIN[o](norm(t.args[0]), norm(t.args[1]))
    if o == 'fneg': return pneg(norm(t.args[0]))
    if o == 'i2f': return I2R(norm(t.args[0]))
    if o == 'fabs': return RAbs(norm(t.args[0]))
    if o == 'fsqrt': return Sqrt(norm(t.args[0]))
    if o == 'fpowi':
        b, e = norm(t.args[0]), norm(t.args[1])
        if isc(e) and e.sort[0] == 'Int' and 0 <= e.attr <= 8:
            r = R(1)
            for _ in range(e.attr): r = PMul(r, b)
            return r
        if isc(b) and b.attr == 2: return RF('exp2', [I2R(e)])
        return mk('rf', (b, e), 'powi', REAL)
    if o in ('fmin', 'fmax'):
        return rextreme(o[1:], norm(t.args[0]), norm(t.args[1]))
    if o == 'ff':
        return RF(t.attr, [norm(x) for x in t.args])
    if o in ('flt', 'fle', 'feq'):
        a, b = norm(t.args[0]), norm(t.args[1])
        return cmp_lift(o, a, b)
    if o in ('fsum', 'rsum'): return nsum('rsum', norm(t.args[0]), norm_binder(t, 1, 1))
    if o == 'isum': return nsum('isum', norm(t.args[0]), norm_binder(t, 1, 1))
    if o in ('fsmax', 'fsmin'): return unfold(mkbind('r' + o[1:], norm(t.args[0]), norm_binder(t, 1, 1)))
    if o == 'iter':
        n, a = norm(t.args[0]), norm(t.args[1])
        return unfold(itern(n, a, norm_binder(t, 2, 2)))
    b = BIND.get(o)
    if b:
        args = tuple(norm_binder(t, i, b[i]) if b[i] else norm(a) for i, a in enumerate(t.args))
        r = rebuild(t, args) if o != 'sortby' else mk('sortby', args, t.attr, args[0].sort)
        return unfold(r)
    if o == 'eq' and t.args[0].sort[0] == 'Adt' and t.args[0].sort[1].startswith('ordered_float::'):
        return req(*[norm(Fld(a, 0, 0, F64)) for a in t.args])       # the order of OrderedFloat is that of its value
    args = tuple(norm(a) for a in t.args)
    if o in ('and', 'or'):
        r = keysets(rebuild(t, args))
        return r
    if o == 'poly':
        r = rebuild_poly(t, args)
        return cancel(r) if r.sort == REAL else r
    if o == 'con':
        return Con(t.attr, args, t.sort)
    if all(x is y for x, y in zip(args, t.args)): r = t
    else:
        r = rebuild(t, args)
    if o == 'at' and r.op == 'at' and r.args[0].op in ('sortby', 'shuffled'):
        r = norm(At(r.args[0].args[0], sidx(*r.args)))
    if r.sort == F64: r = F2R(r)
    return r
def _inst0(b, i): return At(mk('mkseq', (ZERO, b), None, SEQ(BOOL)), i)
def keysets(t):
    """finite maps of one size: when every key of the one occurs in the other, the ascending enumerations of their keys agree"""
    if t.op not in ('and', 'or'): return t
    ng = (lambda x: x) if t.op == 'and' else Not
    m = {}
    grp = {}
    for x in t.args:        # for every one of several maps
        y = ng(x)
        if y.op == 'all': grp.setdefault(y.args[0], []).append((x, y.args[1]))
    for N, ys in grp.items():
        if len(ys) < 2 or not any(b.op == 'all' and b.args[1].op == 'has' for _, b in ys): continue
        i = fresh('i', IDX); c = And(*[_inst0(b, i) for _, b in ys]); d = keysets(c)
        if d is not c: return norm((And if t.op == 'and' else Or)(*[x for x in t.args if all(x is not z for z, _ in ys)], ng(mkbind('all', N, abst(d, i)))))
    for x in t.args:
        y = ng(x)
        if y.op != 'all' or y.args[0].op != 'mlen' or y.args[1].op != 'has': continue
        A = y.args[0].args[0]; B, k = y.args[1].args
        if k.op != 'keyat' or uses0(B) or uses0(k.args[0]) or k.args[1].op != 'bv' or k.args[1].attr != 0: continue
        B = shift(B, -1); A2 = shift(k.args[0], -1)
        if A2 is not A: continue
        sz = Eq(MLen(A), MLen(B))
        if sz is TRUE or any(ng(z) is sz for z in t.args): m[x] = ng(All(MLen(A), lambda i: Eq(KeyAt(A, i), KeyAt(B, i))))
    if not m: return t
    return (And if t.op == 'and' else Or)(*[m.get(x, x) for x in t.args])
def sidx(s, i):
    """position in the unsorted sequence of the i-th element of a sorted / shuffled sequence"""
    return mk('sidx', (s, i), None, IDX)
def cmp_lift(o, a, b):
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite':
            f = (lambda z: cmp_lift(o, z, y)) if not sw else (lambda z: cmp_lift(o, y, z))
            return Ite(x.args[0], f(x.args[1]), f(x.args[2]))
    for x in (a, b):
        if x.op in ('undef', 'rspecial'): return mk('rcmp', (a, b), o, BOOL)
    if o == 'feq': return req(a, b)
    return rle(a, b) if o == 'fle' else Not(rle(b, a))
def as_int(a):
    """integer poly equal to a real term, when it is a linear combination of i2r atoms with integer coefficients (after scaling): (term, scale>0)"""
    at = patoms(a)
    if isc(a): return I(a.attr.numerator), Fraction(1, a.attr.denominator)
    if any(x.op != 'i2r' for x in at.values()): return None
    d = pdict(a); l = 1
    from math import lcm
    for v in d.values(): l = lcm(l, Fraction(v).denominator)
    acc = ZERO
    for k, v in d.items():
        m = I(int(v * l))
        for i, e in k:
            for _ in range(e): m = imul(m, at[i].args[0])
        acc = iadd(acc, m)
    return acc, Fraction(1, l)
def rle(a, b):
    d = psub(a, b)
    x = as_int(d)
    if x is not None: return le0(x[0])
    return le0(d)
def req(a, b):
    d = psub(a, b)
    x = as_int(d)
    if x is not None: return Eq(x[0], ZERO)
    return Eq(a, b)
def RF(name, args):
    for i, a in enumerate(args):
        if a.op == 'ite':
            return Ite(a.args[0], RF(name, args[:i] + [a.args[1]] + args[i+1:]), RF(name, args[:i] + [a.args[2]] + args[i+1:]))
    if name == 'log2' and isc(args[0]) and args[0].attr > 0:
        v = args[0].attr; e = 0
        while v.denominator == 1 and v.numerator % 2 == 0: v = v / 2; e += 1
        if v == 1: return R(e)
    if name == 'ln' and isc(args[0]) and args[0].attr == 1: return R(0)
    if name == 'exp2' and isc(args[0]) and args[0].attr.denominator == 1 and abs(args[0].attr) < 64: return R(Fraction(2) ** int(args[0].attr))
    if name == 'pow': name = 'powf'
    if name == 'powf' and isc(args[0]) and args[0].attr == 2: return RF('exp2', [args[1]])
    if name == 'powf' and isc(args[1]) and args[1].attr.denominator == 1 and 0 <= args[1].attr <= 8:
        r = R(1)
        for _ in range(int(args[1].attr)): r = PMul(r, args[0])
        return r
    return mk('rf', tuple(args), name, REAL)

def rextreme(o, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'rspecial' and x.attr == ('-inf' if o == 'max' else 'inf'): return y
        if x.op == 'ite' and x.args[1].op == 'rspecial': return Ite(x.args[0], rextreme(o, x.args[1], y), rextreme(o, x.args[2], y))
    return Ite(Le(a, b), a, b) if o == 'min' else Ite(Le(a, b), b, a)
def unfold(t):
    """binders with a bound m + c, m >= 0: peel the last elements"""
    o = t.op
    if o not in ('all', 'first', 'fseq', 'flat', 'mofseq', 'iter', 'rsmax', 'rsmin') or t.args[0].loose: return t
    so = split_off(t.args[0]) if o[0] != 'r' or not isc(t.args[0]) or not 1 <= t.args[0].attr <= 4 else (ZERO, int(t.args[0].attr))
    if not so: return t
    m, c = so
    last = iadd(m, I(c - 1))
    rest = iadd(m, I(c - 1))
    body = t.args[-1]
    if o in ('rsmax', 'rsmin'):
        e = inst(body, last)
        if isc(rest) and rest.attr == 0: return e
        prev = unfold(rebuild(t, (rest,) + t.args[1:]))
        r = rextreme(o[2:], prev, e)
        return r if c > 1 else Ite(Eq(rest, ZERO), e, r)
    prev = unfold(rebuild(t, (rest,) + t.args[1:]))
    if o == 'all': return And(prev, inst(body, last))
    if o == 'first': return Ite(Lt(prev, rest), prev, Ite(inst(body, last), rest, iadd(rest, ONE)))
    if o == 'fseq': return Ite(inst(t.args[1], last), Concat(prev, SeqLit([inst(t.args[2], last)])), prev)
    if o == 'flat': return Concat(prev, inst(body, last))
    if o == 'mofseq': return MIns(prev, inst(t.args[1], last), inst(t.args[2], last))
    if o == 'iter': return inst(body, prev, last)

def cons_real():
    CONS['f2r'] = lambda t, a: F2R(a[0])
    CONS['i2r'] = lambda t, a: I2R(a[0])
    CONS['inv'] = lambda t, a: Inv(a[0])
    CONS['rsqrt'] = lambda t, a: Sqrt(a[0])
    CONS['rabs'] = lambda t, a: RAbs(a[0])
    CONS['rf'] = lambda t, a: RF(t.attr, list(a))
    CONS['rsum'] = lambda t, a: nsum('rsum', *a) if not a[0].loose and a[1].loose <= 1 else mkbind('rsum', *a)
    CONS['isum'] = lambda t, a: nsum('isum', *a) if t.sort[0] == 'Int' and _inprover[0] and not a[0].loose and a[1].loose <= 1 else mkbind('isum', *a)
    CONS['rcmp'] = lambda t, a: cmp_lift(t.attr, *a)
_inprover = [False]
cons_real()

# ================================================================ z3 back end
VS = z3.DeclareSort('V')
STRZ = [False]       # string mode: strings are z3 sequences (otherwise an opaque sort)
def zsort(s):
    k = s[0]
    if STRZ[0] and s == STR: return z3.StringSort()
    if k == 'Bool': return z3.BoolSort()
    if k == 'Int': return z3.IntSort()
    if k in ('Real', 'F64'): return z3.RealSort()
    return VS
def zesc(s): return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)
def intparse(t):
    """integer sort a parse result holds"""
    s = t.sort
    for x in s[1:] if isinstance(s, tuple) else ():
        for y in x if isinstance(x, tuple) and x and isinstance(x[0], tuple) else (x,):
            if isinstance(y, tuple) and y and y[0] == 'Int': return y
def zname(s): return ''.join(c if c.isalnum() else '_' for c in s[:20])
def cvc5(s, ms):
    """queries over strings go to cvc5"""
    import subprocess
    try: r = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={ms}', '--strings-exp', '-'], input='(set-logic ALL)\n' + s.to_smt2(), capture_output=True, text=True, timeout=ms / 1000 + 10)
    except subprocess.TimeoutExpired: TOUTS[0] += 1; return False
    if r.stdout.strip() not in ('sat', 'unsat'): TOUTS[0] += 1
    return r.stdout.strip() == 'unsat'
TOUTS = [0]
def unsat(s):
    r = s.check()
    if r == z3.unknown and s.reason_unknown() in ('timeout', 'canceled', 'max. resource limit exceeded'): TOUTS[0] += 1
    return r == z3.unsat
class Z:
    """one query"""
    def __init__(self, prover):
        self.p = prover
        self.memo = {}; self.ax = []; self.decls = {}; self.seen = set(); self.bound = []
        self.pend = []; self.skel = {}; self.nv = 0; self.counts = []; self.decs = []; self.parses = []
    def fn(self, name, dom, ran):
        k = (name, tuple(str(d) for d in dom), str(ran))
        f = self.decls.get(k)
        if f is None:
            f = z3.Function(f'f{len(self.decls)}_{zname(name)}', *dom, ran); self.decls[k] = f
        return f
    def app(self, name, args, ran):
        if not args:
            k = ('const', name, str(ran))
            c = self.decls.get(k)
            if c is None: c = z3.Const(f'c{len(self.decls)}_{zname(name)}', ran); self.decls[k] = c
            return c
        return self.fn(name, [a.sort() for a in args], ran)(*args)
    def tz(self, t, env=()):
        key = (t.id, env) if t.loose else t.id
        r = self.memo.get(key)
        if r is None:
            r = self.tz0(t, env); self.memo[key] = r
            self.axioms(t, r, env)
        return r
    def co(self, x, s):
        """coerce z3 term to sort s"""
        if x.sort() == s: return x
        if x.sort() == z3.IntSort() and s == z3.RealSort(): return z3.ToReal(x)
        return self.fn(f'co_{x.sort()}_{s}', [x.sort()], s)(x)
    def tz0(self, t, env):
        o = t.op; T = lambda x: self.tz(x, env)
        if o == 'c':
            if t.sort == BOOL: return z3.BoolVal(t.attr)
            if t.sort[0] == 'Int': return z3.IntVal(t.attr)
            return z3.RealVal(str(t.attr))
        if o == 'sym': return self.app(f'sym:{t.attr}', [], zsort(t.sort))
        if o == 'bv': return env[t.attr]
        if STRZ[0]:
            if o == 's': return z3.StringVal(zesc(t.attr))
            if o == 'strcat': return z3.Concat(*[T(x) for x in t.args])
            if o == 'uf' and t.attr == 'str.after': return z3.SubString(T(t.args[0]), z3.Length(T(t.args[1])), z3.Length(T(t.args[0])))
            if o == 'uf' and t.attr == 'str.starts': return z3.PrefixOf(T(t.args[1]), T(t.args[0]))
            if o == 'uf' and t.attr == 'str.has': return z3.Contains(T(t.args[0]), T(t.args[1]))
            if o == 'uf' and t.attr == 'str.ends': return z3.SuffixOf(T(t.args[1]), T(t.args[0]))
            if o == 'uf' and t.attr == 'str.upto': return z3.SubString(T(t.args[0]), 0, z3.Length(T(t.args[0])) - z3.Length(T(t.args[1])))
            if o == 'uf' and t.attr == 'str.digits': return z3.InRe(T(t.args[0]), z3.Plus(z3.Range('0', '9')))
        if o == 's': return self.app(f's:{t.attr}', [], VS)
        if o == 'not': return z3.Not(T(t.args[0]))
        if o == 'and': return z3.And(*[T(x) for x in t.args])
        if o == 'or': return z3.Or(*[T(x) for x in t.args])
        if o == 'ite':
            a, b = T(t.args[1]), T(t.args[2])
            if a.sort() != b.sort(): s = zsort(t.sort); a, b = self.co(a, s), self.co(b, s)
            return z3.If(T(t.args[0]), a, b)
        if o in ('eq', 'eq0'):
            if o == 'eq0': return T(t.args[0]) == 0
            a, b = T(t.args[0]), T(t.args[1])
            if a.sort() != b.sort(): b = self.co(b, a.sort())
            return a == b
        if o == 'le': return T(t.args[0]) <= 0
        if o == 'poly':
            at = {a.id: T(a) for a in t.args}; real = t.sort == REAL
            s = []
            for k, v in t.attr:
                m = [z3.RealVal(str(v)) if real else z3.IntVal(v)] if v != 1 or not k else []
                for i, e in k: m += [self.co(at[i], z3.RealSort() if real else z3.IntSort())] * e
                x = m[0]
                for y in m[1:]: x = x * y
                s.append(x)
            return z3.Sum(s) if len(s) > 1 else s[0]
        if o == 'imin' or o == 'imax':
            r = T(t.args[0])
            for x in t.args[1:]:
                y = T(x); r = z3.If(r <= y, r, y) if o == 'imin' else z3.If(r >= y, r, y)
            return r
        if o == 'i2r': return z3.ToReal(T(t.args[0]))
        if o == 'rabs':
            x = T(t.args[0]); return z3.If(x >= 0, x, -x)
        if o == 'idiv':
            a, b = T(t.args[0]), T(t.args[1])
            return z3.If(z3.And(a >= 0, b > 0), a / b, self.app('idiv', [a, b], z3.IntSort()))
        if o == 'imod':
            a, b = T(t.args[0]), T(t.args[1])
            return z3.If(z3.And(a >= 0, b > 0), a % b, self.app('imod', [a, b], z3.IntSort()))
        if o in ('olt', 'oflt'):
            a, b = T(t.args[0]), T(t.args[1])
            return self.rank(a) < self.rank(b)
        if o == 'all':
            n = T(t.args[0]); i = z3.Int(f'q{self.nv}'); self.nv += 1
            b = self.tz(t.args[1], (i,) + env)
            return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), b))
        if BIND.get(o):
            k, holes = self.skeleton(t)
            return self.app(f'{o}#{k}', [T(h) for h in holes], zsort(t.sort))
        if o == 'varis': return self.app('variant', [T(t.args[0])], z3.IntSort()) == t.attr
        args = [T(x) for x in t.args]
        return self.app(f'{o}|{t.attr}', args, zsort(t.sort))
    def rank(self, x):
        r = self.fn('rank', [x.sort()], z3.RealSort())(x)
        k = ('rank', x.get_id())
        if k not in self.seen and not has_var(x):
            self.seen.add(k); self.ax.append(self.fn('unrank', [z3.RealSort()], x.sort())(r) == x)
        return r
    def skeleton(self, t):
        r = self.skel.get(t.id)
        if r is not None: return r
        holes = []; idx = {}
        def go(x, d, top=False):
            # x at depth d of own binders
            if not top and (x.loose <= 0 or not uses_below(x, d)) and x.op not in ('c', 's'):
                y = shift_down(x, d)
                if y.id not in idx: idx[y.id] = len(holes); holes.append(y)
                return mk('hole', (), (idx[y.id], zsort(x.sort).name()), x.sort)
            if x.op == 'bv' or not x.args: return x
            b = BIND.get(x.op)
            if x.op == 'poly':
                m = {a.id: go(a, d) for a in x.args}
                return mk('poly', tuple(sorted(m.values(), key=lambda a: a.id)), tuple(sorted((tuple(sorted((m[i].id, e) for i, e in k)), v) for k, v in x.attr)), x.sort)
            return mk(x.op, tuple(go(a, d + (b[i] if b else 0)) for i, a in enumerate(x.args)), x.attr, x.sort)
        sk = go(t, 0, True)
        r = (sk.id, holes)
        self.skel[t.id] = r
        return r
    # ------------------------------------------------------------ axioms on atoms
    def axioms(self, t, z, env):
        if t.loose: return        # only for closed atoms
        o = t.op; A = self.ax.append
        if t.sort[0] == 'Int' and o not in ('c', 'poly', 'ite', 'imin', 'imax'):
            lo, hi = rng(t)
            if lo is not None: A(z >= lo)
            if hi is not None: A(z <= hi)
        if o == 'inv':
            x = self.tz(t.args[0]); A(z3.Implies(x != 0, x * z == 1)); A(z3.Implies(x > 0, z > 0)); A(z3.Implies(x < 0, z < 0))
        elif o == 'rsqrt':
            x = self.tz(t.args[0]); A(z3.Implies(x >= 0, z3.And(z >= 0, z * z == x))); A(z3.Implies(x > 0, z > 0))
        elif o == 'first':
            n = self.tz(t.args[0]); i = z3.Int(f'q{self.nv}'); self.nv += 1
            A(z <= z3.If(n >= 0, n, 0)); A(z >= 0)
            A(z3.Implies(z < n, self.tz(inst(t.args[1], t))))
            b = self.tz(t.args[1], (i,))
            A(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z), z3.Not(b))))
        elif o == 'isum' and t.args[1].op == 'ite' and t.args[1].args[1] is ONE and t.args[1].args[2] is ZERO:
            n = self.tz(t.args[0]); i = z3.Int(f'q{self.nv}'); self.nv += 1
            b = self.tz(t.args[1].args[0], (i,))
            A(z >= 0); A(z <= z3.If(n >= 0, n, 0))
            A((z == 0) == z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(b))))
            A((z >= n) == z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), b)))
            self.counts.append((t, z))
        elif o in ('isum', 'rsum'):
            n = self.tz(t.args[0])
            if self.p.nonneg_body(t): A(z >= 0)
            A(z3.Implies(n <= 0, z == 0))
        elif o == 'has':
            m, k = t.args
            base = m
            while base.op == 'mcomp': base = base.args[0]
            if not base.loose:
                ix = MIdx(base, k); ka = KeyAt(base, ix)
                if ix.op == 'midx':
                    zi = self.tz(ix); zl = self.tz(MLen(base))
                    A(z3.Implies(z, z3.And(zi >= 0, zi < zl, self.tz(ka) == self.tz(k))))
        elif o == 'keyat':
            m, i = t.args
            zi = self.tz(i)
            A(z3.Implies(z3.And(zi >= 0, zi < self.tz(MLen(m))), z3.And(self.fn('hasz', [VS, z.sort()], z3.BoolSort())(self.tz(m), z), self.hasz(m, z))))
            self.kat(m, i, z, zi)
        elif o == 'sidx':
            zi = self.tz(t.args[1]); L = self.tz(norm(Len(t.args[0].args[0])))
            A(z3.Implies(z3.And(zi >= 0, zi < L), z3.And(z >= 0, z < L)))
        elif STRZ[0] and o == 'uf' and t.attr in ('str.split_once0', 'str.split_once1', 'str.rsplit_once0', 'str.rsplit_once1'):
            s, p = self.tz(t.args[0]), self.tz(t.args[1]); f = lambda i: self.tz(UF(t.attr[:-1] + i, STR, *t.args))
            A(z3.Implies(z3.Contains(s, p), z3.And(s == z3.Concat(f('0'), p, f('1')), z3.Not(z3.Contains(f('0') if 'rsplit' not in t.attr else f('1'), p)))))
        elif STRZ[0] and o == 'uf' and t.attr in ('re.has', 're.group'): self.tz(UF('re.match', BOOL, t.args[0], t.args[1]))
        elif STRZ[0] and o == 'uf' and t.attr == 're.match':
            import strs
            rx = strs.regex(t.args[0].attr); n = lambda g: UF('re.group', STR, t.args[0], t.args[1], I(g))
            for f in strs.facts(rx, self.tz(t.args[1]), z, lambda g: self.tz(n(g)), lambda g: self.tz(UF('re.has', BOOL, t.args[0], t.args[1], I(g))), t.id): A(f)
        elif STRZ[0] and o == 'uf' and t.attr == 'dec':
            d = z3.Range('0', '9')
            A(z3.InRe(z, z3.Union(z3.Re('0'), z3.Concat(z3.Range('1', '9'), z3.Star(d))))) if (rng(t.args[0])[0] or -1) >= 0 or rng(t.args[0])[0] == 0 else None
            self.decs.append((self.tz(t.args[0]), z))
            for x, ok, val, lo, hi in self.parses: self.decparse(self.tz(t.args[0]), z, x, ok, val, lo, hi)
        elif STRZ[0] and o == 'uf' and t.attr.startswith('parse_') and intparse(t):
            so = intparse(t); x = self.tz(t.args[0]); ok = self.tz(VarIs(t, 0)); val = self.tz(Fld(t, 0, 0, so))
            lo, hi = rng(Fld(t, 0, 0, so))
            sg = z3.Option(z3.Re('+')) if so[1].startswith('u') else z3.Option(z3.Union(z3.Re('+'), z3.Re('-')))
            A(z3.Implies(ok, z3.InRe(x, z3.Concat(sg, z3.Plus(z3.Range('0', '9'))))))
            self.parses.append((x, ok, val, lo, hi))
            for n, zz in self.decs: self.decparse(n, zz, x, ok, val, lo, hi)
        elif o == 'uf' and t.attr == 'rng.below':
            n = self.tz(t.args[1]); A(z >= 0); A(z3.Implies(n > 0, z < n))
        elif o == 'rf' and t.attr == 'log2':
            x = self.tz(t.args[0]); A(z3.Implies(x > 1, z > 0)); A(z3.Implies(x >= 2, z >= 1)); A(z3.Implies(x == 1, z == 0))
        elif o == 'rf' and t.attr == 'exp2':
            x = self.tz(t.args[0]); A(z > 0); A(z3.Implies(x >= 0, z >= 1)); A(z3.Implies(x == 0, z == 1)); A(z3.Implies(x >= 1, z >= 2))
        if o == 'rf' and t.attr in ('log2', 'exp2'):
            ms = self.__dict__.setdefault('monos', {}).setdefault(t.attr, [])
            for x2, z2 in ms[:4]:
                for (a, b), (c, d) in (((x, z), (x2, z2)), ((x2, z2), (x, z))): A(z3.Implies(a <= c if o != 'log2' else z3.And(a > 0, a <= c), b <= d))
            ms.append((x, z))
    def decparse(self, n, zd, x, ok, val, lo, hi):
        """parsing the decimal form of a number of the type gives the number back"""
        self.ax.append(z3.Implies(z3.And(x == zd, n >= lo, n <= hi), z3.And(ok, val == n)))
    def hasz(self, m, z):
        return self.fn('has|None', [VS, z.sort()], z3.BoolSort())(self.tz(m), z)
    def kat(self, m, i, z, zi):
        for m2, i2, z2, zi2 in getattr(self, 'keyats', []):
            if m2 is m:
                L = self.tz(MLen(m))
                g = z3.And(0 <= zi, zi < L, 0 <= zi2, zi2 < L)
                self.ax.append(z3.Implies(z3.And(g, zi < zi2), self.rank(z) < self.rank(z2)))
                self.ax.append(z3.Implies(z3.And(g, zi2 < zi), self.rank(z2) < self.rank(z)))
                self.ax.append(z3.Implies(z3.And(g, zi2 == zi), z2 == z))
        if not hasattr(self, 'keyats'): self.keyats = []
        self.keyats.append((m, i, z, zi))

def pos_alls(f):
    """closed universal subformulas of a clause that occur only positively"""
    if f.op not in ('or', 'and'): return []
    out = []
    def go(x):
        if x.op == 'all' and not x.loose: out.append(x)
        elif x.op in ('or', 'and'):
            for a in x.args: go(a)
    go(f)
    def neg(x, y):
        return x.op not in ('or', 'and') and x is not y and any(z is y for z in subterms(x)) or x.op in ('or', 'and') and any(neg(a, y) for a in x.args)
    return [y for y in out if not neg(f, y)]
def has_var(x): return False
def uses_below(x, d):
    """x (at depth d of own binders) mentions one of the own bound variables bv(0..d-1)"""
    def go(t, c):
        if t.loose <= c: return False
        if t.op == 'bv': return c <= t.attr < c + d
        b = BIND.get(t.op)
        return any(go(a, c + (b[i] if b else 0)) for i, a in enumerate(t.args))
    return go(x, 0)
def shift_down(x, d):
    if d == 0 or x.loose == 0: return x
    def go(t, c):
        if t.loose <= c: return t
        if t.op == 'bv': return bv(t.attr - d, t.sort) if t.attr >= c else t
        b = BIND.get(t.op)
        if t.op == 'poly': return rebuild_poly(t, tuple(go(a, c) for a in t.args))
        return mk(t.op, tuple(go(a, c + (b[i] if b else 0)) for i, a in enumerate(t.args)), t.attr, t.sort)
    return go(x, 0)

# ================================================================ prover
class Fail(Exception): pass
RANGEB = {'isum', 'rsum', 'fsum', 'all', 'first', 'mkseq', 'fseq', 'flat', 'mofseq', 'rsmax', 'rsmin', 'smax', 'smin', 'fsmax', 'fsmin'}

def isq(f):
    """a quantified axiom (an equation with or a top-level universal)"""
    return z3.is_quantifier(f) or any(z3.is_quantifier(x) or any(z3.is_quantifier(y) for y in x.children()) for x in f.children())
def strip_common(a, b):
    """pairs whose equality makes the concatenations a and b equal, after common parts were dropped; None when nothing is in common"""
    def parts(t): return parts(t.args[0]) + parts(t.args[1]) if t.op == 'concat' else [] if isempty(t) else [t]
    x, y = parts(a), parts(b); prog = False
    while x and y:
        p, q = x[0], y[0]
        if p is q: x.pop(0); y.pop(0); prog = True; continue
        if p.op == q.op == 'mkseq' and p.args[1] is q.args[1]:
            n, m = p.args[0], q.args[0]; d = psub(n, m)
            lo, hi = rng(n)[0], rng(m)[0]
            if not isc(d) or lo is None or lo < 0 or hi is None or hi < 0: break
            k = d.attr; prog = True
            x.pop(0); y.pop(0)
            if k > 0: x.insert(0, norm(MkSeq(I(k), lambda i, p=p, m=m: inst(p.args[1], iadd(m, i)))))
            elif k < 0: y.insert(0, norm(MkSeq(I(-k), lambda i, q=q, n=n: inst(q.args[1], iadd(n, i)))))
            continue
        break
    while x and y and x[-1] is y[-1]: x.pop(); y.pop(); prog = True
    if not prog: return None
    if len(x) == len(y): return list(zip(x, y))
    def join(l):
        r = EMPTYSEQ
        for t in l: r = Concat(r, t)
        return norm(r)
    return [(join(x), join(y))]
class Prover:
    def __init__(self, timeout=2500, budget=None):
        self.timeout = timeout; self.nq = 0; self.tq = 0.0; self.cache = {}; self.trace = []; self.eqc = {}
        self.deadline = None; self.lemmas = []
        self.budget = budget
    # ------------------------------------------------------------ z3
    def check(self, hyps, goal):
        """True iff hyps |= goal is proved"""
        r = self.check0(hyps, goal)
        if not r and not (self.deadline and time.time() > self.deadline):
            e = self.elim(hyps, goal)
            if e is not None: r = self.check0(*e)
        return r
    def elim(self, hyps, goal):
        """substitute away the index symbols that the hypotheses determine (sym = term); None when there are none"""
        hs = list(hyps); prog = False
        for _ in range(12):
            les = {}; eqs = []
            for h in hs:
                for x in conj(h):
                    if x.loose or x.op not in ('le', 'eq0') or x.args[0].sort[0] != 'Int': continue
                    if x.op == 'eq0': eqs.append(x.args[0]); continue
                    les[x.args[0].id] = x.args[0]
            for p in les.values():
                if psub(ZERO, p).id in les: eqs.append(p)
            done = False
            for p in eqs:
                d = pdict(p)
                for a in patoms(p).values():
                    q = d.get(((a.id, 1),), 0)
                    if a.op == 'sym' and q in (1, -1):
                        rest = psub(p, a) if q == 1 else padd(p, a)
                        if a in rest.fv: continue
                        if isc(rest) and False: continue
                        m = {a: pneg(rest) if q == 1 else rest}
                        hs = [norm(subst(h, m)) for h in hs]; goal = norm(subst(goal, m))
                        done = prog = True; break
                if done: break
            if not done: break
        if not prog: return None
        return self.addh((), *hs), goal
    def check0(self, hyps, goal):
        hyps = [h for h in hyps if h is not TRUE]
        if goal is TRUE or FALSE in hyps: return True
        if goal in hyps: return True
        key = (frozenset(h.id for h in hyps), goal.id)
        r = self.cache.get(key)
        if r is not None: return r
        if self.deadline and time.time() > self.deadline: return False
        t0 = time.time()
        z = Z(self)
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', self.timeout)
        try:
            fs = [z.tz(h) for h in self.instances(self.witnesses(hyps + [Not(goal)]))]
            for f in fs: s.add(f)
            quant = [f for f in z.ax if isq(f)]
            for f in z.ax:
                if not isq(f): s.add(f)
            r = unsat(s) if not STRZ[0] and quant else False
            if not r:
                for f in quant: s.add(f)
                r = unsat(s) if not STRZ[0] else cvc5(s, self.timeout)
            if not r:
                # facts about pairs of sums over one range
                nax = len(z.ax); more = []
                for h in hyps + [goal]:
                    for q in sumsigns(h): more.append(z.tz(q) >= 0)
                for a, za in list(z.counts):
                    for b, zb in list(z.counts):
                        if a is not b and a.args[0] is b.args[0] and self.count_le(a, b):
                            more.append(za <= zb)
                            i = z3.Int(f'q{z.nv}'); z.nv += 1
                            more.append((za == zb) == z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z.tz(a.args[0])), z3.Not(z.tz(And(b.args[1].args[0], Not(a.args[1].args[0])), (i,))))))
                if more:
                    for f in more + z.ax[nax:]: s.add(f)
                    r = unsat(s) if not STRZ[0] else cvc5(s, self.timeout)
        except z3.Z3Exception as e:
            self.trace.append(('z3exc', str(e)[:200])); r = False
        self.nq += 1; self.tq += time.time() - t0
        self.cache[key] = r
        return r
    def cdiff(self, p):
        """p = +-(A - B), the counts of a and b over one range n where b implies a (or A = n): (n, a and not b)"""
        d = pdict(p)
        if p.op != 'poly' or d.get((), 0): return None
        at = patoms(p)
        cnt = lambda x: x.op == 'isum' and x.args[1].op == 'ite' and x.args[1].args[1] is ONE and x.args[1].args[2] is ZERO and not x.loose
        cs = [(at[k[0][0]], v) for k, v in sorted(d.items()) if len(k) == 1 and k[0][1] == 1]
        if len(cs) == len(d) == 2 and cs[0][1] + cs[1][1] == 0 and abs(cs[0][1]) == 1 and cnt(cs[0][0]) and cnt(cs[1][0]) and cs[0][0].args[0] is cs[1][0].args[0]:
            for a, b in (cs, cs[::-1]):
                if self.count_le(b[0], a[0]): return a[0].args[0], And(a[0].args[1].args[0], Not(b[0].args[1].args[0]))
        for x, v in cs:
            if cnt(x) and abs(v) == 1 and (psub(p, x) if v == 1 else padd(p, x)) is (pneg(x.args[0]) if v == 1 else x.args[0]): return x.args[0], Not(x.args[1].args[0])
        return None
    def witnesses(self, hs):
        """skolemise existential facts with closed witnesses (so that the axioms of the atoms they mention apply)"""
        out = []; work = [x for h in hs for x in conj(h)]; seen = set()
        while work:
            h = work.pop()
            if h.id in seen: continue
            seen.add(h.id); out.append(h)
            body = None
            if h.op == 'not' and h.args[0].op == 'all': n, body = h.args[0].args[0], Not(h.args[0].args[1]) if h.args[0].args[1].sort == BOOL else None
            else:
                c = None
                if h.op == 'not' and h.args[0].op == 'eq0': c = h.args[0].args[0]
                elif h.op == 'le': 
                    d = pdict(h.args[0])
                    if len(d) == 2 and d.get((), 0) >= 1:
                        (k, v), = [(k, v) for k, v in d.items() if k]
                        if v < 0 and len(k) == 1 and k[0][1] == 1: c = patoms(h.args[0])[k[0][0]]
                    elif d.get((), 0) == 1 and len(d) > 2 and h.args[0].sort[0] == 'Int': c = psub(ONE, h.args[0])
                if c is not None and c.op == 'poly' and c.sort[0] == 'Int':
                    cd = self.cdiff(c)
                    if cd: n, body = cd[0], cd[1]
                if c is not None and c.op == 'isum' and c.args[1].op == 'ite' and c.args[1].args[1] is ONE and c.args[1].args[2] is ZERO: n, body = c.args[0], c.args[1].args[0]
            if body is None or h.loose: continue
            w = sym(f'wit{h.id}', IDX)
            for x in conj(And(Le(ZERO, w), Lt(w, n), inst(body, w))):
                x = norm(x)
                work += conj(x)
        return out
    def instances(self, hs):
        """ground instances of universal facts at the indices the query mentions (z3 then needs no quantifier reasoning for these)"""
        out = list(hs); done = set(); facts = list(hs)
        for rnd in range(2):
            univ = []; idx = {}
            seen = set(); work = list(facts)
            for h in facts:
                for x in conj(h):
                    if x.op == 'all' and not x.loose: univ.append((x.args[0], x.args[1], None, None))
                    else:
                        for y in pos_alls(x): univ.append((y.args[0], y.args[1], x, y))
            while work:
                x = work.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if not x.loose:
                    if x.op == 'first': univ.append((x, Not(x.args[1]), None, None))
                    if x.op in ('keyat', 'at', 'sidx'): idx.setdefault((x.op, x.args[0].id), set()).add(x.args[1])
                work += x.args
            new = []
            for n, body, whole, part in univ:
                pats = set(); w = [body]; sb = set()
                while w:
                    y = w.pop()
                    if y.id in sb: continue
                    sb.add(y.id)
                    if y.op in ('keyat', 'at', 'sidx') and not y.args[0].loose and y.args[1].loose == 1:
                        e = y.args[1]
                        c = ZERO if e.op == 'bv' else psub(e, bv(0, IDX)) if e.op == 'poly' else None
                        if c is not None and not c.loose: pats.add((y.op, y.args[0].id, c))
                    w += y.args if not BIND.get(y.op) else [z for z, k in zip(y.args, BIND[y.op]) if k == 0]
                for o, m, c in pats:
                    for i in idx.get((o, m), ()):
                        j = isub(i, c)
                        k = (body.id, n.id, j.id, whole and whole.id)
                        if k in done or len(done) > 60: continue
                        done.add(k)
                        f = Implies(And(Le(ZERO, j), Lt(j, n)), inst(body, j))
                        if whole is not None: f = replace(whole, {part: f})
                        f = norm(f)
                        if f is not TRUE: new.append(f)
                nc = n.args[0] if n.op == 'first' else n
                if isc(nc) and nc.attr <= 3 and rnd == 0:
                    for q in range(int(nc.attr)):
                        j = I(q); k = (body.id, n.id, j.id, whole and whole.id)
                        if k in done: continue
                        done.add(k)
                        f = Implies(Lt(j, n), inst(body, j))
                        if whole is not None: f = replace(whole, {part: f})
                        f = norm(f)
                        if f is not TRUE: new.append(f)
            if not new: break
            # unit facts are split so that their universals are seen in the next round
            known = [h for h in out]
            nf = []
            for f in new:
                g = self.simp(f, [h for h in known if len(h.args) < 12][:60]) if rnd == 0 else f
                for x in conj(g): nf.append(x)
            out += nf; facts = facts + nf
        return out
    def count_le(self, a, b):
        k = ('cle', a.id, b.id)
        if k in self.cache: return self.cache[k]
        self.cache[k] = False
        i = fresh('i', IDX)
        ca, cb = inst(a.args[1].args[0], i), inst(b.args[1].args[0], i)
        r = implied(ca, cb)
        self.cache[k] = r
        return r
    def nonneg_body(self, t):
        b = t.args[1]
        k = ('nn', t.id)
        if k in self.cache: return self.cache[k]
        i = fresh('i', IDX)
        x = inst(b, i)
        r = nonneg(x)
        self.cache[k] = r
        return r
    # ------------------------------------------------------------ simplification under hypotheses
    def simp(self, t, H):
        if not t.args: return t
        ub = {}
        for h in H:
            for a in conj(h):
                if a.op == 'le' and a.args[0].sort[0] == 'Int' and not a.loose:
                    d = pdict(a.args[0]); c = d.get((), 0)
                    k = tuple(sorted((m, q) for m, q in d.items() if m != ()))
                    if k not in ub or -c < ub[k]: ub[k] = -c
                elif a.op == 'eq0' and a.args[0].sort[0] == 'Int' and not a.loose:
                    d = pdict(a.args[0]); c = d.get((), 0)
                    k = tuple(sorted((m, q) for m, q in d.items() if m != ()))
                    n = tuple(sorted((m, -q) for m, q in k))
                    if k not in ub or -c < ub[k]: ub[k] = -c
                    if n not in ub or c < ub[n]: ub[n] = c
        m = {}
        if has_minmax(t):
            for x in subterms(t):
                if x.op in ('imin', 'imax') and not x.loose and len(x.args) == 2:
                    for y, z in (x.args, x.args[::-1]):
                        d = pdict(psub(y, z)); c = d.pop((), 0)
                        u = ub.get(tuple(sorted(d.items())))
                        if u is not None and u + c <= 0: m[x] = y if x.op == 'imin' else z      # y <= z
        c = And(*H)
        for x in conj(c):
            if x.loose or x.op == 'c': continue
            m[x] = TRUE
            nx = Not(x)
            if nx.op != 'and' and not nx.loose: m[nx] = FALSE
            other_variants(x, m)
        # simple variable elimination: sym == term
        fv = t.fv
        for x in conj(c):
            if x.op == 'le' and x.args[0].op == 'sym' and rng(x.args[0])[0] == 0 and x.args[0] in fv:
                t = norm(subst(t, {x.args[0]: ZERO})); fv = t.fv
            if x.op == 'eq0' and x.args[0].sort[0] == 'Int' and not x.loose:
                for a in patoms(x.args[0]).values():
                    if a.op == 'sym' and a in fv:
                        q = pdict(x.args[0]).get(((a.id, 1),), 0)
                        if q in (1, -1):
                            rest = psub(x.args[0], a) if q == 1 else padd(x.args[0], a)
                            if a not in rest.fv:
                                t = norm(subst(t, {a: pneg(rest) if q == 1 else rest}))
                                fv = t.fv
                                break
        if ub:
            for x in subterms(t):
                if x.op in ('le', 'eq0') and not x.loose and x.args[0].sort[0] == 'Int' and x not in m:
                    d = pdict(x.args[0]); c0 = d.get((), 0)
                    k = tuple(sorted((mm, q) for mm, q in d.items() if mm != ()))
                    n = tuple(sorted((mm, -q) for mm, q in k))
                    hi = ub.get(k); lo = ub.get(n); lo = None if lo is None else -lo
                    if x.op == 'le':
                        if hi is not None and hi + c0 <= 0: m[x] = TRUE
                        elif lo is not None and lo + c0 > 0: m[x] = FALSE
                    else:
                        if (hi is not None and hi + c0 < 0) or (lo is not None and lo + c0 > 0): m[x] = FALSE
                        elif hi is not None and lo is not None and hi == lo and hi + c0 == 0: m[x] = TRUE
        if not m: return t
        r = replace(t, m)
        return norm(r) if r is not t else t
    # ------------------------------------------------------------ equality
    def eq(self, a, b, H=(), depth=0):
        """H |= a = b (semantic equality); records the innermost failing pair"""
        a, b = norm(a), norm(b)
        H = tuple(h for h in (norm(h) for h in H) if h is not TRUE)
        mark = len(self.trace)
        if self._eq(a, b, H, depth): return True
        H2 = self.addh((), *H)
        for _ in range(4):              # the hypotheses simplified under each other, until nothing changes
            H3 = self.simp_hyps(H2)
            if any(has_first(h) for h in H3): H3 = self.addh((), *(self.firsts(h, H3[:i] + H3[i+1:]) for i, h in enumerate(H3)))
            if H3 == H2: break
            H2 = H3
        if set(H2) == set(H): return False
        n = len(self.trace)
        if self._eq(a, b, H2, depth): del self.trace[mark:]; return True
        del self.trace[mark:n]; return False
    def addh(self, H, *hs):
        out = list(H)
        for h in hs:
            for x in conj(norm(h)):
                if x is not TRUE and x not in out: out.append(x)
        return tuple(out)
    def _eq(self, a, b, H, depth):
        if a is b: return True
        if FALSE in H: return True
        a, b = self.simp(a, H), self.simp(b, H)
        if a is b: return True
        if any(h.op == 'all' or has_first(h) for h in H): a, b = self.firsts(a, H), self.firsts(b, H)
        if a is b: return True
        if has_order(a) and has_order(b): a, b, H = self.align(a, b, H, depth)
        if a is not b and a.op == b.op and a.op in ('isum', 'all') and depth < 30 and (has_order(a) or has_order(b)):
            a2, b2 = anyorder(a, b), anyorder(b, a)
            if a2 is b2: return True
            if a2 is not a or b2 is not b:
                mark = len(self.trace)
                if self._eq(a2, b2, H, depth + 1): return True
                del self.trace[mark:]
        if a is b: return True
        if a.op == 'undef' or b.op == 'undef':
            return self.check(H, FALSE) or self.fail('undefined value', a, b, H)
        key = (a.id, b.id, frozenset(h.id for h in H))
        r = self.eqc.get(key)
        if r is not None: return r
        if self.deadline and time.time() > self.deadline: return self.fail('time budget', a, b, H)
        self.eqc[key] = False
        r = self._eq1(a, b, H, depth)
        self.eqc[key] = r
        return r
    def firsts(self, t, H):
        """the first index satisfying a predicate that holds nowhere is the length"""
        if not has_first(t): return t
        hf = sorted({y for h in H if has_first(h) for y in subterms(h) if y.op == 'first' and not y.loose}, key=lambda y: y.id)
        for _ in range(4):
            m = {}
            for x in subterms(t):
                if x.op != 'first' or x.loose: continue
                k = ('first', x.id, frozenset(h.id for h in H))
                r = self.cache.get(k)
                if r is None:
                    i = fresh('i', IDX); g = norm(Not(inst(x.args[1], i)))
                    r = self.cache[k] = self.entails(self.addh(H, Le(ZERO, i), Lt(i, x.args[0])), g)
                if r: m[x] = x.args[0]; continue
                for y in hf:
                    if y is x or y.args[0] is not x.args[0]: continue
                    k = ('first=', x.id, y.id)
                    r = self.cache.get(k)
                    if r is None:
                        mark = len(self.trace); self.cache[k] = False
                        r = self.cache[k] = self._eq(x, y, (), 5)
                        del self.trace[mark:]
                    if r: m[x] = y; break
            if not m: return t
            t = norm(replace(t, m))
        return t
    def align(self, a, b, H, depth):
        """replace sorted sequences of a (and of the hypotheses) by provably equal ones of b"""
        def orders(t): return {x for x in subterms(t) if x.op == 'sortby' and not x.loose} if has_order(t) else set()
        def folds(t): return {(x.args[1], x.args[2]) for x in subterms(t) if x.op == 'iter' and not x.args[1].loose and x.args[2].loose <= 2} if has_order(t) else set()
        for _ in range(12):
            A, Bs = orders(a), orders(b)
            prog = False
            FA, FB = folds(a), folds(b)
            for (i2, y) in sorted(FB, key=lambda t: t[1].id):
                for (i1, x) in sorted(FA - FB, key=lambda t: t[1].id) + sorted((t for t in FB if t[1].id < y.id), key=lambda t: t[1].id):
                    if i1 is not i2 or x is y: continue
                    k = ('fold', i1.id, x.id, y.id)
                    r = self.cache.get(k)
                    if r is None:
                        mark = len(self.trace)
                        st, j = fresh('v', nsort(i1.sort)), fresh('i', IDX)
                        r = self.cache[k] = self._eq(norm(inst(x, st, j)), norm(inst(y, st, j)), (Le(ZERO, j),), depth + 1)
                        del self.trace[mark:]
                    if r:
                        f = lambda t: refold(t, i1, x, y)
                        a, b = norm(f(a)), norm(f(b)); H = self.addh((), *[f(h) for h in H])
                        prog = True; break
                if prog: break
            if prog: continue
            for y in sorted(Bs, key=lambda t: t.id):
                cand = sorted(A - Bs, key=lambda t: t.id) + sorted((x for x in Bs if x.id < y.id), key=lambda t: t.id)
                for x in cand:
                    if x is y or x.sort[0] != y.sort[0]: continue
                    x2 = retarget(x, y)
                    k = ('ord', x.id, y.id, frozenset(h.id for h in H))
                    r = self.cache.get(k)
                    if r is None:
                        mark = len(self.trace)
                        self.cache[k] = False
                        if x2 is not None: r = x2 is y or self.args(x2, y, H, depth + 1) or self.stable_eq(x2, y, depth)
                        else: r = self._eq(x.args[0], y.args[0], H, depth + 1) and (self.args(x, y, H, depth + 1) or self.stable_eq(x, y, depth))
                        del self.trace[mark:]
                        self.cache[k] = r
                    if r:
                        m = {x: y} if x2 is None else {t: sidx(y, t.args[1]) for h in (a, b) + tuple(H) for t in subterms(h) if t.op == 'sidx' and t.args[0] is x}
                        if not m: continue
                        a, b = norm(replace(a, m)), norm(replace(b, m))
                        H = self.addh((), *[replace(h, m) for h in H])
                        prog = True; break
                if prog: break
            if not prog: break
        return a, b, H
    def stable_eq(self, x, y, depth):
        """sorts are stable: over a sequence listing a map in key order, elements that compare equal stay in key order, so two
        comparators give the same sequence when they agree after breaking ties by the key"""
        s = y.args[0]
        if s.op != 'mkseq' or s.args[0].op != 'mlen' or s.args[1].op != 'con': return False
        m = s.args[0].args[0]
        i = fresh('i', IDX); v = norm(inst(s.args[1], i))
        f = [j for j, e in enumerate(v.args) if e is norm(KeyAt(m, i))]
        if not f: return False
        a, b, c = (fresh('v', v.sort) for _ in 'abc')
        for t in (x, y):        # incomparability is transitive (a weak order)
            inc = lambda p, q: And(Not(inst(t.args[1], p, q)), Not(inst(t.args[1], q, p)))
            if not self.check((), norm(Implies(And(inc(a, b), inc(b, c)), inc(a, c)))): return False
        key = lambda e: Fld(e, v.attr[1], f[0], v.args[f[0]].sort)
        lt = lambda t: Or(inst(t.args[1], a, b), And(Not(inst(t.args[1], b, a)), OLt(key(a), key(b))))
        return self._eq(norm(lt(x)), norm(lt(y)), (), depth + 1)
    def fail(self, why, a, b, H):
        self.trace.append((why, a, b, H)); return False
    def split(self, c, a, b, H, depth):
        if depth > 40: return self.fail('case-split depth', a, b, H)
        for x in (c, Not(c)):
            H2 = self.addh(H, x)
            if And(*H2) is FALSE or (x.op not in ('varis', 'has') and self.infeasible(H2)): continue
            if not self._eq(a, b, H2, depth + 1): return False
        return True
    def infeasible(self, H):
        return self.check(H, FALSE)
    def topcond(self, t):
        """a closed condition of an ite occurring at the top (through constructors and polynomials)"""
        if t.op == 'ite': return t.args[0]
        return None
    def _eq1(self, a, b, H, depth):
        s = a.sort[0]
        if has_minmax(a) or has_minmax(b):
            c = order_split(a, b)
            if c is not None: return self.split(c, a, b, H, depth)
        if s == 'Bool':
            if b.sort[0] != 'Bool': return self.fail('sorts', a, b, H)
            return self.iff(a, b, H, depth)
        if a.op == 'con' and b.op == 'con':
            if a.attr != b.attr or len(a.args) != len(b.args):
                return self.check(H, FALSE) or self.fail('different constructors', a, b, H)
            return all(self._eq(x, y, H, depth) for x, y in zip(a.args, b.args))
        if a.op == 'ite' or b.op == 'ite':
            c = (a if a.op == 'ite' else b).args[0]
            c = self.pick(c)
            return self.split(c, a, b, H, depth)
        if s in ('Int', 'Real'): return self.scalar(a, b, H, depth)
        for x, y in ((a, b), (b, a)):
            if x.op == 'con' and y.op != 'con' and y.sort[0] == 'Adt' and isstruct(x):
                return all(self._eq(v, norm(Fld(y, x.attr[1], i, v.sort)), H, depth) for i, v in enumerate(x.args))
        if s == 'Seq' and b.sort[0] == 'Seq': return self.seq(a, b, H, depth)
        if s == 'Map' and b.sort[0] == 'Map': return self.map(a, b, H, depth)
        mark = len(self.trace)
        if a.op == b.op and a.attr == b.attr and len(a.args) == len(b.args) and self.args(a, b, H, depth): return True
        if self.check(H, Eq(a, b)) or self.by_index(a, b, H, depth): return True
        if len(self.trace) == mark: self.fail('terms differ', a, b, H)
        return False
    def by_index(self, a, b, H, depth):
        """the i-th selected item is the item at the i-th selected index"""
        m = {}
        for t in (a, b):
            for x in subterms(t):
                if x.op == 'at' and not x.loose and x.args[0].op == 'fseq' and x.args[0].args[2].op != 'bv':
                    F = x.args[0]; k = fresh('k', IDX)
                    m[x] = inst(F.args[2], At(fseq(F.args[0], F.args[1], abst(k, k)), x.args[1]))
        if not m: return False
        mark = len(self.trace)
        x, y = norm(replace(a, m)), norm(replace(b, m))
        if (x, y) != (a, b) and self._eq(x, y, H, depth + 1): del self.trace[mark:]; return True
        return False
    def pick(self, c):
        """a literal-like condition to split on"""
        while c.op in ('and', 'or', 'not'): c = c.args[0]
        return c
    def binder_open(self, a, b, i, k, H):
        """open binder argument i (k variables) of two terms of the same operator"""
        A, Bb = a.args[i], b.args[i]
        sorts = [nsort(bvsort(A, k - 1 - j) or bvsort(Bb, k - 1 - j) or IDX) for j in range(k)]
        syms = [fresh('i' if s == IDX else 'v', s) for s in sorts]
        return syms, norm(inst(A, *syms)), norm(inst(Bb, *syms))
    def args(self, a, b, H, depth):
        bd = BIND.get(a.op)
        for i in range(len(a.args)):
            k = bd[i] if bd else 0
            if k == 0:
                if not self._eq(a.args[i], b.args[i], H, depth): return False
            else:
                syms, x, y = self.binder_open(a, b, i, k, H)
                H2 = H
                if a.op in RANGEB: H2 = self.addh(H, Le(ZERO, syms[0]), Lt(syms[0], a.args[0]))
                elif a.op == 'iter': H2 = self.addh(H, Le(ZERO, syms[1]), Lt(syms[1], a.args[0]))
                elif a.op in ('mcomp', 'msel'): H2 = self.addh(H, MHas(a.args[0], syms[0]))
                if a.op == 'fseq' and i == 2: H2 = self.addh(H2, inst(a.args[1], syms[0]))
                if a.op == 'first': H2 = self.addh(H2, Le(syms[0], a), Le(syms[0], b))      # induction: neither predicate held before
                mark = len(self.trace)
                if not self._eq(x, y, H2, depth + 1):
                    if a.op != 'iter' or depth > 12: return False
                    # induction: the bodies need to agree only on the states that occur
                    j = syms[1]; sj = norm(itern(j, b.args[1], b.args[2]))
                    if not self._eq(norm(inst(a.args[2], sj, j)), norm(inst(b.args[2], sj, j)), H2, depth + 1): return False
                    del self.trace[mark:]
        return True
    def iff(self, a, b, H, depth):
        mark = len(self.trace)
        if a.op == 'all' and b.op == 'all' and a.args[0] is b.args[0]:
            i = fresh('i', IDX)
            if self.iff(norm(inst(a.args[1], i)), norm(inst(b.args[1], i)), self.addh(H, Le(ZERO, i), Lt(i, a.args[0])), depth + 1):
                del self.trace[mark:]; return True
        r = self.entails(self.addh(H, a), b) and self.entails(self.addh(H, b), a)
        if r: del self.trace[mark:]; return True
        # unify differing atoms
        u = self.unify(a, b, H, depth)
        if u is not None and u is not a:
            if self._eq(u, b, H, depth + 1): del self.trace[mark:]; return True
        return self.fail('conditions differ', a, b, H)
    def entails(self, H, goal, depth=0):
        if goal is TRUE: return True
        if goal.op == 'and': return all(self.entails(H, g, depth) for g in goal.args)
        goal = self.simp(goal, H)
        if goal is TRUE: return True
        if And(*H) is FALSE: return True
        if goal.op == 'all':
            i = fresh('i', IDX)
            g = norm(inst(goal.args[1], i))
            H2 = self.addh(H, Le(ZERO, i), Lt(i, goal.args[0]))
            if self.entails(H2, g): return True
        if goal.op == 'or' and goal.args:
            # assume the negation of all but one disjunct
            pass
        if self.check(H, goal): return True
        return goal.op == 'le' and self.pointwise(goal.args[0], H, depth, 'le')      # a sum of non-positive terms
    def prove(self, H, goal):
        """boolean obligation"""
        _inprover[0] = True
        H = self.addh((), *H)
        g = norm(goal)
        if g.op == 'eqv': return self._eq(g.args[0], g.args[1], H, 0)
        if g.op in ('eq',): return self._eq(g.args[0], g.args[1], H, 0)
        mark = len(self.trace)
        # simplify hypotheses against each other
        if self.entails(H, g): return True
        H2 = self.simp_hyps(H)
        if H2 != H and self.entails(H2, self.simp(g, H2)): return True
        # case split on an ite inside goal
        self.fail('not entailed', g, TRUE, H); return False
    def simp_hyps(self, H):
        out = []
        for i, h in enumerate(H):
            out.append(self.simp(h, H[:i] + H[i+1:]))
        return self.addh((), *out)
    # ------------------------------------------------------------ scalars
    def scalar(self, a, b, H, depth):
        if a.sort[0] != b.sort[0]: return self.fail('sorts', a, b, H)
        d = psub(a, b)
        if isc(d): 
            if d.attr == 0: return True
            return self.check(H, FALSE) or self.fail('different constants', a, b, H)
        mark = len(self.trace)
        if a.sort == REAL and rational_zero(d): return True
        # case split on conditions inside
        c = inner_cond(a) or inner_cond(b)
        if c is not None: return self.split(self.pick(c), a, b, H, depth)
        u = self.unify(a, b, H, depth)
        if u is not None and u is not a:
            if self._eq(u, b, H, depth + 1): del self.trace[mark:]; return True
        k, l = self.mins(a, H), self.mins(b, H)
        if (k is not a or l is not b) and self._eq(k, l, H, depth + 1): del self.trace[mark:]; return True
        if self.pointwise(norm(d), H, depth): del self.trace[mark:]; return True
        k = self.kill(a, H)
        if k is not a and self._eq(k, b, H, depth + 1): del self.trace[mark:]; return True
        k = self.kill(b, H)
        if k is not b and self._eq(a, k, H, depth + 1): del self.trace[mark:]; return True
        if self.check(H, Eq(a, b)): del self.trace[mark:]; return True
        if a.op == b.op and a.op != 'poly' and a.attr == b.attr and len(a.args) == len(b.args):
            m2 = len(self.trace)
            if self.args(a, b, H, depth): del self.trace[mark:]; return True
        if self.by_index(a, b, H, depth): return True
        return self.fail('values differ', a, b, H)
    def pointwise(self, d, H, depth, rel='eq'):
        """d is a combination of sums over one range: prove that the combined summand vanishes"""
        if d.op != 'poly' or d.sort != REAL and d.sort[0] != 'Int' or len(d.attr) < 2: return False
        at = {a.id: a for a in d.args}
        def bound(x):
            if x.op in ('rsum', 'isum'): return x.args[0]
            if x.op == 'i2r' and x.args[0].op == 'isum': return x.args[0].args[0]
            if x.op == 'i2r' and rel == 'le': return x.args[0]            # n is a sum of n ones
        n = None
        for k, v in d.attr:
            bs = {bound(at[i]) for i, e in k if e == 1} - {None}
            if not bs: return False
            n = bs if n is None else n & bs
        for n in sorted(n, key=lambda t: t.id):
            if n.loose: continue
            i = fresh('i', IDX); acc = R(0) if d.sort == REAL else ZERO
            ok = True
            for k, v in d.attr:
                m = R(v) if d.sort == REAL else I(v); used = False
                for q, e in k:
                    x = at[q]
                    if not used and e == 1 and bound(x) is n:
                        used = True
                        y = inst(x.args[1], i) if x.op != 'i2r' else R(1) if x.args[0] is n else I2R(norm(inst(x.args[0].args[1], i)))
                        m = PMul(m, norm(y)) if d.sort == REAL else pmul(m, norm(y))
                        continue
                    for _ in range(e): m = PMul(m, x) if d.sort == REAL else pmul(m, x)
                acc = padd(acc, m)
            mark = len(self.trace)
            H2 = self.addh(H, Le(ZERO, i), Lt(i, n))
            if rel == 'le':
                if depth < 4 and (self.check(H, Le(ZERO, n)) if rng(n)[0] is None or rng(n)[0] < 0 else True) and self.entails(H2, norm(cmp_lift('fle', norm(acc), R(0)) if d.sort == REAL else Le(norm(acc), ZERO)), depth + 1): return True
                continue
            if self._eq(norm(acc), R(0) if d.sort == REAL else ZERO, H2, depth + 1): return True
            del self.trace[mark:]
        return False
    def mins(self, a, H):
        """decide minima and maxima of integers under H"""
        m = {}
        for x in subterms(a):
            if x.op == 'wrap' and not x.loose:
                lo, hi = RANGES[x.attr]
                if self.check(H, Le(I(lo), x.args[0])) and self.check(H, Le(x.args[0], I(hi))): m[x] = x.args[0]
            if x.op in ('imin', 'imax') and not x.loose:
                ar = list(x.args)
                for y in list(ar):
                    for z in ar:
                        if z is not y and self.check(H, Le(z, y) if x.op == 'imin' else Le(y, z)): ar.remove(y); break
                if len(ar) < len(x.args):
                    r = ar[0]
                    for z in ar[1:]: r = imin(r, z) if x.op == 'imin' else imax(r, z)
                    m[x] = r
        return norm(replace(a, m)) if m else a
    def kill(self, a, H):
        """sums whose guard is infeasible under H are zero; guards that always hold are dropped"""
        m = {}
        for x in atoms_of(a):
            if x.op in ('rsum', 'isum') and x.args[1].op == 'ite':
                i = fresh('i', IDX)
                H2 = self.addh(H, Le(ZERO, i), Lt(i, x.args[0]))
                c = norm(inst(x.args[1].args[0], i))
                z = R(0) if x.op == 'rsum' else ZERO
                if self.entails(H2, Not(c)): m[x] = nsum(x.op, x.args[0], x.args[1].args[2]) if x.args[1].args[2] is not z else z
                elif self.entails(H2, c): m[x] = nsum(x.op, x.args[0], x.args[1].args[1])
        return norm(replace(a, m)) if m else a
    def unify(self, a, b, H, depth):
        """replace atoms of a by provably equal atoms of b"""
        if depth > 30: return None
        A = atoms_of(a); Bs = atoms_of(b)
        only_a = [x for x in A if x not in Bs]; only_b = [x for x in Bs if x not in A]
        m = {}
        for x in only_a:
            for y in only_b:
                if x.op == y.op and x.attr == y.attr and len(x.args) == len(y.args) and x.sort[0] == y.sort[0] and y not in m.values():
                    mark = len(self.trace)
                    if self.args(x, y, H, depth + 1):
                        m[x] = y; del self.trace[mark:]; break
        if not m: return None
        return norm(replace(a, m))
    # ------------------------------------------------------------ sequences
    def seq(self, a, b, H, depth):
        mark = len(self.trace)
        if a.op == b.op and a.op in ('sortby', 'flat', 'shuffled', 'iter', 'uf', 'concat', 'fseq') and a.attr == b.attr and len(a.args) == len(b.args):
            if self.args(a, b, H, depth): del self.trace[mark:]; return True
            if a.op in ('sortby', 'shuffled'): return self.check(H, FALSE)      # element by element leads back here
        if 'concat' in (a.op, b.op):
            p = strip_common(a, b)
            if p is not None:
                if all(self._eq(x, y, H, depth + 1) for x, y in p): del self.trace[mark:]; return True
                del self.trace[mark:]
        for x, y in ((a, b), (b, a)):
            if x.op == 'fseq' and y.op != 'fseq':
                # condition always true?
                i = fresh('i', IDX); H2 = self.addh(H, Le(ZERO, i), Lt(i, x.args[0]))
                if self.entails(H2, norm(inst(x.args[1], i))):
                    return self._eq(mkseq(x.args[0], x.args[2]), y, H, depth + 1)
        la, lb = norm(Len(a)), norm(Len(b))
        if not self._eq(la, lb, H, depth + 1): return False
        if self.check(H, Le(la, ZERO)): del self.trace[mark:]; return True
        i = fresh('i', IDX)
        x, y = norm(At(a, i)), norm(At(b, i))
        if x.op == 'at' and y.op == 'at' and x.args[0] is a and y.args[0] is b:
            return self.check(H, mk('eq', (a, b) if a.id < b.id else (b, a), None, BOOL)) or self.fail('sequences differ', a, b, H)
        if self._eq(x, y, self.addh(H, Le(ZERO, i), Lt(i, la)), depth + 1): del self.trace[mark:]; return True
        return False
    def map(self, a, b, H, depth):
        mark = len(self.trace)
        if a.op == 'mempty' and b.op == 'mempty': return True
        if a.op == b.op and a.attr == b.attr and len(a.args) == len(b.args):
            if self.args(a, b, H, depth): del self.trace[mark:]; return True
        for x, y in ((a, b), (b, a)):
            if x.op == 'mcomp':
                base = y
                while base.op == 'mcomp': base = base.args[0]
                if self._eq(x.args[0], base, H, depth + 1):
                    q = fresh('v', x.args[0].sort[1])
                    if self._eq(norm(MGet(x, q)), norm(MGet(y, q)), self.addh(H, MHas(base, q)), depth + 1): del self.trace[mark:]; return True
                    return False
        if self.check(H, mk('eq', (a, b) if a.id < b.id else (b, a), None, BOOL)): del self.trace[mark:]; return True
        return self.fail('maps differ', a, b, H)
    # ------------------------------------------------------------ well-definedness
    def wd(self, t, H=()):
        """list of undischarged definedness conditions of a (raw, float) term"""
        bad = []; seen = {}
        H = self.addh((), *H)
        def go(t, H):
            if t.op in ('c', 's', 'sym', 'bv') or not has_partial(t): return
            k = (t.id, frozenset(h.id for h in H))
            if k in seen: return
            seen[k] = 1
            o = t.op
            if o == 'ite':
                go(t.args[0], H); go(t.args[1], self.addh(H, t.args[0])); go(t.args[2], self.addh(H, Not(t.args[0]))); return
            if o in ('and', 'or'):
                pure = [x for x in t.args if not has_partial(x)]
                H2 = self.addh(H, *(pure if o == 'and' else [Not(x) for x in pure]))
                for x in t.args: go(x, H2)
                return
            b = BIND.get(o)
            if b:
                syms = None
                for i, a in enumerate(t.args):
                    if not b[i]: go(a, H); continue
                    sorts = [bvsort(a, b[i] - 1 - j) or IDX for j in range(b[i])]
                    syms = [fresh('w', s) for s in sorts]
                    H2 = H
                    if o in RANGEB: H2 = self.addh(H, Le(ZERO, syms[0]), Lt(syms[0], t.args[0]))
                    elif o == 'iter': H2 = self.addh(H, Le(ZERO, syms[1]), Lt(syms[1], t.args[0]))
                    elif o in ('mcomp', 'msel'): H2 = self.addh(H, MHas(t.args[0], syms[0]))
                    if o == 'fseq' and i == 2: H2 = self.addh(H2, inst(t.args[1], syms[0]))
                    body = inst(a, *syms)
                    if o in ('fsum', 'isum', 'rsum') and t.args[0].op == 'isum':
                        F = find_fseq(body, norm(t.args[0]), syms[0])
                        if F is not None:
                            w, c, body = reindex(F, body, syms[0], At(F, syms[0]), real_z=lambda o: FC(0) if o == 'fsum' else R(0) if o == 'rsum' else ZERO)
                            H2 = self.addh(H, Le(ZERO, w), Lt(w, F.args[0]), c)
                    go(body, H2)
                return
            for a in t.args: go(a, H)
            if o == 'fdiv':
                todo = [t.args[1]]
                while todo:                                # a product or quotient is zero only if a factor or the numerator is
                    d = todo.pop()
                    if d.op == 'fsqrt': todo.append(d.args[0]); continue      # its argument is non-negative by its own condition: sqrt(x) = 0 only for x = 0
                    if d.op == 'fdiv': todo.append(d.args[0]); continue
                    if d.op == 'fmul': todo += d.args; continue
                    dn = norm(d)
                    self.need(bad, H, Not(req(dn, R(0)) if not has_ite(dn) else cmp_lift('feq', dn, R(0))), 'division by zero', t)
            elif o == 'fsqrt':
                if not self.nn(t.args[0], H): self.need(bad, H, cmp_lift('fle', R(0), norm(t.args[0])), 'square root of a negative number', t)
            elif o == 'ff' and t.attr in ('log2', 'ln', 'log10'): self.need(bad, H, Not(cmp_lift('fle', norm(t.args[0]), R(0))), 'logarithm of a non-positive number', t)
            elif o == 'ff' and t.attr == 'pow':
                x, e = norm(t.args[0]), norm(t.args[1])
                if not (isc(e) and e.attr.denominator == 1 and e.attr >= 0): self.need(bad, H, Not(cmp_lift('fle', x, R(0))), 'power of a non-positive number', t)
            elif o == 'fspecial': self.need(bad, H, FALSE, 'special value ' + str(t.attr), t)
        go(t, H)
        return bad
    def nn(self, x, H):
        """sign analysis on unexpanded float terms, under hypotheses"""
        o = x.op
        if o in ('fadd', 'fdiv', 'fmin', 'fmax') or o == 'fmul' and x.args[0] is not x.args[1]: return all(self.nn(a, H) for a in x.args)
        if o == 'fsum': return self.nn(x.args[1], H)
        if o == 'i2f' and not x.loose and not raw_nonneg(x): return self.check(H, norm(Le(ZERO, x.args[0])))
        if o == 'fsub' and not x.loose and all(isc(a) or a.op == 'i2f' for a in x.args): return self.entails(H, cmp_lift('fle', R(0), norm(x)))
        if o == 'ite': return self.nn(x.args[1], self.addh(H, x.args[0])) and self.nn(x.args[2], self.addh(H, Not(x.args[0])))
        return raw_nonneg(x)
    def need(self, bad, H, g, what, t):
        g2 = self.simp(g, H)
        if g2 is TRUE: return
        if self.entails(H, g2): return
        bad.append((what, t, H, g2))

def raw_nonneg(x):
    """sign analysis on unexpanded float terms"""
    o = x.op
    if o == 'c': return x.attr >= 0
    if o in ('fsum',): return raw_nonneg(x.args[1])
    if o == 'fmul': return x.args[0] is x.args[1] or all(raw_nonneg(a) for a in x.args)
    if o in ('fadd', 'fdiv', 'fmin', 'fmax'): return all(raw_nonneg(a) for a in x.args)
    if o == 'fpowi': return isc(x.args[1]) and x.args[1].attr % 2 == 0
    if o in ('fabs', 'fsqrt'): return True
    if o == 'ite': return all(raw_nonneg(a) for a in x.args[1:])
    if o == 'i2f':
        lo = rng(x.args[0])[0]; return lo is not None and lo >= 0
    return False
def refold(t, init, x, y):
    memo = {}
    def go(t):
        if not has_order(t): return t
        r = memo.get(t.id)
        if r is None:
            args = tuple(go(a) for a in t.args)
            if t.op == 'iter' and args[1] is init and args[2] is x: r = itern(args[0], init, y)
            else: r = t if args == t.args else rebuild(t, args)
            memo[t.id] = r
        return r
    return go(t)
_ho = {}
_mm = {}
def has_minmax(t):
    r = _mm.get(t.id)
    if r is None: r = _mm[t.id] = t.op in ('imin', 'imax') or any(has_minmax(a) for a in t.args)
    return r
def order_split(a, b):
    """both the minimum and the maximum of two positions are used: which is which"""
    s = {(x.op, frozenset(y.id for y in x.args)): x for t in (a, b) if has_minmax(t) for x in subterms(t) if x.op in ('imin', 'imax') and not x.loose and len(x.args) == 2}
    for (o, k), x in sorted(s.items(), key=lambda y: y[1].id):
        if o == 'imin' and ('imax', k) in s and all(y.op == 'sym' for y in x.args): return Le(x.args[0], x.args[1])
    return None
def retarget(x, y):
    """the order of x depends on positions only: as a sort of the sequence y sorts, when the comparator can be read off the elements there"""
    s, t = x.args[0], y.args[0]
    if s is t or s.sort is t.sort or s.op != 'mkseq' or t.op != 'mkseq' or t.args[1].op != 'con' or s.args[0] is not t.args[0]: return None
    i, j = fresh('i', IDX), fresh('i', IDX)
    c = norm(inst(x.args[1], inst(s.args[1], i), inst(s.args[1], j)))
    es = []
    for k in (i, j):
        v = norm(inst(t.args[1], k)); e = fresh('v', v.sort)
        if v.op != 'con': return None
        c = norm(replace(c, {f: Fld(e, v.attr[1], n, f.sort) for n, f in enumerate(v.args)}))
        es.append(e)
    if i in c.fv or j in c.fv: return None
    return mk('sortby', (t, abst(c, *es)), None, t.sort)
def anyorder(t, u):
    """the sums and conjunctions of t, not found in u, that range over all of a sorted sequence: over the unsorted one"""
    if not has_order(t): return t
    us = set(subterms(u)); m = {}
    for x in subterms(t):
        if x.op in ('isum', 'all') and not x.loose and x.args[1].loose == 1 and x not in us and has_order(x.args[1]):
            y = unordered(*x.args)
            if y is None and any(z.op in ('isum', 'all') for z in subterms(x.args[1])):
                k = fresh('k', IDX); i = inst(x.args[1], k); y = anyorder(i, u)
                y = None if y is i else abst(y, k)
            if y is not None: m[x] = mkbind(x.op, x.args[0], y)
    return norm(replace(t, m)) if m else t
def has_order(t):
    r = _ho.get(t.id)
    if r is None:
        r = t.op in ('sortby', 'iter') or any(has_order(a) for a in t.args)
        _ho[t.id] = r
    return r
_hf = {}
def has_first(t):
    r = _hf.get(t.id)
    if r is None: r = _hf[t.id] = t.op == 'first' or any(has_first(a) for a in t.args)
    return r
_hp = {}
def has_partial(t):
    r = _hp.get(t.id)
    if r is None:
        r = t.op in ('fdiv', 'fsqrt', 'fspecial') or (t.op == 'ff' and t.attr in ('log2', 'ln', 'log10', 'pow')) or any(has_partial(a) for a in t.args)
        _hp[t.id] = r
    return r
def inner_cond(t, depth=0):
    """closed condition of an ite that is an atom of a polynomial (or inside inv/sqrt/rf atoms)"""
    if depth > 6: return None
    if t.op == 'ite': return t.args[0]
    if t.op in ('poly', 'inv', 'rsqrt', 'rabs', 'i2r', 'imin', 'imax', 'rf', 'idiv', 'imod', 'wrap'):
        for a in t.args:
            c = inner_cond(a, depth + 1)
            if c is not None: return c
    return None
def atoms_of(t):
    """unifiable atoms: non-arithmetic subterms reachable through arithmetic and boolean structure"""
    out = []; seen = set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op in ('poly', 'ite', 'and', 'or', 'not', 'le', 'eq0', 'eq', 'imin', 'imax', 'i2r'):
            for a in x.args: go(a)
            return
        if x.op in ('c', 'sym', 's', 'bv'): return
        out.append(x)
    go(t)
    return out
def rational_zero(d):
    """d = 0 as a rational function, inv(p) being the inverse of the (nonzero) polynomial p"""
    for _ in range(6):
        if d.op == 'c': return d.attr == 0
        if d.op != 'poly': return False
        invs = [a for a in d.args if a.op == 'inv' and a.args[0].op in ('poly',)]
        invs += [a for a in d.args if a.op == 'inv' and a.args[0].op != 'poly']
        if not invs: return False
        v = invs[0]; p = v.args[0]
        e = max(dict(k).get(v.id, 0) for k, _ in d.attr)
        at = {a.id: a for a in d.args}
        acc = R(0)
        for k, c in d.attr:
            s = dict(k); f = s.pop(v.id, 0)
            m = mkp({tuple(sorted(s.items())): c}, at, True)
            for _ in range(e - f): m = pmul(m, p)
            acc = padd(acc, m)
        d = cancel(acc)
        if len(d.attr or ()) > 4000 if d.op == 'poly' else False: return False
    return isc(d) and d.attr == 0
def implied(a, b):
    """cheap syntactic implication"""
    A = set(conj(a))
    return all(x in A or (x.op == 'or' and any(y in A for y in x.args)) for x in conj(b))
def nonneg(x):
    """cheap sign analysis"""
    if x.op == 'c': return x.attr >= 0
    if x.sort[0] == 'Int': return (rng(x)[0] or -1) >= 0 if rng(x)[0] is not None else False
    if x.op == 'ite': return nonneg(x.args[1]) and nonneg(x.args[2])
    if x.op == 'i2r': return rng(x.args[0])[0] is not None and rng(x.args[0])[0] >= 0
    if x.op in ('rabs', 'rsqrt'): return True
    if x.op == 'rsum':
        i = fresh('i', IDX); return nonneg(inst(x.args[1], i)) if not x.loose else False
    if x.op == 'inv': return nonneg(x.args[0])
    if x.op == 'rf': return x.attr == 'exp2' or (x.attr == 'log2' and ge1(x.args[0]))
    if x.op == 'poly':
        at = {a.id: a for a in x.args}
        for k, v in x.attr:
            if v < 0 or any(e % 2 and not nonneg(at[i]) for i, e in k): break
        else: return True
        # exp2(y) = 1 + u with u >= 0 for y >= 0
        m = {a: padd(R(1), mk('rabs', (fresh('u', REAL),), None, REAL)) for a in x.args if a.op == 'rf' and a.attr == 'exp2' and nonneg(a.args[0])}
        if m: return nonneg(norm(replace(x, m)))
    return False
def sumsigns(f):
    """non-negative combinations of sums over one range that occur in the comparisons of f"""
    out = []
    for h in subterms(f):
        if h.op not in ('le', 'eq0') or h.args[0].op != 'poly' or h.args[0].sort != REAL or h.loose: continue
        p = h.args[0]; at = {a.id: a for a in p.args}
        if len(p.attr) < 2: continue
        n = None; terms = []
        for k, v in p.attr:
            if len(k) != 1 or k[0][1] != 1 or at[k[0][0]].op not in ('rsum', 'i2r'): break
            x = at[k[0][0]]
            if x.op == 'i2r':
                if x.args[0].op != 'isum': break
                x = x.args[0]
            if n is not None and x.args[0] is not n: break
            n = x.args[0]; terms.append((v, x))
        else:
            i = fresh('i', IDX); acc = R(0)
            for v, x in terms:
                y = norm(inst(x.args[1], i))
                acc = padd(acc, PMul(R(v), y if x.op == 'rsum' else I2R(y)))
            for q, s in ((acc, p), (pneg(acc), pneg(p))):
                if nonneg(norm(q)): out.append(s)
    return out
def ge1(x):
    d = pdict(x)
    c = d.get((), 0)
    if c < 1: return False
    r = psub(x, R(c))
    return isc(r) or nonneg(r)
