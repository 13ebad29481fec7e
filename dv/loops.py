"""Closed forms of loop recurrences.  The result is only a guess: the executor turns it into loop-init / loop-step obligations."""
from terms import *

def free_of(t, s): return s not in t.fv

def idelta(f, X):
    """f = X + d with d free of X"""
    if f is X: return ZERO
    if f.op == 'ite':
        c, a, b = f.args
        if X in c.fv: return None
        da, db = idelta(a, X), idelta(b, X)
        return None if da is None or db is None else Ite(c, da, db)
    if f.op == 'wrap': return None
    d = psub(f, X)
    return d if X not in d.fv else None

def fdelta(f, X):
    if f is X: return FC(0)
    if f.op == 'ite':
        c, a, b = f.args
        if X in c.fv: return None
        da, db = fdelta(a, X), fdelta(b, X)
        return None if da is None or db is None else Ite(c, da, db)
    if f.op == 'fadd':
        a, b = f.args
        if X in a.fv and X not in b.fv:
            d = fdelta(a, X); return None if d is None else FAdd(d, b)
        if X in b.fv and X not in a.fv:
            d = fdelta(b, X); return None if d is None else FAdd(d, a)
    if f.op == 'fsub':
        a, b = f.args
        if X in a.fv and X not in b.fv:
            d = fdelta(a, X); return None if d is None else FSub(d, b)
    return None

def sdelta(f, X):
    """f = X ++ d"""
    if f is X: return EMPTYSEQ
    if f.op == 'concat':
        a, b = f.args
        if X in b.fv: return None
        d = sdelta(a, X)
        return None if d is None else Concat(d, b)
    if f.op == 'ite':
        c, a, b = f.args
        if X in c.fv: return None
        da, db = sdelta(a, X), sdelta(b, X)
        return None if da is None or db is None else Ite(c, da, db)
    return None

def flatten_seq(j, i, d):
    """concatenation over i < j of the sequences d(i)"""
    def single(d):
        if d.op == 'mkseq' and d.args[0] is ONE: return TRUE, At(d, ZERO)
        if isempty(d): return FALSE, None
        if d.op == 'ite':
            x, y = single(d.args[1]), single(d.args[2])
            if x is None or y is None: return None
            c = d.args[0]
            cc = Or(And(c, x[0]), And(Not(c), y[0]))
            if x[1] is None: return cc, y[1]
            if y[1] is None: return cc, x[1]
            return cc, Ite(c, x[1], y[1])
        return None
    s = single(d)
    if s is not None:
        if s[1] is None: return EMPTYSEQ
        return fseq(j, abst(s[0], i), abst(s[1], i))
    p = peel(d, i)
    if p is not None: return Ite(Eq(j, ZERO), EMPTYSEQ, Concat(p[0], flatten_seq(j, i, p[1])))
    return flat(j, abst(d, i))
def peel(d, i):
    """d(0) = pre ++ e(0) and d(k) = e(k) for the other k: (pre, e)"""
    z = Eq(i, ZERO)
    if not contains(d, z): return None
    def spine(t, first):
        if t.op == 'concat': return Concat(spine(t.args[0], first), spine(t.args[1], first))
        if t.op == 'ite' and t.args[0] in (z, Not(z)): return spine(t.args[1] if (t.args[0] is z) == first else t.args[2], first)
        return t
    e = spine(d, False); f = spine(d, True)
    if e is f: return None
    pre = strip_suffix(subst(f, {i: ZERO}), subst(e, {i: ZERO}))
    return None if pre is None else (pre, e)
def strip_suffix(a, b):
    """p with a = p ++ b"""
    if isempty(b): return a
    if a is b: return EMPTYSEQ
    if a.op == 'concat':
        p = strip_suffix(a.args[1], b)
        if p is not None: return Concat(a.args[0], p)
        if b.op == 'concat':
            p = strip_suffix(a, b.args[1])
            return None if p is None else strip_suffix(p, b.args[0])
    if a.op == b.op == 'mkseq' and isc(a.args[0]) and isc(b.args[0]):
        n, m = a.args[0].attr, b.args[0].attr
        if n >= m and all(At(a, I(n - m + k)) is At(b, I(k)) for k in range(m)): return SeqLit([At(a, I(k)) for k in range(n - m)])
    return None

def bsum(op, n, i, body): return mkbind(op, n, abst(body, i))

def one_point(c, t):
    """c (a conjunction) has a conjunct t == g: returns (g, rest)"""
    cs = conj(c)
    for x in cs:
        if x.op == 'eq0' and x.args[0].sort[0] == 'Int':
            d = pdict(x.args[0]); q = d.get(((t.id, 1),), 0)
            if q in (1, -1):
                rest = psub(x.args[0], t) if q == 1 else padd(x.args[0], t)
                if t in rest.fv: continue
                g = pneg(rest) if q == 1 else rest
                return g, And(*[y for y in cs if y is not x])
    return None

def disjuncts(c):
    if c.op == 'or': 
        out = []
        for x in c.args: out += disjuncts(x)
        return out
    if c.op == 'and':
        # distribute over one disjunction
        for x in c.args:
            if x.op == 'or':
                rest = And(*[y for y in c.args if y is not x])
                out = []
                for y in x.args: out += disjuncts(And(rest, y))
                return out
    return [c]

def cases(f, X, cond=TRUE, depth=0):
    """split an ite tree: list of (cond, leaf)"""
    if f.op == 'ite' and depth < 12:
        return cases(f.args[1], X, And(cond, f.args[0]), depth + 1) + cases(f.args[2], X, And(cond, Not(f.args[0])), depth + 1)
    return [(cond, f)]

def writes_of(f, X):
    """f as an ite tree with leaves X or X-free values: [(cond, value)] in priority order (first match wins), conditions X-free"""
    if f is X: return []
    if X not in f.fv: return [(TRUE, f)]
    if f.op == 'ite' and X not in f.args[0].fv:
        a, b = writes_of(f.args[1], X), writes_of(f.args[2], X)
        if a is None or b is None: return None
        c = f.args[0]
        return [(And(c, x), v) for x, v in a] + [(And(Not(c), x), v) for x, v in b]
    return None

def solve_elem(f, E, e0, j, i):
    """recurrence of one element: E(0)=e0, E(t+1)=f(E,t); f uses symbol j for t"""
    if f is E: return e0
    w = writes_of(f, E)
    if w is not None:
        r = e0
        for c, v in reversed(w):
            for d in disjuncts(c):
                op = one_point(d, j)
                if op is None:
                    if j in v.fv: return None
                    r = Ite(Any(j, lambda k: subst(d, {j: k})), v, r)
                    continue
                g, rest = op
                r = Ite(And(Le(ZERO, g), Lt(g, j), subst(rest, {j: g})), subst(v, {j: g}), r)
        return r
    if f.sort[0] == 'Int':
        d = idelta(f, E)
        if d is not None: return iadd(e0, point_sum('isum', j, j, d))
    if f.sort[0] == 'F64':
        d = fdelta(f, E)
        if d is not None: return FAdd(e0, point_sum('fsum', j, j, d))
    return None

def point_sum(op, n, j, body):
    """sum over j < n of body(j) where body may be an indicator of j == g"""
    z = ZERO if op == 'isum' else FC(0)
    if body.op == 'ite' and body.args[2] is z:
        ds = disjuncts(body.args[0])
        if len(ds) == 1:
            o = one_point(ds[0], j)
            if o is not None:
                g, rest = o
                return Ite(And(Le(ZERO, g), Lt(g, n), subst(rest, {j: g})), subst(body.args[1], {j: g}), z)
    return bsum(op, n, j, body)

def fextreme(f, X):
    """f = max / min of X and an X-free value: ('max' | 'min', value)"""
    if f.op in ('fmax', 'fmin') and X in f.args:
        e = f.args[1] if f.args[0] is X else f.args[0]
        return (f.op[1:], e) if X not in e.fv else None
    if f.op == 'ite' and X in f.args[1:]:
        e = f.args[1] if f.args[2] is X else f.args[2]
        if X in e.fv: return None
        c = f.args[0] if f.args[2] is X else Not(f.args[0])      # X := e when c
        if c in (FCmp('flt', X, e), FCmp('fle', X, e), Not(FCmp('fle', e, X)), Not(FCmp('flt', e, X))): return 'max', e
        if c in (FCmp('flt', e, X), FCmp('fle', e, X), Not(FCmp('fle', X, e)), Not(FCmp('flt', X, e))): return 'min', e
    return None
STRCAT = [None, None]    # strcat and pieces of std
FOLDS = {}          # uninterpreted functions that accumulate a sequence: name -> (X, first value, next value, j, flattening) -> closed form
def solve1(X, v0, f, C, j):
    if f is X: return v0
    if X not in f.fv:
        prev = subst(f, {j: isub(j, ONE)})
        return Ite(Eq(j, ZERO), v0, prev)
    s = X.sort[0]
    i = fresh('k', IDX)
    at_i = lambda t: subst(t, {j: i})
    if s == 'Int':
        d = idelta(f, X)
        if d is not None:
            if j not in d.fv and d.op != 'ite': return iadd(v0, imul(d, j))
            if j not in d.fv and isc(d): return iadd(v0, imul(d, j))
            return iadd(v0, point_sum('isum', j, j, d))
    if s == 'F64':
        d = fdelta(f, X)
        if d is not None: return FAdd(v0, bsum('fsum', j, i, at_i(d)))
        d = fextreme(f, X)
        if d is not None:
            r = bsum('fs' + d[0], j, i, at_i(d[1]))
            return Ite(Eq(j, ZERO), v0, r if v0.op == 'fspecial' and v0.attr == ('-inf' if d[0] == 'max' else 'inf') else FOp('f' + d[0], v0, r))
    if s == 'Bool':
        if f.op == 'or' and X in f.args:
            e = Or(*[x for x in f.args if x is not X])
            if X not in e.fv: return Or(v0, Not(bsum('all', j, i, Not(at_i(e)))))
        if f.op == 'and' and X in f.args:
            e = And(*[x for x in f.args if x is not X])
            if X not in e.fv: return And(v0, bsum('all', j, i, at_i(e)))
    if s == 'Seq':
        d = sdelta(f, X)
        if d is not None: return Concat(v0, flatten_seq(j, i, at_i(d)))
        r = shortened(X, v0, f, j)
        if r is not None: return r
        r = nonempty_later(X, v0, f, j)
        if r is not None: return r
        r = narrowed(X, v0, f, j)
        if r is not None: return r
        r = pointwise(X, v0, f, j)
        if r is not None: return r
    if s == 'Map':
        if f.op == 'mins' and f.args[0] is X and X not in f.args[1].fv and X not in f.args[2].fv and v0.op == 'mempty':
            return mofseq_open(j, i, at_i(f.args[1]), at_i(f.args[2]))
        if f.op == 'ite' and v0.op == 'mempty':
            c, a, b = (f.args[0], f.args[1], f.args[2]) if f.args[2] is X else (Not(f.args[0]), f.args[2], f.args[1])
            if b is X and a.op == 'mins' and a.args[0] is X and not any(X in t.fv for t in (c, *a.args[1:])):
                F = fseq(j, abst(at_i(c), i), abst(Tup(at_i(a.args[1]), at_i(a.args[2])), i))
                return mofseq_open(Len(F), i, Fld(At(F, i), 0, 0, a.args[1].sort), Fld(At(F, i), 0, 1, a.args[2].sort))
    if s == 'Adt' and v0.op == 'con' and v0.attr == (OPT, 0) and X.sort[2] and X.sort[2][0] is not ANY:
        b0 = subst(subst(f, {X: v0}), {j: ZERO}); x = fresh('x', X.sort[2][0]); b = subst(f, {X: Some(x)})
        if VarIs(b0, 1) is TRUE and VarIs(b, 1) is TRUE:        # something from the first iteration on
            p = lambda t: Fld(t, 1, 0, x.sort)
            g = subst(p(b), {j: iadd(j, ONE)})
            r = solve1(x, p(b0), g, TRUE, j)
            if r is None: r = itern(j, p(b0), abst(subst(g, {j: i}), x, i))
            return Ite(Eq(j, ZERO), v0, Some(subst(r, {j: isub(j, ONE)})))
    if f.op == 'uf' and f.attr in FOLDS:
        r = FOLDS[f.attr](X, v0, f, j, lambda s: flatten_seq(j, i, at_i(s)))
        if r is not None: return r
    if s == 'Str' and f.op == 'strcat' and f.args[0] is X and not any(X in t.fv for t in f.args[1:]):
        d = SeqLit(STRCAT[1](STRCAT[0](*f.args[1:])))
        return STRCAT[0](v0, UF('str.text', STR, flatten_seq(j, i, at_i(d))))
    w = writes_of(f, X)
    if w is not None and all(j not in v.fv for _, v in w):
        r = v0
        for c, v in reversed(w): r = Ite(Any(j, lambda k: subst(c, {j: k})), v, r)
        if len({v for _, v in w}) == 1: return r
    if s in ('F64', 'Int') and f.op == 'ite' and f.args[0].op in ('flt', 'fle', 'le', 'not'):
        pass
    return None

def narrowed(X, v0, f, j):
    """every iteration keeps a selection of the items of X"""
    if f.op != 'fseq' or f.args[0] is not Len(X): return None
    k = fresh('k', IDX); E = fresh('E', X.sort[1])
    if inst(f.args[2], k) is not At(X, k): return None
    c = replace(inst(f.args[1], k), {At(X, k): E})
    if X in c.fv or k in c.fv: return None
    n, c0, v = (v0.args[0], inst(v0.args[1], k), inst(v0.args[2], k)) if v0.op == 'fseq' else (Len(v0), TRUE, At(v0, k))
    return FSeq(n, lambda i: And(subst(c0, {k: i}), All(j, lambda q: subst(c, {E: subst(v, {k: i}), j: q}))), lambda i: subst(v, {k: i}))
def shortened(X, v0, f, j):
    """every iteration drops a fixed number of items at either end of X"""
    if f.op != 'mkseq': return None
    n = f.args[0]
    if n.op == 'imax' and ZERO in n.args and len(n.args) == 2: n = next(x for x in n.args if x is not ZERO)
    d = isub(Len(X), n); k = fresh('k', IDX); b = inst(f.args[1], k)
    if b.op != 'at' or b.args[0] is not X: return None
    e = isub(b.args[1], k)
    if not (isc(d) and isc(e) and 0 <= e.attr <= d.attr): return None
    return MkSeq(imax(isub(Len(v0), imul(d, j)), ZERO), lambda i: At(v0, iadd(i, imul(e, j))))
def nonempty_later(X, v0, f, j):
    """f tests whether X is empty and never leaves it empty: X is empty in the first iteration only"""
    z = Eq(Len(X), ZERO)
    if not isempty(v0) or not contains(f, z): return None
    g = replace(f, {z: FALSE, Lt(ZERO, Len(X)): TRUE})
    d = sdelta(g, X)
    if d is None or X in d.fv: return None
    a0 = subst(subst(f, {X: v0}), {j: ZERO})
    pre = strip_suffix(a0, subst(d, {j: ZERO}))
    if pre is None: return None
    i = fresh('k', IDX)
    return Ite(Eq(j, ZERO), v0, Concat(pre, flatten_seq(j, i, subst(d, {j: i}))))
def align(t, X, a):
    """under a condition a == g, read X at a instead of at g"""
    memo = {}
    def go(t):
        if X not in t.fv: return t
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == 'ite':
            c, p, q = t.args
            o = one_point(c, a)
            if o is not None and X in p.fv:
                x = At(X, o[0])
                if x.op == 'at': p = replace(p, {x: At(X, a)})
            r = Ite(go(c), go(p), go(q))
        elif t.args: r = rebuild(t, tuple(go(x) for x in t.args))
        else: r = t
        memo[t.id] = r
        return r
    return go(t)
def align2(t, S, b):
    memo = {}
    def go(t):
        if not contains(t, S): return t
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == 'ite':
            c, p, q = t.args
            o = one_point(c, b)
            if o is not None:
                x = At(S, o[0])
                if x.op == 'at': p = replace(p, {x: At(S, b)})
            r = Ite(go(c), go(p), go(q))
        elif t.args and t is not S: r = rebuild(t, tuple(go(x) for x in t.args))
        else: r = t
        memo[t.id] = r
        return r
    return go(t)
def pointwise(X, v0, f, j):
    es = X.sort[1]
    if es[0] == 'Any' and v0.sort[0] == 'Seq': es = v0.sort[1]
    a = fresh('a', IDX)
    xa = At(X, a)
    fa = align(At(f, a), X, a)
    if es[0] == 'Seq':
        b = fresh('b', IDX)
        e = At(xa, b); fe = align2(At(fa, b), xa, b)
        if e.op != 'at': return None
        E = fresh('E', e.sort)
        g = replace(fe, {e: E})
        if X in g.fv: return None
        base = At(At(v0, a), b)
        r = solve_elem(g, E, base, j, None)
        if r is None: return None
        inner = mkseq(Len(At(v0, a)), abst(r, b))
        if X in inner.fv: return None
        return mkseq(Len(v0), abst(inner, a))
    E = fresh('E', xa.sort)
    g = replace(fa, {xa: E})
    if X in g.fv: return None
    r = solve_elem(g, E, At(v0, a), j, None)
    if r is None: return None
    return mkseq(Len(v0), abst(r, a))

def inplace(X, v0, f, us, j):
    """iteration j writes X at position j + d only: until then the element there and the length are the initial ones"""
    if X.sort[0] != 'Seq' or f is X or X not in f.fv: return None
    gs = set()
    for c, v in cases(f, X):
        if v is X: continue
        if v.op != 'upd' or v.args[0] is not X: return None
        gs.add(v.args[1])
    if len(gs) != 1: return None
    g = gs.pop(); d = isub(g, j)
    if d.fv & (us | {j}): return None
    return {mk('at', (X, g), None, At(X, g).sort): At(v0, g), Len(X): Len(v0)}
def latch(X, v0, f, C, us, j):
    """the loop goes on while X has its initial value: whatever is written there ends it"""
    if f is X or X not in f.fv: return None
    K = And(*[c for c in conj(C) if X in c.fv])
    if K is TRUE or (K.fv & us) != {X}: return None
    w = writes_of(f, X)
    if not w: return None
    r = v0
    for c, v in reversed(w):
        if subst(K, {X: v}) is not FALSE: return None
        prev = {j: isub(j, ONE)}
        r = Ite(And(Le(ONE, j), subst(c, prev)), subst(v, prev), r)
    return r
def once(X, v0, f, j):
    """X is written at most once: the condition of every write fails for what a write leaves"""
    if f is X or X not in f.fv or not (isc(v0) and v0.sort[0] == 'Int' or v0.op == 'con' and v0.attr == (OPT, 0)): return None
    w = []
    def go(t, c):
        if t is X: return True
        if t.op == 'ite': return go(t.args[1], And(c, t.args[0])) and go(t.args[2], And(c, Not(t.args[0])))
        w.append((c, t)); return True
    go(f, TRUE)
    if not w or len(w) > 4 or not any(X in c.fv for c, _ in w): return None
    for c, v in w:
        if X in c.fv and any(subst(And(*[k for k in conj(c) if X in k.fv]), {X: u}) is not FALSE for _, u in w): return None
        if X not in c.fv: return None
    r = v0
    ws = [(subst(c, {X: v0}), subst(v, {X: v0})) for c, v in w]
    if any(X in c.fv or X in v.fv for c, v in ws): return None
    some = Or(*[c for c, _ in ws])
    p = First(j, lambda i: subst(some, {j: i}))
    for c, v in reversed(ws): r = Ite(And(Lt(p, j), subst(c, {j: p})), subst(v, {j: p}), r)
    return r
def solve(ex, init, nxt, C, j):
    sol = {}
    todo = list(init)
    f = {X: assume(nxt[X], C) for X in todo}
    keep = {Len(X): Len(init[X]) for X in todo if X.sort[0] == 'Seq' and f[X] is not X and Len(f[X]) is Len(X) and init[X].sort[0] == 'Seq'}
    if keep: f = {X: replace(t, keep) for X, t in f.items()}       # every iteration keeps the length
    while todo:
        progress = False
        cur = {}
        Cs = subst(C, sol)
        for X in todo: cur[X] = assume(subst(f[X], sol), Cs) if sol else f[X]
        for X in todo:      # every iteration keeps the lengths of the rows
            if X.sort[0] == 'Seq' and X.sort[1][0] == 'Seq' and cur[X] is not X and init[X].sort[0] == 'Seq':
                a = fresh('a', IDX)
                if Len(At(cur[X], a)) is Len(At(X, a)):
                    for Y in todo:
                        m = {t: Len(At(init[X], t.args[0].args[1])) for t in subterms(cur[Y]) if t.op == 'len' and t.args[0].op == 'at' and t.args[0].args[0] is X}
                        if m: cur[Y] = replace(cur[Y], m)
        us = set(todo)
        for X in todo:
            m = inplace(X, init[X], cur[X], us, j)
            if m: cur = {Y: replace(cur[Y], m) for Y in cur}
        for X in list(todo):
            deps = (cur[X].fv & us) - {X}
            if deps: continue
            Cs = subst(C, sol)
            r = latch(X, init[X], cur[X], Cs, us, j) or once(X, init[X], cur[X], j) or solve1(X, init[X], cur[X], Cs, j)
            if r is not None and not (r.fv & us):
                sol[X] = r; todo.remove(X); progress = True; break
        if progress: continue
        # opaque fold of a single variable, else of a strongly connected group
        for X in list(todo):
            if not ((cur[X].fv & us) - {X}):
                i = fresh('k', IDX)
                sol[X] = itern(j, init[X], abst(subst(cur[X], {j: i}), X, i))
                todo.remove(X); progress = True; break
        if progress: continue
        reach = {X: closure_of(X, cur, us) for X in todo}
        X = min(todo, key=lambda x: (len(reach[x]), x.id))
        grp = sorted(reach[X], key=lambda x: x.id)
        S = fresh('S', ADT('tuple', *[x.sort for x in grp])); i = fresh('k', IDX)
        m = {x: Fld(S, 0, n, x.sort) for n, x in enumerate(grp)}; m[j] = i
        body = Tup(*[subst(cur[x], m) for x in grp])
        it = itern(j, Tup(*[init[x] for x in grp]), abst(body, S, i))
        for n, x in enumerate(grp):
            sol[x] = Fld(it, 0, n, x.sort); todo.remove(x)
    return sol, set()

def closure_of(X, cur, us):
    seen = {X}; st = [X]
    while st:
        y = st.pop()
        for z in cur[y].fv & us:
            if z not in seen: seen.add(z); st.append(z)
    return seen
