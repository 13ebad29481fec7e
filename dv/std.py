"""Contracts on the standard library and the dependencies (trusted).  Every contract is value-driven: it looks at the symbolic values, not at the
concrete adapter types, so that equivalent ways of writing the same iteration get the same meaning."""
import re
from fractions import Fraction
from terms import *
import sym as S_
from sym import It, ITA, Unsupported, Stateful, VEC, BTM, SEQ_ADTS, MAP_ADTS, SETS, STRING
from mir import strip, tsubst

class _N: pass
NOT = _N()
REG = {}; TRAIT = {}
def bi(*keys):
    def d(f):
        for k in keys: REG[k] = f
        return f
    return d
def tr(*names):
    def d(f):
        for n in names: TRAIT[n] = f
        return f
    return d

class C:
    __slots__ = ('ex', 'key', 'trait', 'name', 'selfty', 'targs', 'args', 'atys', 'dty', 'pc', 'st')
    def a(self, i):
        """argument as a value (a mutable reference is read through)"""
        v = self.args[i]
        while v.op == 'ptr': v = self.ex.load(self.st, v)
        if v.op == 'ite' and v.sort == PTR: v = self.ex.load(self.st, v)
        return v
    def app(self, f, *xs): return self.ex.pure_apply(f, list(xs), self.pc, self.st)

def call_builtin(ex, key, trait, name, selfty, targs, args, atys, dty, pc, st):
    c = C()
    c.ex = ex; c.key = key; c.trait = trait; c.name = name; c.selfty = selfty; c.targs = targs; c.args = args; c.atys = atys; c.dty = dty; c.pc = pc; c.st = st
    h = REG.get(key)
    lab = key
    if h is None and trait is not None:
        t = strip(trait)
        h = TRAIT.get(f'{t}::{name}')
        if h is None and t in ITER_TRAITS: h = ITERM.get(name)
        lab = f'{t}::{name}'
    if h is None:
        for p, f in PREFIX:
            if key.startswith(p): h = f; break
    if h is None: return NOT
    r = h(c)
    if r is not NOT: ex.used_std.add(lab)
    return r

ITER_TRAITS = {'core::iter::traits::iterator::Iterator', 'core::iter::traits::double_ended::DoubleEndedIterator', 'core::iter::traits::exact_size::ExactSizeIterator', 'itertools::Itertools'}
ITERM = {}
def it(*names):
    def d(f):
        for n in names: ITERM[n] = f
        return f
    return d

# ---------------------------------------------------------------- sequences and iterators
LAZY = ('Lazy', 0)
ITERABLE = {}       # sorts of further iterable values -> their items
def to_seq(ex, v):
    """the sequence of items still to be produced by an iterable value"""
    if v.op == 'con':
        if v.attr == ITA:
            s, p = v.args
            return drop(s, p)
        n = v.attr[0]
        if n == 'core::ops::range::Range':
            a, b = v.args
            n = isub(b, a)
            if rng(n)[0] is None or rng(n)[0] < 0: n = imax(n, ZERO)
            return MkSeq(n, lambda i: iadd(a, i))
        if n == 'core::ops::range::RangeInclusive':
            a, b = v.args[:2]
            n = iadd(isub(b, a), ONE)
            if rng(n)[0] is None or rng(n)[0] < 0: n = imax(n, ZERO)
            return MkSeq(n, lambda i: iadd(a, i))
        if n == 'core::ops::range::RangeFrom':
            a = v.args[0]; h = rng(a)[1]; ty = v.sort[2][0][1] if v.sort[2] and v.sort[2][0][0] == 'Int' else 'usize'
            if h is None or h > RANGES.get(ty, RANGES['usize'])[1] - MAXLEN: raise Unsupported('RangeFrom from an unbounded start')
            return MkSeq(I(2 ** 62), lambda i: iadd(a, i))
        if n == OPT:
            return EMPTYSEQ if v.attr[1] == 0 else SeqLit([v.args[0]])
        if v.attr == LAZY: raise Stateful('lazily evaluated closure with side effects')
        if v.sort == ADT('ptrarr'): raise Unsupported('array of pointers')
    if v.op == 'ite': return Ite(v.args[0], to_seq(ex, v.args[1]), to_seq(ex, v.args[2]))
    if v.sort[0] == 'Seq': return v
    f = ITERABLE.get(v.sort)
    if f is not None: return f(v)
    if v.sort[0] == 'Map':
        if v.sort[2] == ADT('tuple') : return mselect(v, lambda k: k)
        return MEntries(v)
    if v.sort[0] == 'Adt' and v.sort[1] == OPT:
        return Ite(VarIs(v, 1), SeqLit([Fld(v, 1, 0, v.sort[2][0] if v.sort[2] else ANY)]), EMPTYSEQ)
    raise Unsupported(f'iteration over {v.op} of sort {v.sort}')
def drop(s, p):
    if p is ZERO: return s
    return MkSeq(imax(isub(Len(s), p), ZERO), lambda i: At(s, iadd(p, i)))

def vfm(ex, s, fn):
    """filter-map over a sequence; fn(elem) -> (cond, value), evaluated under the hypothesis that elem is an element"""
    if s.op == 'concat': return Concat(vfm(ex, s.args[0], fn), vfm(ex, s.args[1], fn))
    if s.op == 'ite':
        a = ex.under([s.args[0]], lambda: vfm(ex, s.args[1], fn))
        b = ex.under([Not(s.args[0])], lambda: vfm(ex, s.args[2], fn))
        return Ite(s.args[0], a, b)
    k = fresh('k', IDX)
    if s.op == 'flat':
        n = s.args[0]
        r = ex.under([Lt(k, n)], lambda: vfm(ex, inst(s.args[1], k), fn))
        return flat(n, abst(r, k))
    n, c0, v0 = seqview(s, k)
    c, v = ex.under([Lt(k, n)] + ([c0] if c0 is not TRUE else []), lambda: fn(v0))
    return fseq(n, abst(And(c0, c), k), abst(v, k))
def seqview(s, k):
    if s.op == 'fseq': return s.args[0], inst(s.args[1], k), inst(s.args[2], k)
    return Len(s), TRUE, At(s, k)
def vmap(ex, s, fn): return vfm(ex, s, lambda x: (TRUE, fn(x)))

def ssum(op, s):
    z = ZERO if op == 'isum' else FC(0)
    if s.op == 'concat':
        a, b = ssum(op, s.args[0]), ssum(op, s.args[1])
        return iadd(a, b) if op == 'isum' else FAdd(a, b)
    if s.op == 'ite': return Ite(s.args[0], ssum(op, s.args[1]), ssum(op, s.args[2]))
    k = fresh('k', IDX)
    if s.op == 'flat': return mkbind(op, s.args[0], abst(ssum(op, inst(s.args[1], k)), k))
    n, c, v = seqview(s, k)
    return mkbind(op, n, abst(Ite(c, v, z), k))
def sall(ex, s, fn):
    """conjunction of fn over the elements"""
    if s.op == 'concat': return And(sall(ex, s.args[0], fn), sall(ex, s.args[1], fn))
    if s.op == 'ite': return Ite(s.args[0], sall(ex, s.args[1], fn), sall(ex, s.args[2], fn))
    k = fresh('k', IDX)
    if s.op == 'flat':
        n = s.args[0]
        b = ex.under([Lt(k, n)], lambda: sall(ex, inst(s.args[1], k), fn))
        return mkbind('all', n, abst(b, k))
    n, c, v = seqview(s, k)
    b = ex.under([Lt(k, n)] + ([c] if c is not TRUE else []), lambda: fn(v))
    return mkbind('all', n, abst(Or(Not(c), b), k))
def scount(s): return Len(s)

def seqfold(c, s, init, step, stop=None, unwrap=None, wrap=None):
    """fold over a sequence with a step that may change the store; step(acc, x, pc, st) -> acc (with unwrap: the wrapped next acc)"""
    ex = c.ex
    ex.nf += 1
    ka = (('acc', ex.nf), 0); kp = (('pos', ex.nf), 0)
    st0 = dict(c.st); st0[ka] = init; st0[kp] = ZERO
    n = Len(s)
    def run(st, p):
        pos = st[kp]
        cond = Lt(pos, n)
        if cond is FALSE: return [], [(TRUE, 'done', st)]
        s2 = dict(st)
        acc = step(st[ka], At(s, pos), And(c.pc, p, cond), s2)
        s2[kp] = iadd(pos, ONE)
        outs = []
        if stop is not None:
            q = stop(acc)
            s3 = dict(s2); s3[ka] = acc
            outs.append((And(cond, q), 'stop', s3))
            cont = And(cond, Not(q))
            if unwrap is not None: acc = assume(unwrap(acc), Not(q))
        else: cont = cond
        s2[ka] = acc
        return [(cont, s2)], [(Not(cond), 'done', st)] + outs
    ex_ = ex.summarise(st0, run, f'{ex.stack[-1] if ex.stack else ""}:{ex.where}')
    if wrap is not None: ex_ = [(q, tag, {**s_, ka: wrap(s_[ka])} if tag == 'done' else s_) for q, tag, s_ in ex_]
    cc, st = ex.merge([(q, s_) for q, tag, s_ in ex_])
    r = st.pop(ka); st.pop(kp, None)
    for k in list(c.st): 
        if k in st: c.st[k] = st[k]
    return r

def is_lazy(v): return v.op == 'con' and v.attr == LAZY
def lazy_parts(v): return v.args
def collect_lazy(c, v):
    """run a lazily mapped iterator to its end"""
    inner, f, box = v.args
    s = to_seq(c.ex, inner)
    def step(acc, x, pc, st):
        r, rc = c.ex.apply(f, [x], pc, st)
        if box is not UNIT: return Concat(acc, Ite(r, SeqLit([x]), EMPTYSEQ))
        return Concat(acc, SeqLit([r]))
    return seqfold(c, s, EMPTYSEQ, step)
def seq_of(c, i=0):
    v = c.a(i)
    if is_lazy(v): return collect_lazy(c, v)
    return to_seq(c.ex, v)

@tr('core::iter::traits::collect::IntoIterator::into_iter')
def _(c):
    v = c.args[0]
    t = c.selfty
    while t is not None and t[0] == 'ref': t = t[2]
    if t is not None and t[0] == 'adt' and t[1].startswith('std::collections::hash::'): raise Unsupported('iteration in an unspecified order')
    if v.op == 'ptr':
        ty = c.atys[0] if c.atys and c.atys[0] else None
        inner = c.a(0)
        if inner.op == 'con' and inner.attr in (ITA, LAZY): return v
        return iter_mut(c, v, inner)
    if is_lazy(v) : return v
    if v.op == 'con' and v.attr == ITA: return v
    return It(to_seq(c.ex, v))
def iter_mut(c, p, v):
    """the pointers to the elements (values) of a sequence (map)"""
    if v.sort[0] == 'Seq': return It(MkSeq(Len(v), lambda i: c.ex.ptr_ext(p, ('i',), i)))
    if v.sort[0] == 'Map' and v.sort[2] != ADT('tuple'): return It(MkSeq(MLen(v), lambda i: Tup(KeyAt(v, i), c.ex.ptr_ext(p, ('k',), KeyAt(v, i)))))
    raise Unsupported('mutable iteration')
@bi('core::slice::<impl [T]>::iter_mut', 'alloc::vec::Vec::iter_mut', 'alloc::collections::btree::map::BTreeMap::iter_mut')
def _(c):
    if c.args[0].op != 'ptr': raise Unsupported('mutable iteration')
    return iter_mut(c, c.args[0], c.a(0))
@bi('alloc::collections::btree::map::BTreeMap::values_mut')
def _(c):
    p = c.args[0]
    if p.op != 'ptr': raise Unsupported('mutable iteration')
    m = c.a(0); return It(MkSeq(MLen(m), lambda i: c.ex.ptr_ext(p, ('k',), KeyAt(m, i))))
@bi('core::slice::<impl [T]>::iter', 'alloc::collections::btree::map::BTreeMap::iter', 'alloc::collections::btree::map::BTreeMap::into_iter', 'alloc::vec::Vec::iter',
    'alloc::collections::btree::set::BTreeSet::iter', 'core::option::Option::iter', 'std::collections::hash::map::HashMap::iter')
def _(c): return It(to_seq(c.ex, c.a(0)))
@bi('alloc::collections::btree::map::BTreeMap::keys', 'alloc::collections::btree::map::BTreeMap::into_keys')
def _(c):
    m = c.a(0); return It(mselect(m, lambda k: k))
@bi('alloc::collections::btree::map::BTreeMap::values', 'alloc::collections::btree::map::BTreeMap::into_values')
def _(c):
    m = c.a(0); return It(mselect(m, lambda k: MGet(m, k)))

@it('next')
def _(c):
    p = c.args[0]
    if p.op != 'ptr': return NOT
    v = c.ex.load(c.st, p)
    if v.op == 'con' and v.attr == ITA:
        s, pos = v.args
        cond = Lt(pos, Len(s))
        c.ex.store(c.st, p, Con(ITA, (s, Ite(cond, iadd(pos, ONE), pos)), v.sort))
        if cond is FALSE: return NoneT()
        return Ite(cond, Some(At(s, pos)), NoneT())
    if is_lazy(v):
        inner, f, box = v.args
        if box is not UNIT: raise Unsupported('next on a filter with side effects')
        s, pos = inner.args if inner.attr == ITA else (to_seq(c.ex, inner), ZERO)
        cond = Lt(pos, Len(s))
        if cond is FALSE: return NoneT()
        s2 = dict(c.st)
        r, rc = c.ex.apply(f, [At(s, pos)], And(c.pc, cond), s2)
        for k in c.st:
            if s2[k] is not c.st[k]: c.st[k] = Ite(cond, s2[k], c.st[k])
        c.ex.store(c.st, p, Con(LAZY, (It(s, Ite(cond, iadd(pos, ONE), pos)), f, box), v.sort))
        return Ite(cond, Some(r), NoneT())
    if v.op == 'con' and v.attr[0] == 'core::ops::range::Range':
        a, b = v.args
        cond = Lt(a, b)
        c.ex.store(c.st, p, Con(v.attr, (Ite(cond, iadd(a, ONE), a), b), v.sort))
        return Ite(cond, Some(a), NoneT())
    raise Unsupported(f'next on {v.op}')

@it('map')
def _(c):
    s0 = c.a(0)
    if is_lazy(s0): raise Unsupported('map over lazy')
    s = to_seq(c.ex, s0); f = c.args[1]
    n = len(c.ex.obls)
    try: return It(vmap(c.ex, s, lambda x: c.app(f, x)))
    except Stateful:
        del c.ex.obls[n:]
        return Con(LAZY, (It(s), f, UNIT), ADT('Lazy'))
@it('filter')
def _(c):
    if is_lazy(c.a(0)): raise Unsupported('filter over lazy')
    s = seq_of(c); f = c.args[1]
    n = len(c.ex.obls)
    try: return It(vfm(c.ex, s, lambda x: (c.app(f, x), x)))
    except Stateful:
        del c.ex.obls[n:]
        return Con(LAZY, (It(s), f, S('filter')), ADT('Lazy'))
@bi('alloc::vec::Vec::retain')
def _(c):
    f = c.args[1]
    c.ex.store(c.st, c.args[0], vfm(c.ex, c.a(0), lambda x: (c.app(f, x), x))); return UNIT
@it('filter_map')
def _(c):
    s = seq_of(c); f = c.args[1]
    def g(x):
        r = c.app(f, x); return VarIs(r, 1), Fld(r, 1, 0, r.sort[2][0] if r.sort[0] == 'Adt' and r.sort[2] else ANY)
    return It(vfm(c.ex, s, g))
@it('map_while')
def _(c):
    s = seq_of(c); f = c.args[1]
    if s.op in ('concat', 'ite', 'flat', 'fseq'): raise Unsupported('map_while')
    r = vmap(c.ex, s, lambda x: c.app(f, x))
    n = Bind('first', Len(s), lambda i: Not(VarIs(At(r, i), 1)))
    def v(i):
        e = At(r, i); return Fld(e, 1, 0, e.sort[2][0] if e.sort[0] == 'Adt' and e.sort[2] else ANY)
    return It(MkSeq(n, v))
def vflat(ex, s, fn):
    k = fresh('k', IDX)
    if s.op == 'concat': return Concat(vflat(ex, s.args[0], fn), vflat(ex, s.args[1], fn))
    if s.op == 'ite': return Ite(s.args[0], vflat(ex, s.args[1], fn), vflat(ex, s.args[2], fn))
    if s.op == 'flat':
        r = ex.under([Lt(k, s.args[0])], lambda: vflat(ex, inst(s.args[1], k), fn))
        return flat(s.args[0], abst(r, k))
    n, cnd, v = seqview(s, k)
    r = ex.under([Lt(k, n)] + ([cnd] if cnd is not TRUE else []), lambda: fn(v))
    from loops import flatten_seq
    return flatten_seq(n, k, Ite(cnd, r, EMPTYSEQ))
@it('flat_map')
def _(c):
    f = c.args[1]
    return It(vflat(c.ex, seq_of(c), lambda x: to_seq(c.ex, c.app(f, x))))
@it('flatten')
def _(c): return It(vflat(c.ex, seq_of(c), lambda x: to_seq(c.ex, x)))
@it('cloned', 'copied', 'into_iter', 'fuse', 'peekable_')
def _(c): return c.args[0]
@it('by_ref')
def _(c): return c.args[0]
@it('enumerate')
def _(c):
    s = seq_of(c)
    if s.op == 'fseq':
        n, cb, vb = s.args
        k = fresh('k', IDX)
        rank = ISum(k, lambda i: Ite(inst(cb, i), ONE, ZERO))
        return It(fseq(n, cb, abst(Tup(rank, inst(vb, k)), k)))
    return It(MkSeq(Len(s), lambda i: Tup(i, At(s, i))))
@it('take')
def _(c):
    s = seq_of(c); n = c.args[1]
    if s.op == 'fseq':
        m, cb, vb = s.args
        k = fresh('k', IDX)
        rank = ISum(k, lambda i: Ite(inst(cb, i), ONE, ZERO))
        return It(fseq(m, abst(And(inst(cb, k), Lt(rank, n)), k), vb))
    return It(MkSeq(imin(Len(s), n), lambda i: At(s, i)))
@it('skip')
def _(c):
    s = seq_of(c); n = c.args[1]
    if s.op == 'fseq':
        m, cb, vb = s.args
        k = fresh('k', IDX)
        rank = ISum(k, lambda i: Ite(inst(cb, i), ONE, ZERO))
        return It(fseq(m, abst(And(inst(cb, k), Le(n, rank)), k), vb))
    return It(drop(s, n))
@it('rev')
def _(c):
    s = seq_of(c); n = Len(s)
    return It(MkSeq(n, lambda i: At(s, isub(isub(n, ONE), i))))
@it('chain')
def _(c): return It(Concat(seq_of(c), to_seq(c.ex, c.a(1))))
@it('zip')
def _(c):
    a, b = seq_of(c), to_seq(c.ex, c.a(1))
    return It(MkSeq(imin(Len(a), Len(b)), lambda i: Tup(At(a, i), At(b, i))))
@bi('core::iter::adapters::zip::zip')
def _(c):
    a, b = seq_of(c), to_seq(c.ex, c.a(1))
    return It(MkSeq(imin(Len(a), Len(b)), lambda i: Tup(At(a, i), At(b, i))))
@it('take_while')
def _(c):
    s = seq_of(c); f = c.args[1]
    n = Len(s); k = fresh('k', IDX)
    b = c.ex.under([Lt(k, n)], lambda: c.app(f, At(s, k)))
    return It(MkSeq(mkbind('first', n, abst(Not(b), k)), lambda i: At(s, i)))
@it('skip_while')
def _(c):
    s = seq_of(c); f = c.args[1]
    n = Len(s); k = fresh('k', IDX)
    b = c.ex.under([Lt(k, n)], lambda: c.app(f, At(s, k)))
    return It(drop(s, mkbind('first', n, abst(Not(b), k))))
@it('sum')
def _(c):
    s = seq_of(c)
    so = c.ex.sort(c.dty)
    if so == F64: return ssum('fsum', s)
    if so[0] == 'Int':
        r = ssum('isum', s)
        c.ex.oblige('overflow', c.pc, And(Le(I(RANGES[so[1]][0]), r), Le(r, I(RANGES[so[1]][1]))), 'sum overflows')
        return r
    raise Unsupported(f'sum of {so}')
@it('count', 'len')
def _(c):
    if c.name == 'len' and c.trait not in ITER_TRAITS: return NOT
    return Len(seq_of(c))
@it('any')
def _(c):
    f = c.args[1]
    return Not(sall(c.ex, seq_of(c), lambda x: Not(c.app(f, x))))
@it('all')
def _(c):
    f = c.args[1]
    return sall(c.ex, seq_of(c), lambda x: c.app(f, x))
def first_of(c, s, f):
    n = Len(s) if s.op != 'fseq' else s.args[0]
    k = fresh('k', IDX)
    if s.op == 'fseq': cnd, v = inst(s.args[1], k), inst(s.args[2], k)
    else: cnd, v = TRUE, At(s, k)
    b = c.ex.under([Lt(k, n)] + ([cnd] if cnd is not TRUE else []), lambda: f(v))
    J = mkbind('first', n, abst(And(cnd, b), k))
    return n, J, (inst(s.args[2], J) if s.op == 'fseq' else At(s, J))
@it('find')
def _(c):
    f = c.args[1]
    n, J, x = first_of(c, seq_of(c), lambda v: c.app(f, v))
    return Ite(Lt(J, n), Some(x), NoneT())
@it('position')
def _(c):
    f = c.args[1]; s = seq_of(c)
    if s.op == 'fseq':
        n, J, x = first_of(c, s, lambda v: c.app(f, v))
        return Ite(Lt(J, n), Some(ISum(J, lambda i: Ite(inst(s.args[1], i), ONE, ZERO))), NoneT())
    n, J, x = first_of(c, s, lambda v: c.app(f, v))
    return Ite(Lt(J, n), Some(J), NoneT())
@it('find_map')
def _(c):
    f = c.args[1]
    n, J, x = first_of(c, seq_of(c), lambda v: VarIs(c.app(f, v), 1))
    r = c.app(f, x)
    return Ite(Lt(J, n), Some(Fld(r, 1, 0, ANY)), NoneT())
@it('last')
def _(c):
    s = seq_of(c); n = Len(s)
    return Ite(Lt(ZERO, n), Some(At(s, isub(n, ONE))), NoneT())
@it('nth')
def _(c):
    if c.args[0].op != 'ptr': return NOT
    v = c.ex.load(c.st, c.args[0])
    if not (v.op == 'con' and v.attr == ITA): raise Unsupported('nth')
    s, p = v.args; q = iadd(p, c.args[1])
    c.ex.store(c.st, c.args[0], It(s, iadd(q, ONE)))
    return Ite(Lt(q, Len(s)), Some(At(s, q)), NoneT())
@it('fold')
def _(c):
    s = seq_of(c); f = c.args[2]
    return seqfold(c, s, c.args[1], lambda acc, x, pc, st: c.ex.apply(f, [acc, x], pc, st)[0])
@it('reduce')
def _(c):
    s = seq_of(c); f = c.args[1]
    if c.dty[0] != 'adt' or c.dty[1] != OPT: return NOT
    rest = MkSeq(imax(isub(Len(s), ONE), ZERO), lambda i: At(s, iadd(i, ONE)))
    return Ite(Lt(ZERO, Len(s)), Some(seqfold(c, rest, At(s, ZERO), lambda acc, x, pc, st: c.ex.apply(f, [acc, x], pc, st)[0])), NoneT())
@it('for_each')
def _(c):
    s = seq_of(c); f = c.args[1]
    seqfold(c, s, UNIT, lambda acc, x, pc, st: (c.ex.apply(f, [x], pc, st), UNIT)[1])
    return UNIT
@it('try_for_each')
def _(c):
    s = seq_of(c); f = c.args[1]
    def step(acc, x, pc, st): return c.ex.apply(f, [x], pc, st)[0]
    return seqfold(c, s, Ok(UNIT), step, stop=lambda r: VarIs(r, 1) if is_res(r) else VarIs(r, 0))
@it('try_fold')
def _(c):
    s = seq_of(c); f = c.args[2]
    isres = c.dty[0] == 'adt' and c.dty[1] == RES
    wrap = Ok if isres else Some
    if c.dty[0] != 'adt' or c.dty[1] not in (RES, OPT): raise Unsupported(f'try_fold into {c.dty}')
    so = c.ex.sort(c.dty[2][0])
    def step(acc, x, pc, st): return c.ex.apply(f, [acc, x], pc, st)[0]
    return seqfold(c, s, c.args[1], step, stop=lambda r: VarIs(r, 1 if isres else 0), unwrap=lambda r: Fld(r, 0 if isres else 1, 0, so), wrap=wrap)
def is_res(r):
    while r.op == 'ite': r = r.args[1]
    return r.op == 'con' and r.attr[0] == RES or r.sort[0] == 'Adt' and r.sort[1] == RES
@it('max', 'min')
def _(c):
    s = seq_of(c)
    if c.dty[0] != 'adt' or c.dty[1] != OPT: return NOT
    e = c.ex.sort(c.dty[2][0])
    if e[0] != 'Int': raise Unsupported('max of non-integers')
    n = Len(s); k = fresh('k', IDX)
    return Ite(Lt(ZERO, n), Some(mkbind('smax' if c.name == 'max' else 'smin', n, abst(At(s, k), k))), NoneT())
@it('eq', 'ne')
def _(c):
    a, b = seq_of(c), to_seq(c.ex, c.a(1))
    r = seq_eq(a, b)
    return r if c.name == 'eq' else Not(r)
def seq_eq(a, b):
    if a is b: return TRUE
    return And(Eq(Len(a), Len(b)), All(Len(a), lambda i: veq(At(a, i), At(b, i))))
def veq(a, b):
    """value equality as decided by PartialEq"""
    if a is b and a.sort != F64: return TRUE
    if a.sort == F64 or b.sort == F64: return FCmp('feq', a, b)
    if a.sort[0] == 'Seq': return seq_eq(a, b)
    if a.op == 'con' and b.op == 'con':
        if a.attr != b.attr: return FALSE
        return And(*[veq(x, y) for x, y in zip(a.args, b.args)])
    return Eq(a, b)
@it('unzip')
def _(c):
    s = seq_of(c)
    return Tup(vmap(c.ex, s, lambda x: Fld(x, 0, 0, ANY)), vmap(c.ex, s, lambda x: Fld(x, 0, 1, ANY)))
@it('collect')
def _(c): return collect_to(c, seq_of(c), c.dty)
@tr('core::iter::traits::collect::FromIterator::from_iter')
def _(c): return collect_to(c, seq_of(c), c.dty)
def collect_to(c, s, t):
    if t[0] != 'adt': raise Unsupported(f'collect into {t}')
    p = t[1]
    if p in SEQ_ADTS or p == 'alloc::boxed::Box': return s
    if p in MAP_ADTS: return map_of_pairs(s)
    if p in SETS:
        if s.op in ('flat', 'concat'): raise Unsupported('set of a concatenation')
        if s.op == 'ite': return Ite(s.args[0], collect_to(c, s.args[1], t), collect_to(c, s.args[2], t))
        return MOfSeq(Len(s), lambda i: At(s, i), lambda i: UNIT)
    if p in (RES, OPT):
        okv = 0 if p == RES else 1
        n, J, x = first_of(c, s, lambda v: VarIs(v, 1 - okv))
        allok = sall(c.ex, s, lambda v: VarIs(v, okv))
        inner = vmap(c.ex, s, lambda v: Fld(v, okv, 0, vsort(v, okv)))
        good = collect_to(c, inner, t[2][0])
        if p == RES: return Ite(allok, Ok(good), Err(Fld(x, 1, 0, vsort(x, 1))))
        return Ite(allok, Some(good), NoneT())
    raise Unsupported(f'collect into {p}')
def vsort(v, i):
    if v.sort[0] == 'Adt' and v.sort[2]: return v.sort[2][min(i, len(v.sort[2]) - 1)] if v.sort[1] == RES else v.sort[2][0]
    return ANY
def map_of_pairs(s):
    if s.op in ('flat', 'concat'): raise Unsupported('map of a concatenation')
    if s.op == 'ite': return Ite(s.args[0], map_of_pairs(s.args[1]), map_of_pairs(s.args[2]))
    return MOfSeq(Len(s), lambda i: Fld(At(s, i), 0, 0, ANY), lambda i: Fld(At(s, i), 0, 1, ANY))
@it('partition')
def _(c):
    s = seq_of(c); f = c.args[1]
    return Tup(vfm(c.ex, s, lambda x: (c.app(f, x), x)), vfm(c.ex, s, lambda x: (Not(c.app(f, x)), x)))
@it('product', 'scan', 'step_by', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'cycle', 'inspect', 'next_back', 'rposition', 'windows', 'peekable', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'size_hint', 'is_sorted', 'sorted_by', 'sorted', 'rfind', 'rfold', 'min_max', 'is_sorted_by')
def _(c):
    if c.name in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'): return NOT
    raise Unsupported(f'iterator method {c.name}')
@bi('core::ops::range::RangeInclusive::new')
def _(c): return Con(('core::ops::range::RangeInclusive', 0), (c.args[0], c.args[1], FALSE), ADT('core::ops::range::RangeInclusive'))
@bi('core::iter::sources::repeat_n::repeat_n')
def _(c):
    x = c.args[0]; return It(MkSeq(c.args[1], lambda i: x))
@bi('core::iter::sources::once::once')
def _(c): return It(SeqLit([c.args[0]]))
@bi('core::iter::sources::empty::empty')
def _(c): return It(EMPTYSEQ)

# ---------------------------------------------------------------- Vec and slices
V = 'alloc::vec::Vec::'; SL = 'core::slice::<impl [T]>::'; ASL = 'alloc::slice::<impl [T]>::'
@bi(V + 'new', V + 'with_capacity', V + 'new_in')
def _(c): return empty_of(c)
def empty_of(c, t=None):
    s = c.ex.sort(t or c.dty)
    if s[0] == 'Map': return MEmpty(s[1], s[2])
    if s[0] == 'Seq': return EmptySeq(s[1])
    return EMPTYSEQ
@bi('alloc::vec::from_elem')
def _(c):
    x = c.args[0]; return MkSeq(c.args[1], lambda i: x)
@bi(V + 'len', SL + 'len')
def _(c): return Len(c.a(0))
@bi(V + 'is_empty', SL + 'is_empty')
def _(c): return Eq(Len(c.a(0)), ZERO)
@bi(V + 'push')
def _(c):
    c.ex.store(c.st, c.args[0], Concat(c.a(0), SeqLit([c.args[1]]))); return UNIT
@bi(V + 'extend_from_slice', V + 'append_')
def _(c):
    c.ex.store(c.st, c.args[0], Concat(c.a(0), c.a(1))); return UNIT
@tr('core::iter::traits::collect::Extend::extend')
def _(c):
    v = c.a(0)
    if v.sort[0] == 'Map': raise Unsupported('map extend')
    c.ex.store(c.st, c.args[0], Concat(v, seq_of(c, 1))); return UNIT
@bi(V + 'clear')
def _(c): c.ex.store(c.st, c.args[0], EmptySeq(esort(c.a(0)))); return UNIT
@bi(V + 'reserve', V + 'shrink_to_fit')
def _(c): return UNIT
@bi(V + 'truncate')
def _(c):
    s = c.a(0); c.ex.store(c.st, c.args[0], MkSeq(imin(Len(s), c.args[1]), lambda i: At(s, i))); return UNIT
@bi('alloc::boxed::Box::new_uninit')
def _(c):
    BOXES[0] += 1; k = ('box', BOXES[0]); c.st[k] = UNDEF
    return c.ex.ptr(k)
BOXES = [0]
@bi('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(c):
    p = c.args[0]
    if p.op != 'ptr': raise Unsupported('boxed array')
    v = c.ex.load(c.st, p); c.st.pop(p.attr[0], None)
    if v.op == 'undef': raise Unsupported('boxed array')
    return v
@bi(V + 'as_slice', ASL + 'to_vec', ASL + 'into_vec', V + 'into_boxed_slice', SL + 'as_slice', 'alloc::boxed::Box::new', V + 'as_ref')
def _(c):
    return c.a(0) if c.name_is_value() else c.a(0)
C.name_is_value = lambda self: True
@bi(V + 'as_mut_slice')
def _(c): return c.args[0]
@tr('core::ops::deref::Deref::deref', 'core::borrow::Borrow::borrow', 'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::convert::Into::into_')
def _(c): return c.a(0)
@tr('core::clone::Clone::clone_from')
def _(c): c.ex.store(c.st, c.args[0], c.a(1)); return UNIT
@tr('core::ops::deref::DerefMut::deref_mut', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut')
def _(c): return c.args[0]
@tr('core::convert::AsRef::as_ref')
def _(c):
    v = c.a(0)
    if v.sort[0] in ('Str', 'Seq'): return v
    return NOT
def subslice(c, s, r):
    n = Len(s)
    nm = r.attr[0].split('::')[-1] if r.op == 'con' else None
    if nm == 'Range': a, b = r.args
    elif nm == 'RangeTo': a, b = ZERO, r.args[0]
    elif nm == 'RangeFrom': a, b = r.args[0], n
    elif nm == 'RangeFull': a, b = ZERO, n
    elif nm == 'RangeInclusive': a, b = r.args[0], iadd(r.args[1], ONE)
    elif nm == 'RangeToInclusive': a, b = ZERO, iadd(r.args[0], ONE)
    else: return None
    return a, b
@tr('core::ops::index::Index::index')
def _(c):
    s, i = c.a(0), c.args[1]
    if s.sort[0] == 'Map':
        c.ex.oblige('panic', c.pc, MHas(s, i), 'map index'); return MGet(s, i)
    if i.sort[0] == 'Int':
        c.ex.oblige('panic', c.pc, And(Le(ZERO, i), Lt(i, Len(s))), 'index out of bounds')
        return At(s, i)
    if s.sort[0] != 'Seq': return NOT
    ab = subslice(c, s, i)
    if ab is None: return NOT
    a, b = ab
    c.ex.oblige('panic', c.pc, And(Le(a, b), Le(b, Len(s))), 'slice out of bounds')
    return MkSeq(isub(b, a), lambda k: At(s, iadd(a, k)))
@tr('core::ops::index::IndexMut::index_mut')
def _(c):
    s, i = c.a(0), c.args[1]
    if s.sort[0] == 'Seq' and i.sort[0] == 'Int':
        c.ex.oblige('panic', c.pc, And(Le(ZERO, i), Lt(i, Len(s))), 'index out of bounds')
        return c.ex.ptr_ext(c.args[0], ('i',), i)
    return NOT
@bi(SL + 'get', V + 'get')
def _(c):
    s, i = c.a(0), c.args[1]
    if i.sort[0] != 'Int':
        ab = subslice(c, s, i)
        if ab is None: return NOT
        a, b = ab
        return Ite(And(Le(a, b), Le(b, Len(s))), Some(MkSeq(isub(b, a), lambda k: At(s, iadd(a, k)))), NoneT())
    return Ite(Lt(i, Len(s)), Some(At(s, i)), NoneT())
@bi(SL + 'get_mut')
def _(c):
    s, i = c.a(0), c.args[1]
    if i.sort[0] != 'Int': return NOT
    return Ite(Lt(i, Len(s)), Some(c.ex.ptr_ext(c.args[0], ('i',), i)), NoneT())
@bi(SL + 'first')
def _(c):
    s = c.a(0); return Ite(Lt(ZERO, Len(s)), Some(At(s, ZERO)), NoneT())
@bi(SL + 'last')
def _(c):
    s = c.a(0); return Ite(Lt(ZERO, Len(s)), Some(At(s, isub(Len(s), ONE))), NoneT())
@bi(SL + 'split_first')
def _(c):
    s = c.a(0); return Ite(Lt(ZERO, Len(s)), Some(Tup(At(s, ZERO), drop(s, ONE))), NoneT())
@bi(SL + 'split_last')
def _(c):
    s = c.a(0); n = isub(Len(s), ONE); return Ite(Lt(ZERO, Len(s)), Some(Tup(At(s, n), MkSeq(imax(n, ZERO), lambda i: At(s, i)))), NoneT())
@bi(SL + 'swap')
def _(c):
    s = c.a(0); i, j = c.args[1], c.args[2]
    c.ex.oblige('panic', c.pc, And(Lt(i, Len(s)), Lt(j, Len(s))), 'swap out of bounds')
    c.ex.store(c.st, c.args[0], Upd(Upd(s, i, At(s, j)), j, At(s, i))); return UNIT
@bi(SL + 'reverse')
def _(c):
    s = c.a(0); n = Len(s)
    c.ex.store(c.st, c.args[0], MkSeq(n, lambda i: At(s, isub(isub(n, ONE), i)))); return UNIT
@bi(SL + 'contains')
def _(c):
    s, x = c.a(0), c.a(1); return Any(Len(s), lambda i: veq(At(s, i), x))
@bi(SL + 'fill')
def _(c):
    s, x = c.a(0), c.args[1]; c.ex.store(c.st, c.args[0], MkSeq(Len(s), lambda i: x)); return UNIT
@bi(SL + 'split_at')
def _(c):
    s, m = c.a(0), c.args[1]
    c.ex.oblige('panic', c.pc, Le(m, Len(s)), 'split_at out of bounds')
    return Tup(MkSeq(m, lambda i: At(s, i)), drop(s, m))
@bi(ASL + 'concat')
def _(c): return vflat(c.ex, c.a(0), lambda x: x)
@bi(ASL + 'sort_by')
def _(c):
    s = c.a(0); f = c.args[1]
    return dosort(c, s, lambda a, b: VarIs(c.app(f, a, b), 0))
@bi(ASL + 'sort_by_key', ASL + 'sort_by_cached_key')
def _(c):
    s = c.a(0); f = c.args[1]
    return dosort(c, s, lambda a, b: OLt(c.app(f, a), c.app(f, b)))
@bi(ASL + 'sort')
def _(c): return dosort(c, c.a(0), lambda a, b: VarIs(c.ex.cmp(a, b), 0))
@bi(SL + 'sort_unstable_by', SL + 'sort_unstable', SL + 'sort_unstable_by_key')
def _(c):
    s = c.a(0)
    if c.key.endswith('by'): f = c.args[1]; lt = lambda a, b: VarIs(c.app(f, a, b), 0)
    elif c.key.endswith('key'): f = c.args[1]; lt = lambda a, b: OLt(c.app(f, a), c.app(f, b))
    else: lt = lambda a, b: VarIs(c.ex.cmp(a, b), 0)
    # same result as a stable sort when no two elements at different positions compare equal
    i, j = fresh('k', IDX), fresh('k', IDX); n = Len(s)
    c.ex.oblige('stability', c.pc, Implies(And(Lt(i, j), Lt(j, n)), Or(lt(At(s, i), At(s, j)), lt(At(s, j), At(s, i)))), 'unstable sort may reorder equal elements')
    return dosort(c, s, lt)
def dosort(c, s, lt):
    a, b = fresh('a', esort2(c, s)), fresh('b', esort2(c, s))
    if s.op in ('mkseq', 'fseq'):
        v = s.args[-1]
        if v.op == 'con' and isstructlike(c, v):
            a = generic_con(v, 'a'); b = generic_con(v, 'b')
    c.ex.store(c.st, c.args[0], sortterm(s, a, b, lt(a, b)))
    return UNIT
def isstructlike(c, v): return isstruct(v) or c.ex.is_struct_path(v.attr[0])
def generic_con(v, tag):
    x = fresh(tag, v.sort)
    return Con(v.attr, tuple(Fld(x, v.attr[1], i, y.sort) for i, y in enumerate(v.args)), v.sort)
def root_sym(t):
    return next(iter(t.fv)) if t.fv else None
def sortterm(s, a, b, body):
    ra = a if a.op == 'sym' else root_sym(a); rb = b if b.op == 'sym' else root_sym(b)
    return mk('sortby', (s, abst(body, ra, rb)), None, s.sort)
def esort2(c, s): return esort(s)

# ---------------------------------------------------------------- maps
M = 'alloc::collections::btree::map::BTreeMap::'; HM = 'std::collections::hash::map::HashMap::'; BS = 'alloc::collections::btree::set::BTreeSet::'; HS = 'std::collections::hash::set::HashSet::'
@bi(M + 'new', BS + 'new', HS + 'new')
def _(c): return empty_of(c)
@bi(M + 'get', HM + 'get', BS + 'get_')
def _(c):
    m, k = c.a(0), c.a(1); return Ite(MHas(m, k), Some(MGet(m, k)), NoneT())
@bi(M + 'get_key_value')
def _(c):
    m, k = c.a(0), c.a(1); return Ite(MHas(m, k), Some(Tup(k, MGet(m, k))), NoneT())
@bi(M + 'get_mut')
def _(c):
    m, k = c.a(0), c.a(1); return Ite(MHas(m, k), Some(c.ex.ptr_ext(c.args[0], ('k',), k)), NoneT())
@bi(M + 'contains_key', HM + 'contains_key', BS + 'contains', HS + 'contains')
def _(c): return MHas(c.a(0), c.a(1))
@bi(M + 'insert')
def _(c):
    m, k, v = c.a(0), c.args[1], c.args[2]
    c.ex.store(c.st, c.args[0], MIns(m, k, v))
    return Ite(MHas(m, k), Some(MGet(m, k)), NoneT())
@bi(BS + 'insert', HS + 'insert')
def _(c):
    m, k = c.a(0), c.args[1]
    c.ex.store(c.st, c.args[0], MIns(m, k, UNIT)); return Not(MHas(m, k))
@bi(M + 'remove')
def _(c):
    m, k = c.a(0), c.a(1)
    c.ex.store(c.st, c.args[0], MRem(m, k)); return Ite(MHas(m, k), Some(MGet(m, k)), NoneT())
@bi(M + 'len', BS + 'len', HS + 'len', HM + 'len')
def _(c): return MLen(c.a(0))
@bi(M + 'is_empty', BS + 'is_empty', HS + 'is_empty', HM + 'is_empty')
def _(c): return Eq(MLen(c.a(0)), ZERO)
@bi(M + 'clear')
def _(c): m = c.a(0); c.ex.store(c.st, c.args[0], MEmpty(*m.sort[1:3])); return UNIT
ENT = 'alloc::collections::btree::map::entry::Entry'
ENTM = 'alloc::collections::btree::map::entry::'
@bi(M + 'entry')
def _(c):
    mp, k = c.args[0], c.args[1]
    if mp.op != 'ptr': raise Unsupported('entry of a conditional map')
    m = c.ex.load(c.st, mp); so = ADT(ENT)
    return Ite(MHas(m, k), Con((ENT, 1), (Con(('MEntry', 0), (mp, k), ADT('MEntry')),), so), Con((ENT, 0), (Con(('MEntry', 0), (mp, k), ADT('MEntry')),), so))
def entry_of(e):
    """(pointer to the map, key) of an entry"""
    while e.op == 'ite': e = e.args[1]
    if e.op == 'con' and e.attr[0] == ENT: e = e.args[0]
    if not (e.op == 'con' and e.attr == ('MEntry', 0)): raise Unsupported('entry')
    return e.args
def or_ins(c, mk_v):
    mp, k = entry_of(c.args[0])
    m = c.ex.load(c.st, mp)
    has = MHas(m, k)
    c.ex.store(c.st, mp, Ite(has, m, MIns(m, k, mk_v(k))))
    return c.ex.ptr_ext(mp, ('k',), k)
@bi(ENTM + 'VacantEntry::insert')
def _(c):
    mp, k = entry_of(c.args[0]); c.ex.store(c.st, mp, MIns(c.ex.load(c.st, mp), k, c.args[1])); return c.ex.ptr_ext(mp, ('k',), k)
@bi(ENT + '::key', ENTM + 'VacantEntry::key', ENTM + 'OccupiedEntry::key', ENTM + 'VacantEntry::into_key')
def _(c): return entry_of(c.a(0))[1]
@bi(ENTM + 'OccupiedEntry::get', ENTM + 'OccupiedEntry::get_mut', ENTM + 'OccupiedEntry::into_mut')
def _(c):
    mp, k = entry_of(c.a(0)); p = c.ex.ptr_ext(mp, ('k',), k)
    return c.ex.load(c.st, p) if c.key.endswith('get') else p
@bi(ENTM + 'OccupiedEntry::insert')
def _(c):
    e = c.a(0); mp, k = entry_of(e); m = c.ex.load(c.st, mp); c.ex.store(c.st, mp, MIns(m, k, c.args[1])); return MGet(m, k)
@bi(ENTM + 'OccupiedEntry::remove')
def _(c):
    mp, k = entry_of(c.args[0]); m = c.ex.load(c.st, mp); c.ex.store(c.st, mp, MRem(m, k)); return MGet(m, k)
@bi(ENT + '::or_default')
def _(c):
    t = c.dty[2] if c.dty[0] == 'ref' else c.dty
    return or_ins(c, lambda k: default(c, t))
@bi(ENT + '::or_insert')
def _(c): return or_ins(c, lambda k: c.args[1])
@bi(ENT + '::or_insert_with')
def _(c): return or_ins(c, lambda k: c.app(c.args[1]))
def default(c, t):
    s = c.ex.sort(t)
    if s[0] == 'Map': return MEmpty(s[1], s[2])
    if s[0] == 'Seq': return EmptySeq(s[1])
    if s[0] == 'Int': return ZERO
    if s == F64: return FC(0)
    if s == BOOL: return FALSE
    if s == STR: return S('')
    if t[0] == 'tuple': return Tup(*[default(c, x) for x in t[1]])
    if t[0] == 'adt' and t[1] == OPT: return NoneT()
    if t[0] == 'param': return UF('default', c.ex.sort(t))
    raise Unsupported(f'default of {t}')
@tr('core::default::Default::default')
def _(c): return default(c, c.selfty if c.selfty is not None else c.dty)
@tr('core::convert::From::from', 'core::convert::Into::into')
def _(c):
    v = c.a(0); d = c.dty
    src, dst = v.sort, c.ex.sort(d)
    if d[0] == 'adt' and d[1] == 'ordered_float::OrderedFloat':
        if v.sort == F64: return Con((d[1], 0), (v,), c.ex.sort(d))
        if v.sort[0] == 'Int': return Con((d[1], 0), (I2F(v),), c.ex.sort(d))
    if dst == F64 and src[0] == 'Int': return I2F(v)
    if dst == F64 and src == F64: return v
    if dst == F64 and src[0] == 'Adt' and src[1] == 'ordered_float::OrderedFloat': return Fld(v, 0, 0, F64)
    if dst[0] == 'Int' and src[0] == 'Int': return v
    if dst == STR and src == STR: return v
    if dst == src: return v
    if dst[0] == 'Int' and src == BOOL: return Ite(v, ONE, ZERO)
    if d[0] == 'adt' and d[1] in MAP_ADTS and src[0] == 'Seq': return map_of_pairs(v)
    if d[0] == 'adt' and d[1] in SEQ_ADTS and src[0] == 'Seq': return v
    if d[0] == 'param' and src[0] == 'U': return v
    return NOT
@tr('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def _(c):
    v = c.a(0); d = c.dty
    if d[0] == 'adt' and d[1] == RES and v.sort[0] == 'Int':
        t = c.ex.sort(d[2][0])
        if t[0] == 'Int':
            lo, hi = RANGES[t[1]]
            return Ite(And(Le(I(lo), v), Le(v, I(hi))), Ok(v), Err(UF('TryFromIntError', ANY)))
    return NOT
@bi('ordered_float::OrderedFloat::into_inner', 'ordered_float::OrderedFloat::as_ref_')
def _(c): return Fld(c.a(0), 0, 0, F64)

# ---------------------------------------------------------------- comparisons
@tr('core::cmp::Ord::cmp')
def _(c): return c.ex.cmp(c.a(0), c.a(1))
@tr('core::cmp::PartialOrd::partial_cmp')
def _(c): return Some(c.ex.cmp(c.a(0), c.a(1)))
def _lt(c, a, b):
    return FCmp('flt', a, b) if a.sort == F64 else VarIs(c.ex.cmp(a, b), 0)
def _le(c, a, b):
    return FCmp('fle', a, b) if a.sort == F64 else Not(VarIs(c.ex.cmp(b, a), 0))
@tr('core::cmp::PartialOrd::lt')
def _(c): return _lt(c, c.a(0), c.a(1))
@tr('core::cmp::PartialOrd::gt')
def _(c): return _lt(c, c.a(1), c.a(0))
@tr('core::cmp::PartialOrd::le')
def _(c): return _le(c, c.a(0), c.a(1))
@tr('core::cmp::PartialOrd::ge')
def _(c): return _le(c, c.a(1), c.a(0))
@tr('core::cmp::Ord::max')
def _(c):
    a, b = c.a(0), c.a(1)
    return imax(a, b) if a.sort[0] == 'Int' else Ite(VarIs(c.ex.cmp(b, a), 0), a, b)
@tr('core::cmp::Ord::min')
def _(c):
    a, b = c.a(0), c.a(1)
    return imin(a, b) if a.sort[0] == 'Int' else Ite(VarIs(c.ex.cmp(b, a), 0), b, a)
@bi('core::cmp::max')
def _(c): return TRAIT['core::cmp::Ord::max'](c)
@bi('core::cmp::min')
def _(c): return TRAIT['core::cmp::Ord::min'](c)
@tr('core::cmp::Ord::clamp')
def _(c):
    x, lo, hi = c.a(0), c.a(1), c.a(2)
    if x.sort[0] != 'Int': return NOT
    c.ex.oblige('panic', c.pc, Le(lo, hi), 'clamp'); return imin(imax(x, lo), hi)
@tr('core::cmp::PartialEq::eq')
def _(c): return veq(c.a(0), c.a(1))
@tr('core::cmp::PartialEq::ne')
def _(c): return Not(veq(c.a(0), c.a(1)))

# ---------------------------------------------------------------- numbers
for _p in ('core::f64::<impl f64>::', 'std::f64::<impl f64>::'):
    bi(_p + 'abs')(lambda c: FOp('fabs', c.args[0]))
    bi(_p + 'sqrt')(lambda c: FOp('fsqrt', c.args[0]))
    bi(_p + 'min')(lambda c: FOp('fmin', c.args[0], c.args[1]))
    bi(_p + 'max')(lambda c: FOp('fmax', c.args[0], c.args[1]))
    bi(_p + 'log2')(lambda c: FUn('log2', c.args[0]))
    bi(_p + 'ln')(lambda c: FUn('ln', c.args[0]))
    bi(_p + 'log10')(lambda c: FUn('log10', c.args[0]))
    bi(_p + 'log')(lambda c: FDiv(FUn('ln', c.args[0]), FUn('ln', c.args[1])))
    bi(_p + 'ln_1p')(lambda c: FUn('ln', FAdd(c.args[0], FC(1))))
    bi(_p + 'exp2')(lambda c: FUn('pow', FC(2), c.args[0]))
    bi(_p + 'powi')(lambda c: powi(c.args[0], c.args[1]))
    bi(_p + 'powf')(lambda c: FOp('fsqrt', c.args[0]) if isc(c.args[1]) and c.args[1].attr == Fraction(1, 2) else FUn('pow', c.args[0], c.args[1]))
    bi(_p + 'is_nan')(lambda c: mk('isnan', (c.args[0],), None, BOOL))
    bi(_p + 'is_finite')(lambda c: mk('isfinite', (c.args[0],), None, BOOL))
    bi(_p + 'is_infinite')(lambda c: mk('isinf', (c.args[0],), None, BOOL))
    bi(_p + 'mul_add')(lambda c: FAdd(FMul(c.args[0], c.args[1]), c.args[2]))
    bi(_p + 'recip')(lambda c: FDiv(FC(1), c.args[0]))
    bi(_p + 'total_cmp')(lambda c: S_Cmp(c.a(0), c.a(1)))
def S_Cmp(a, b):
    lt = mk('oflt', (a, b), None, BOOL)
    return Ite(lt, LESS, Ite(Eq(a, b), EQUAL, GREATER))
def powi(x, n):
    if isc(n) and 0 <= n.attr <= 4:
        r = FC(1)
        for _ in range(n.attr): r = FMul(r, x) if _ else x
        return r
    return FUn('pow', x, I2F(n))
def arith(op):
    def f(c):
        a, b = c.a(0), c.a(1)
        if a.sort == F64: return FOp({'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}[op], a, b)
        if a.sort[0] == 'Int':
            r = {'add': iadd, 'sub': isub, 'mul': imul, 'div': IDiv}[op](a, b)
            t = c.ex.sort(c.dty)[1]
            if op == 'div': c.ex.oblige('panic', c.pc, Not(Eq(b, ZERO)), 'division by zero')
            else: c.ex.oblige('overflow', c.pc, And(Le(I(RANGES[t][0]), r), Le(r, I(RANGES[t][1]))), op)
            return r
        return NOT
    return f
for _o in ('add', 'sub', 'mul', 'div'): tr(f'core::ops::arith::{_o.capitalize()}::{_o}')(arith(_o))
def arith_assign(op):
    g = arith(op)
    def f(c):
        d = C()
        for s in C.__slots__: setattr(d, s, getattr(c, s))
        t = c.atys[0][2] if c.atys and c.atys[0] and c.atys[0][0] == 'ref' else c.dty
        d.dty = t
        r = g(d)
        if r is NOT: return NOT
        c.ex.store(c.st, c.args[0], r); return UNIT
    return f
for _o in ('add', 'sub', 'mul', 'div'): tr(f'core::ops::arith::{_o.capitalize()}Assign::{_o}_assign')(arith_assign(_o))
@tr('core::ops::arith::Neg::neg')
def _(c):
    a = c.a(0); return FNeg(a) if a.sort == F64 else pneg(a)
@tr('core::ops::bit::Not::not')
def _(c):
    a = c.a(0); return Not(a) if a.sort == BOOL else NOT
def intm(c):
    m = re.match(r'core::num::<impl (\w+)>::(\w+)$', c.key)
    if not m: return NOT
    t, f = m.groups()
    if t not in RANGES: return NOT
    lo, hi = RANGES[t]
    a = c.args[0]
    op = {'add': iadd, 'sub': isub, 'mul': imul}
    mm = re.match(r'(saturating|wrapping|checked|overflowing)_(add|sub|mul)$', f)
    if mm:
        r = op[mm.group(2)](a, c.args[1])
        if mm.group(1) == 'saturating':
            x = r
            if rng(x)[1] is None or rng(x)[1] > hi: x = imin(x, I(hi))
            if rng(r)[0] is None or rng(r)[0] < lo: x = imax(x, I(lo))
            return x
        if mm.group(1) == 'wrapping': return Wrap(r, t)
        ok = And(Le(I(lo), r), Le(r, I(hi)))
        if mm.group(1) == 'checked': return Ite(ok, Some(r), NoneT())
        return Tup(Wrap(r, t), Not(ok))
    if f == 'abs_diff': b = c.args[1]; return Ite(Lt(a, b), isub(b, a), isub(a, b))
    if f == 'unsigned_abs' or f == 'abs': return imax(a, pneg(a))
    if f == 'pow' and isc(c.args[1]) and c.args[1].attr <= 3:
        r = ONE
        for _ in range(c.args[1].attr): r = imul(r, a)
        c.ex.oblige('overflow', c.pc, Le(r, I(hi)), 'pow'); return r
    if f == 'is_positive': return Lt(ZERO, a)
    if f == 'is_negative': return Lt(a, ZERO)
    if f == 'signum': return Ite(Lt(ZERO, a), ONE, Ite(Lt(a, ZERO), I(-1), ZERO))
    if f == 'div_ceil': return NOT
    return NOT
# ---------------------------------------------------------------- strings and formatting
STRS = 'core::str::<impl str>::'
@bi(STRS + 'split_whitespace')
def _(c): return It(UF('split_whitespace', SEQ(STR), c.a(0)))
@bi(STRS + 'parse')
def _(c):
    d = c.dty
    if d[0] != 'adt' or d[1] != RES: return NOT
    t = d[2][0]
    if t[0] == 'adt' and t[1] == 'ordered_float::OrderedFloat':
        p = UF('parse_f64', ADT(RES, F64, ANY), c.a(0))
        return Ite(VarIs(p, 0), Ok(Con((t[1], 0), (Fld(p, 0, 0, F64),), c.ex.sort(t))), Err(Fld(p, 1, 0, ANY)))
    so = c.ex.sort(t)
    if so == F64: return UF('parse_f64', ADT(RES, F64, ANY), c.a(0))
    if so[0] == 'Int': return UF(f'parse_{so[1]}', ADT(RES, so, ANY), c.a(0))
    if t[0] == 'adt':
        b, ta = c.ex.resolve_local('core::str::traits::FromStr', 'from_str', t, ())
        if b is not None:
            r, rc = c.ex.call_local(b, ta, [c.a(0)], c.pc, c.st); return r
    return NOT
@tr('core::str::traits::FromStr::from_str')
def _(c): return REG[STRS + 'parse'](c)
@bi(STRS + 'to_string', STRS + 'to_owned', STRING + '::as_str', STRING + '::from', STRS + 'as_str', STRS + 'into_string', STRING + '::into_boxed_str', STRING + '::as_ref', 'core::hint::must_use', 'core::hint::black_box', STRING + '::new_')
def _(c): return c.a(0)
@bi(STRING + '::new')
def _(c): return S('')
@bi(STRING + '::push_str')
def _(c): c.ex.store(c.st, c.args[0], strcat(c.a(0), c.a(1))); return UNIT
@bi(STRING + '::push')
def _(c):
    x = c.args[1]; x = S(chr(x.attr)) if isc(x) else UF('str.char', STR, x)
    c.ex.store(c.st, c.args[0], strcat(c.a(0), x)); return UNIT
@bi(STRING + '::with_capacity')
def _(c): return S('')
@bi(STRS + 'is_empty', STRING + '::is_empty')
def _(c): return Eq(c.a(0), S(''))
@bi(STRS + 'len', STRING + '::len')
def _(c): return mk('slen', (c.a(0),), None, INT('len'))
@bi('core::array::<impl [T; N]>::map')
def _(c):
    f = c.args[1]
    return vmap(c.ex, to_seq(c.ex, c.a(0)), lambda x: c.app(f, x))
def strcat(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'strcat' else (x,)):
            if y.op == 's' and y.attr == '': continue
            if y.op == 's' and out and out[-1].op == 's': out[-1] = S(out[-1].attr + y.attr)
            else: out.append(y)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return mk('strcat', tuple(out), None, STR)
CONS['strcat'] = lambda t, a: strcat(*a)
def pieces(s):
    """canonical pieces of a text"""
    out = []
    for x in (s.args if s.op == 'strcat' else (s,)):
        if x.op == 's':
            t = x.attr
            while '\n' in t:
                i = t.index('\n') + 1; out.append(S(t[:i])); t = t[i:]
            if t: out.append(S(t))
        else: out.append(x)
    return out
import loops as _loops
_loops.STRCAT[:] = [strcat, pieces]
def display(c, v, t):
    while t is not None and t[0] == 'ref': t = t[2]
    if v.sort == STR: return v
    if v.sort[0] == 'Int':
        if isc(v): return S(str(v.attr))
        return UF('dec', STR, v)
    if t is not None and t[0] == 'adt':
        b, ta = c.ex.resolve_local('core::fmt::Display', 'fmt', t, ())
        if b is not None:
            c.ex.nf += 1
            k = (('fmt', c.ex.nf), 0)
            c.st[k] = S('')
            c.ex.call_local(b, ta, [v, c.ex.ptr(k)], c.pc, c.st)
            return c.st.pop(k)
    return UF('display', STR, v)
@tr('alloc::string::ToString::to_string')
def _(c): return display(c, c.a(0), c.selfty)
def fmtarg(c, text): return Con(('FmtArg', 0), (text, c.a(0)), ADT('FmtArg'))
@bi('core::fmt::rt::Argument::new_display')
def _(c): return fmtarg(c, display(c, c.a(0), c.targs[0] if c.targs and c.targs[0][0] != 'other' else (c.atys[0] if c.atys else None)))
@bi('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_exp', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_exp')
def _(c): return fmtarg(c, UF('debug', STR, c.a(0)) if c.key.endswith('new_debug') else UF(c.key, STR, c.a(0)))
@bi('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst')
def _(c): return c.a(0)
FLAGS0 = 0xE0000020; ALT = 1 << 23
def placeholder(a, flags, width, prec, ind):
    """the text of one formatted argument: precision on a float is `fixed`, `{:#}` writes what `{}` writes (the impls in scope ignore it)"""
    t, v = Fld(a, 0, 0, STR), Fld(a, 0, 1, ANY)
    if not ind and width is None and (flags & ~ALT & ~(1 << 28) | 1 << 31) == FLAGS0:
        if prec is None: return t
        if v.sort == F64 and t.op == 'uf' and t.attr == 'display': return UF('fixed', STR, v, I(prec))
    return UF('formatted', STR, t, S(f'{flags:x} {width} {prec} {ind}'))
@bi('core::fmt::Arguments::new')
def _(c):
    t, a = c.a(0), c.a(1)
    if t.op != 'bytes': return UF('fmtargs', STR, t, a)
    bs = t.attr; i = 0; out = []; n = 0
    def u(k):
        nonlocal i
        r = int.from_bytes(bytes(bs[i:i + k]), 'little'); i += k; return r
    while i < len(bs):
        b = u(1)
        if b == 0: break
        if b < 0x80: out.append(S(bytes(bs[i:i + b]).decode('utf8', 'replace'))); i += b
        elif b == 0x80:
            m = u(2); out.append(S(bytes(bs[i:i + m]).decode('utf8', 'replace'))); i += m
        elif b >= 0xc0:
            fl = u(4) if b & 1 else FLAGS0; w = u(2) if b & 2 else None; p = u(2) if b & 4 else None
            if b & 8: n = u(2)
            out.append(placeholder(At(a, I(n)), fl, w, p, b & 0x30)); n += 1
        else: return UF('fmtargs', STR, t, a)
    return strcat(*out)
@bi('alloc::fmt::format')
def _(c): return c.a(0)
@bi('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad')
def _(c):
    if c.args[0].op != 'ptr': raise Unsupported('formatter')
    c.ex.store(c.st, c.args[0], strcat(c.ex.load(c.st, c.args[0]), c.a(1))); return Ok(UNIT)
@tr('core::fmt::Write::write_str', 'core::fmt::Write::write_fmt')
def _(c):
    c.ex.store(c.st, c.args[0], strcat(c.ex.load(c.st, c.args[0]), c.a(1))); return Ok(UNIT)
@tr('core::fmt::Display::fmt')
def _(c):
    v = c.a(0)
    if v.sort in (STR,) or v.sort[0] in ('Int', 'U'):
        c.ex.store(c.st, c.args[1], strcat(c.ex.load(c.st, c.args[1]), display(c, v, c.selfty))); return Ok(UNIT)
    return NOT
def strpat(c, i):
    """a constant pattern (character or text)"""
    p = c.a(i)
    if p.op == 's': return p
    if isc(p) and p.sort[0] == 'Int': return S(chr(p.attr))       # the only integer-like pattern is a character
    return None
def nm(c): return c.key.split('::')[-1]
def str_has(s, p): return UF('str.has', BOOL, s, p)
@bi(STRS + 'split_once', STRS + 'rsplit_once')
def _(c):
    s, p = c.a(0), strpat(c, 1)
    if p is None or p.attr == '': return strm(c)
    pair = ADT('tuple', STR, STR)
    if s.op == 's':
        if p.attr not in s.attr: return NoneT()
        a, b = s.attr.split(p.attr, 1) if nm(c) == 'split_once' else s.attr.rsplit(p.attr, 1)
        return Some(Con(('tuple', 0), (S(a), S(b)), pair))
    return Ite(str_has(s, p), Some(Con(('tuple', 0), (UF('str.' + nm(c) + '0', STR, s, p), UF('str.' + nm(c) + '1', STR, s, p)), pair)), NoneT())
@bi(STRS + 'contains')
def _(c):
    s, p = c.a(0), strpat(c, 1)
    return strm(c) if p is None else (TRUE if p.attr in s.attr else FALSE) if s.op == 's' else str_has(s, p)
@bi(STRS + 'starts_with', STRS + 'ends_with', STRS + 'strip_prefix', STRS + 'strip_suffix')
def _(c):
    s, p = c.a(0), strpat(c, 1); pre = nm(c) in ('starts_with', 'strip_prefix')
    if p is None: return strm(c)
    if s.op == 's': t = TRUE if (s.attr.startswith(p.attr) if pre else s.attr.endswith(p.attr)) else FALSE
    else: t = UF('str.starts' if pre else 'str.ends', BOOL, s, p)
    if nm(c) in ('starts_with', 'ends_with'): return t
    if t is FALSE: return NoneT()
    r = S(s.attr[len(p.attr):] if pre else s.attr[:len(s.attr) - len(p.attr)]) if s.op == 's' else UF('str.after' if pre else 'str.upto', STR, s, p)
    return Ite(t, Some(r), NoneT())
def strm(c):
    """any other pure method of str: uninterpreted"""
    xs = [c.a(i) for i in range(len(c.args))]
    if any(x.op == 'con' and x.attr[0].startswith('closure:') or x.op in ('fnv', 'ptr') for x in xs): raise Unsupported(c.key)
    so = c.ex.sort(c.dty)
    if so == PTR or so == ANY: raise Unsupported(c.key)
    if so[0] == 'Adt' and so[1].startswith('core::str::iter'):
        n = so[1].split('::')[-1]
        if n in ('CharIndices', 'SplitTerminator', 'EncodeUtf16', 'MatchIndices'): raise Unsupported(c.key)
        return It(UF(c.key, SEQ(INT('u8') if n == 'Bytes' else INT('char') if n == 'Chars' else STR), *xs))
    return UF(c.key, so, *xs)
PREFIX = [('core::num::<impl ', intm), (STRS, strm)]

# ---------------------------------------------------------------- statistics (statrs)
ST = 'statrs::statistics::statistics::Statistics::'
def f_mean(s): return FDiv(ssum('fsum', s), I2F(Len(s)))
def guard_n(s, k, v): return Ite(Lt(Len(s), I(k)), NAN, v)
@tr(ST + 'mean')
def _(c): s = seq_of(c); return guard_n(s, 1, f_mean(s))
def sqdev(s):
    m = f_mean(s)
    return ssum('fsum', vmap_pure(s, lambda x: FMul(FSub(x, m), FSub(x, m))))
def vmap_pure(s, fn):
    class E:
        def under(self, h, f): return f()
    return vmap(E(), s, fn)
@tr(ST + 'variance')
def _(c): s = seq_of(c); return guard_n(s, 2, FDiv(sqdev(s), I2F(isub(Len(s), ONE))))
@tr(ST + 'std_dev')
def _(c): s = seq_of(c); return guard_n(s, 2, FOp('fsqrt', FDiv(sqdev(s), I2F(isub(Len(s), ONE)))))
@tr(ST + 'population_variance')
def _(c): s = seq_of(c); return guard_n(s, 1, FDiv(sqdev(s), I2F(Len(s))))
@tr(ST + 'population_std_dev')
def _(c): s = seq_of(c); return guard_n(s, 1, FOp('fsqrt', FDiv(sqdev(s), I2F(Len(s)))))
@tr(ST + 'max')
def _(c): s = seq_of(c); return guard_n(s, 1, Bind('fsmax', Len(s), lambda i: At(s, i)))
@tr(ST + 'min')
def _(c): s = seq_of(c); return guard_n(s, 1, Bind('fsmin', Len(s), lambda i: At(s, i)))
D = 'statrs::distribution::'
TD, FD = D + 'students_t::StudentsT', D + 'fisher_snedecor::FisherSnedecor'
@bi(TD + '::new')
def _(c):
    l, s, d = c.args
    return Ite(And(FCmp('flt', FC(0), s), FCmp('flt', FC(0), d)), Ok(Con((TD, 0), (l, s, d), ADT(TD))), Err(UF('StatsError', ANY)))
@bi(FD + '::new')
def _(c):
    a, b = c.args
    return Ite(And(FCmp('flt', FC(0), a), FCmp('flt', FC(0), b)), Ok(Con((FD, 0), (a, b), ADT(FD))), Err(UF('StatsError', ANY)))
CC = 'statrs::distribution::ContinuousCDF::'
def flds(d, n): return [Fld(d, 0, i, F64) for i in range(n)]
def dist(c):
    t = c.selfty
    while t[0] == 'ref': t = t[2]
    return t[1]
@tr(CC + 'sf', CC + 'cdf')
def _(c):
    d, x = c.a(0), c.a(1)
    if dist(c) == TD:
        l, s, v = flds(d, 3)
        r = FUn('t.sf', v, FDiv(FSub(x, l), s))
    elif dist(c) == FD: r = FUn('F.sf', *flds(d, 2), x)
    else: return NOT
    return r if c.name == 'sf' else FSub(FC(1), r)
@tr(CC + 'inverse_cdf')
def _(c):
    d, x = c.a(0), c.a(1)
    c.ex.oblige('panic', c.pc, And(FCmp('fle', FC(0), x), FCmp('fle', x, FC(1))), 'inverse_cdf outside [0, 1]')
    if dist(c) == TD:
        l, s, v = flds(d, 3)
        return FAdd(l, FMul(s, FUn('t.q', v, x)))
    if dist(c) == FD: return FUn('F.q', *flds(d, 2), x)
    return NOT
# ---------------------------------------------------------------- randomness
RNG = U('Rng')
@bi('rand::rngs::thread::thread_rng')
def _(c): return Con(('ThreadRng', 0), (), ADT('ThreadRng'))
@tr('rand_core::SeedableRng::seed_from_u64')
def _(c): return UF('rng.seed', RNG, c.args[0])
@tr('rand::rng::Rng::gen')
def _(c):
    r = c.a(0)
    if r.op == 'con' and r.attr[0] == 'ThreadRng':
        return fresh('entropy', c.ex.sort(c.dty))
    so = c.ex.sort(c.dty)
    v = UF('rng.gen', so, r)
    c.ex.store(c.st, c.args[0], UF('rng.after_gen', RNG, r)); return v
@bi('rand::random')
def _(c): return fresh('entropy', c.ex.sort(c.dty))
@tr('rand::rng::Rng::gen_range')
def _(c):
    r = c.a(0); q = c.a(1)
    if not (q.op == 'con' and q.attr[0] == 'core::ops::range::Range') or q.args[0].sort[0] != 'Int': raise Unsupported('gen_range')
    a, b = q.args
    n = isub(b, a)
    c.ex.oblige('panic', c.pc, Lt(a, b), 'gen_range on an empty range')
    c.ex.store(c.st, c.args[0], UF('rng.after_below', RNG, r, n))
    return iadd(a, UF('rng.below', INT('usize'), r, n))
@tr('rand::seq::SliceRandom::shuffle')
def _(c):
    s = c.a(0); r = c.a(1)
    c.ex.store(c.st, c.args[0], mk('shuffled', (s, r), None, s.sort))
    c.ex.store(c.st, c.args[1], UF('rng.after_shuffle', RNG, r, Len(s))); return UNIT
@tr('rand::seq::SliceRandom::choose')
def _(c):
    s = c.a(0); r = c.a(1); n = Len(s)
    c.ex.store(c.st, c.args[1], Ite(Lt(ZERO, n), UF('rng.after_below', RNG, r, n), r))
    return Ite(Lt(ZERO, n), Some(At(s, UF('rng.below', INT('usize'), r, n))), NoneT())
# ---------------------------------------------------------------- misc
@tr('core::ops::drop::Drop::drop')
def _(c): return UNIT
@bi('core::mem::drop', 'core::mem::forget')
def _(c): return UNIT
@bi('core::mem::take')
def _(c):
    v = c.a(0); t = c.atys[0][2]
    c.ex.store(c.st, c.args[0], default(c, t)); return v
@bi('core::mem::swap')
def _(c):
    a, b = c.a(0), c.a(1); c.ex.store(c.st, c.args[0], b); c.ex.store(c.st, c.args[1], a); return UNIT
@bi('core::mem::replace')
def _(c):
    a = c.a(0); c.ex.store(c.st, c.args[0], c.args[1]); return a
# regular expressions (dv/strs.py has the contract)
def rx_of(t):
    import strs
    if t.op != 's': raise Unsupported('regex that is not a constant')
    try: return strs.regex(t.attr)
    except strs.NoRegex as e: raise Unsupported(f'regex {t.attr}: {e}')
CAP = ADT('Captures')
def re_const(p, s):
    """the match on a constant text (Python's engine: leftmost-first, the same semantics for the patterns dv/strs.py accepts)"""
    import re
    rx = rx_of(p)
    pat = p.attr.replace('(?<', '(?P<')
    if rx.end: pat = pat[:-1] + '\\Z'
    return re.search(pat, s.attr)
def re_match(p, s):
    if s.op == 's': return TRUE if re_const(p, s) else FALSE
    return UF('re.match', BOOL, p, s)
def re_group(p, s, n):
    if s.op == 's' and re_const(p, s): return S(re_const(p, s).group(n) or '')
    return UF('re.group', STR, p, s, I(n))
def re_has(p, s, n):
    if s.op == 's' and re_const(p, s): return TRUE if re_const(p, s).group(n) is not None else FALSE
    return TRUE if n == 0 or n in rx_of(p).mandatory else UF('re.has', BOOL, p, s, I(n))
def re_get(cap, g):
    if cap.op == 'ite': return Ite(cap.args[0], re_get(cap.args[1], g), re_get(cap.args[2], g))
    if cap.op != 'con': raise Unsupported('captures')
    p, s = cap.args
    n = rx_of(p).group(g)
    if n is None: return NoneT()
    return Ite(re_has(p, s, n), Some(Con(('Match', 0), (re_group(p, s, n),), ADT('Match'))), NoneT())
def gname(c, i):
    g = c.a(i)
    if g.op == 's': return g.attr
    if isc(g): return g.attr
    raise Unsupported('capture group that is not a constant')
@bi('regex::regex::string::Regex::new')
def _(c): rx_of(c.a(0)); return Ok(Con(('Regex', 0), (c.a(0),), ADT('Regex')))
@bi('regex::regex::string::Regex::captures')
def _(c):
    p = Fld(c.a(0), 0, 0, STR); s = c.a(1); rx_of(p)
    return Ite(re_match(p, s), Some(Con(('Captures', 0), (p, s), CAP)), NoneT())
@bi('regex::regex::string::Captures::name', 'regex::regex::string::Captures::get')
def _(c): return re_get(c.a(0), gname(c, 1))
_index = TRAIT['core::ops::index::Index::index']
@tr('core::ops::index::Index::index')
def _(c):
    t = c.selfty
    while t is not None and t[0] == 'ref': t = t[2]
    if t is None or t[0] != 'adt' or not t[1].endswith('::Captures'): return _index(c)
    m = re_get(c.a(0), gname(c, 1))
    c.ex.oblige('panic', c.pc, VarIs(m, 1), 'no such group')
    return Fld(Fld(m, 1, 0, ADT('Match')), 0, 0, STR)
@bi('regex::regex::string::Match::as_str')
def _(c): return Fld(c.a(0), 0, 0, STR)
@bi('regex::regex::string::Regex::is_match')
def _(c): p = Fld(c.a(0), 0, 0, STR); rx_of(p); return re_match(p, c.a(1))
def text_rule(x):
    """the concatenation of the texts of a sequence"""
    if x.op == 'concat': return strcat(UF('str.text', STR, x.args[0]), UF('str.text', STR, x.args[1]))
    if x.op == 'mkseq' and isc(x.args[0]) and 0 <= x.args[0].attr <= 64 and not x.loose: return strcat(*[At(x, I(i)) for i in range(x.args[0].attr)])
    return None
UFRULE['str.text'] = text_rule
