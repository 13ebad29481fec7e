"""Symbolic execution of MIR bodies into functional terms plus proof obligations (verification conditions)."""
import os
from terms import *
from mir import strip, tsubst, Crate

WRAPPERS = ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling')
def uninit(t): return t[0] == 'adt' and t[1] in WRAPPERS

class Unsupported(Exception): pass
class Stateful(Exception): pass

VEC = 'alloc::vec::Vec'; BTM = 'alloc::collections::btree::map::BTreeMap'; STRING = 'alloc::string::String'
SEQ_ADTS = {VEC, 'alloc::collections::vec_deque::VecDeque'}
MAP_ADTS = {BTM, 'std::collections::hash::map::HashMap'}
SETS = {'alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet'}
ITA = ('It', 0)
def It(seq, pos=ZERO): return Con(ITA, (seq, pos), ADT('It'))

class Obl:
    __slots__ = ('kind', 'where', 'hyps', 'goal', 'note', 'fn')
    def __init__(self, kind, where, hyps, goal, note='', fn=''):
        self.kind = kind; self.where = where; self.hyps = hyps; self.goal = goal; self.note = note; self.fn = fn

class Frame:
    __slots__ = ('body', 'tyenv', 'fid', 'parent')
    def __init__(self, body, tyenv, fid): self.body = body; self.tyenv = tyenv; self.fid = fid

def or_conds(cs):
    """disjunction of path conditions, with resolution of complementary branches"""
    sets = [frozenset(conj(c)) for c in cs if c is not FALSE]
    ch = True
    while ch:
        ch = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                if a <= b: sets.pop(j); ch = True; break
                if b <= a: sets.pop(i); ch = True; break
                da, db = a - b, b - a
                if Or(*[And(*da), And(*db)]) is TRUE:
                    sets[i] = a & b; sets.pop(j); ch = True; break
            if ch: break
    if not sets: return FALSE
    common = frozenset.intersection(*sets)
    return And(*common, Or(*[And(*(s - common)) for s in sets]))

class Exec:
    def __init__(self, crate, contracts=None, limit=400000):
        self.crate = crate
        self.contracts = contracts or {}
        self.obls = []
        self.ctx = []           # hypotheses in force
        self.nf = 0
        self.depth = 0
        self.used_std = set()   # std/dependency contracts used
        self.used_fn = []       # local functions executed (inlined) / through contract
        self.inlined_ext = set()
        self.steps = 0; self.limit = limit
        self.stack = []
        self.where = ''
        self.notes = []
        self.callhook = None
        self.ghost = {}
        self.modhyps = []
        self.unroll = 0         # loops whose conditions are decided at every iteration are executed, up to this many

    # ------------------------------------------------------------ sorts / types
    def sort(self, t):
        k = t[0]
        if k == 'bool': return BOOL
        if k == 'int': return INT(t[1])
        if k == 'char': return INT('char')
        if k == 'float': return F64
        if k == 'str': return STR
        if k == 'ref' or k == 'ptr': return PTR if t[1] or uninit(t[2]) else self.sort(t[2])
        if k in ('slice', 'array'): return SEQ(self.sort(t[1]))
        if k == 'tuple': return ADT('tuple', *[self.sort(x) for x in t[1]])
        if k == 'param': return U(t[1])
        if k == 'adt':
            p = t[1]
            if p in SEQ_ADTS: return SEQ(self.sort(t[2][0]))
            if p in MAP_ADTS: return MAP(self.sort(t[2][0]), self.sort(t[2][1]))
            if p in SETS: return MAP(self.sort(t[2][0]), ADT('tuple'))
            if p == STRING or p.endswith('::PlSmallStr'): return STR
            if p == 'alloc::boxed::Box' and uninit(t[2][0]): return PTR
            if p in ('alloc::boxed::Box', 'alloc::borrow::Cow', 'alloc::rc::Rc', 'alloc::sync::Arc'): return self.sort(t[2][0])
            return ADT(p, *[self.sort(x) for x in t[2] if x[0] != 'const'])
        return ANY
    def fields(self, sort, variant):
        """field sorts of a struct/enum sort"""
        if sort[1] == 'tuple': return list(sort[2])
        a = self.crate.adt(sort[1])
        if a is None: raise Unsupported(f'unknown type {sort[1]}')
        v = a['variants'][variant]
        env = {g: ('sortvar', i) for i, g in enumerate(a['generics'])}
        out = []
        for n, ft in v['fields']:
            out.append(self._fsort(ft, a['generics'], sort[2]))
        return out
    def _fsort(self, t, gens, args):
        env = dict(zip(gens, args))
        def go(t):
            k = t[0]
            if k == 'param' and t[1] in env: return env[t[1]]
            if k in ('ref', 'ptr'): return PTR if t[1] else go(t[2])
            if k in ('slice', 'array'): return SEQ(go(t[1]))
            if k == 'tuple': return ADT('tuple', *[go(x) for x in t[1]])
            if k == 'adt':
                p = t[1]; a = [x for x in t[2] if x[0] != 'const']
                if p in SEQ_ADTS: return SEQ(go(a[0]))
                if p in MAP_ADTS: return MAP(go(a[0]), go(a[1]))
                if p == STRING: return STR
                if p == 'alloc::boxed::Box': return go(a[0])
                return ADT(p, *[go(x) for x in a])
            return self.sort(t)
        return go(t)
    def expand(self, v, variant=0):
        """eta-expand an opaque struct value into a constructor"""
        if v.op == 'con': return v
        if v.sort[0] != 'Adt': raise Unsupported(f'cannot expand {v.sort}')
        fs = self.fields(v.sort, variant)
        return Con((v.sort[1], variant), tuple(Fld(v, variant, i, s) for i, s in enumerate(fs)), v.sort)
    def fresh_of(self, name, t):
        s = self.sort(t)
        return sym(name, s)

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, pc, goal, note=''):
        if pc is FALSE or goal is TRUE: return
        h = tuple(x for x in self.ctx if x is not TRUE)
        self.obls.append(Obl(kind, self.where, h + ((pc,) if pc is not TRUE else ()), goal, note, self.stack[-1] if self.stack else ''))

    # ------------------------------------------------------------ store access
    def ptr(self, key, projs=(), idx=()): return mk('ptr', tuple(idx), (key, tuple(projs)), PTR)
    def ptr_ext(self, p, proj, *idx):
        if p.op == 'ite': return Ite(p.args[0], self.ptr_ext(p.args[1], proj, *idx), self.ptr_ext(p.args[2], proj, *idx))
        if p.op != 'ptr': raise Unsupported(f'pointer expected, got {p.op}')
        key, pr = p.attr
        return mk('ptr', p.args + tuple(idx), (key, pr + (proj,)), PTR)
    def load(self, st, p):
        if p.op == 'ite': return Ite(p.args[0], self.load(st, p.args[1]), self.load(st, p.args[2]))
        if p.op == 'undef': return UNDEF
        if p.op != 'ptr': raise Unsupported(f'deref of {p.op}')
        key, pr = p.attr
        if key not in st: raise Unsupported('dangling pointer')
        v = st[key]; ix = list(p.args)
        for e in pr: v = self.proj_read(v, e, ix)
        return v
    def proj_read(self, v, e, ix):
        if e[0] == 'f': return Fld(v, e[1], e[2], e[3])
        if e[0] == 'i': return At(v, ix.pop(0))
        if e[0] == 'k': return MGet(v, ix.pop(0))
        raise Unsupported(str(e))
    def store(self, st, p, val):
        if p.op == 'ite':
            a = dict(st); self.store(a, p.args[1], val)
            b = dict(st); self.store(b, p.args[2], val)
            for k in set(a) | set(b):
                if a.get(k) is not b.get(k): st[k] = Ite(p.args[0], a[k], b[k])
            return
        if p.op != 'ptr': raise Unsupported(f'store through {p.op}')
        key, pr = p.attr
        st[key] = self._wr(st.get(key, UNDEF), list(pr), list(p.args), val)
    def _wr(self, v, pr, ix, val):
        if not pr: return val
        e = pr[0]
        if e[0] == 'f':
            if v.op == 'ite':
                return Ite(v.args[0], self._wr(v.args[1], pr, list(ix), val) if not (v.args[1].op == 'con' and v.args[1].attr[1] != e[1]) else v.args[1],
                           self._wr(v.args[2], pr, list(ix), val) if not (v.args[2].op == 'con' and v.args[2].attr[1] != e[1]) else v.args[2])
            if v.op == 'undef': raise Unsupported('partial initialisation')
            c = self.expand(v, e[1])
            if c.attr[1] != e[1]: return UNDEF
            a = list(c.args); a[e[2]] = self._wr(a[e[2]], pr[1:], ix, val)
            return Con(c.attr, tuple(a), c.sort)
        if e[0] == 'i':
            i = ix[0]; return Upd(v, i, self._wr(At(v, i), pr[1:], ix[1:], val))
        if e[0] == 'k':
            k = ix[0]; return MIns(v, k, self._wr(MGet(v, k), pr[1:], ix[1:], val))
        raise Unsupported(str(e))

    # ------------------------------------------------------------ places
    def place_ptr(self, fr, st, pl):
        """pointer term for a place"""
        p = self.ptr((fr.fid, pl['l'])); ty = tsubst(fr.body.ltypes[pl['l']], fr.tyenv); var = 0
        snapshot = None   # once we pass through a shared reference the place is a value
        for e in pl['p']:
            k = e['e']
            if k == 'deref':
                if ty[0] in ('ref', 'ptr'):
                    if ty[1] or uninit(ty[2]):
                        v = self.load(st, p) if snapshot is None else snapshot
                        snapshot = None
                        if v.op not in ('ptr', 'ite'): raise Unsupported('mutable deref of non-pointer')
                        p = v
                    else:
                        if snapshot is None: snapshot = self.load(st, p)
                    ty = ty[2]
                elif ty[0] == 'adt' and ty[1] == 'alloc::boxed::Box': ty = ty[2][0]
                else: raise Unsupported(f'deref of {ty}')
            elif k == 'field':
                fty = tsubst(self.T(e['t']), fr.tyenv)
                if uninit(ty): ty = fty; var = 0; continue
                if ty[0] == 'closure': s = ('f', 0, e['i'], self.sort(fty))
                else: s = ('f', var, e['i'], self.sort(fty))
                if snapshot is None: p = self.ptr_ext(p, s)
                else: snapshot = Fld(snapshot, s[1], s[2], s[3])
                ty = fty; var = 0
            elif k == 'downcast': var = e['v']
            elif k == 'index':
                i = st[(fr.fid, e['l'])]
                if snapshot is None: p = self.ptr_ext(p, ('i',), i)
                else: snapshot = At(snapshot, i)
                ty = ty[1]
            elif k == 'cindex':
                cur = snapshot if snapshot is not None else self.load(st, p)
                i = I(e['o']) if not e['end'] else isub(Len(cur), I(e['o']))
                if snapshot is None: p = self.ptr_ext(p, ('i',), i)
                else: snapshot = At(snapshot, i)
                ty = ty[1]
            elif k == 'subslice':
                cur = snapshot if snapshot is not None else self.load(st, p)
                a = I(e['from']); b = isub(Len(cur), I(e['to'])) if e['end'] else I(e['to'])
                snapshot = MkSeq(isub(b, a), lambda i: At(cur, iadd(a, i)))
                ty = ('slice', ty[1])
            else: raise Unsupported(f'projection {e}')
        return p, snapshot, ty
    _tc = {}
    def T(self, j):
        from mir import T_
        k = id(j); r = self._tc.get(k)
        if r is None or r[0] is not j: r = (j, T_(j)); self._tc[k] = r
        return r[1]
    def read(self, fr, st, pl):
        if not pl['p']:
            k = (fr.fid, pl['l'])
            return st.get(k, UNDEF)
        p, s, ty = self.place_ptr(fr, st, pl)
        if s is not None: return s
        return self.load(st, p)
    def write(self, fr, st, pl, v):
        if not pl['p']: st[(fr.fid, pl['l'])] = v; return
        p, s, ty = self.place_ptr(fr, st, pl)
        if s is not None: raise Unsupported('write through shared reference')
        self.store(st, p, v)

    # ------------------------------------------------------------ operands / constants
    def operand(self, fr, st, o):
        k = o['o']
        if k in ('copy', 'move'):
            v = self.read(fr, st, o['pl'])
            return v
        if k == 'const': return self.const(fr, o)
        if k == 'promoted':
            b = self.crate.body(o['p'])
            return self.promoted(b.promoted[o['i']], fr.tyenv)
        raise Unsupported(f'operand {o}')
    def promoted(self, body, tyenv):
        st = {}
        r, _ = self.run_body(body, [], tyenv, TRUE, st)
        return r
    def const(self, fr, o):
        t = tsubst(self.T(o['t']), fr.tyenv if fr else {})
        return self.const_t(o, t)
    def const_parts(self, o, t):
        """a structured constant (or a shared reference to one), from its parts"""
        x, u = o.get('parts'), t
        if x is None:
            x = o.get('to')
            if x is None or t[0] != 'ref' or t[1]: return None
            u = t[2]
        if u[0] in ('array', 'slice') and u[1] == ('int', 'u8'): return None
        xs = [self.const_t(f, self.T(f['t'])) for f in x['f']]
        if any(y.op == 'uconst' for y in xs): return None
        if u[0] in ('array', 'slice'): return SeqLit(xs) if xs else EmptySeq(self.sort(u)[1])
        if u[0] == 'tuple': return Tup(*xs) if xs else UNIT
        if u[0] == 'adt' and u[1] not in SEQ_ADTS | MAP_ADTS | SETS | {STRING}:
            a = self.crate.adt(u[1])
            if a and a['kind'] in ('struct', 'enum'): return Con((u[1], x['v']), tuple(xs), self.sort(u))
        return None
    def const_t(self, o, t):
        k = t[0]
        if k == 'fndef': return mk('fnv', (), t, FN)
        if 'str' in o: return S(o['str'])
        if o.get('zst'):
            if k == 'tuple': return UNIT
            if k == 'closure': return Con(('closure:' + t[1], 0), (), ADT('closure:' + t[1]))
            if k == 'array': return EmptySeq(self.sort(t)[1])
            if k == 'adt':
                if t[1] in SEQ_ADTS: return EmptySeq(self.sort(t)[1])
                return Con((t[1], 0), (), self.sort(t))
            return UNIT
        if 'bits' in o:
            b = int(o['bits'])
            if k == 'bool': return B(b != 0)
            if k == 'int':
                lo, hi = RANGES[t[1]]
                if b > hi: b -= (hi - lo + 1)
                return I(b)
            if k == 'char': return I(b)
            if k == 'float':
                import struct, math
                f = struct.unpack('<d', struct.pack('<Q', b))[0] if t[1] == 'f64' else struct.unpack('<f', struct.pack('<I', b))[0]
                if math.isnan(f): return NAN
                if math.isinf(f): return PINF if f > 0 else NINF
                return FC(Fraction(f))
            if k == 'adt':
                a = self.crate.adt(t[1])
                if a and a['kind'] == 'enum':
                    for i, v in enumerate(a['variants']):
                        if v['discr'] == b and not v['fields']: return Con((t[1], i), (), self.sort(t))
                if a and a['kind'] == 'struct' and len(a['variants'][0]['fields']) == 1:
                    ft = tsubst(a['variants'][0]['fields'][0][1], dict(zip(a['generics'], t[2])))
                    return Con((t[1], 0), (self.const_t(o, ft),), self.sort(t))
        r = self.const_parts(o, t)
        if r is not None: return r
        if 'bytes' in o:
            bs = o['bytes']
            if k == 'ref' and t[2][0] in ('int', 'float', 'bool', 'char') and not t[1]:
                oo = {'bits': str(int.from_bytes(bytes(bs), 'little'))}
                return self.const_t(oo, t[2])
            return mk('bytes', (), tuple(bs), SEQ(INT('u8')))
        return mk('uconst', (), (o.get('dbg', ''),), self.sort(t))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, pc):
        r = rv['r']
        if r == 'use': return self.operand(fr, st, rv['x'])
        if r == 'ref' or r == 'rawptr' or r == 'reborrow':
            mut = rv.get('m') if r != 'rawptr' else ('Mut' in rv['d'])
            p, s, ty = self.place_ptr(fr, st, rv['pl'])
            if r == 'reborrow':
                v = s if s is not None else self.load(st, p)
                return v
            if mut:
                if s is not None: raise Unsupported('&mut through shared reference')
                return p
            v = s if s is not None else self.load(st, p)
            return v
        if r == 'bin': return self.binop(fr, rv['op'], self.operand(fr, st, rv['a']), self.operand(fr, st, rv['b']), tsubst(self.T(rv['t']), fr.tyenv))
        if r == 'un':
            x = self.operand(fr, st, rv['x']); op = rv['op']
            if op == 'Not':
                if x.sort == BOOL: return Not(x)
                t = tsubst(self.T(rv['t']), fr.tyenv)
                if t[0] == 'int':
                    lo, hi = RANGES[t[1]]
                    return isub(I(-1), x) if lo < 0 else isub(I(hi), x)
            if op == 'Neg':
                if x.sort == F64: return FNeg(x)
                return pneg(x)
            if op == 'PtrMetadata':
                return self.seqlen(x) if x.sort[0] != 'Ptr' else self.seqlen(self.load(st, x))
            raise Unsupported(f'unop {op}')
        if r == 'cast' and rv['k'] == 'BoxDerefTransmute' and rv['x']['o'] in ('copy', 'move') and rv['x']['pl']['p']:
            b = self.read(fr, st, {'l': rv['x']['pl']['l'], 'p': []})
            if b.op != 'ptr': raise Unsupported('pointer into a box')
            return b
        if r == 'cast': return self.cast(rv['k'], self.operand(fr, st, rv['x']), tsubst(self.T(rv['ft']), fr.tyenv), tsubst(self.T(rv['t']), fr.tyenv))
        if r == 'discr':
            v = self.read(fr, st, rv['pl'])
            t = tsubst(self.T(rv['pl']['t']), fr.tyenv)
            return self.discr(v, t)
        if r == 'agg':
            k = rv['k']; xs = [self.operand(fr, st, x) for x in rv['x']]
            if k['k'] == 'tuple': return Tup(*xs)
            if k['k'] == 'array':
                if all(x.op != 'ptr' for x in xs): return SeqLit(xs)
                return Con(('tuple', 0), tuple(xs), ADT('ptrarr'))
            if k['k'] == 'adt':
                t = ('adt', k['p'], tuple(tsubst(self.T(a), fr.tyenv) for a in k['a']))
                return Con((k['p'], k['v']), tuple(xs), self.sort(t))
            if k['k'] == 'closure':
                env = tuple(sorted((n, v) for n, v in fr.tyenv.items()))
                return Con(('closure:' + k['p'], 0), tuple(xs), ADT('closure:' + k['p'], env))
            raise Unsupported(f'aggregate {k}')
        if r == 'repeat':
            x = self.operand(fr, st, rv['x']); n = tsubst(self.T(rv['n']), fr.tyenv)
            if n[0] == 'const' and isinstance(n[1], int): return MkSeq(I(n[1]), lambda i: x)
            raise Unsupported('repeat')
        raise Unsupported(f'rvalue {r} {rv.get("d", "")}')
    def discr(self, v, t):
        if v.op == 'ite': return Ite(v.args[0], self.discr(v.args[1], t), self.discr(v.args[2], t))
        if v.op == 'undef': return UNDEF
        if t[0] != 'adt': raise Unsupported(f'discriminant of {t}')
        a = self.crate.adt(t[1])
        if v.op == 'con': return I(self._sd(a['variants'][v.attr[1]]['discr'], t[1]))
        n = len(a['variants'])
        r = I(self._sd(a['variants'][n - 1]['discr'], t[1]))
        for i in range(n - 2, -1, -1): r = Ite(VarIs(v, i), I(self._sd(a['variants'][i]['discr'], t[1])), r)
        return r
    def _sd(self, d, p=''):
        if p == 'core::cmp::Ordering': return d - 256 if d >= 128 else d
        return d - 2**128 if d >= 2**127 else d - 2**64 if d >= 2**63 else d
    def cast(self, k, x, ft, tt):
        if k == 'IntToInt':
            if tt[0] == 'int':
                if x.sort == BOOL: return Ite(x, ONE, ZERO)
                if x.sort[0] != 'Int': raise Unsupported('cast')
                return Wrap(x, tt[1])
            if tt[0] == 'char': return x
        if k == 'IntToFloat':
            if tt[1] == 'f32': return FUn('f32', I2F(x))
            lo, hi = rng(x)
            if x.sort == BOOL: x = Ite(x, ONE, ZERO)
            return I2F(x)
        if k == 'FloatToInt': return mk('f2i', (x,), tt[1], INT(tt[1]))
        if k == 'FloatToFloat':
            if tt[1] == 'f64' and ft[1] == 'f64': return x
            if tt[1] == 'f32': return FUn('f32', x)
            return x
        if k.startswith('PointerCoercion') : return x
        if k in ('PtrToPtr', 'Transmute', 'Subtype'):
            if ft == tt: return x
        raise Unsupported(f'cast {k}')
    def binop(self, fr, op, a, b, t):
        ov = op.endswith('WithOverflow'); base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a.op == 'undef' or b.op == 'undef': return UNDEF
        if t[0] in ('int', 'char') and base in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            if base == 'Add': v = iadd(a, b)
            elif base == 'Sub': v = isub(a, b)
            elif base == 'Mul': v = imul(a, b)
            elif base == 'Div': return IDiv(a, b)
            elif base == 'Rem': return IMod(a, b)
            else:
                if isc(a) and isc(b):
                    f = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y, 'Shl': lambda x, y: x << y, 'Shr': lambda x, y: x >> y}[base]
                    return Wrap(I(f(a.attr, b.attr)), t[1])
                if base == 'Shr' and isc(b): return IDiv(a, I(2 ** b.attr))
                if base == 'Shl' and isc(b): return Wrap(imul(a, I(2 ** b.attr)), t[1])
                if base == 'BitAnd' and isc(b) and b.attr == 1: return IMod(a, I(2))
                return mk('bit', (a, b), base, INT(t[1]))
            if ov:
                lo, hi = RANGES[t[1]]
                o = Not(And(Le(I(lo), v), Le(v, I(hi))))
                return Con(('tuple', 0), (v, o), ADT('tuple', INT(t[1]), BOOL))
            return Wrap(v, t[1]) if 'Unchecked' not in op else v
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            if a.sort == F64 or b.sort == F64:
                r = {'Eq': lambda: FCmp('feq', a, b), 'Ne': lambda: Not(FCmp('feq', a, b)), 'Lt': lambda: FCmp('flt', a, b), 'Le': lambda: FCmp('fle', a, b),
                     'Gt': lambda: FCmp('flt', b, a), 'Ge': lambda: FCmp('fle', b, a)}
                if base in r: return r[base]()
            elif a.sort[0] == 'Int':
                if base == 'Eq': return Eq(a, b)
                if base == 'Ne': return Not(Eq(a, b))
                if base == 'Lt': return Lt(a, b)
                if base == 'Le': return Le(a, b)
                if base == 'Gt': return Lt(b, a)
                if base == 'Ge': return Le(b, a)
                if base == 'Cmp': return self.cmp(a, b)
            elif a.sort == BOOL:
                if base == 'Eq': return Eq(a, b)
                if base == 'Ne': return Not(Eq(a, b))
                if base == 'Lt': return And(Not(a), b)
                if base == 'Le': return Or(Not(a), b)
                if base == 'Gt': return And(Not(b), a)
                if base == 'Ge': return Or(Not(b), a)
        if t[0] == 'bool' and base in ('BitAnd', 'BitOr', 'BitXor'):
            return And(a, b) if base == 'BitAnd' else Or(a, b) if base == 'BitOr' else Not(Eq(a, b))
        if t[0] == 'float':
            rd = (lambda x: x) if t[1] == 'f64' else lambda x: FUn('f32', x)
            if base == 'Add': return rd(FAdd(a, b))
            if base == 'Sub': return rd(FSub(a, b))
            if base == 'Mul': return rd(FMul(a, b))
            if base == 'Div': return rd(FDiv(a, b))
            if base == 'Rem': return FUn('frem', a, b)
        raise Unsupported(f'binop {op} on {t}')
    def cmp(self, a, b):
        """Ordering of two values"""
        if a.sort[0] == 'Adt' and a.sort[1] == 'core::cmp::Reverse' or (a.op == 'con' and a.attr[0] == 'core::cmp::Reverse'):
            return self.cmp(self.expand(b).args[0], self.expand(a).args[0])
        if a.sort[0] == 'Adt' and a.op != 'con' and b.op == 'con' and isstruct(b): a = self.expand_like(a, b)
        if b.sort[0] == 'Adt' and b.op != 'con' and a.op == 'con' and isstruct(a): b = self.expand_like(b, a)
        return Ite(OLt(a, b), LESS, Ite(Eq(a, b), EQUAL, GREATER))
    def expand_like(self, v, c): return Con(c.attr, tuple(Fld(v, c.attr[1], i, x.sort) for i, x in enumerate(c.args)), c.sort)
    def seqlen(self, x):
        if x.sort[0] == 'Str': return mk('slen', (x,), None, INT('len'))
        return Len(x)

    # ------------------------------------------------------------ running bodies
    def run_body(self, body, args, tyenv, pc, st):
        """returns (result term, path condition of returning); st is updated in place"""
        body.analyse()
        if body.irreducible: raise Unsupported('irreducible control flow')
        self.depth += 1
        if self.depth > 60: raise Unsupported('inlining depth (recursion)')
        self.nf += 1
        fr = Frame(body, tyenv, self.nf)
        outer = list(st)
        for i, a in enumerate(args): st[(fr.fid, i + 1)] = a
        self.stack.append(strip(body.key))
        sw = self.where
        exits = self.region(fr, set(body.rpo), 0, TRUE, st, pc, None)
        rets = [(c, s) for c, tag, s in exits if tag == 'ret']
        if not rets:
            self.stack.pop(); self.depth -= 1; self.where = sw
            return UNDEF, FALSE
        c, s = self.merge(rets)
        r = s.get((fr.fid, 0), UNDEF)
        keep = {k: v for k, v in s.items() if k[0] != fr.fid}
        st.clear(); st.update(keep)
        self.stack.pop(); self.depth -= 1; self.where = sw
        return r, c
    def merge(self, items):
        items = [(c, s) for c, s in items if c is not FALSE]
        if not items: return FALSE, {}
        if len(items) == 1: return items[0][0], dict(items[0][1])
        sets = [frozenset(conj(c)) for c, _ in items]
        common = frozenset.intersection(*sets)
        rest = [And(*(x - common)) for x in sets]
        cond = or_conds([c for c, _ in items])
        keys = []
        seen = set()
        for _, s in items:
            for k in s:
                if k not in seen: seen.add(k); keys.append(k)
        out = {}
        for k in keys:
            vs = [s.get(k, UNDEF) for _, s in items]
            v = vs[-1]
            same = all(x is v for x in vs)
            if not same:
                for i in range(len(items) - 2, -1, -1):
                    try: v = Ite(rest[i], vs[i], v)
                    except RecursionError: raise Unsupported('merge too deep')
            out[k] = v
        return cond, out
    def region(self, fr, blocks, entry, c0, st0, pc, header):
        """execute the blocks of a region once from `entry`; returns [(cond, tag, state)] for edges leaving it
        tag: ('b', block) for an edge to a block outside, 'ret', or 'back' for an edge to `header`"""
        body = fr.body
        pend = {entry: [(c0, st0)]}
        exits = []
        order = sorted(blocks, key=lambda b: body.num[b])
        done = set()
        def edge(tgt, c, s):
            if c is FALSE: return
            if header is not None and tgt == header: exits.append((c, 'back', s))
            elif tgt not in blocks: exits.append((c, ('b', tgt), s))
            else: pend.setdefault(tgt, []).append((c, s))
        for b in order:
            if b in done or b not in pend: continue
            c, s = self.merge(pend.pop(b))
            if c is FALSE: continue
            if b in body.loops and b != header:
                L = body.loops[b]
                done |= L
                for cc, tag, ss in self.loop(fr, L, b, c, s, pc):
                    if tag == 'ret': exits.append((cc, tag, ss))
                    else: edge(tag[1], cc, ss)
                continue
            done.add(b)
            for cc, tgt, ss in self.block(fr, b, c, s, pc):
                if tgt == 'ret': exits.append((cc, 'ret', ss))
                else: edge(tgt, cc, ss)
        return exits
    def block(self, fr, b, c, st, pc):
        self.steps += 1
        if self.steps > self.limit: raise Unsupported('step limit')
        bl = fr.body.blocks[b]
        st = dict(st)
        full = And(pc, c)
        for s in bl['st']:
            if s['s'] == 'assign':
                self.where = s['at']
                v = self.rvalue(fr, st, s['rv'], full)
                self.write(fr, st, s['pl'], v)
            elif s['s'] == 'setdiscr': raise Unsupported('set discriminant')
        t = bl['te']; k = t['t']; self.where = bl['at']
        if k == 'goto' or k == 'drop': return [(c, t['to'], st)]
        if k == 'return': return [(c, 'ret', st)]
        if k == 'unreachable':
            self.oblige('unreachable', full, FALSE, 'the compiler assumes that this point is not reached'); return []
        if k == 'unwind': return []
        if k == 'switch':
            x = self.operand(fr, st, t['x']); ty = tsubst(self.T(t['ty']), fr.tyenv)
            out = []; neg = c
            for v, tgt in t['v']:
                v = int(v)
                if x.sort == BOOL: e = x if v else Not(x)
                else:
                    if ty[0] == 'int' and RANGES[ty[1]][0] < 0 and v > RANGES[ty[1]][1]: v -= RANGES[ty[1]][1] - RANGES[ty[1]][0] + 1
                    e = Eq(x, I(v)) if x.op != 'undef' else FALSE
                cc = And(neg, e)
                if cc is not FALSE: out.append((cc, tgt, dict(st)))
                neg = And(neg, Not(e))
            if neg is not FALSE: out.append((neg, t['else'], st))
            # join equal targets
            return out
        if k == 'assert':
            x = self.operand(fr, st, t['c'])
            g = x if t['e'] else Not(x)
            self.oblige('overflow' if 'overflow' in t['m'] else 'panic', full, g, t['m'])
            return [(c, t['to'], st)]
        if k == 'call':
            f = self.operand(fr, st, t['f'])
            args = [self.operand(fr, st, a) for a in t['a']]
            dty = tsubst(self.T(t['d']['t']), fr.tyenv)
            atys = [tsubst(self.T(a), fr.tyenv) for a in t['at']]
            if t['to'] is None:
                nm = f.attr[1] if f.op == 'fnv' else '?'
                self.oblige('panic', full, FALSE, 'call of diverging ' + strip(nm))
                return []
            r, rc = self.call(f, args, atys, dty, full, st)
            if rc is FALSE: return []
            self.write(fr, st, t['d'], r)
            return [(c, t['to'], st)]
        raise Unsupported(f'terminator {k}')

    # ------------------------------------------------------------ loops
    def loop(self, fr, L, header, c, st, pc):
        body = fr.body
        live = body.live[header] | body.borrowed
        st = {k: v for k, v in st.items() if k[0] != fr.fid or k[1] in live}
        nested = self.stack[-1]
        where = self.where
        def run(s, p):
            ex = self.region(fr, L, header, TRUE, s, And(pc, c, p), header)
            # only loop-carried cells matter on the back edge
            return ([(cc, {k: v for k, v in ss.items() if k in s}) for cc, tag, ss in ex if tag == 'back'], [(cc, tag, ss) for cc, tag, ss in ex if tag != 'back'])
        if self.unroll:
            out = []; cur = TRUE; s = st
            for _ in range(self.unroll):
                backs, exits = run(s, cur)
                out += [(And(c, cur, cc), tag, ss) for cc, tag, ss in exits]
                C, s2 = self.merge(backs)
                if C is FALSE: return out
                cur = And(cur, C); s = {**s, **s2}
            raise Unsupported('a loop that is not decided within the unrolling')
        # the header block itself is re-entered by region(): mark so that it is not summarised again
        ex = self.summarise(st, run, f'{nested}:{where}')
        return [(And(c, cc), tag, ss) for cc, tag, ss in ex]

    def summarise(self, st0, run, name='loop'):
        """closed form of iterating `run`; returns [(cond, tag, state)] of the exits, over the entry state"""
        mod = {}     # (key, path) -> True : modified leaves
        nobl = len(self.obls)
        def leaf(v, path):
            for i in path: v = v.args[i]
            return v
        def template(mod):
            syms = {}
            bykey = {}
            for (k, path) in mod: bykey.setdefault(k, []).append(path)
            s = dict(st0)
            for k, paths in bykey.items():
                def rec(v, p):
                    if p in paths:
                        x = fresh('X', v.sort if v.sort != SEQ(ANY) or True else v.sort)
                        syms[x] = (k, p, v)
                        return x
                    if not any(q[:len(p)] == p for q in paths): return v
                    return Con(v.attr, tuple(rec(a, p + (i,)) for i, a in enumerate(v.args)), v.sort)
                s[k] = rec(st0[k], ())
            return s, syms
        def diff(a, b, k, p, out):
            if a is b: return
            if a.op == 'con' and b.op == 'con' and a.attr == b.attr and len(a.args) == len(b.args) and a.args and (isstruct(a) or self.is_struct_path(a.attr[0])):
                for i, (x, y) in enumerate(zip(a.args, b.args)): diff(x, y, k, p + (i,), out)
                return
            out.add((k, p))
        for rounds in range(8):
            del self.obls[nobl:]
            sin, syms = template(mod)
            backs, exits = run(sin, TRUE)
            if not backs:
                return [(cc, tag, ss) for cc, tag, ss in exits]    # body never loops
            C, sb = self.merge(backs)
            if C is FALSE: return exits
            new = set()
            for k in sin:
                if k in sb: diff(sin[k], sb[k], k, (), new)
            new = {x for x in new if x not in mod}
            # a coarser leaf subsumes finer ones
            if not new: break
            for (k, p) in new:
                for (k2, p2) in list(mod):
                    if k2 == k and p2[:len(p)] == p: del mod[(k2, p2)]
                mod[(k, p)] = True
        else: raise Unsupported('loop state does not stabilise')
        body_obls = self.obls[nobl:]; del self.obls[nobl:]
        nxt = {}
        for x, (k, p, v0) in syms.items(): nxt[x] = leaf(sb[k], p)
        j = fresh('j', IDX)
        from loops import solve
        sol, dead = solve(self, {x: v for x, (k, p, v) in syms.items()}, nxt, C, j)
        # sorts: the symbols for empty collections carry Any sorts; fine
        Cj = subst(C, sol)
        N = None; K = []
        for a in conj(Cj):
            b = self.bound(a, j)
            if b is None: K.append(a)
            else: N = b if N is None else imin(N, b)
        if any(s in Cj.fv for s in dead): raise Unsupported('continuation depends on an unsolved variable')
        if N is None:
            raise Unsupported(f'no loop bound found ({name}): {show(Cj, 6)[:300]}')
        lo, hi = rng(N)
        if lo is None or lo < 0: N = imax(N, ZERO)
        Kc = And(*K); E = Not(Kc)
        kb = abst(E, j)
        J = mkbind('first', N, kb)
        # loop-invariant obligations (initiation and preservation of every closed form)
        hyp = [Le(ZERO, j), Lt(j, N)] + ([Kc] if Kc is not TRUE else [])
        for x, (k, p, v0) in syms.items():
            if x in dead: continue
            i0 = subst(sol[x], {j: ZERO})
            if i0 is not v0: self.obls.append(Obl('loop-init', name, tuple(self.ctx), Eq(i0, v0) if i0.sort[0] != 'Seq' else mk('eqv', (i0, v0), None, BOOL), '', self.stack[-1] if self.stack else ''))
            if any(s in nxt[x].fv for s in dead): raise Unsupported('recurrence on unsolved variable')
            stp = subst(sol[x], {j: iadd(j, ONE)}); got = assume(subst(nxt[x], sol), Cj)
            if stp is not got:
                hs = tuple(self.ctx) + tuple(h for h in hyp if h is not TRUE) + (Cj,)
                cs = [((), lambda t: t)]
                z = Eq(j, ZERO)
                if sol[x].sort[0] == 'Seq' and sol[x].op == 'ite' and sol[x].args[0] is z:      # the first iteration, and the others
                    cs = [((), lambda t: subst(t, {j: ZERO})), ((Not(z),), lambda t: assume(t, Not(z)))]
                if sol[x].sort[0] == 'Adt' and sol[x].op == 'ite' and sol[x].args[0] in (z, le0(j)):
                    up = lambda t: assume(subst(t, {j: iadd(j, ONE)}), Le(ZERO, j))
                    cs = [((), lambda t: subst(t, {j: ZERO})), ((Le(ZERO, j),), up)]
                for h, f in cs:
                    a, b = f(stp), f(got)
                    if a is not b: self.obls.append(Obl('loop-step', name, tuple(y for y in (f(y) for y in hs) if y is not TRUE) + h, mk('eqv', (a, b), None, BOOL), '', self.stack[-1] if self.stack else ''))
        # obligations inside the body, at iteration j
        allk = mkbind('all', j, abst(Kc, j)) if Kc is not TRUE else TRUE
        for o in body_obls:
            h = tuple(subst(x, sol) for x in o.hyps); g = subst(o.goal, sol)
            hh = tuple(x for x in (Le(ZERO, j), Le(j, N), allk) if x is not TRUE)
            if any(s in g.fv or any(s in y.fv for y in h) for s in dead): g = FALSE if o.goal is FALSE else g
            self.obls.append(Obl(o.kind, o.where, hh + h, g, o.note, o.fn))
        out = []
        for J, cond, EJ in self.loop_ends(E, J, N, j):
            solJ = {x: subst(v, {j: J}) for x, v in sol.items() if x not in dead}
            for x in dead: solJ[x] = UNDEF
            early = Lt(J, N) if E is not FALSE else FALSE
            for cc, tag, ss in exits:
                cj = subst(cc, {**{x: v for x, v in sol.items() if x not in dead}})
                if any(s in cj.fv for s in dead): raise Unsupported('exit depends on an unsolved variable')
                c1 = subst(cj, {j: J})
                s1 = {k: subst(v, {**solJ}) for k, v in ss.items()}
                s1 = {k: subst(v, {j: J}) for k, v in s1.items()}
                if cond is not None:
                    c1 = And(cond, assume(assume(c1, cond), EJ))
                    s1 = {k: assume(v, EJ) for k, v in s1.items()}
                elif E is not FALSE:
                    # J < N implies E at J
                    c1 = self.use_exit(c1, EJ, early)
                    if c1 is FALSE: continue
                    if implies_syn(c1, early) and EJ.op != 'or':
                        s1 = {k: assume(v, EJ) for k, v in s1.items()}
                if c1 is FALSE: continue
                out.append((c1, tag, s1))
        return out
    def loop_ends(self, E, J, N, j):
        """the iteration J in which the loop is left: (J, its condition, what is known there)"""
        if E is FALSE: return [(J, None, FALSE)]
        one = Le(ONE, j); cs = conj(E)
        if one not in cs: return [(J, None, subst(E, {j: J}))]
        # left one iteration after a first one: E(j) is P(j - 1)
        P = subst(And(*[c for c in cs if c is not one]), {j: iadd(j, ONE)})
        m = mkbind('first', N, abst(P, j)); c = Lt(m, N)
        return [x for x in ((iadd(m, ONE), c, subst(P, {j: m})), (N, Not(c), Or(Eq(N, ZERO), Not(subst(P, {j: isub(N, ONE)}))))) if x[1] is not FALSE]
    def is_struct_path(self, p):
        a = self.crate.adt(p)
        return a is not None and a['kind'] == 'struct'
    def use_exit(self, c, EJ, early):
        """simplify an exit condition with: early -> EJ"""
        cs = conj(c)
        if implies_syn(c, early):
            if EJ.op == 'or': return assume_parts(c, EJ, early)
            keep = [x for x in cs if x is early]
            rest = And(*[x for x in cs if x is not early])
            return And(early, assume(rest, EJ)) if early is not TRUE else assume(c, EJ)
        return c
    def bound(self, a, j):
        """a: conjunct; returns N with (a <-> j < N) when it is a linear upper bound on j"""
        if j not in a.fv: return None
        if a.op == 'or':
            bs = [self.bound(x, j) for x in a.args]
            return None if any(b is None for b in bs) else imax(*bs)
        if a.op == 'le' and a.args[0].sort[0] == 'Int':
            p = a.args[0]; d = pdict(p); key = ((j.id, 1),)
            q = d.pop(key, 0)
            if q <= 0: return None
            ats = patoms(p)
            rest = mkp(d, ats, False)
            if j in rest.fv: return None
            if q == 1: return isub(ONE, rest)
            return iadd(IDiv(isub(I(q - 1), iadd(rest, I(q - 1))), I(q)), ONE) if rng(rest)[1] is not None and rng(rest)[1] <= 0 else IDiv(imax(ZERO, isub(I(q), rest)), I(q))
        if a.op == 'not' and a.args[0].op == 'eq0':
            p = a.args[0].args[0]
            if p.sort[0] != 'Int': return None
            d = pdict(p); q = d.pop(((j.id, 1),), 0)
            if q not in (1, -1): return None
            rest = mkp(d, patoms(p), False)
            if j in rest.fv: return None
            g = pneg(rest) if q == 1 else rest
            if rng(g)[0] is not None and rng(g)[0] >= 0: return g
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, atys, dty, pc, st):
        if f.op == 'ite':
            raise Unsupported('call of a conditional function value')
        if f.op != 'fnv':
            return self.apply(f, args, pc, st)
        t = f.attr
        _, path, targs, trait, name, selfty, rp, ra, islocal = t
        from std import call_builtin, NOT
        key = strip(path)
        if dty == ('other', '') and trait is None and targs and key.endswith(('::new', '::with_capacity')): dty = ('adt', key.rsplit('::', 1)[0], tuple(targs))
        # 1. local code
        target = None; tenv_args = targs
        if trait in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn') and len(args) == 2: pass
        elif rp is not None:
            b = self.crate.body(rp)
            if b is not None and b.local: target = b; tenv_args = ra
        elif islocal or trait is None:
            b = self.crate.body(path)
            if b is not None and b.local: target = b
        if target is None and trait is not None and not trait.startswith('core::ops::function::'):
            target, tenv_args = self.resolve_local(trait, name, selfty, targs)
        if target is not None:
            return self.call_local(target, tenv_args, args, pc, st)
        # 2. closures and fn values through the Fn traits
        if trait in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn'):
            fv = args[0]
            tup = args[1]
            cargs = list(tup.args) if tup.op == 'con' else None
            if cargs is None:
                n = len(atys[1][1]) if atys[1][0] == 'tuple' else 0
                cargs = [Fld(tup, 0, i, ANY) for i in range(n)]
            return self.apply(fv, cargs, pc, st)
        # 3. contracts on std / dependencies
        r = call_builtin(self, key, trait, name, selfty, targs, args, atys, dty, pc, st)
        if r is not NOT:
            return r, TRUE
        # 4. inline the std body
        for cand, ta in ((rp, ra), (path, targs)):
            if cand is None: continue
            b = self.crate.body(cand)
            if b is not None:
                self.inlined_ext.add(strip(b.key))
                env = dict(zip(b.generics, [x for x in ta]))
                return self.run_body(b, args, env, pc, st)
        raise Unsupported(f'call {key} (trait {trait}, self {selfty})')
    def resolve_local(self, trait, name, selfty, targs):
        """trait method on a type known only after substitution"""
        if selfty is None: return None, None
        t = selfty
        while t[0] == 'ref': t = t[2]
        if t[0] != 'adt': return None, None
        key = f'<{t[1]} as {trait}>::{name}'
        b = self.crate.body(key)
        if b is None:
            for k in self.crate.raw:
                if k.endswith(f' as {trait}>::{name}') and self.crate.raw[k].get('local') and strip(k.split(' as ')[0].lstrip('<')).split('<')[0] == t[1]:
                    b = self.crate.body(k); break
        if b is None or not b.local: return None, None
        return b, t[2]
    def call_local(self, body, targs, args, pc, st):
        key = strip(body.key)
        env = dict(zip(body.generics, targs or ()))
        con = self.contracts.get(key)
        if con is not None:
            r = con(self, body, env, args, pc, st)
            if r is not None:
                self.used_fn.append(('contract', key)); return r, TRUE
        if body.impl_trait == 'core::clone::Clone' and body.name == 'clone': return args[0], TRUE
        self.used_fn.append(('inline', key))
        return self.run_body(body, args, env, pc, st)
    def apply(self, f, args, pc, st):
        """apply a closure / fn value"""
        if f.op == 'ptr': 
            fv = self.load(st, f)
            return self.apply_closure(fv, args, pc, st, f)
        if f.op == 'fnv':
            return self.call(f, args, [None] * len(args), ('other', ''), pc, st)
        return self.apply_closure(f, args, pc, st, None)
    def apply_closure(self, fv, args, pc, st, ptr):
        if fv.op == 'fnv' or fv.op == 'ptr': return self.apply(fv, args, pc, st)
        if fv.op == 'con' and fv.attr[0].startswith('closure:'):
            b = self.crate.body(fv.attr[0][8:])
            if b is None: raise Unsupported(f'closure body {fv.attr[0]}')
            env = dict(fv.sort[2][0]) if fv.sort[2] else {}
            t0 = b.ltypes[1]
            tmp = None
            if t0[0] == 'ref' and t0[1]:
                if ptr is None:
                    self.nf += 1; tmp = (('tmp', self.nf), 0); st[tmp] = fv; a0 = self.ptr(tmp)
                else: a0 = ptr
            else: a0 = fv
            r, rc = self.run_body(b, [a0] + list(args), env, pc, st)
            if tmp is not None:
                if st[tmp] is not fv: raise Stateful('closure mutates its captured state')
                del st[tmp]
            return r, rc
        if fv.op == 'con' and fv.attr[0].startswith('ctor:'): pass
        if fv.op == 'pyfn': return PYFNS[fv.attr](*args), TRUE
        raise Unsupported(f'application of {fv.op} {show(fv, 3)[:100]}')
    def pure_apply(self, f, args, pc, st):
        """apply a closure that must not change the store"""
        s2 = dict(st)
        r, rc = self.apply(f, args, pc, s2)
        for k, v in st.items():
            if s2.get(k) is not v: raise Stateful('closure with side effects')
        if rc is FALSE: return UNDEF
        return r
    def under(self, hyps, fn):
        self.ctx.extend(hyps)
        try: return fn()
        finally: del self.ctx[len(self.ctx) - len(hyps):]

PYFNS = {}
def pyfn(name, fn):
    PYFNS[name] = fn
    return mk('pyfn', (), name, FN)

def implies_syn(c, e):
    if e is TRUE: return True
    cs = set(conj(c))
    return all(x in cs for x in conj(e))
def assume_parts(c, EJ, early):
    cs = [x for x in conj(c) if x not in set(conj(early))]
    r = And(*cs)
    if r is EJ: return early
    return And(early, r)
