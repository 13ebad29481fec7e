"""Contracts on serde's data model, and the property of Record's (de)serialisers (C29).

A serialiser that accepts everything: serialising a leaf value yields that value, a struct or map yields an object, recorded entry by entry.
A deserialiser that presents a given value of the data model: an object with known keys (in a given order) and arbitrary values, a field name, or a leaf value.
"""
from terms import *
from std import bi, tr, TRAIT, NOT
from sym import Unsupported, STRING
from mir import strip
import itertools

D, S_ = 'serde_core::de::', 'serde_core::ser::'
SER, SERS, SERV = ('serde.Serializer', 0), ('serde.Compound', 0), ('serde.Value', 0)
def obj(es): return Con(('serde.Object', 0), tuple(x for kv in es for x in kv), ADT('serde.Object'))
def de(kind, *xs): return Con((f'serde.De{kind}', 0), xs, ADT('serde.De'))
LEAFS = {'str', 'int', 'float', 'bool', 'char'}
def leaf(t):
    while t[0] == 'ref': t = t[2]
    return t[0] in LEAFS or t[0] == 'param' or t[0] == 'adt' and (t[1] == STRING or t[1].endswith('::OrderedFloat'))
def impl(ex, trait, t, name):
    """the local implementation of a trait method for a type"""
    while t[0] == 'ref': t = t[2]
    if t[0] != 'adt': return None, None
    for k, j in ex.crate.raw.items():
        if j.get('name') == name and j.get('local') and j.get('impl_trait') == trait and (j.get('impl_self') or {}).get('p') == t[1]:
            b = ex.crate.body(k)
            env = {}
            a = b.impl_self[2]
            if len(a) == len(t[2]):
                for x, y in zip(a, t[2]):
                    if x[0] == 'param': env[x[1]] = y
            return b, env
    return None, None
def call(c, b, env, extra, args):
    env = dict(env)
    for g in b.generics:
        if g not in env: env[g] = extra.get(g, ('param', g))
    c.ex.used_fn.append(('inline', strip(b.key)))
    r, rc = c.ex.run_body(b, args, env, c.pc, c.st)
    if rc is not TRUE: raise Unsupported('a (de)serialiser that may panic')
    return r
# ---------------------------------------------------------------- serialisation
def to_value(c, v, t):
    """the data-model value a Serialize implementation produces for v : t"""
    while v.op == 'ptr': v = c.ex.load(c.st, v)
    if t is None or leaf(t): return Ok(v)
    b, env = impl(c.ex, S_ + 'Serialize', t, 'serialize')
    if b is None: raise Unsupported(f'serialisation of {t}')
    return call(c, b, env, {}, [v, Con(SER, (), ADT('serde.Serializer'))])
def unwrapped(r):
    if r.op == 'con' and r.attr[1] == 0: return r.args[0]
    raise Unsupported('conditional serialisation')
@tr(S_ + 'Serialize::serialize')
def _(c): return to_value(c, c.args[0], c.selfty)
for m in ('bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'str', 'char'):
    TRAIT[S_ + 'Serializer::serialize_' + m] = lambda c: Ok(c.a(1))
@tr(S_ + 'Serializer::collect_str')
def _(c): return Ok(c.a(1) if c.a(1).sort == STR else UF('display', STR, c.a(1)))
@tr(S_ + 'Serializer::serialize_struct')
def _(c): return Ok(Con(SERS, (c.a(2), UNIT), ADT('serde.Compound')))
@tr(S_ + 'Serializer::serialize_map')
def _(c): return Ok(Con(SERS, (c.a(1), UNIT), ADT('serde.Compound')))
def put(c, k, v):
    p = c.args[0]; x = c.ex.load(c.st, p) if p.op == 'ptr' else p
    if p.op != 'ptr': raise Unsupported('serialiser state')
    def go(x):
        if x.op == 'ite': return Ite(x.args[0], go(x.args[1]), go(x.args[2]))
        if x.op != 'con': raise Unsupported('serialiser state')
        return Con(SERS, x.args + (k, v), x.sort)
    c.ex.store(c.st, p, go(x))
    return Ok(UNIT)
@tr(S_ + 'SerializeStruct::serialize_field')
def _(c): return put(c, c.a(1), unwrapped(to_value(c, c.args[2], c.targs[-1])))
@tr(S_ + 'SerializeMap::serialize_entry')
def _(c): return put(c, c.a(1), unwrapped(to_value(c, c.args[2], c.targs[-1])))
@tr(S_ + 'SerializeStruct::skip_field')
def _(c): return Ok(UNIT)
@tr(S_ + 'SerializeStruct::end', S_ + 'SerializeMap::end')
def _(c):
    def go(x):
        if x.op == 'ite': return Ite(x.args[0], go(x.args[1]), go(x.args[2]))
        if x.op != 'con' or x.attr != SERS: raise Unsupported('serialiser state')
        return Con(('serde.Object', 0), x.args, ADT('serde.Object'))
    return Ok(go(c.args[0]))
# ---------------------------------------------------------------- deserialisation
def err(): return Err(UF('serde.error', ANY))
def visit(c, vis, t, method, args, extra=None):
    b, env = impl(c.ex, D + 'Visitor', t, method)
    if b is None: return None
    return call(c, b, env, extra or {}, [vis] + args)
def drive(c, d, vis, t):
    """a visitor of type t driven by the value d"""
    if d.op != 'con': raise Unsupported('conditional deserialiser')
    k = d.attr[0]
    if k == 'serde.DeObject': r = visit(c, vis, t, 'visit_map', [d], {'__A': ('other', ''), 'A': ('other', '')})
    elif k == 'serde.DeName':
        r = None
        for m in ('visit_borrowed_str', 'visit_str', 'visit_string'):
            r = visit(c, vis, t, m, [d.args[0]])
            if r is not None: break
    else: raise Unsupported('a visitor of a leaf value')
    if r is None: raise Unsupported('visitor')
    return r
def from_value(c, d, t):
    """Deserialize::deserialize for the type t applied to the value d"""
    if d.op != 'con': raise Unsupported('conditional deserialiser')
    if leaf(t):
        if d.attr[0] == 'serde.DeObject': return err()
        v = d.args[0]; s = c.ex.sort(t)
        if v.sort != s: raise Unsupported(f'a {v.sort} read as {s}')
        return Ok(v)
    if t[0] == 'adt' and t[1].endswith('::IgnoredAny'): return Ok(Con((t[1], 0), (), ADT(t[1])))
    b, env = impl(c.ex, D + 'Deserialize', t, 'deserialize')
    if b is None: raise Unsupported(f'deserialisation of {t}')
    return call(c, b, env, {}, [d])
@tr(D + 'Deserialize::deserialize')
def _(c): return from_value(c, c.args[0], c.selfty)
for m, i in (('struct', 3), ('map', 1), ('any', 1), ('identifier', 1), ('str', 1), ('string', 1)):
    TRAIT[D + 'Deserializer::deserialize_' + m] = lambda c, i=i: drive(c, c.args[0], c.args[i], c.targs[-1])
def entries(c):
    p = c.args[0]; x = c.ex.load(c.st, p) if p.op == 'ptr' else p
    if p.op != 'ptr' or x.op != 'con': raise Unsupported('map access')
    return p, x
@tr(D + 'MapAccess::next_key')
def _(c):
    p, x = entries(c)
    if not x.args: return Ok(NoneT(ANY))
    if len(x.args) % 2: raise Unsupported('key read twice')
    c.ex.store(c.st, p, Con(x.attr, x.args[1:], x.sort))
    r = from_value(c, de('Name', x.args[0]), c.targs[-1])
    return Ok(Some(r.args[0])) if r.op == 'con' and r.attr[1] == 0 else Ite(VarIs(r, 0), Ok(Some(Fld(r, 0, 0, ANY))), err())
@tr(D + 'MapAccess::next_value')
def _(c):
    p, x = entries(c)
    if len(x.args) % 2 == 0: raise Unsupported('value before its key')
    c.ex.store(c.st, p, Con(x.attr, x.args[1:], x.sort))
    return from_value(c, de('Value', x.args[0]), c.targs[-1])
@tr(D + 'MapAccess::next_entry')
def _(c):
    p, x = entries(c)
    if not x.args: return Ok(NoneT(ANY))
    c.ex.store(c.st, p, Con(x.attr, x.args[2:], x.sort))
    k, v = (unwrapped(from_value(c, de(n, y), t)) for n, y, t in (('Name', x.args[0], c.targs[-2]), ('Value', x.args[1], c.targs[-1])))
    return Ok(Some(Con(('tuple', 0), (k, v), ADT('tuple', k.sort, v.sort))))
@tr(D + 'MapAccess::size_hint')
def _(c): return NoneT(INT('usize'))
for m in ('duplicate_field', 'missing_field', 'unknown_field', 'custom', 'invalid_value', 'invalid_type', 'invalid_length'):
    TRAIT[D + 'Error::' + m] = lambda c: UF('serde.error', ANY)
@bi('serde::private::de::missing_field', 'serde_core::private::de::missing_field')
def _(c):
    if not leaf(c.targs[0]): raise Unsupported('a missing field of a type that may accept it')
    return err()
# ================================================================ the property
NAMES = ('query_id', 'doc_id', 'score')
REC = 'elinor::relevance::Record'
def c29(v):
    from sym import Exec
    a = next(p for p in ('relevance::Record', REC) if v.crate.adt(p) is not None)
    ix = {n: i for i, (n, t) in enumerate(v.crate.adt(a)['variants'][0]['fields'])}
    K, T = U('K'), U('T')
    rt = ADT(a, K, T)
    val = {'query_id': sym('query', K), 'doc_id': sym('doc', K), 'score': sym('score', T)}
    rec = Con((a, 0), tuple(val[n] for n, i in sorted(ix.items(), key=lambda x: x[1])), rt)
    ty = ('adt', a, (('param', 'K'), ('param', 'T')))
    ex = Exec(v.crate, {})
    ser, _ = impl(ex, S_ + 'Serialize', ty, 'serialize')
    des, _ = impl(ex, D + 'Deserialize', ty, 'deserialize')
    if ser is None or des is None: raise Unsupported('no implementation of Serialize or Deserialize for Record')
    r, c = v.exec(ser.key, [rec, Con(SER, (), ADT('serde.Serializer'))])
    v.holds('serialising returns for every record', c, kind='termination')
    v.holds('serialising succeeds whenever the serialiser accepts every value', VarIs(r, 0))
    o = assume(Fld(r, 0, 0, ADT('serde.Object')), VarIs(r, 0))
    def leaves(x): return leaves(x.args[1]) + leaves(x.args[2]) if x.op == 'ite' else [x]
    for o in leaves(o):
        if not (o.op == 'con' and o.attr[0] == 'serde.Object'): raise Unsupported('conditional serialisation')
        hint, es = o.args[0], dict(zip(o.args[2::2], o.args[3::2]))
        v.equal('the object has exactly the fields query_id, doc_id and score', TRUE if len(o.args) == 8 and set(es) == {S(n) for n in NAMES} else FALSE, TRUE)
        for n in NAMES: v.equal(f'the field {n} holds the record\'s {n}', es.get(S(n), UNDEF), val[n])
        if hint.op == 'con' and hint.attr[0].endswith('Option'): v.holds('the announced number of fields is right', Or(VarIs(hint, 0), Eq(Fld(hint, 1, 0, INT('usize')), I(3))))
        else: v.equal('the announced number of fields is right', hint, I(3))
    def read(names): return v.exec(des.key, [de('Object', *[x for n in names for x in (S(n), val[n])])], unroll=24, label='deserialize')
    for p in itertools.permutations(NAMES):
        r, c = read(p)
        v.holds(f'reading an object with the fields {", ".join(p)} returns', c, kind='termination')
        v.equal(f'reading an object with the fields {", ".join(p)} gives the record', r, Ok(rec))
    for n in NAMES:
        for p in itertools.permutations([x for x in NAMES if x != n]):
            r, c = read(p)
            v.holds(f'an object without {n} ({", ".join(p)}) is rejected', And(c, Not(VarIs(r, 0))))
