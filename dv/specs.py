"""Property contracts: each is a functional specification of a public entry point of the crate, checked against the code's symbolic value."""
from terms import *
from mir import strip
from sym import Unsupported
from check import V
import prove

K = U('K'); T_ = U('T')
U32 = INT('u32')
EE = ADT('errors::ElinorError')
OF = ADT('ordered_float::OrderedFloat', F64)

# ---------------------------------------------------------------- data access
class L:
    """layout helpers: everything is looked up by type, not by private field names or positions"""
    def __init__(self, v):
        self.v = v; self.c = v.crate
    def adt(self, suffix):
        a = self.c.adt(suffix)
        if a is None: raise Unsupported(f'type {suffix} not found')
        return a
    def fieldno(self, path, name, variant=0):
        for i, (n, t) in enumerate(self.adt(path)['variants'][variant]['fields']):
            if n == name: return i
        raise Unsupported(f'field {path}.{name} not found')
    def variant(self, path, name):
        for i, v in enumerate(self.adt(path)['variants']):
            if v['name'] == name: return i
        raise Unsupported(f'variant {path}::{name} not found')
    def builder(self, m):
        """the builder value whose (only) map is m"""
        a = self.adt('relevance::RelevanceStoreBuilder')
        fs = a['variants'][0]['fields']
        if len(fs) != 1: raise Unsupported('builder layout')
        return Con(('relevance::RelevanceStoreBuilder', 0), (m,), ADT('relevance::RelevanceStoreBuilder', K, m.sort[2][2]))
    def doc(self, r): return Fld(r, 0, self.fieldno('relevance::Relevance', 'doc_id'), K)
    def score(self, r, s): return Fld(r, 0, self.fieldno('relevance::Relevance', 'score'), s)
    def rel(self, d, s):
        x = [None, None]
        x[self.fieldno('relevance::Relevance', 'doc_id')] = d; x[self.fieldno('relevance::Relevance', 'score')] = s
        return Con(('relevance::Relevance', 0), tuple(x), ADT('relevance::Relevance', K, s.sort))
    def rec(self, q, d, s):
        x = [None] * 3
        for n, y in (('query_id', q), ('doc_id', d), ('score', s)): x[self.fieldno('relevance::Record', n)] = y
        return Con(('relevance::Record', 0), tuple(x), ADT('relevance::Record', K, s.sort))
    def err(self, name): return self.variant('errors::ElinorError', name)
    def metric(self, name, *a):
        return Con(('metrics::Metric', self.variant('metrics::Metric', name)), a, ADT('metrics::Metric'))

BUILD = 'relevance::RelevanceStoreBuilder::<K, T>::build'
def ranking(l, m):
    """documents of the score map m by descending score, ties by ascending document id"""
    vs = m.sort[2]
    ent = MkSeq(MLen(m), lambda i: l.rel(KeyAt(m, i), MGet(m, KeyAt(m, i))))
    def before(a, b):
        sa, sb = l.score(a, vs), l.score(b, vs)
        return Ite(Eq(sa, sb), OLt(l.doc(a), l.doc(b)), OLt(sb, sa))
    return SortBy(ent, before)

# ---------------------------------------------------------------- metric formulas
class M:
    def __init__(self, l, T, P, k):
        """T: judged scores of the query, P: its predicted scores"""
        self.l = l; self.T = T; self.k = k
        self.rank = ranking(l, P)
        self.ideal = ranking(l, T)
        self.n = Len(self.rank)
        self.kk = Ite(Eq(k, ZERO), self.n, k)
        self.top = imin(self.n, self.kk)
    def doc(self, i): return self.l.doc(At(self.rank, i))
    def relevant(self, d): return And(MHas(self.T, d), Le(ONE, MGet(self.T, d)))
    def judged(self, d): return MHas(self.T, d)
    def R(self): return ISum(MLen(self.T), lambda i: Ite(Le(ONE, MGet(self.T, KeyAt(self.T, i))), ONE, ZERO))
    def hits_at(self, n): return ISum(n, lambda i: Ite(self.relevant(self.doc(i)), ONE, ZERO))
    def hits(self): return self.hits_at(self.top)
    def Hits(self): return I2F(self.hits())
    def Success(self): return Ite(Lt(ZERO, self.hits()), FC(1), FC(0))
    def Precision(self): return Ite(Eq(self.kk, ZERO), FC(0), FDiv(self.Hits(), I2F(self.kk)))
    def Recall(self):
        return Ite(Eq(self.R(), ZERO), FC(0), FDiv(self.Hits(), I2F(self.R())))
    def F1(self):
        p, r = self.Precision(), self.Recall()
        return Ite(And(FCmp('feq', p, FC(0)), FCmp('feq', r, FC(0))), FC(0), FDiv(FMul(FC(2), FMul(p, r)), FAdd(p, r)))
    def RPrecision(self):
        R = self.R()
        return Ite(Eq(R, ZERO), FC(0), FDiv(I2F(self.hits_at(imin(self.n, R))), I2F(R)))
    def AP(self):
        R = self.R()
        s = FSum(self.top, lambda i: Ite(self.relevant(self.doc(i)), FDiv(I2F(self.hits_at(iadd(i, ONE))), I2F(iadd(i, ONE))), FC(0)))
        return Ite(Or(Eq(R, ZERO), Eq(self.n, ZERO)), FC(0), FDiv(s, I2F(R)))
    def RR(self):
        r = First(self.top, lambda i: self.relevant(self.doc(i)))
        return Ite(Lt(r, self.top), FDiv(FC(1), I2F(iadd(r, ONE))), FC(0))
    def Bpref(self):
        R = self.R(); N = isub(MLen(self.T), R)
        def nr(i): return ISum(i, lambda j: Ite(And(self.judged(self.doc(j)), Not(self.relevant(self.doc(j)))), ONE, ZERO))
        def c(i):
            return Ite(self.relevant(self.doc(i)),
                       Ite(Eq(nr(i), ZERO), FC(1), FSub(FC(1), FDiv(I2F(imin(R, nr(i))), I2F(imin(R, N))))), FC(0))
        return Ite(Eq(R, ZERO), FC(0), FDiv(FSum(self.n, c), I2F(R)))
    def gain(self, s, burges): return FSub(FOp('fpowi', FC(2), s), FC(1)) if burges else I2F(s)
    def disc(self, i): return FUn('log2', I2F(iadd(i, I(2))))
    def DCG(self, burges=False):
        return FSum(self.top, lambda i: Ite(self.judged(self.doc(i)), FDiv(self.gain(MGet(self.T, self.doc(i)), burges), self.disc(i)), FC(0)))
    def IDCG(self, burges=False):
        n = MLen(self.T); kk = Ite(Eq(self.k, ZERO), n, self.k)
        return FSum(imin(n, kk), lambda i: FDiv(self.gain(self.l.score(At(self.ideal, i), self.T.sort[2]), burges), self.disc(i)))
    def NDCG(self, burges=False):
        i = self.IDCG(burges)
        return Ite(FCmp('feq', i, FC(0)), FC(1), FDiv(self.DCG(burges), i))
    def DCGBurges(self): return self.DCG(True)
    def NDCGBurges(self): return self.NDCG(True)

METRICS = {'Hits': 1, 'Success': 1, 'Precision': 1, 'Recall': 1, 'F1': 1, 'AP': 1, 'RR': 1, 'DCG': 1, 'NDCG': 1, 'DCGBurges': 1, 'NDCGBurges': 1, 'RPrecision': 0, 'Bpref': 0}

def stores(v, l, burges=False):
    """arbitrary built stores: the builders' contents are arbitrary maps in which every query has a document (an invariant of the builder, proved in C12)"""
    ts = INT('score10') if burges else U32
    bt = sym('trues', MAP(K, MAP(K, ts))); bp = sym('preds', MAP(K, MAP(K, OF)))
    tr, c1 = v.exec(BUILD, [l.builder(bt)], inhabited(bt), tyenv={'K': ('param', 'K'), 'T': ('int', 'u32')})
    pr, c2 = v.exec(BUILD, [l.builder(bp)], inhabited(bp), tyenv={'K': ('param', 'K'), 'T': ('adt', 'ordered_float::OrderedFloat', (('float', 'f64'),))})
    return bt, bp, tr, pr

def inhabited(*bs): return [All(MLen(b), lambda i: Le(ONE, MLen(MGet(b, KeyAt(b, i))))) for b in bs]
def metric_property(names):
    def run(v):
        l = L(v)
        k = sym('k', USIZE)
        for name in names:
            burges = 'Burges' in name
            bt, bp, tr, pr = stores(v, l, burges)
            m = l.metric(name, *([k] if METRICS[name] else []))
            res, rc = v.exec('metrics::compute_metric', [tr, pr, m], inhabited(bt, bp), label=f'{name}')
            v.holds(f'{name}: returns normally', rc, kind='termination')
            check_scores(v, l, name, res, bt, bp, k)
    return run
def all_judged(bt, bp): return All(MLen(bp), lambda i: MHas(bt, KeyAt(bp, i)))
def check_scores(v, l, name, res, bt, bp, k):
    ok = all_judged(bt, bp)
    q = sym('q', K)
    pay = Fld(res, 0, 0, MAP(K, F64))
    pay = prove.norm_assume(pay, ok) if hasattr(prove, 'norm_assume') else pay
    code = MGet(pay, q)
    H = [ok, MHas(bp, q), MHas(bt, q), Le(ONE, MLen(MGet(bp, q))), Le(ONE, MLen(MGet(bt, q)))]
    m = M(l, MGet(bt, q), MGet(bp, q), k)
    spec = getattr(m, name)()
    v.holds(f'{name}: scored when every predicted query is judged', VarIs(res, 0), [ok])
    v.equal(f'{name}: score of every evaluated query equals its definition', code, spec, H)
    v.defined(f'{name}: the computed score is a number', code, H)


# ---------------------------------------------------------------- C09 / C11
def run_C09(v):
    l = L(v)
    k = sym('k', USIZE)
    missing = l.err('MissingEntry')
    for name in METRICS:
        burges = 'Burges' in name
        bt, bp, tr, pr = stores(v, l, burges)
        m = l.metric(name, *([k] if METRICS[name] else []))
        res, rc = v.exec('metrics::compute_metric', [tr, pr, m], inhabited(bt, bp), label=name)
        ok = all_judged(bt, bp)
        v.holds(f'{name}: returns normally', rc, kind='termination')
        v.holds(f'{name}: a predicted query without judgments is rejected', VarIs(res, 1), [Not(ok)])
        v.holds(f'{name}: the rejection is MissingEntry', VarIs(Fld(res, 1, 0, ADT('errors::ElinorError')), missing), [Not(ok)])
        q = sym('q', K)
        pay = Fld(res, 0, 0, MAP(K, F64))
        v.equal(f'{name}: exactly the predicted queries are scored', MHas(pay, q), MHas(bp, q), [ok])
        check_scores(v, l, name, res, bt, bp, k)

def run_C11(v):
    l = L(v)
    tr = sym('tr', ADT('relevance::RelevanceStore', K, U32)); pr = sym('pr', ADT('relevance::RelevanceStore', K, OF)); m = sym('metric', ADT('metrics::Metric'))
    calls = []
    def cm(ex, body, env, args, pc, st):
        a = [ex.load(st, x) if hasattr(ex, 'load') and x.sort == PTR else x for x in args]
        calls.append(a)
        return sym('scored', ADT(RES, MAP(K, F64), ADT('errors::ElinorError')))
    scored = sym('scored', ADT(RES, MAP(K, F64), ADT('errors::ElinorError')))
    S = Fld(scored, 0, 0, MAP(K, F64))
    res, rc = v.exec('evaluate', [tr, pr, m], hyps=[Lt(ZERO, MLen(S))], contracts={'metrics::compute_metric': cm})
    if len(calls) != 1: raise Unsupported('evaluate does not call compute_metric exactly once')
    for nm, a, b in zip(('judgments', 'rankings', 'metric'), calls[0], (tr, pr, m)): v.equal(f'evaluate scores the given {nm}', a, b)
    H = [VarIs(scored, 0), Lt(ZERO, MLen(S))]
    v.holds('evaluate returns normally', rc, H, kind='termination')
    v.holds('evaluate succeeds exactly when scoring does', Eq(VarIs(res, 0), VarIs(scored, 0)), [Lt(ZERO, MLen(S))])
    v.holds('the scoring error is passed on', Eq(Fld(res, 1, 0, ADT('errors::ElinorError')), Fld(scored, 1, 0, ADT('errors::ElinorError'))), [VarIs(scored, 1)])
    ev = Fld(res, 0, 0, ADT('Evaluation', K))
    n = I2F(MLen(S))
    mean = FDiv(FSum(MLen(S), lambda i: MGet(S, KeyAt(S, i))), n)
    def sq(i):
        d = FSub(MGet(S, KeyAt(S, i)), mean); return FMul(d, d)
    var = FDiv(FSum(MLen(S), sq), n)
    for acc, spec in (('metric', m), ('scores', S), ('mean', mean), ('variance', var), ('std_dev', FOp('fsqrt', var))):
        r, c = v.exec(f'Evaluation::{acc}', [ev], hyps=H)
        v.holds(f'Evaluation::{acc} returns', c, H, kind='termination')
        v.equal(f'Evaluation::{acc}', r, spec, H)
        if r.sort == F64: v.defined(f'Evaluation::{acc} is a number', r, H)

# ---------------------------------------------------------------- stores
STORE = 'relevance::RelevanceStore::'
def tye(t): return {'K': ('param', 'K'), 'T': t}
TP = ('param', 'T')
def build(v, l, m, tyenv=None):
    r, c = v.exec(BUILD, [l.builder(m)], tyenv=tyenv or tye(TP))
    return r
def run_C13(v):
    l = L(v)
    b = sym('b', MAP(K, MAP(K, T_))); q = sym('q', K)
    st, c = v.exec(BUILD, [l.builder(b)], tyenv=tye(TP))
    v.holds('build returns normally', c, kind='termination')
    r, c = v.exec(STORE + 'get_sorted', [st, q], tyenv=tye(TP))
    v.holds('get_sorted returns normally', c, kind='termination')
    v.equal('get_sorted is the ranking of the query by score, then document id', r, Ite(MHas(b, q), Some(ranking(l, MGet(b, q))), NoneT()), [])
    strict_total(v, l)
def strict_total(v, l):
    """the comparator of the specification is a strict total order on the documents of one query (distinct ids): the order is unique"""
    x, y, z = (sym(n, ADT('relevance::Relevance', K, T_)) for n in 'xyz')
    def before(a, b):
        sa, sb = l.score(a, T_), l.score(b, T_)
        return Ite(Eq(sa, sb), OLt(l.doc(a), l.doc(b)), OLt(sb, sa))
    v.holds('the ranking order is irreflexive', Not(before(x, x)))
    v.holds('the ranking order is transitive', Implies(And(before(x, y), before(y, z)), before(x, z)))
    v.holds('two documents with distinct ids are always ordered', Implies(Not(Eq(l.doc(x), l.doc(y))), Or(before(x, y), before(y, x))))

def run_C14(v):
    l = L(v)
    b = sym('b', MAP(K, MAP(K, T_))); q = sym('q', K); d = sym('d', K)
    st, c = v.exec(BUILD, [l.builder(b)], tyenv=tye(TP))
    def get(f, *a):
        r, c = v.exec(STORE + f, [st] + list(a), tyenv=tye(TP))
        v.holds(f'{f} returns normally', c, kind='termination')
        return r
    m = MGet(b, q)
    v.equal('get_score looks up the query, then the document', get('get_score', q, d), Ite(And(MHas(b, q), MHas(m, d)), Some(MGet(m, d)), NoneT()))
    v.equal('get_map is the map of the query', get('get_map', q), Ite(MHas(b, q), Some(m), NoneT()))
    s = get('get_sorted', q)
    v.equal('get_sorted is the ranking of the same map', s, Ite(MHas(b, q), Some(ranking(l, m)), NoneT()))
    v.equal('the sorted list has as many entries as the map', Len(Fld(s, 1, 0, SEQ(ADT('relevance::Relevance', K, T_)))), MLen(m), [MHas(b, q)])
    v.equal('n_queries counts the queries', get('n_queries'), MLen(b))
    v.equal('n_docs counts the (query, document) pairs', get('n_docs'), ISum(MLen(b), lambda i: MLen(MGet(b, KeyAt(b, i)))))
    it = get('query_ids')
    seq = it.args[0] if it.op == 'con' and it.args and it.args[0].sort[0] == 'Seq' else None
    if seq is None: raise Unsupported('query_ids iterator')
    v.equal('query_ids lists exactly the queries, in ascending order', seq, MkSeq(MLen(b), lambda i: KeyAt(b, i)))
    v.holds('query_ids starts at the first query', Eq(it.args[1], ZERO))

def fold_spec(n, q, d, s, vs, K=K):
    """the builder's map after the first n records (q, d, s are functions of the index); duplicates change nothing"""
    def step(m, i):
        inner = Ite(MHas(m, q(i)), MGet(m, q(i)), MEmpty(K, vs))
        return Ite(And(MHas(m, q(i)), MHas(MGet(m, q(i)), d(i))), m, MIns(m, q(i), MIns(inner, d(i), s(i))))
    return Iter(n, MEmpty(K, MAP(K, vs)), step)
def dup_at(i, q, d, vs, s, K=K):
    m = fold_spec(i, q, d, s, vs, K)
    return And(MHas(m, q(i)), MHas(MGet(m, q(i)), d(i)))
def fold_lemma(v, q, d, s, vs, what='records', K=K):
    """induction over the fold: after i records the map holds exactly the first occurrence of every (query, document) pair"""
    i = fresh('i', IDX); st = fresh('st', MAP(K, MAP(K, vs)))
    Q = fresh('Q', K); D = fresh('D', K)
    def F(n, a, b): return First(n, lambda j: And(Eq(q(j), a), Eq(d(j), b)))
    def FQ(n, a): return First(n, lambda j: Eq(q(j), a))
    def inv(n, m, a, b):
        f = F(n, a, b); has = And(MHas(m, a), MHas(MGet(m, a), b)) if MHas(m, a) is not FALSE else FALSE
        if MHas(m, a) is FALSE: return And(Eq(FALSE, Lt(FQ(n, a), n)), Eq(FALSE, Lt(f, n)))
        return And(Eq(MHas(m, a), Lt(FQ(n, a), n)), Implies(MHas(m, a), Lt(ZERO, MLen(MGet(m, a)))),
                   Eq(has, Lt(f, n)), Implies(has, Eq(MGet(MGet(m, a), b), s(f))))
    z = MEmpty(K, MAP(K, vs))
    v.holds(f'{what}: fold invariant holds initially', inv(ZERO, z, Q, D), kind='invariant')
    H = [Le(ZERO, i), inv(i, st, Q, D), inv(i, st, q(i), d(i)), inv(i, st, Q, d(i)), inv(i, st, q(i), D)]
    body = fold_spec(iadd(i, I(2)), q, d, s, vs, K)
    nxt = inst(body.args[2], st, i)
    # First(i+1, p) unfolds to First(i, p) by definition
    for nm, g in zip(('queries', 'no query without documents', 'documents', 'scores'), (
            lambda n, m: Eq(MHas(m, Q), Lt(FQ(n, Q), n)),
            lambda n, m: Implies(MHas(m, Q), Lt(ZERO, MLen(MGet(m, Q)))),
            lambda n, m: Eq(And(MHas(m, Q), MHas(MGet(m, Q), D)), Lt(F(n, Q, D), n)),
            lambda n, m: Implies(And(MHas(m, Q), MHas(MGet(m, Q), D)), Eq(MGet(MGet(m, Q), D), s(F(n, Q, D)))))):
        v.holds(f'{what}: fold invariant preserved ({nm})', g(iadd(i, ONE), nxt), H, kind='invariant')

def run_C12(v):
    l = L(v)
    # one addition
    b = sym('b', MAP(K, MAP(K, T_))); q = sym('q', K); d = sym('d', K); s = sym('s', T_)
    res, c, (b2,) = v.exec('relevance::RelevanceStoreBuilder::add_record', [l.builder(b), q, d, s], tyenv=tye(TP), muts={0})
    v.holds('add_record returns normally', c, kind='termination')
    dup = And(MHas(b, q), MHas(MGet(b, q), d))
    v.equal('add_record fails exactly for a pair that is already present', VarIs(res, 1), dup)
    v.holds('the failure is DuplicateEntry', VarIs(Fld(res, 1, 0, ADT('errors::ElinorError')), l.err('DuplicateEntry')), [dup])
    m2 = Fld(b2, 0, 0, b.sort)
    q2 = sym('q2', K); d2 = sym('d2', K)
    same = And(Eq(q2, q), Eq(d2, d))
    old = And(MHas(b, q2), MHas(MGet(b, q2), d2)); new = And(MHas(m2, q2), MHas(MGet(m2, q2), d2))
    v.equal('after an addition exactly the old pairs and the new one are present', new, Or(old, same))
    v.equal('other scores are unchanged', MGet(MGet(m2, q2), d2), MGet(MGet(b, q2), d2), [old])
    v.equal('the new score is stored', MGet(MGet(m2, q), d), s, [Not(dup)])
    v.equal('a rejected addition changes nothing', m2, b, [dup])
    v.equal('no query appears without a document', MHas(m2, q2), Or(MHas(b, q2), Eq(q2, q)))
    some = lambda m, q: Implies(MHas(m, q), Le(ONE, MLen(MGet(m, q))))
    v.holds('every query of a builder has a document', some(m2, q2), [some(b, q2), some(b, q)])
    e, c = v.exec('relevance::RelevanceStoreBuilder::new', [], tyenv=tye(TP))
    v.equal('a new builder is empty', MLen(Fld(e, 0, 0, b.sort)), ZERO)
    e, c = v.exec('<relevance::RelevanceStoreBuilder<K, T> as core::default::Default>::default', [], tyenv=tye(TP))
    v.equal('the default builder is empty', MLen(Fld(e, 0, 0, b.sort)), ZERO)
    # lookups in the built store
    st, c = v.exec(BUILD, [l.builder(b)], tyenv=tye(TP))
    r, c = v.exec(STORE + 'get_score', [st, q, d], tyenv=tye(TP))
    v.equal('the built store holds exactly the builder\'s records', r, Ite(dup, Some(MGet(MGet(b, q), d)), NoneT()))
    # from_records
    recs = sym('recs', SEQ(ADT('relevance::Record', K, T_)))
    from_records(v, l, recs)

def recfields(l, recs, vs=T_):
    f = {n: l.fieldno('relevance::Record', n) for n in ('query_id', 'doc_id', 'score')}
    return (lambda i: Fld(At(recs, i), 0, f['query_id'], K)), (lambda i: Fld(At(recs, i), 0, f['doc_id'], K)), (lambda i: Fld(At(recs, i), 0, f['score'], vs))

def from_records(v, l, recs):
    q, d, s = recfields(l, recs)
    n = Len(recs)
    res, c = v.exec(STORE + 'from_records', [recs], tyenv={'K': ('param', 'K'), 'T': TP, 'I': ('param', 'I')})
    v.holds('from_records returns normally', c, kind='termination')
    fold_result(v, l, 'from_records', res, n, q, d, s, T_, lambda i: FALSE, None)

def fold_result(v, l, what, res, n, q, d, s, vs, malformed, merr, K=K, tyenv=None):
    """res is Err at the first malformed (merr) or duplicated (DuplicateEntry) item, otherwise the store built from all items"""
    fold_lemma(v, q, d, s, vs, what, K)
    bad = First(n, lambda i: Or(malformed(i), dup_at(i, q, d, vs, s, K)))
    v.equal(f'{what}: fails exactly when an item is malformed or repeats a pair', VarIs(res, 1), Lt(bad, n))
    ee = Fld(res, 1, 0, ADT('errors::ElinorError'))
    if merr is not None:
        v.equal(f'{what}: the first offender is reported as malformed exactly when it is', VarIs(ee, merr), malformed(bad), [Lt(bad, n)])
    v.equal(f'{what}: the first offender is reported as DuplicateEntry exactly when it is well-formed', VarIs(ee, l.err('DuplicateEntry')), Not(malformed(bad)), [Lt(bad, n)])
    final = fold_spec(n, q, d, s, vs, K)
    good = [Not(Lt(bad, n))]
    store = Fld(res, 0, 0, ADT('relevance::RelevanceStore', K, vs))
    b = sym('b?', MAP(K, MAP(K, vs)))
    spec = subst(build(v, l, b, tyenv), {b: final})
    v.equal(f'{what}: the store is built from exactly the items', store, spec, good)

# ---------------------------------------------------------------- C15
def run_C15(v):
    l = L(v)
    b = sym('b', MAP(K, MAP(K, T_)))
    st, c = v.exec(BUILD, [l.builder(b)], tyenv=tye(TP))
    RS = ADT('relevance::Relevance', K, T_)
    def part(i):
        q = KeyAt(b, i); r = ranking(l, MGet(b, q))
        return MkSeq(Len(r), lambda j: l.rec(q, l.doc(At(r, j)), l.score(At(r, j), T_)))
    E = Flat(MLen(b), part)
    for f in ('records', 'into_records'):
        r, c = v.exec(STORE + f, [st], tyenv=tye(TP))
        v.holds(f'{f} returns normally', c, kind='termination')
        v.equal(f'{f} exports query by query, in ranking order', r, E)
    # the exported pairs are distinct, and they are exactly the store's records. Theory of concatenation and of permutations:
    #   index x of flat(n, body) <-> (outer o, inner k), 0 <= o < n, 0 <= k < len(body(o)), lexicographically increasing; sidx is a bijection
    o1, o2, k1, k2 = (sym(n, IDX) for n in ('o1', 'o2', 'k1', 'k2'))
    def rng_(o, k): return [Le(ZERO, o), Lt(o, MLen(b)), Le(ZERO, k), Lt(k, Len(part(o)))]
    def rec(o, k): return At(part(o), k)
    def q_(r): return Fld(r, 0, l.fieldno('relevance::Record', 'query_id'), K)
    def d_(r): return Fld(r, 0, l.fieldno('relevance::Record', 'doc_id'), K)
    def s_(r): return Fld(r, 0, l.fieldno('relevance::Record', 'score'), T_)
    def same(x, y): return And(Eq(q_(x), q_(y)), Eq(d_(x), d_(y)))
    v.holds('records of different queries have different pairs', Not(same(rec(o1, k1), rec(o2, k2))), rng_(o1, k1) + rng_(o2, k2) + [Lt(o1, o2)])
    srt = prove.norm(ranking(l, MGet(b, KeyAt(b, o1))))
    inj = Not(Eq(prove.sidx(srt, k1), prove.sidx(srt, k2)))
    v.holds('records of one query have different documents', Not(same(rec(o1, k1), rec(o1, k2))), rng_(o1, k1) + rng_(o1, k2) + [Lt(k1, k2), inj])
    v.holds('every exported record is in the store with its score', And(MHas(b, q_(rec(o1, k1))), MHas(MGet(b, q_(rec(o1, k1))), d_(rec(o1, k1))), Eq(MGet(MGet(b, q_(rec(o1, k1))), d_(rec(o1, k1))), s_(rec(o1, k1)))), rng_(o1, k1))
    q, d = sym('q', K), sym('d', K)
    o = MIdx(b, q); m = MGet(b, KeyAt(b, o)); srt2 = prove.norm(ranking(l, m)); k = sym('k', IDX)
    pos = Eq(prove.sidx(srt2, k), MIdx(m, d))
    v.holds('every record of the store is exported', And(Eq(q_(rec(o, k)), q), Eq(d_(rec(o, k)), d), Eq(s_(rec(o, k)), MGet(MGet(b, q), d))),
            [MHas(b, q), MHas(MGet(b, q), d), Eq(KeyAt(b, o), q), Le(ZERO, k), Lt(k, MLen(m)), pos])
    # rebuilding: contract of from_records (as in C12)
    recs = sym('recs', SEQ(ADT('relevance::Record', K, T_)))
    from_records(v, l, recs)

# ---------------------------------------------------------------- C16
METRIC_NAMES = [('hits', 'Hits', 1), ('success', 'Success', 1), ('precision', 'Precision', 1), ('recall', 'Recall', 1), ('f1', 'F1', 1), ('r_precision', 'RPrecision', 0), ('ap', 'AP', 1),
    ('rr', 'RR', 1), ('bpref', 'Bpref', 0), ('dcg', 'DCG', 1), ('ndcg', 'NDCG', 1), ('dcg_burges', 'DCGBurges', 1), ('ndcg_burges', 'NDCGBurges', 1)]
def run_C16(v):
    from std import strcat
    l = L(v); prove.STRZ[0] = True
    a = l.adt('metrics::Metric')
    if sorted(x['name'] for x in a['variants']) != sorted(x[1] for x in METRIC_NAMES): raise Unsupported('the set of metrics')
    FROM = '<metrics::Metric as core::str::traits::FromStr>::from_str'; FMT = '<metrics::Metric as core::fmt::Display>::fmt'
    RM = ADT(RES, ADT('metrics::Metric'), EE)
    s = sym('s', STR); d = sym('d', STR); k = sym('k', USIZE); dec = UF('dec', STR, k)
    P = lambda x: UF('parse_usize', ADT(RES, USIZE, ANY), x)
    def settle(r, hyps, cands):
        """replace the match, group and parse terms of r by values they provably have under hyps"""
        prove._inprover[0] = True; p = v.prover; r = prove.norm(r); hyps = list(hyps)
        opaque(r)
        for _ in range(12):
            for x in sorted(subterms(r), key=lambda t: t.id):
                if x.loose or x.op != 'uf' or not x.attr.startswith(('re.', 'str.')): continue
                opts = (TRUE, FALSE) if x.sort == BOOL else cands
                lem = lambda y: Eq(x, y) if x.sort != BOOL else x if y is TRUE else Not(x)
                y = None; full = p.timeout
                for ms in (300, full):
                    p.timeout = ms
                    for z in opts:
                        p.cache.clear()
                        if p.check(tuple(hyps), lem(z)): y = z; break
                    if y is not None: break
                p.timeout = full
                if y is not None:
                    hyps.append(lem(y))
                    v.record(f'{x.attr}({show(x.args[1])}) is {show(y)}', 'lemma', True); r = prove.norm(replace(r, {x: y})); break
            else: break
        return r
    def opaque(r):
        for x in subterms(r):
            if x.op == 'slen' or x.op == 'uf' and '::' in str(x.attr): raise Unsupported(f'text operation {x.attr or x.op}')
    con = lambda n, has, x: Con(('core::result::Result', 0), (l.metric(n, *([x] if has else [])),), RM)
    for base, var, has in METRIC_NAMES:
        m = l.metric(var, *([k] if has else []))
        r, c, (out,) = v.exec(FMT, [m, S('')], muts={1})
        v.holds(f'displaying {var} returns normally', And(c, VarIs(r, 0)), kind='termination')
        text = Ite(Eq(k, ZERO), S(base), strcat(S(base + '@'), dec)) if has else S(base)
        v.equal(f'the text of {var} is its base name, with @k when k is not 0', out, text)
        # round trip
        for x, h in ([(S(base), [Eq(k, ZERO)]), (strcat(S(base + '@'), dec), [Not(Eq(k, ZERO))])] if has else [(S(base), [])]):
            r, c = v.exec(FROM, [x], hyps=h)
            v.holds(f'parsing the text {show(x)} returns normally', c, h, kind='termination')
            r = settle(r, h, [S(base), dec])
            v.equal(f'parsing the text {show(x)} gives {var} back', r, con(var, has, k), h)
        # acceptance
        r, c = v.exec(FROM, [S(base)])
        v.equal(f'{base} parses to {var} with k = 0', r, con(var, has, ZERO))
        x = strcat(S(base + '@'), d); h = [UF('str.digits', BOOL, d), VarIs(P(d), 0)]
        r, c = v.exec(FROM, [x], hyps=h)
        r = settle(r, h, [S(base), d])
        v.equal(f'{base}@ and a decimal k that fits parses to {var} with that k', r, con(var, has, Fld(P(d), 0, 0, USIZE)), h)
    # rejection
    r, c = v.exec(FROM, [s])
    opaque(r)
    v.holds('parsing returns normally', c, kind='termination')
    mt = Fld(r, 0, 0, ADT('metrics::Metric'))
    for base, var, has in METRIC_NAMES:
        t = UF('str.after', STR, s, S(base + '@'))
        acc = Or(Eq(s, S(base)), And(UF('str.starts', BOOL, s, S(base + '@')), UF('str.digits', BOOL, t), VarIs(P(t), 0)))
        v.holds(f'only the text {base}, alone or with @ and a decimal k, is accepted as {var}', acc, [VarIs(r, 0), VarIs(mt, l.variant('metrics::Metric', var))])
    v.holds('the rejection is InvalidFormat', VarIs(Fld(r, 1, 0, EE), l.err('InvalidFormat')), [VarIs(r, 1)])

# ---------------------------------------------------------------- C17 / C18
def run_trec(kind):
    def run(v):
        l = L(v)
        lines = sym('lines', SEQ(STR))
        key = 'trec::parse_true_rels_in_trec' if kind == 'qrels' else 'trec::parse_pred_rels_in_trec'
        res, c = v.exec(key, [lines], tyenv={'I': ('param', 'I'), 'S': ('param', 'S')})
        v.holds(f'{kind}: returns normally', c, kind='termination')
        n = Len(lines)
        def cols(i): return UF('split_whitespace', SEQ(STR), At(lines, i))
        need = 4 if kind == 'qrels' else 5
        num = (lambda i: UF('parse_i32', ADT(RES, INT('i32'), ANY), At(cols(i), I(3)))) if kind == 'qrels' else (lambda i: UF('parse_f64', ADT(RES, F64, ANY), At(cols(i), I(4))))
        malformed = lambda i: Or(Lt(Len(cols(i)), I(need)), Not(VarIs(num(i), 0)))
        q = lambda i: At(cols(i), ZERO); d = lambda i: At(cols(i), I(2))
        if kind == 'qrels': s = lambda i: imax(ZERO, Fld(num(i), 0, 0, INT('i32'))); vs = U32
        else: s = lambda i: Con(('ordered_float::OrderedFloat', 0), (Fld(num(i), 0, 0, F64),), OF); vs = OF
        te = {'K': ('adt', 'alloc::string::String', ()), 'T': ('int', 'u32') if kind == 'qrels' else ('adt', 'ordered_float::OrderedFloat', (('float', 'f64'),))}
        fold_result(v, l, kind, res, n, q, d, s, vs, malformed, l.err('InvalidFormat'), STR, te)
    return run

# ---------------------------------------------------------------- C19
ST = 'statistical_tests::'
def key_sets_equal(a, b):
    """two maps have the same keys iff they have equally many and equal keys at every position of the ascending order"""
    return And(Eq(MLen(a), MLen(b)), All(MLen(a), lambda i: Eq(KeyAt(a, i), KeyAt(b, i))))
def run_C19(v):
    l = L(v)
    maps = sym('maps', SEQ(MAP(K, F64))); m = Len(maps); first = At(maps, ZERO)
    res, c = v.exec(ST + 'tuples_from_maps', [maps], tyenv={'K': ('param', 'K'), 'I': ('param', 'I')})
    v.holds('tuples_from_maps returns normally', c, kind='termination')
    ok = And(Lt(ZERO, m), All(m, lambda j: key_sets_equal(first, At(maps, j))))
    v.equal('tuples_from_maps succeeds exactly for at least one map and equal key sets', VarIs(res, 0), ok)
    v.holds('the failure is InvalidArgument', VarIs(Fld(res, 1, 0, EE), l.err('InvalidArgument')), [VarIs(res, 1)])
    spec = MkSeq(MLen(first), lambda i: MkSeq(m, lambda j: MGet(At(maps, j), KeyAt(first, i))))
    v.equal('one tuple per key in ascending order, component j from map j', Fld(res, 0, 0, SEQ(SEQ(F64))), spec, [ok])
    a, b = sym('a', MAP(K, F64)), sym('b', MAP(K, F64))
    # the key-by-key criterion means equality of the key sets
    q = sym('q', K); same = key_sets_equal(a, b)
    v.holds('maps that agree position by position have the same keys', Implies(MHas(a, q), And(MHas(b, q), Eq(MIdx(a, q), MIdx(b, q)))), [same, MHas(a, q), Eq(KeyAt(a, MIdx(a, q)), q), Le(ZERO, MIdx(a, q)), Lt(MIdx(a, q), MLen(a))])
    res, c = v.exec(ST + 'pairs_from_maps', [a, b], tyenv={'K': ('param', 'K')})
    v.holds('pairs_from_maps returns normally', c, kind='termination')
    v.equal('pairs_from_maps succeeds exactly for equal key sets', VarIs(res, 0), same)
    v.holds('the failure of pairs_from_maps is InvalidArgument', VarIs(Fld(res, 1, 0, EE), l.err('InvalidArgument')), [Not(same)])
    pair = ADT('tuple', F64, F64)
    v.equal('the pairs are the tuples of the two maps', Fld(res, 0, 0, SEQ(pair)), MkSeq(MLen(a), lambda i: Con(('tuple', 0), (MGet(a, KeyAt(a, i)), MGet(b, KeyAt(a, i))), pair)), [same])

# ---------------------------------------------------------------- C20 / C21
class T:
    """Student's t statistics of a sequence of pairs"""
    def __init__(self, samples):
        self.n = Len(samples); self.N = I2F(self.n)
        self.d = lambda i: FSub(Fld(At(samples, i), 0, 0, F64), Fld(At(samples, i), 0, 1, F64))
        self.mean = FDiv(FSum(self.n, self.d), self.N)
        self.var = FDiv(FSum(self.n, lambda i: self.sq(self.d(i))), FSub(self.N, FC(1)))
        self.t = FDiv(self.mean, FOp('fsqrt', FDiv(self.var, self.N)))
        self.ok = [Le(I(2), self.n), Not(FCmp('feq', self.var, FC(0)))]
    def sq(self, x):
        e = FSub(x, self.mean); return FMul(e, e)
PAIRS = SEQ(ADT('tuple', F64, F64))
TT = ST + 'student_t_test::StudentTTest'
def t_args(): return {'I': ('param', 'I')}
def nonneg(x): return FCmp('fle', FC(0), x)
def run_C20(v):
    l = L(v)
    s = sym('samples', PAIRS); t = T(s)
    H = t.ok + [nonneg(t.var)]      # a sum of squares over n - 1 > 0
    res, c = v.exec(TT + '::from_paired_samples', [s], tyenv=t_args(), hyps=H)
    v.holds('from_paired_samples returns normally', c, H, kind='termination')
    v.holds('from_paired_samples succeeds', VarIs(res, 0), H)
    me = Fld(res, 0, 0, ADT(TT))
    for acc, spec in (('n_topics', t.n), ('n_samples', t.n), ('mean', t.mean), ('variance', t.var), ('effect_size', FDiv(t.mean, FOp('fsqrt', t.var))), ('t_stat', t.t),
                      ('p_value', FMul(FC(2), FUn('t.sf', FSub(t.N, FC(1)), FOp('fabs', t.t))))):
        r, c = v.exec(f'{TT}::{acc}', [me], hyps=H)
        v.holds(f'{acc} returns normally', c, H, kind='termination')
        v.equal(f'{acc} is the documented statistic of the differences', r, spec, H)
        if r.sort == F64: v.defined(f'{acc} is a number', r, H)

ALPHA_BAD = (('NaN', NAN), ('infinity', PINF), ('-infinity', NINF))
def moe_checks(v, l, key, me, H, moe, ci=None, nan_class=None):
    """margin of error (and interval) of a constructed test at every alpha"""
    al = sym('alpha', F64); inr = And(FCmp('flt', FC(0), al), FCmp('fle', al, FC(1)))
    for f, spec in (('margin_of_error', moe(al)),) + ((('confidence_interval', ci(al)),) if ci else ()):
        res, c = v.exec(f'{key}::{f}', [me, al], hyps=H)
        v.holds(f'{f} returns normally', c, H, kind='termination')
        v.equal(f'{f} succeeds exactly for alpha in (0, 1]', VarIs(res, 0), inr, H)
        v.holds(f'the failure of {f} is InvalidArgument', VarIs(Fld(res, 1, 0, EE), l.err('InvalidArgument')), H + [Not(inr)])
        pay = Fld(res, 0, 0, spec.sort)
        v.equal(f'{f} at alpha', pay, spec, H + [inr])
        for i, x in enumerate(spec.args if spec.op == 'con' else (spec,)):
            v.defined(f'{f} is a number ({i})', Fld(pay, 0, i, F64) if spec.op == 'con' else pay, H + [inr])
        for nm, x in ALPHA_BAD:
            with v.finding(nan_class if nm == 'NaN' else None):
                res, c = v.exec(f'{key}::{f}', [me, x], hyps=H, label=f'{f}({nm})')
                v.holds(f'{f}({nm}) returns normally', c, H, kind='termination')
                v.holds(f'{f}({nm}) is InvalidArgument', And(VarIs(res, 1), VarIs(Fld(res, 1, 0, EE), l.err('InvalidArgument'))), H)

def run_C21(v):
    l = L(v)
    s = sym('samples', PAIRS); t = T(s)
    H0 = [nonneg(t.var)]
    res, c = v.exec(TT + '::from_paired_samples', [s], tyenv=t_args(), hyps=[Or(Lt(t.n, I(2)), nonneg(t.var))])
    v.holds('from_paired_samples returns normally', c, H0, kind='termination')
    short = Lt(t.n, I(2)); flat = FCmp('feq', t.var, FC(0))
    v.holds('fewer than two pairs are rejected', And(VarIs(res, 1), VarIs(Fld(res, 1, 0, EE), l.err('InvalidArgument'))), [short])
    v.holds('differences without variance are Uncomputable', And(VarIs(res, 1), VarIs(Fld(res, 1, 0, EE), l.err('Uncomputable'))), [Not(short), flat])
    v.holds('every other input gives a test', VarIs(res, 0), [Not(short), Not(flat)])
    H = t.ok + H0
    me = Fld(res, 0, 0, ADT(TT))
    me = assume(me, And(*H))
    se = FOp('fsqrt', FDiv(t.var, t.N))
    moe = lambda a: FMul(se, FUn('t.q', FSub(t.N, FC(1)), FSub(FC(1), FDiv(a, FC(2)))))
    pair = ADT('tuple', F64, F64)
    ci = lambda a: Con(('tuple', 0), (FSub(t.mean, moe(a)), FAdd(t.mean, moe(a))), pair)
    moe_checks(v, l, TT, me, H, moe, ci, 'C21-nan-alpha')

# ---------------------------------------------------------------- C22 / C23
BT = ST + 'bootstrap_test::BootstrapTester'
BTR = ADT(ST + 'bootstrap_test::BootstrapTest')
RT = ST + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTester'
RTR = ADT(ST + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTest')
AN = ST + 'two_way_anova_without_replication::TwoWayAnovaWithoutReplication'
TK = ST + 'tukey_hsd_test::TukeyHsdTest'
def U64(): return INT('u64')
def err_is(l, res, name): return And(VarIs(res, 1), VarIs(Fld(res, 1, 0, EE), l.err(name)))
def boot_tester(v, B=None, seed=None):
    t, c = v.exec(BT + '::new', [])
    if B is not None: t, c = v.exec(BT + '::with_n_resamples', [t, B])
    if seed is not None: t, c = v.exec(BT + '::with_random_state', [t, seed])
    return t
def below(st, n): return UF('rng.below', INT('usize'), st, n)
def after_below(st, n): return UF('rng.after_below', U('Rng'), st, n)
class Boot:
    """bootstrap p-value: resample r draws n indices one after the other from the generator seeded with the random state"""
    def __init__(self, t, B, seed):
        self.t = t; n = t.n
        s0 = UF('rng.seed', U('Rng'), seed)
        row = lambda r: Iter(r, s0, lambda st, j: Iter(n, st, lambda s2, i: after_below(s2, n)))
        y = lambda r, i: FSub(t.d(below(Iter(i, row(r), lambda s2, j: after_below(s2, n)), n)), t.mean)
        def tr(r):
            m = FDiv(FSum(n, lambda i: y(r, i)), t.N)
            var = FDiv(FSum(n, lambda i: FMul(FSub(y(r, i), m), FSub(y(r, i), m))), FSub(t.N, FC(1)))
            return Ite(FCmp('feq', var, FC(0)), FC(0), FDiv(m, FOp('fsqrt', FDiv(var, t.N))))
        self.count = ISum(B, lambda r: Ite(FCmp('fle', FOp('fabs', t.t), FOp('fabs', tr(r))), ONE, ZERO))
        self.p = FDiv(I2F(self.count), I2F(B))
def run_C22(v):
    l = L(v)
    s = sym('samples', PAIRS); t = T(s); B0, seed = sym('B', USIZE), sym('seed', U64()); B = imax(ONE, B0)
    tester = boot_tester(v, B0, seed)
    short = Lt(t.n, I(2)); flat = FCmp('feq', t.var, FC(0))
    res, c = v.exec(BT + '::test', [tester, s], tyenv=t_args())
    v.nonneg('the variance of the differences is not negative', t.var, [Not(short)])
    v.holds('test returns normally', c, kind='termination')
    v.holds('fewer than two pairs are InvalidArgument', err_is(l, res, 'InvalidArgument'), [short])
    v.holds('differences without variance are Uncomputable', err_is(l, res, 'Uncomputable'), [Not(short), flat])
    v.holds('every other input gives a test', VarIs(res, 0), [Not(short), Not(flat)])
    H = [Not(short), Not(flat)]
    me = assume(Fld(res, 0, 0, BTR), And(*H))
    b = Boot(t, B, seed)
    for acc, spec in (('p_value', b.p), ('n_resamples', B), ('n_topics', t.n)):
        r, c = v.exec(ST + 'bootstrap_test::BootstrapTest::' + acc, [me], hyps=H)
        v.equal(f'{acc} is as documented', r, spec, H)
        if r.sort == F64:
            v.defined(f'{acc} is a number', r, H)
            v.holds(f'{acc} is not negative', FCmp('fle', FC(0), r), H); v.holds(f'{acc} is at most one', FCmp('fle', r, FC(1)), H)
    # the convenience constructor runs the default tester
    d = boot_tester(v, None, None)
    r1, c = v.exec(ST + 'bootstrap_test::BootstrapTest::from_paired_samples', [s], tyenv=t_args())
    v.holds('from_paired_samples fails like the tester', And(Implies(short, err_is(l, r1, 'InvalidArgument')), Implies(And(Not(short), flat), err_is(l, r1, 'Uncomputable')), Eq(VarIs(r1, 0), And(Not(short), Not(flat)))))
    me = assume(Fld(r1, 0, 0, BTR), And(*H))
    n, c = v.exec(ST + 'bootstrap_test::BootstrapTest::n_resamples', [me], hyps=H)
    st, c = v.exec(ST + 'bootstrap_test::BootstrapTest::random_state', [me], hyps=H)
    p, c = v.exec(ST + 'bootstrap_test::BootstrapTest::p_value', [me], hyps=H)
    v.equal('from_paired_samples: p-value for the reported state and count', p, Boot(t, n, st).p, H)

def reproducible(v, what, mk_tester, test, res_ty, count_acc, args, count, seed, state_acc, hyps, te):
    """outcome with a given state: no hidden input; reported state and count; rerunning with the reported state"""
    t1 = mk_tester(seed)
    r1, c1 = v.exec(test, [t1] + args, tyenv=te, label=what + ' with a state')
    v.holds(f'{what}: returns normally', c1, kind='termination')
    pay1 = assume(Fld(r1, 0, 0, res_ty), And(*hyps))
    allowed = set()
    for x in args + [count, seed]: allowed |= set(x.fv)
    hidden = [x for x in prove.norm(r1).fv if x not in allowed]
    v.record(f'{what}: the outcome depends on the samples, parameters and state only', 'frame', not hidden, 'also depends on ' + ', '.join(show(x) for x in hidden))
    st, c = v.exec(state_acc, [pay1], hyps=hyps)
    v.equal(f'{what}: the given state is reported', st, seed, hyps)
    n, c = v.exec(count_acc, [pay1], hyps=hyps)
    v.equal(f'{what}: the count actually used is reported', n, imax(ONE, count), hyps)
    t0 = mk_tester(None)
    r0, c0 = v.exec(test, [t0] + args, tyenv=te, label=what + ' without a state')
    v.holds(f'{what}: returns normally without a state', c0, kind='termination')
    pay0 = assume(Fld(r0, 0, 0, res_ty), And(*hyps))
    st0, c = v.exec(state_acc, [pay0], hyps=hyps)
    again, c = v.exec(test, [mk_tester(st0)] + args, tyenv=te, label=what + ' again')
    v.equal(f'{what}: rerunning with the reported state gives the same outcome', assume(again, And(*hyps)), assume(r0, And(*hyps)), hyps)

def setters(v, what, new, count, state, test, args, hyps, te):
    """every history of setter calls ends in the tester of the last count and the last state given: the induction over histories, one equation per case"""
    N = lambda t, b: v.exec(count, [t, b], obls=False)[0]
    S = lambda t, s: v.exec(state, [t, s], obls=False)[0]
    b0, b1 = sym('b0', USIZE), sym('b1', USIZE); s0, s1 = sym('s0', U64()), sym('s1', U64())
    for name, x, y in (('the last count counts', N(N(new, b0), b1), N(new, b1)), ('the last state counts', S(S(new, s0), s1), S(new, s1)),
                       ('the count may be set after the state', N(S(new, s0), b0), S(N(new, b0), s0)),
                       ('a count set again after the state', N(S(N(new, b0), s0), b1), S(N(new, b1), s0)), ('a state set again', S(S(N(new, b0), s0), s1), S(N(new, b0), s1))):
        prove._inprover[0] = True
        if v.prover.eq(x, y, ()): v.record(f'{what}: {name}', 'lemma', True); continue
        del v.prover.trace[:]
        x, c = v.exec(test, [x] + args, hyps=hyps, tyenv=te, obls=False); y, c = v.exec(test, [y] + args, hyps=hyps, tyenv=te, obls=False)
        v.equal(f'{what}: {name}', assume(x, And(*hyps)), assume(y, And(*hyps)), hyps)

def run_C23(v):
    l = L(v)
    s = sym('samples', PAIRS); t = T(s); B, seed = sym('B', USIZE), sym('seed', U64())
    P = ST + 'bootstrap_test::BootstrapTest::'
    R = ST + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTest::'; a = Rows(); HR = [Lt(ZERO, a.n)]
    setters(v, 'bootstrap test', boot_tester(v), BT + '::with_n_resamples', BT + '::with_random_state', BT + '::test', [s], t.ok, t_args())
    setters(v, 'randomized Tukey HSD test', rand_tester(v, a.ns), RT + '::with_n_iters', RT + '::with_random_state', RT + '::test', [a.rows], HR, r_args())
    # a tester left alone, the default tester and the convenience constructor run the documented number of times
    dt, c = v.exec('<' + BT + ' as core::default::Default>::default', [])
    for what, res, ty, acc, H in (('a new bootstrap tester', lambda: v.exec(BT + '::test', [boot_tester(v), s], hyps=t.ok, tyenv=t_args(), obls=False)[0], BTR, P + 'n_resamples', t.ok),
                            ('the default bootstrap tester', lambda: v.exec(BT + '::test', [dt, s], hyps=t.ok, tyenv=t_args(), obls=False)[0], BTR, P + 'n_resamples', t.ok),
                            ('BootstrapTest::from_paired_samples', lambda: v.exec(P + 'from_paired_samples', [s], hyps=t.ok, tyenv=t_args(), obls=False)[0], BTR, P + 'n_resamples', t.ok),
                            ('a new randomized Tukey HSD tester', lambda: v.exec(RT + '::test', [rand_tester(v, a.ns), a.rows], hyps=HR, tyenv=r_args(), obls=False)[0], RTR, R + 'n_iters', HR),
                            ('RandomizedTukeyHsdTest::from_tupled_samples', lambda: v.exec(R + 'from_tupled_samples', [a.rows, a.ns], hyps=HR, tyenv=r_args(), obls=False)[0], RTR, R + 'n_iters', HR)):
        r = res()
        v.holds(f'{what} gives a test', VarIs(r, 0), H)
        n, c = v.exec(acc, [assume(Fld(r, 0, 0, ty), And(*H))], hyps=H)
        v.equal(f'{what} runs 10000 times', n, I(10000), H)
    reproducible(v, 'bootstrap test', lambda sd: boot_tester(v, B, sd), BT + '::test', BTR, P + 'n_resamples', [s], B, seed, P + 'random_state', t.ok, t_args())
    reproducible(v, 'randomized Tukey HSD test', lambda sd: rand_tester(v, a.ns, B, sd), RT + '::test', RTR, R + 'n_iters', [a.rows], B, seed, R + 'random_state', HR, r_args())

# ---------------------------------------------------------------- C24 - C28
def r_args(): return {'I': ('param', 'I'), 'S': ('param', 'S')}
class Rows:
    """an arbitrary n x ns matrix: every sequence of records of length ns is of this form"""
    def __init__(self):
        self.n, self.ns = sym('n', IDX), sym('ns', USIZE)
        self.x = lambda j, i: UF('x', F64, j, i)
        self.rows = MkSeq(self.n, lambda j: MkSeq(self.ns, lambda i: self.x(j, i)))
        self.N, self.M = I2F(self.n), I2F(self.ns)
        n, ns, x = self.n, self.ns, self.x
        sq = lambda e: FMul(e, e)
        self.sysmean = lambda i: FDiv(FSum(n, lambda j: x(j, i)), self.N)
        self.topmean = lambda j: FDiv(FSum(ns, lambda i: x(j, i)), self.M)
        self.all = FDiv(FSum(n, lambda j: FSum(ns, lambda i: x(j, i))), FMul(self.N, self.M))
        self.SA = FMul(self.N, FSum(ns, lambda i: sq(FSub(self.sysmean(i), self.all))))
        self.SB = FMul(self.M, FSum(n, lambda j: sq(FSub(self.topmean(j), self.all))))
        self.SE = FSum(n, lambda j: FSum(ns, lambda i: sq(FAdd(FSub(FSub(x(j, i), self.sysmean(i)), self.topmean(j)), self.all))))
        self.dA, self.dB = FSub(self.M, FC(1)), FSub(self.N, FC(1)); self.dE = FMul(self.dA, self.dB)
        self.VA, self.VB, self.VE = FDiv(self.SA, self.dA), FDiv(self.SB, self.dB), FDiv(self.SE, self.dE)
        self.size = [Le(ZERO, self.n), Le(I(2), self.n), Le(I(2), self.ns)]
        self.H = self.size + [FCmp('flt', FC(0), self.VE)]
def anova(v, a):
    res, c = v.exec(AN + '::from_tupled_samples', [a.rows, a.ns], tyenv=r_args(), hyps=a.H)
    v.nonneg('the residual variance is not negative', a.VE, a.size)
    v.holds('from_tupled_samples returns normally', c, a.H, kind='termination')
    v.holds('from_tupled_samples succeeds', VarIs(res, 0), a.H)
    return assume(Fld(res, 0, 0, ADT(AN)), And(*a.H))
def accessors(v, key, me, H, accs):
    for acc, spec in accs:
        r, c = v.exec(f'{key}::{acc}', [me], hyps=H)
        v.holds(f'{acc} returns normally', c, H, kind='termination')
        v.equal(f'{acc} is as documented', r, spec, H)
        if r.sort == F64: v.defined(f'{acc} is a number', r, H)
        elif r.sort[0] == 'Seq':
            i = sym('at', IDX); e = At(r, i)
            if e.sort == F64: v.defined(f'{acc} holds numbers', e, H + [Le(ZERO, i), Lt(i, Len(r))])
def run_C24(v):
    a = Rows(); me = anova(v, a)
    accessors(v, AN, me, a.H, (('n_systems', a.ns), ('n_topics', a.n), ('system_means', MkSeq(a.ns, a.sysmean)), ('topic_means', MkSeq(a.n, a.topmean)),
        ('between_system_variation', a.SA), ('between_topic_variation', a.SB), ('residual_variation', a.SE),
        ('between_system_variance', a.VA), ('between_topic_variance', a.VB), ('residual_variance', a.VE)))
def run_C25(v):
    l = L(v)
    a = Rows(); me = anova(v, a)
    FA, FB = FDiv(a.VA, a.VE), FDiv(a.VB, a.VE)
    accessors(v, AN, me, a.H, (('between_system_f_stat', FA), ('between_topic_f_stat', FB),
        ('between_system_p_value', FUn('F.sf', a.dA, a.dE, FA)), ('between_topic_p_value', FUn('F.sf', a.dB, a.dE, FB))))
    moe_checks(v, l, AN, me, a.H, lambda al: FMul(FOp('fsqrt', FDiv(a.VE, a.N)), FUn('t.q', a.dE, FSub(FC(1), FDiv(al, FC(2))))), None, 'C25-nan-alpha')
def run_C26(v):
    l = L(v)
    rows, ns = sym('rows', SEQ(SEQ(F64))), sym('ns', USIZE); n = Len(rows)
    lens = All(n, lambda j: Eq(Len(At(rows, j)), ns))
    for key, nm in ((AN, 'ANOVA'), (TK, 'Tukey HSD')):
        f = key + '::from_tupled_samples'
        for what, H in (('a record of the wrong length', [Not(lens)]), ('fewer than two records', [lens, Lt(n, I(2))])):
            res, c = v.exec(f, [rows, ns], tyenv=r_args(), hyps=H, label=nm)
            v.holds(f'{nm}: returns normally on {what}', c, H, kind='termination')
            v.holds(f'{nm}: {what} is InvalidArgument', err_is(l, res, 'InvalidArgument'), H)
        a = Rows()
        res, c = v.exec(f, [a.rows, a.ns], tyenv=r_args(), hyps=a.H, label=nm)
        v.holds(f'{nm}: returns normally on usable input', c, a.H, kind='termination')
        v.holds(f'{nm}: usable input gives a test', VarIs(res, 0), a.H)
        with v.finding('C26-one-system'):
            H = [Le(ZERO, a.n), Le(I(2), a.n), Lt(a.ns, I(2))]
            res, c = v.exec(f, [a.rows, a.ns], tyenv=r_args(), hyps=H, label=f'{nm} (fewer than two systems)')
            v.holds(f'{nm}: fewer than two systems is InvalidArgument', err_is(l, res, 'InvalidArgument'), H)
        with v.finding('C26-zero-residual'):
            H = a.size + [FCmp('feq', a.VE, FC(0))]
            res, c = v.exec(f, [a.rows, a.ns], tyenv=r_args(), hyps=H, label=f'{nm} (zero residual)')
            v.holds(f'{nm}: zero residual variation is Uncomputable', err_is(l, res, 'Uncomputable'), H)
    v.nonneg('the residual variance is not negative', a.VE, a.size)
def run_C27(v):
    a = Rows()
    res, c = v.exec(TK + '::from_tupled_samples', [a.rows, a.ns], tyenv=r_args(), hyps=a.H)
    v.holds('from_tupled_samples succeeds', And(c, VarIs(res, 0)), a.H)
    me = assume(Fld(res, 0, 0, ADT(TK)), And(*a.H))
    r, c = v.exec(TK + '::effect_sizes', [me], hyps=a.H)
    v.holds('effect_sizes returns normally', c, a.H, kind='termination')
    es = lambda i, j: Ite(Eq(i, j), FC(0), FDiv(FSub(a.sysmean(i), a.sysmean(j)), FOp('fsqrt', a.VE)))
    v.equal('effect_sizes is the matrix of scaled differences', r, MkSeq(a.ns, lambda i: MkSeq(a.ns, lambda j: es(i, j))), a.H)
    i, j = sym('i', IDX), sym('j', IDX); H = a.H + [Le(ZERO, i), Lt(i, a.ns), Le(ZERO, j), Lt(j, a.ns)]
    e = lambda x, y: At(At(r, x), y)
    v.equal('effect_sizes is antisymmetric', e(j, i), FNeg(e(i, j)), H)
    v.equal('effect_sizes has a zero diagonal', e(i, i), FC(0), H)
    v.defined('effect_sizes holds numbers', e(i, j), H)
    accessors(v, TK, me, a.H, (('n_systems', a.ns), ('n_topics', a.n)))

def rand_tester(v, ns, B=None, seed=None):
    t, c = v.exec(RT + '::new', [ns])
    if B is not None: t, c = v.exec(RT + '::with_n_iters', [t, B])
    if seed is not None: t, c = v.exec(RT + '::with_random_state', [t, seed])
    return t
def rand_p(a, B, seed):
    n, ns = a.n, a.ns
    after = lambda st: UF('rng.after_shuffle', U('Rng'), st, ns)
    row = lambda r: Iter(r, UF('rng.seed', U('Rng'), seed), lambda st, k: Iter(n, st, lambda s2, j: after(s2)))
    perm = lambda r, j: mk('shuffled', (MkSeq(ns, lambda i: a.x(j, i)), Iter(j, row(r), lambda s2, k: after(s2))), None, SEQ(F64))
    mean = lambda r, i: FDiv(FSum(n, lambda j: At(perm(r, j), i)), a.N)
    rng_ = lambda r: FSub(Bind('fsmax', ns, lambda i: mean(r, i)), Bind('fsmin', ns, lambda i: mean(r, i)))
    cnt = lambda i, j: ISum(B, lambda r: Ite(FCmp('fle', FOp('fabs', FSub(a.sysmean(i), a.sysmean(j))), rng_(r)), ONE, ZERO))
    return lambda i, j: Ite(Eq(i, j), FC(1), FDiv(I2F(cnt(i, j)), I2F(B)))
def run_C28(v):
    l = L(v)
    rows, ns = sym('rows', SEQ(SEQ(F64))), sym('ns', USIZE); n = Len(rows)
    B0, seed = sym('B', USIZE), sym('seed', U64()); B = imax(ONE, B0)
    bad = Or(Not(All(n, lambda j: Eq(Len(At(rows, j)), ns))), Eq(n, ZERO))
    res, c = v.exec(RT + '::test', [rand_tester(v, ns, B0, seed), rows], tyenv=r_args(), hyps=[bad])
    v.holds('returns normally on malformed input', c, [bad], kind='termination')
    v.holds('a record of the wrong length or an empty input is InvalidArgument', err_is(l, res, 'InvalidArgument'), [bad])
    res, c = v.exec(ST + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTest::from_tupled_samples', [rows, ns], tyenv=r_args(), hyps=[bad])
    v.holds('from_tupled_samples: a record of the wrong length or an empty input is InvalidArgument', And(c, err_is(l, res, 'InvalidArgument')), [bad])
    a = Rows(); H = [Lt(ZERO, a.n)]
    res, c = v.exec(RT + '::test', [rand_tester(v, a.ns, B0, seed), a.rows], tyenv=r_args(), hyps=H)
    v.holds('returns normally', c, H, kind='termination')
    v.holds('well-formed input gives a test', VarIs(res, 0), H)
    me = assume(Fld(res, 0, 0, RTR), And(*H))
    P = ST + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTest'
    p = rand_p(a, B, seed)
    accessors(v, P, me, H, (('n_systems', a.ns), ('n_topics', a.n), ('n_iters', B), ('p_values', MkSeq(a.ns, lambda i: MkSeq(a.ns, lambda j: p(i, j))))))
    # the convenience constructor: the same matrix for the count and state it reports
    d, c = v.exec(P + '::from_tupled_samples', [a.rows, a.ns], tyenv=r_args(), hyps=H)
    v.holds('from_tupled_samples gives a test', And(c, VarIs(d, 0)), H)
    me2 = assume(Fld(d, 0, 0, RTR), And(*H))
    n2, c = v.exec(P + '::n_iters', [me2], hyps=H); st2, c = v.exec(P + '::random_state', [me2], hyps=H)
    p2 = rand_p(a, n2, st2)
    accessors(v, P, me2, H, (('n_systems', a.ns), ('n_topics', a.n), ('p_values', MkSeq(a.ns, lambda i: MkSeq(a.ns, lambda j: p2(i, j))))))
    r, c = v.exec(P + '::p_values', [me], hyps=H)
    i, j = sym('i', IDX), sym('j', IDX); H2 = H + [Le(ZERO, i), Lt(i, a.ns), Le(ZERO, j), Lt(j, a.ns)]
    e = lambda x, y: At(At(r, x), y)
    v.equal('p_values is symmetric', e(j, i), e(i, j), H2)
    v.equal('p_values has ones on the diagonal', e(i, i), FC(1), H2)
    v.defined('p_values holds numbers', e(i, j), H2)
    v.holds('p_values are not negative', FCmp('fle', FC(0), e(i, j)), H2); v.holds('p_values are at most one', FCmp('fle', e(i, j), FC(1)), H2)

PROPS = {
    'C22': run_C22, 'C23': run_C23, 'C24': run_C24, 'C25': run_C25, 'C26': run_C26, 'C27': run_C27, 'C28': run_C28,
    'C19': run_C19, 'C20': run_C20, 'C21': run_C21,
    'C01': metric_property(['Hits', 'Success']),
    'C02': metric_property(['Precision', 'Recall', 'RPrecision']),
    'C03': metric_property(['F1']),
    'C04': metric_property(['AP']),
    'C05': metric_property(['RR']),
    'C06': metric_property(['Bpref']),
    'C07': metric_property(['DCG', 'DCGBurges']),
    'C09': run_C09, 'C11': run_C11, 'C12': run_C12, 'C13': run_C13, 'C14': run_C14,
    'C15': run_C15, 'C16': run_C16, 'C17': run_trec('qrels'), 'C18': run_trec('runs'),
    'C08': metric_property(['NDCG', 'NDCGBurges']),
}

import ranges      # C10
import cli, serde, compare
PROPS.update({'C29': serde.c29, 'C30': cli.c30, 'C31': cli.c31, 'C32': compare.c32})
