"""C10: ranges of the metrics, as lemmas over their contracts.

The scores equal their definitions (the postconditions of C01-C08, discharged again here on the current code); the ranges of the definitions follow by
  counting:      over distinct documents, a non-negative weight of judged documents sums to at most its total over all judged documents (induction)
  dominance:     the first t gains of any ranking sum to at most the t largest gains (counting above the threshold g(t))
  discounting:   with weights that do not increase, dominance of every prefix sum carries over to the discounted sums (summation by parts, induction)
Each step below is an obligation; the theory of sorting used is that sidx is a bijection of the positions and that the result is in order."""
from terms import *
import prove
from specs import *

le = lambda a, b: FCmp('fle', a, b)
def unit(x): return And(le(FC(0), x), le(x, FC(1)))
def indicator(c): return Ite(c, FC(1), FC(0))

def counting(v):
    """abstract documents D(0..t-1), all distinct, and a weight f of the keys of T"""
    T = sym('T', MAP(K, U32)); t = sym('t', IDX); D = lambda i: UF('D', K, i); f = lambda d: UF('f', F64, d)
    n = MLen(T); key = lambda j: KeyAt(T, j); t1 = iadd(t, ONE)
    new = lambda t, x: All(t, lambda i: Not(Eq(D(i), x)))
    lhs = lambda t: FSum(t, lambda i: Ite(MHas(T, D(i)), f(D(i)), FC(0)))
    seen = lambda t: FSum(n, lambda j: Ite(new(t, key(j)), FC(0), f(key(j))))
    ext = FSum(n, lambda j: Ite(And(new(t, key(j)), Eq(D(t), key(j))), f(key(j)), FC(0)))
    total = FSum(n, lambda j: f(key(j)))
    v.equal('counting: before the first document no key is seen', lhs(ZERO), seen(ZERO), kind='lemma')
    v.equal('counting: a further document adds the key equal to it', seen(t1), FAdd(seen(t), ext), kind='lemma')
    v.equal('counting: a document not seen before adds its weight once', ext, Ite(MHas(T, D(t)), f(D(t)), FC(0)), [new(t, D(t))], kind='lemma')
    v.equal('counting: the induction step', lhs(t1), seen(t1), [Eq(lhs(t), seen(t)), new(t, D(t))], kind='lemma')
    v.holds('counting: the seen keys weigh at most as much as all', le(seen(t), total), [All(n, lambda j: le(FC(0), f(key(j))))], kind='lemma')
    v.equal('counting: when every key is seen the sums agree', seen(t), total, [All(n, lambda j: Not(new(t, key(j))))], kind='lemma')

class R10:
    def __init__(self, v, burges):
        self.v = v; self.l = L(v)
        T, P, k = sym('T', MAP(K, INT('score10') if burges else U32)), sym('P', MAP(K, OF)), sym('k', USIZE)
        self.m = M(self.l, T, P, k); self.T = T; self.b = burges
        self.i, self.j, self.t = sym('i', IDX), sym('j', IDX), sym('t', IDX)
        self.key = lambda j: KeyAt(T, j); self.N = MLen(T)
    def lem(self, name, goal, hyps=()): return self.v.holds(name, goal, list(hyps), kind='lemma')
    def distinct(self, seq, n, what):
        """counting applies to a ranking: its documents are distinct since sidx is injective"""
        srt = prove.norm(seq); doc = lambda i: self.l.doc(At(seq, i)); i, t = self.i, self.t
        self.lem(f'the documents of {what} are distinct', Not(Eq(doc(i), doc(t))), [Le(ZERO, i), Lt(i, t), Lt(t, n), Not(Eq(prove.sidx(srt, i), prove.sidx(srt, t)))])
    def weight(self, f, what, hyps=()): self.lem(f'{what} is not negative', le(FC(0), f(self.key(self.j))), hyps)
    def at_most(self, t, f): return le(FSum(t, lambda i: Ite(MHas(self.T, self.m.doc(i)), f(self.m.doc(i)), FC(0))), FSum(self.N, lambda j: f(self.key(j))))

def rank_metrics(v):
    r = R10(v, False); m, T, t, i, lem = r.m, r.T, r.t, r.i, r.lem
    r.distinct(m.rank, m.n, 'a ranking')
    rel = lambda d: indicator(Le(ONE, MGet(T, d))); non = lambda d: indicator(Not(Le(ONE, MGet(T, d))))
    R = m.R(); N = isub(MLen(T), R)
    hits = lambda t: Le(m.hits_at(t), R)
    inr = [Le(ZERO, t), Le(t, m.n)]
    r.weight(rel, 'the indicator of relevance'); r.weight(non, 'the indicator of judged non-relevance')
    lem('the first t documents hold at most R relevant ones', hits(t), inr + [r.at_most(t, rel)])
    nr = lambda i: ISum(i, lambda j: Ite(And(m.judged(m.doc(j)), Not(m.relevant(m.doc(j)))), ONE, ZERO))
    lem('the first t documents hold at most N non-relevant ones', Le(nr(t), N), inr + [r.at_most(t, non)])
    B = [hits(m.top), hits(m.n), hits(imin(m.n, R))]
    lem('Hits is not negative', le(FC(0), m.Hits()))
    lem('Success is 0 or 1', unit(m.Success())); lem('Precision is between 0 and 1', unit(m.Precision())); lem('RR is between 0 and 1', unit(m.RR()))
    lem('Recall is between 0 and 1', unit(m.Recall()), B); lem('R-Precision is between 0 and 1', unit(m.RPrecision()), B)
    p, q = sym('p', F64), sym('r', F64)
    f1 = Ite(And(FCmp('feq', p, FC(0)), FCmp('feq', q, FC(0))), FC(0), FDiv(FMul(FC(2), FMul(p, q)), FAdd(p, q)))
    lem('F1 of a precision and a recall between 0 and 1 is between 0 and 1', unit(f1), [unit(p), unit(q)])
    s = FSum(m.top, lambda i: Ite(m.relevant(m.doc(i)), FDiv(I2F(m.hits_at(iadd(i, ONE))), I2F(iadd(i, ONE))), FC(0)))
    lem('the precisions at the relevant ranks sum to at most the hits', le(s, I2F(m.hits()))); lem('their sum is not negative', le(FC(0), s))
    lem('AP is between 0 and 1', unit(m.AP()), B + [le(s, I2F(m.hits())), le(FC(0), s)])
    def c(i): return Ite(m.relevant(m.doc(i)), Ite(Eq(nr(i), ZERO), FC(1), FSub(FC(1), FDiv(I2F(imin(R, nr(i))), I2F(imin(R, N))))), FC(0))
    ind = lambda i: indicator(m.relevant(m.doc(i)))
    lem('a Bpref summand is between 0 and the indicator of relevance', And(le(FC(0), c(i)), le(c(i), ind(i))), [Le(ZERO, i), Lt(i, m.n), Le(nr(i), N), Not(Eq(R, ZERO))])
    bs = FSum(m.n, c)
    lem('the Bpref sum is not negative', le(FC(0), bs), [All(m.n, lambda i: le(FC(0), c(i)))])
    lem('the Bpref sum is at most the number of hits', le(bs, I2F(m.hits_at(m.n))), [All(m.n, lambda i: le(c(i), ind(i)))])
    lem('Bpref is between 0 and 1', unit(m.Bpref()), B + [le(FC(0), bs), le(bs, I2F(m.hits_at(m.n)))])

def by_parts(v):
    """abstract gains x (of the ranking) and g (ideal), weights w"""
    t = sym('t', IDX); x, g, w = (lambda i, a=a: UF(a, F64, i) for a in 'xgw'); t1 = iadd(t, ONE)
    S = lambda t: FSum(t, lambda i: FSub(g(i), x(i))); W = lambda t: FSum(t, lambda i: FMul(FSub(g(i), x(i)), w(i)))
    P = lambda t: le(FMul(w(t), S(t)), W(t))
    v.holds('discounting: holds before the first rank', P(ZERO), kind='lemma')
    a, b, c, d, e, u = (sym(n, F64) for n in ('S', 'W', 'g_x', 'w0', 'w1', 'u'))
    v.holds('discounting: the induction step', le(FMul(e, FAdd(a, c)), FAdd(b, FMul(c, d))), [le(FMul(d, a), b), le(e, d), le(FC(0), FAdd(a, c))], kind='lemma')
    v.equal('discounting: S(t + 1) = S(t) + g(t) - x(t)', S(t1), FAdd(S(t), FSub(g(t), x(t))), kind='lemma')
    v.equal('discounting: W(t + 1) = W(t) + (g(t) - x(t)) w(t)', W(t1), FAdd(W(t), FMul(FSub(g(t), x(t)), w(t))), kind='lemma')
    v.holds('discounting: the discounted ideal gains are at least those of the ranking', le(FSum(t, lambda i: FMul(x(i), w(i))), FSum(t, lambda i: FMul(g(i), w(i)))), [P(t), le(FC(0), S(t)), le(FC(0), w(t))], kind='lemma')

def above(v):
    """abstract ideal gains g, in descending order around position t: those above the threshold theta = g(t) are the first t"""
    t, n = sym('t', IDX), sym('n', IDX); th = sym('theta', F64); g = lambda j: UF('g', F64, j)
    ex = lambda a: Ite(le(th, a), FSub(a, th), FC(0))
    E = lambda n: FSum(n, lambda j: ex(g(j))); n1 = iadd(n, ONE)
    first = FSum(t, lambda j: FSub(g(j), th))
    v.equal('dominance: the excess of the first t ideal gains', E(t), first, [All(t, lambda j: le(th, g(j)))], kind='lemma')
    v.equal('dominance: the others have no excess', E(n1), first, [Eq(E(n), first), Le(t, n), le(g(n), th)], kind='lemma')
    x = lambda i: UF('x', F64, i); h = lambda i: UF('j', BOOL, i)
    X = FSum(t, lambda i: Ite(h(i), x(i), FC(0))); O = FSum(t, lambda i: Ite(h(i), ex(x(i)), FC(0)))
    v.holds('dominance: t gains sum to at most t times the threshold plus their excess', le(X, FAdd(O, FMul(th, I2F(t)))), [le(FC(0), th), Le(ZERO, t)], kind='lemma')
    v.holds('dominance: the first t gains of a ranking', le(X, FSum(t, lambda j: g(j))), [le(X, FAdd(O, FMul(th, I2F(t)))), le(O, E(n)), Eq(E(n), first)], kind='lemma')

def gains(v, burges):
    nm = 'Burges ' if burges else ''
    r = R10(v, burges); m, T, t, i, j, lem, N = r.m, r.T, r.t, r.i, r.j, r.lem, r.N
    gain = lambda d: m.gain(MGet(T, d), burges); sc = lambda j: m.l.score(At(m.ideal, j), T.sort[2]); g = lambda j: m.gain(sc(j), burges)
    x = lambda i: Ite(m.judged(m.doc(i)), gain(m.doc(i)), FC(0)); ideal = lambda j: m.l.doc(At(m.ideal, j))
    w = lambda i: FDiv(FC(1), m.disc(i))
    r.distinct(m.rank, m.n, f'a ranking ({nm}gains)'); r.distinct(m.ideal, N, f'the ideal ranking ({nm}gains)')
    srt = prove.norm(m.ideal)
    lem(f'every judged document is in the ideal ranking ({nm}gains)', Not(All(N, lambda k: Not(Eq(ideal(k), r.key(j))))), [Le(ZERO, j), Lt(j, N), Le(ZERO, i), Lt(i, N), Eq(prove.sidx(srt, i), j)])
    v.equal(f'a {nm}gain of the ideal ranking is that of its document', g(j), gain(ideal(j)), [Le(ZERO, j), Lt(j, N)], kind='lemma')
    lem(f'{nm}gains are not negative', le(FC(0), gain(r.key(j))))
    inn = [Le(ZERO, t), Lt(t, N), Le(ZERO, j), Lt(j, N)]
    lem(f'{nm}gains of the ideal ranking do not increase', And(Implies(Le(sc(t), sc(j)), le(g(t), g(j))), Implies(Le(sc(j), sc(t)), le(g(j), g(t)))), inn)
    th = g(t); ex = lambda a: Ite(le(th, a), FSub(a, th), FC(0))
    lem(f'the excess of a {nm}gain is not negative', le(FC(0), ex(gain(r.key(j)))))
    # past the end of the ideal ranking the ideal gain G is 0
    z = sym('z', IDX)
    G = lambda j: Ite(Lt(j, N), g(j), FC(0))
    GS = lambda z: FSum(z, G); total = FSum(N, lambda j: g(j))
    v.equal(f'the sum of {nm}gains within the ideal ranking', GS(z), FSum(z, lambda j: g(j)), [Le(ZERO, z), Le(z, N)], kind='lemma')
    v.equal(f'the sum of {nm}gains past the end of the ideal ranking', GS(iadd(z, ONE)), total, [Le(N, z), Eq(GS(z), total)], kind='lemma')
    lem(f'{nm}discounts do not increase', And(le(w(iadd(i, ONE)), w(i)), le(FC(0), w(i))), [Le(ZERO, i)])
    dcg, idcg = m.DCG(burges), m.IDCG(burges)
    lem(f'{nm}DCG is not negative', le(FC(0), dcg)); lem(f'ideal {nm}DCG is not negative', le(FC(0), idcg))
    top, itop = m.top, imin(N, Ite(Eq(m.k, ZERO), N, m.k))
    dG = FSum(top, lambda i: FMul(G(i), w(i)))
    v.equal(f'{nm}DCG is the discounted sum of the gains of the ranking', dcg, FSum(top, lambda i: FMul(x(i), w(i))), kind='lemma')
    lem(f'a longer ideal {nm}prefix has no smaller DCG', le(FSum(z, lambda i: FMul(g(i), w(i))), FSum(iadd(z, ONE), lambda i: FMul(g(i), w(i)))), [Le(ZERO, z)])
    v.equal(f'the ideal {nm}DCG of a prefix, within the ideal ranking', FSum(z, lambda i: FMul(G(i), w(i))), FSum(z, lambda i: FMul(g(i), w(i))), [Le(ZERO, z), Le(z, N)], kind='lemma')
    v.equal(f'the ideal {nm}DCG past its end', FSum(iadd(z, ONE), lambda i: FMul(G(i), w(i))), FSum(N, lambda i: FMul(g(i), w(i))), [Le(N, z), Eq(FSum(z, lambda i: FMul(G(i), w(i))), FSum(N, lambda i: FMul(g(i), w(i))))], kind='lemma')
    lem(f'the cut-offs of the {nm}DCG and its ideal: no further down, or past the end of the ideal ranking', Or(Le(top, itop), And(Eq(itop, N), Le(N, top))))
    v.equal(f'the ideal {nm}DCG is cut off at its own end', idcg, FSum(itop, lambda i: FMul(g(i), w(i))), kind='lemma')
    A, B, C = (sym(n, F64) for n in 'ABC')
    lem(f'the {nm}DCG is at most the {nm}DCG of the ideal prefix, that at most the ideal {nm}DCG', le(A, C), [le(A, B), le(B, C)])
    lem(f'NDCG {nm}is between 0 and 1', unit(m.NDCG(burges)), [le(dcg, idcg), le(FC(0), dcg), le(FC(0), idcg)])

def run_C10(v):
    metric_property(list(METRICS))(v)
    counting(v); rank_metrics(v); by_parts(v); above(v)
    for b in (False, True): gains(v, b)
PROPS['C10'] = run_C10
