"""Verification context: runs the symbolic executor on /repo's MIR, collects the obligations, discharges them."""
import os, sys, time, json, subprocess, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
from mir import Crate, strip
from sym import Exec, Unsupported, Stateful, Obl
import prove
from prove import Prover

class NotProvable(Exception): pass

class V:
    """one property's verification run"""
    def __init__(self, crates, deadline=None, timeout=2500, known=()):
        self.known = known; self.cls = None
        self.crates = crates
        self.crate = crates.get('elinor')
        self.results = []        # (name, kind, status, detail)
        self.functions = {}      # executed functions
        self.contracts = set()
        self.std = set()
        self.assumptions = []
        self.unsupported = []
        self.prover = Prover(timeout)
        self.prover.deadline = deadline
        self.t0 = time.time()
        self.hypsets = {}
        self.retries = 12
    # ------------------------------------------------------------ execution
    def exec(self, key, args, hyps=(), contracts=None, tyenv=None, muts=None, label=None, obls=True, ghost=None, unroll=0):
        """run a function on symbolic arguments; returns (result, return condition[, final values of &mut arguments])"""
        b = self.crate.body(key)
        if b is None: raise Unsupported(f'function {key} not found')
        prove._inprover[0] = False
        ex = Exec(self.crate, contracts or {})
        ex.ctx = [h for h in hyps if h is not TRUE]; ex.unroll = unroll
        st = dict(ghost or {})
        av = []
        for i, a in enumerate(args):
            if muts and i in muts:
                st[(('arg', i), 0)] = a; av.append(ex.ptr((('arg', i), 0)))
            else: av.append(a)
        r, c = ex.run_body(b, av, tyenv or {g: ('param', g) for g in b.generics}, TRUE, st)
        self.functions[strip(b.key)] = self.functions.get(strip(b.key), 0) + 1
        for kind, k in ex.used_fn:
            if kind == 'contract': self.contracts.add(k)
            else: self.functions[k] = self.functions.get(k, 0) + 1
        self.std |= ex.used_std
        for k in ex.inlined_ext: self.functions['[std] ' + k] = 1
        if obls:
            self.panics = [o for o in ex.obls if o.kind == 'panic']
            for o in ex.obls:
                if obls == 'partial' and o.kind == 'panic': continue
                o.hyps = tuple(hyps) + tuple(o.hyps)
                self.obl(o, label or strip(b.key))
        if ghost is not None: return r, c, st
        if muts: return r, c, [st[(('arg', i), 0)] for i in sorted(muts)]
        return r, c
    # ------------------------------------------------------------ obligations
    def attempt(self, f):
        """a failed attempt in which a solver ran out of time is repeated once with six times the time per query"""
        p = self.prover; n = prove.TOUTS[0]; mark = len(p.trace)
        if f(): return True
        if prove.TOUTS[0] == n or self.retries <= 0 or p.deadline and time.time() > p.deadline: return False
        self.retries -= 1
        t, p.timeout = p.timeout, 6 * p.timeout
        p.cache.clear(); p.eqc.clear(); first = p.trace[mark:]; del p.trace[mark:]
        try: return f()
        finally: p.timeout = t
    def record(self, name, kind, ok, detail=''):
        late = not ok and self.prover.deadline and time.time() > self.prover.deadline      # not refuted: the time ran out
        self.results.append((name, kind, 'discharged' if ok else 'known finding' if self.cls in self.known and self.cls else 'out of time' if late else 'failed', detail))
        return ok
    def obl(self, o, label):
        if o.goal is TRUE: return
        if o.kind in ('overflow',) and self.trivial_range(o.goal): return
        p = self.prover; mark = len(p.trace)
        try: ok = self.attempt(lambda: p.prove(o.hyps, o.goal))
        except RecursionError: ok = False; p.trace.append(('recursion', o.goal, TRUE, ()))
        self.record(f'{label}: {o.kind} at {o.where.split("/rust/library/")[-1]} {o.note}'.strip(), o.kind, ok, '' if ok else self.explain(p.trace[mark:]))
        del p.trace[mark:]
    def trivial_range(self, g): return False
    def explain(self, tr):
        if not tr: return ''
        out = []
        for e in tr[:2]:
            if len(e) == 4: out.append(f'{e[0]}:\n   code: {show(e[1], 12)[:900]}\n   spec: {show(e[2], 12)[:900]}\n   under: {"; ".join(show(h, 8)[:160] for h in e[3][-6:])}')
            else: out.append(str(e))
        return '\n'.join(out)
    def equal(self, name, code, spec, hyps=(), kind='postcondition'):
        self.hypsets.setdefault(frozenset(h for h in hyps if h is not TRUE), name)
        prove._inprover[0] = True
        p = self.prover; mark = len(p.trace)
        try: ok = self.attempt(lambda: p.eq(code, spec, hyps))
        except RecursionError: ok = False; p.trace.append(('recursion', code, spec, ()))
        d = '' if ok else self.explain(p.trace[mark:])
        del p.trace[mark:]
        return self.record(name, kind, ok, d)
    def holds(self, name, goal, hyps=(), kind='postcondition'):
        self.hypsets.setdefault(frozenset(h for h in hyps if h is not TRUE), name)
        prove._inprover[0] = True
        p = self.prover; mark = len(p.trace)
        try: ok = self.attempt(lambda: p.prove(hyps, goal))
        except RecursionError: ok = False
        d = '' if ok else self.explain(p.trace[mark:]) or show(goal, 10)[:800]
        del p.trace[mark:]
        return self.record(name, kind, ok, d)
    def defined(self, name, t, hyps=()):
        """no division by zero, no square root of a negative number, no NaN on any path of t"""
        prove._inprover[0] = True
        try:
            bad = []
            def go(): bad[:] = self.prover.wd(t, hyps); return not bad
            self.attempt(go)
        except RecursionError: bad = [('recursion', t, (), FALSE)]
        d = '\n'.join(f'{w}: {show(x, 8)[:400]}\n   under: {"; ".join(show(h, 8)[:160] for h in H[-6:])}' for w, x, H, g in bad[:2])
        return self.record(name, 'definedness', not bad, d)
    def nonneg(self, name, t, hyps=()):
        """a float term that is a sum of squares, quotients and products of such"""
        prove._inprover[0] = True
        def go(x):
            o = x.op
            if o in ('fadd', 'fdiv', 'fmin', 'fmax') or o == 'fmul' and x.args[0] is not x.args[1]: return all(go(a) for a in x.args)
            if o == 'fsum': return go(x.args[1])
            if o == 'i2f' and not x.loose: return self.prover.prove(hyps, Le(ZERO, x.args[0]))
            if o == 'fsub' and not x.loose: return self.prover.prove(hyps, FCmp('fle', FC(0), x))
            return prove.raw_nonneg(x)
        return self.record(name, 'lemma', go(t), show(t, 8)[:400])
    def vacuity(self):
        """no set of top-level hypotheses is contradictory"""
        bad = []; n = 0
        prove._inprover[0] = True
        for hs, name in self.hypsets.items():
            if not hs: continue
            n += 1; H = sorted(hs, key=lambda h: h.id)
            try:
                if FALSE in hs or self.prover.prove(H, FALSE): bad.append(name)
            except RecursionError: pass
        del self.prover.trace[:]
        return n, bad
    def finding(self, cls):
        """obligations recorded inside belong to a finding that may be listed as known"""
        v = self
        class C:
            def __enter__(s): v.cls = cls
            def __exit__(s, *a): v.cls = None
        return C()
