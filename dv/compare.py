"""Contracts on polars frames, lazy plans and columns, prettytable and the library's tests, and the property of elinor-compare.

A data frame read from a file is UF('csv.df', path, separator); its columns are UF('df.col', df, j).  A plan is the frame it denotes together with the condition
under which collecting it succeeds, so that collecting between the steps makes no difference; a chain of left joins on one key is one term over the list
of joined frames."""
from terms import *
from std import bi, tr, REG, TRAIT, to_seq
from sym import Unsupported, It
from mir import strip
import cli
from cli import Series, SERIES, DF, outcome, run, settle, G_OUT, G_FILE, G_PATH, append, pieces, FAULTS
import std

AV = ADT('polars_core::datatypes::any_value::AnyValue')
LF = 'polars_lazy::frame::LazyFrame'; EXPR = ADT('polars_plan::dsl::expr::Expr')
STRICT = set()          # the conditions that need not hold: 'fs.readable', 'csv.parses', 'ttest.ok', ...; any other is assumed
USZ = INT('usize')
def cond(name, *a): return UF(name, BOOL, *a) if name in STRICT else TRUE
def perr(): return Err(UF('polars.error', ANY))
# ---------------------------------------------------------------- frames and columns
def columns(d):
    if d.op == 'ite': return Ite(d.args[0], columns(d.args[1]), columns(d.args[2]))
    if d.op == 'con' and d.args: return d.args[0]
    return MkSeq(UF('df.ncols', USZ, d), lambda j: UF('df.col', SERIES, d, j))
def height(d): return UF('df.height', USZ, d)
def by_name(d, n):
    """the column of a frame with that name, and whether there is one"""
    if d.op == 'ite':
        (a, ha), (b, hb) = by_name(d.args[1], n), by_name(d.args[2], n)
        return Ite(d.args[0], a, b), Ite(d.args[0], ha, hb)
    if d.op == 'uf' and d.attr == 'df.select':
        e = d.args[1]
        if e.op == 'mkseq' and e.args[0] is ONE:
            x = At(e, ZERO)
            if x.op == 'uf' and x.attr == 'expr.mean' and x.args[0].op == 'uf' and x.args[0].attr == 'expr.exclude' and x.args[0].args[0] is UF('expr.col', EXPR, S('*')):
                ex = x.args[0].args[1]
                s, h = by_name(d.args[0], n)
                return UF('series.mean', SERIES, s), And(h, Not(Any(Len(ex), lambda k: Eq(At(ex, k), n)))) if 'df.has' in STRICT else TRUE
    return UF('df.by_name', SERIES, d, n), cond('df.has', d, n)
def slen(s):
    if s.op == 'ite': return Ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    if s.op == 'con': return Len(s.args[1])
    if s.op == 'uf' and s.attr in ('df.col', 'df.by_name'): return height(s.args[0])
    if s.op == 'uf' and s.attr == 'series.mean': return ONE
    return UF('series.len', USZ, s)
def sname(s):
    if s.op == 'ite': return Ite(s.args[0], sname(s.args[1]), sname(s.args[2]))
    if s.op == 'con': return s.args[0]
    return UF('series.name', STR, s)
def cell(s, i):
    """the cell of a column of floats, and whether it is filled"""
    if s.op == 'ite':
        (a, ha), (b, hb) = cell(s.args[1], i), cell(s.args[2], i)
        return Ite(s.args[0], a, b), Ite(s.args[0], ha, hb)
    if s.op == 'con': return At(s.args[1], i), TRUE
    return UF('series.f64', F64, s, i), cond('series.filled', s, i)
def opt(s, i):
    v, h = cell(s, i)
    return Ite(h, Some(v), NoneT())
def any_value(s, i):
    if s.op == 'ite': return Ite(s.args[0], any_value(s.args[1], i), any_value(s.args[2], i))
    if s.op == 'con':
        x = At(s.args[1], i); so = s.args[1].sort[1]
        v = 2 if so == STR else 12 if so == F64 else 6 if so == INT('u64') else None
        if v is None: raise Unsupported(f'cells of sort {so}')
        return Con((AV[1], v), (x,), AV)
    return UF('series.any', AV, s, i)
def names(c): return c.a(0)
FR = 'polars_core::frame::DataFrame::'
@bi(FR + 'get_columns')
def _(c): return columns(c.a(0))
@bi(FR + 'height')
def _(c):
    d = c.a(0)
    if d.op == 'con':
        x = d.args[0]
        return Ite(Eq(Len(x), ZERO), ZERO, slen(At(x, ZERO)))
    return height(d)
@bi(FR + 'width')
def _(c): return Len(columns(c.a(0)))
@bi(FR + 'column')
def _(c):
    s, h = by_name(c.a(0), c.a(1))
    return Ite(h, Ok(s), perr())
_dfnew = REG[FR + 'new']
@bi(FR + 'new')
def _(c):
    x = c.a(0)
    if not MODE[0]: return _dfnew(c)
    if x.op == 'mkseq' and isc(x.args[0]):
        cs = [At(x, I(i)) for i in range(x.args[0].attr)]
        if all(s.op == 'con' for s in cs):
            ok = And(*[Eq(slen(s), slen(cs[0])) for s in cs[1:]], *[Not(Eq(sname(a), sname(b))) for i, a in enumerate(cs) for b in cs[:i]])
            return Ite(ok, Ok(Con((DF[1], 0), (x,), DF)), perr())
    return Ok(Con((DF[1], 0), (x,), DF))
MODE = [False]
ST = 'polars_core::series::series_trait::SeriesTrait::'
@tr(ST + 'name')
def _(c): return sname(c.a(0))
@tr(ST + 'len')
def _(c): return slen(c.a(0))
@tr(ST + 'get')
def _(c):
    s, i = c.a(0), c.a(1)
    return Ite(Lt(i, slen(s)), Ok(any_value(s, i)), perr())
@bi('polars_core::series::Series::name')
def _(c): return sname(c.a(0))
@bi('polars_core::series::Series::len')
def _(c): return slen(c.a(0))
@bi('polars_core::series::Series::get')
def _(c): return REG_TRAIT_get(c)
def REG_TRAIT_get(c): return TRAIT[ST + 'get'](c)
def mean_opt(s): return Ite(cond('series.has_mean', s), Some(UF('series.mean_of', F64, s)), NoneT())
@bi('polars_core::series::Series::mean')
def _(c): return mean_opt(c.a(0))
@tr(ST + 'mean')
def _(c): return mean_opt(c.a(0))
@bi('polars_core::series::ops::downcast::<impl polars_core::series::Series>::f64')
def _(c):
    s = c.a(0)
    ok = cond('series.numeric', s.args[0]) if s.op == 'uf' and s.attr == 'series.mean' else cond('series.is_f64', s)
    return Ite(ok, Ok(s), perr())
CA = 'polars_core::chunked_array::ChunkedArray::'
@bi(CA + 'first')
def _(c):
    s = c.a(0)
    if s.op == 'uf' and s.attr == 'series.mean': return mean_opt(s.args[0])
    return Ite(Lt(ZERO, slen(s)), opt(s, ZERO), NoneT())
@bi(CA + 'get')
def _(c):
    s, i = c.a(0), c.a(1)
    return Ite(Lt(i, slen(s)), opt(s, i), NoneT())
@bi('polars_core::chunked_array::ops::chunkops::<impl polars_core::chunked_array::ChunkedArray>::len', CA + 'len', 'polars_core::chunked_array::ops::chunkops::<impl polars_core::chunked_array::ChunkedArray<T>>::len')
def _(c): return slen(c.a(0))
@bi(CA + 'iter')
def _(c):
    s = c.a(0); return It(MkSeq(slen(s), lambda i: opt(s, i)))
@bi(CA + 'into_no_null_iter')
def _(c):
    if 'series.filled' in STRICT: raise Unsupported('into_no_null_iter')
    s = c.a(0); return It(MkSeq(slen(s), lambda i: cell(s, i)[0]))
std.ITERABLE[SERIES] = lambda s: MkSeq(slen(s), lambda i: opt(s, i))
# ---------------------------------------------------------------- reading tables
OPTS = 'polars_io::csv::read::options::CsvParseOptions'; ROPTS = 'polars_io::csv::read::options::CsvReadOptions'
_default = TRAIT['core::default::Default::default']
@tr('core::default::Default::default')
def _(c):
    t = c.selfty
    if t is not None and t[0] == 'adt' and t[1] == OPTS: return UF('default', ADT(OPTS))
    if t is not None and t[0] == 'adt' and t[1] == ROPTS: return Con((ROPTS, 0), (UF('default', ADT(OPTS)),), ADT(ROPTS))
    return _default(c)
def separator(c, o):
    """the separator of parse options that otherwise are the default"""
    if o.op == 'uf' and o.attr == 'default': return I(ord(','))
    if o.op == 'uf' and o.attr == 'csv.separator': return o.args[0]
    if o.op == 'ite': return Ite(o.args[0], separator(c, o.args[1]), separator(c, o.args[2]))
    fs = [n for n, t in c.ex.crate.adt(OPTS)['variants'][0]['fields']]
    if o.op != 'con' or len(fs) != len(o.args): raise Unsupported('CSV options')
    d = UF('default', ADT(OPTS)); i = fs.index('separator')
    for j, x in enumerate(o.args):
        if j != i and not (x.op == 'fld' and x.args[0] is d): raise Unsupported(f'CSV option {fs[j]}')
    x = o.args[i]
    return I(ord(',')) if x.op == 'fld' else x
@bi(OPTS + '::with_separator')
def _(c): separator(c, c.a(0)); return UF('csv.separator', ADT(OPTS), c.a(1))
@bi(ROPTS + '::with_parse_options')
def _(c): return Con((ROPTS, 0), (c.a(1),), ADT(ROPTS))
@bi('polars_io::csv::read::reader::<impl polars_io::csv::read::options::CsvReadOptions>::try_into_reader_with_file_path')
def _(c):
    o, p = c.a(0), c.a(1)
    if p.op == 'con' and p.attr[1] == 0: raise Unsupported('CSV without a path')
    p = Fld(p, 1, 0, ADT('std::path::PathBuf'))
    return Ite(cond('fs.readable', p), Ok(Con(('CsvReader', 0), (p, separator(c, o.args[0])), ADT('CsvReader'))), perr())
def csv(p, sep): return UF('csv.df', DF, p, sep)
@tr('polars_io::shared::SerReader::finish')
def _(c):
    r = c.a(0)
    if not (r.op == 'con' and r.attr[0] == 'CsvReader'): raise Unsupported('CSV reader')
    return Ite(cond('csv.parses', *r.args), Ok(csv(*r.args)), perr())
# ---------------------------------------------------------------- lazy plans
def lazy(d, ok=TRUE): return Con((LF, 0), (d, ok), ADT(LF))
def lz(v):
    if not (v.op == 'con' and v.attr[0] == LF): raise Unsupported('an unknown plan')
    return v.args
@tr('polars_lazy::frame::IntoLazy::lazy')
def _(c): return lazy(c.a(0))
@bi(LF + '::collect')
def _(c):
    d, ok = lz(c.a(0))
    return Ite(ok, Ok(d), perr())
def exprs(x):
    if x.sort[0] != 'Seq':
        if x.sort == EXPR: x = SeqLit([x])
        else: raise Unsupported('expressions')
    return x
@bi(LF + '::select')
def _(c):
    d, ok = lz(c.a(0)); e = exprs(c.a(1))
    return lazy(UF('df.select', DF, d, e), And(ok, cond('df.select.ok', d, e)))
LEFT = Con(('JoinArgs', 0), (), ADT('JoinArgs'))
@bi('polars_ops::frame::join::args::JoinArgs::new')
def _(c): return UF('join.args', ADT('JoinArgs'), c.a(0))
def left(a): return a.op == 'uf' and a.attr == 'join.args' and VarIs(a.args[0], 1) is TRUE
def joined(key, ds):
    """left joins of the frames ds, in order, on the column key; nested chains are flattened"""
    return UF('df.joined', DF, key, ds)
def joined_rule(key, xs):
    if xs.op == 'mkseq' and xs.args[0] is ONE: return At(xs, ZERO)
    n = head_len(xs)
    if n:
        x = At(xs, ZERO)
        if x.op == 'uf' and x.attr == 'df.joined' and x.args[0] is key: return joined(key, Concat(x.args[1], tail(xs)))
    return None
UFRULE['df.joined'] = joined_rule
def head_len(xs):
    """the number of leading elements given one by one"""
    if xs.op == 'mkseq' and isc(xs.args[0]): return xs.args[0].attr
    if xs.op == 'concat': return head_len(xs.args[0])
    return 0
def tail(xs):
    if xs.op == 'concat': return Concat(tail(xs.args[0]), *xs.args[1:])
    return SeqLit([At(xs, I(i)) for i in range(1, xs.args[0].attr)])
def joined_fold(X, v0, f, j, flat):
    key, xs = f.args
    if X in key.fv or j in key.fv or xs.op != 'mkseq' or not isc(xs.args[0]) or At(xs, ZERO) is not X: return None
    d = tail(xs)
    return None if X in d.fv else joined(key, Concat(SeqLit([v0]), flat(d)))
import loops
loops.FOLDS['df.joined'] = joined_fold
@bi(LF + '::join')
def _(c):
    (d, ok), (e, ok2) = lz(c.a(0)), lz(c.a(1))
    return join(d, e, And(ok, ok2), exprs(c.a(2)), exprs(c.a(3)), c.a(4))
def join(d, e, ok, lo, ro, args):
    if left(args) and lo is ro and lo.args[0] is ONE:
        k = At(lo, ZERO)
        if k.op == 'uf' and k.attr == 'expr.col':
            r = joined(k.args[0], SeqLit([d, e]))
            return lazy(r, And(ok, cond('df.joins', r)))
    r = UF('df.join', DF, d, e, lo, ro, args)
    return lazy(r, And(ok, cond('df.joins', r)))
@bi(LF + '::left_join')
def _(c):
    (d, ok), (e, ok2) = lz(c.a(0)), lz(c.a(1))
    return join(d, e, And(ok, ok2), SeqLit([c.a(2)]), SeqLit([c.a(3)]), UF('join.args', ADT('JoinArgs'), Con(('polars_ops::frame::join::args::JoinType', 1), (), ADT('polars_ops::frame::join::args::JoinType'))))
@bi('polars_plan::dsl::functions::selectors::col')
def _(c): return UF('expr.col', EXPR, c.a(0))
E_ = 'polars_plan::dsl::<impl polars_plan::dsl::expr::Expr>::'
@bi(E_ + 'alias')
def _(c): return UF('expr.alias', EXPR, c.a(0), c.a(1))
@bi(E_ + 'exclude')
def _(c):
    x = c.a(1)
    return UF('expr.exclude', EXPR, c.a(0), x if x.sort[0] == 'Seq' else SeqLit([x]))
@bi('polars_plan::dsl::statistics::<impl polars_plan::dsl::expr::Expr>::mean')
def _(c): return UF('expr.mean', EXPR, c.a(0))
@bi('polars_utils::pl_str::PlSmallStr::as_str')
def _(c): return c.a(0)
@bi('std::path::Path::to_path_buf', 'std::path::PathBuf::as_path')
def _(c): return c.a(0)
@bi('std::path::Path::to_string_lossy')
def _(c): return UF('path.lossy', STR, c.a(0))
def join_text(xs, sep): return UF('str.join', STR, xs, sep)
@bi('alloc::slice::<impl [T]>::join')
def _(c):
    if c.a(1).sort != STR: raise Unsupported('join of sequences')
    return join_text(c.a(0), c.a(1))
# ---------------------------------------------------------------- prettytable
TBL = ADT('prettytable::Table')
def tbl(t, rows): return Con((TBL[1], 0), (t, rows), TBL)
@bi('prettytable::Table::new')
def _(c): return tbl(UNIT, EMPTYSEQ)
@bi('prettytable::Table::set_titles')
def _(c):
    t = c.a(0); c.ex.store(c.st, c.args[0], tbl(c.a(1), t.args[1])); return UNIT
@bi('prettytable::Table::add_row')
def _(c):
    t = c.a(0); c.ex.store(c.st, c.args[0], tbl(t.args[0], Concat(t.args[1], SeqLit([c.a(1)])))); return UNIT
@bi('prettytable::Table::set_format')
def _(c): return UNIT
@bi('prettytable::Table::printstd')
def _(c):
    t = c.a(0); c.st[G_OUT] = append(cli.cell(c, G_OUT), UF('table.pretty', STR, t.args[0], t.args[1])); return UNIT
@bi('prettytable::row::Row::new', 'prettytable::cell::Cell::new')
def _(c): return c.a(0)
# ---------------------------------------------------------------- the library's tests, by the contracts of the other properties
ST_ = 'elinor::statistical_tests::'
def serr(): return Err(UF('test.error', ANY))
def it(c, i=0): return std.seq_of(c, i)
TT = ST_ + 'student_t_test::StudentTTest'
def ttest(d): return UF('ttest', ADT(TT), d)
def getters(ty, ctor, kind, **fs):
    for n, so in fs.items():
        def f(c, n=n, so=so): return UF(f'{kind}.{n}', so, c.a(0))
        bi(f'{ty}::{n}')(f)
@bi(TT + '::from_paired_samples')
def _(c):
    s = it(c); d = MkSeq(Len(s), lambda i: FSub(Fld(At(s, i), 0, 0, F64), Fld(At(s, i), 0, 1, F64)))
    return Ite(cond('ttest.ok', d), Ok(ttest(d)), serr())
@bi(TT + '::from_samples')
def _(c): d = it(c); return Ite(cond('ttest.ok', d), Ok(ttest(d)), serr())
getters(TT, ttest, 'ttest', mean=F64, variance=F64, effect_size=F64, t_stat=F64, p_value=F64)
@bi(TT + '::margin_of_error')
def _(c): return Ite(cond('ttest.moe.ok', c.a(0), c.a(1)), Ok(UF('ttest.moe', F64, c.a(0), c.a(1))), serr())
BT = ST_ + 'bootstrap_test::BootstrapTest'
def tester(ty, *xs): return Con((ty, 0), xs, ADT(ty))
@bi(BT + 'er::new')
def _(c): return tester(BT + 'er', I(10000))
@bi(BT + 'er::with_n_resamples')
def _(c): return tester(BT + 'er', c.a(1))
@bi(BT + 'er::with_random_state')
def _(c): return c.a(0)
@bi(BT + 'er::test')
def _(c):
    t = c.a(0); s = it(c, 1); s = MkSeq(Len(s), lambda i: Tup(Fld(At(s, i), 0, 0, F64), Fld(At(s, i), 0, 1, F64)))
    return Ite(cond('bootstrap.ok', t.args[0], s), Ok(UF('bootstrap', ADT(BT), t.args[0], s)), serr())
getters(BT, None, 'bootstrap', p_value=F64)
RT = ST_ + 'randomized_tukey_hsd_test::RandomizedTukeyHsdTest'
@bi(RT + 'er::new')
def _(c): return tester(RT + 'er', c.a(0), I(10000))
@bi(RT + 'er::with_n_iters')
def _(c): return tester(RT + 'er', c.a(0).args[0], c.a(1))
@bi(RT + 'er::with_random_state')
def _(c): return c.a(0)
def rtest(k, n, s): return UF('rtukey', ADT(RT), k, n, s)
def canon(s): return MkSeq(Len(s), lambda i: MkSeq(Len(At(s, i)), lambda j: At(At(s, i), j)))
@bi(RT + 'er::test')
def _(c):
    t = c.a(0); s = canon(it(c, 1))
    return Ite(cond('rtukey.ok', *t.args, s), Ok(rtest(*t.args, s)), serr())
def square(name, stat, k): return MkSeq(k, lambda i: MkSeq(k, lambda j: UF(name, F64, stat, i, j)))
def stat_args(x, kind):
    if not (x.op == 'uf' and x.attr == kind): raise Unsupported(f'an unknown {kind}')
    return x.args
@bi(RT + '::p_values')
def _(c): x = c.a(0); return square('rtukey.p', x, stat_args(x, 'rtukey')[0])
TK = ST_ + 'tukey_hsd_test::TukeyHsdTest'
@bi(TK + '::from_tupled_samples')
def _(c):
    s = canon(it(c)); k = c.a(1)
    return Ite(cond('tukey.ok', s, k), Ok(UF('tukey', ADT(TK), s, k)), serr())
@bi(TK + '::effect_sizes')
def _(c): x = c.a(0); return square('tukey.es', x, stat_args(x, 'tukey')[1])
AN = ST_ + 'two_way_anova_without_replication::TwoWayAnovaWithoutReplication'
@bi(AN + '::from_tupled_samples')
def _(c):
    s = canon(it(c)); k = c.a(1)
    return Ite(cond('anova.ok', s, k), Ok(UF('anova', ADT(AN), s, k)), serr())
@bi(AN + '::n_systems')
def _(c): return stat_args(c.a(0), 'anova')[1]
@bi(AN + '::n_topics')
def _(c): return Len(stat_args(c.a(0), 'anova')[0])
@bi(AN + '::system_means')
def _(c): x = c.a(0); return MkSeq(stat_args(x, 'anova')[1], lambda i: UF('anova.system_mean', F64, x, i))
ANF = [f'{x}_{y}' for y in ('variation', 'variance', 'f_stat', 'p_value') for x in ('between_system', 'between_topic', 'residual') if not (x == 'residual' and y in ('f_stat', 'p_value'))]
getters(AN, None, 'anova', **{n: F64 for n in ANF})
@bi(AN + '::margin_of_error')
def _(c): return Ite(cond('anova.moe.ok', c.a(0), c.a(1)), Ok(UF('anova.moe', F64, c.a(0), c.a(1))), serr())

# ================================================================ the property
def frame(*cols): return Con((DF[1], 0), (SeqLit(list(cols)),), DF)
def shown(d, mode): return UF('table', STR, d, mode)
def is_frame(t): return t == ('ref', False, ('adt', DF[1], ()))
def find(crate, args, ret, choose=None):
    """the one local function of that signature"""
    r = []
    for k in crate.raw:
        j = crate.raw[k]
        if not j.get('local') or j.get('kind') == 'closure' or j.get('impl_trait'): continue
        b = crate.body(k)
        if b is not None and b.nargs == len(args) and b.ltypes[0] == ret and all(f(b.ltypes[i + 1]) for i, f in enumerate(args)): r.append(strip(k))
    # of functions that call one another (a wrapper and what it wraps), the outermost
    import json
    text = {k: json.dumps(j) for k, j in crate.raw.items() if strip(k) in r} if len(r) > 1 else {}
    calls = lambda x, y: any(f'"{y}"' in t for k, t in text.items() if strip(k) == x)
    r = [x for x in r if not any(y != x and calls(y, x) and not calls(x, y) for y in r)]
    return r[0] if len(r) == 1 else None if choose is None else choose(r)
def selecting(v, main, keys):
    """of several functions from tables to names, the one that meets the contract of extract_common_metrics"""
    for k in keys:
        rs, fs = list(v.results), dict(v.functions)
        try:
            common_metrics(v, main, k)
            ok = all(x[2] != 'failed' for x in v.results[len(rs):])
        except Unsupported: ok = False
        v.results[:] = rs; v.functions.clear(); v.functions.update(fs)
        if ok: return k
    return None
def print_mode(v, main, PM):
    """the names of the print modes"""
    key = '<PrintMode as core::str::traits::FromStr>::from_str'
    for n, want in (('pretty', 0), ('raw', 1)):
        r, rc = v.exec(key, [S(n)], [], label='PrintMode::from_str')
        v.equal(f'print mode: {n}', And(rc, VarIs(r, 0), VarIs(Fld(r, 0, 0, PM), want)), TRUE, [])
    s = sym('s', STR)
    r, rc = v.exec(key, [s], [], label='PrintMode::from_str')
    v.equal('print mode: another name', And(rc, VarIs(r, 1)), TRUE, [Not(Eq(s, S('pretty'))), Not(Eq(s, S('raw')))])
def c32(v):
    """main, compare_two_systems, compare_multiple_systems, extract_metrics, extract_common_metrics, get_means, print_dataframe, df_to_prettytable, print_df_in_tsv"""
    MODE[0] = True
    main = v.crates['elinor_compare']; v.crate = main
    PM = ADT('PrintMode')
    pm = main.adt('PrintMode')
    if pm is None or [x['name'] for x in pm['variants']] != ['Pretty', 'Raw']: raise Unsupported('PrintMode')
    names = {'print_dataframe': find(main, [is_frame, lambda t: t == ('adt', 'PrintMode', ())], ('tuple', ())),
             'extract_common_metrics': find(main, [lambda t: t[0] == 'param' or DF[1] in str(t) and not is_frame(t)], ('adt', 'alloc::vec::Vec', (('adt', 'alloc::string::String', ()), ('adt', 'alloc::alloc::Global', ()))), lambda r: selecting(v, main, r))}
    if names['print_dataframe'] is None: raise Unsupported('a function that prints a frame')
    printing(v, main, PM, names['print_dataframe'])
    if names['extract_common_metrics']: common_metrics(v, main, names['extract_common_metrics'])
    print_mode(v, main, PM)
    DIRECT[0] = names['extract_common_metrics'] is None
    FSEQRULE[0] = None if DIRECT[0] else fold_common
    try: report(v, main, PM, names)
    finally: FSEQRULE[0] = None
def print_contract(ex, body, env, args, pc, st):
    """append the table to the output"""
    d, m = [ex.load(st, x) if x.op == 'ptr' else x for x in args]
    st[G_OUT] = append(st[G_OUT], shown(d, m))
    return UNIT
def heads(d):
    """the names of the columns after the first"""
    cs = columns(d); return MkSeq(isub(Len(cs), ONE), lambda j: sname(At(cs, iadd(j, ONE))))
def selected(ds):
    """the metrics of the first table that every other table has, in order"""
    m0 = heads(At(ds, ZERO))
    def others(m): return All(isub(Len(ds), ONE), lambda i: Any(Len(heads(At(ds, iadd(i, ONE)))), lambda j: Eq(At(heads(At(ds, iadd(i, ONE))), j), m)))
    return FSeq(Len(m0), lambda j: others(At(m0, j)), lambda j: At(m0, j))
DIRECT = [False]        # no function has the contract: the report is compared with the selection itself
def common(ds):
    """the same, as one function of the tables (the contract of extract_common_metrics)"""
    if DIRECT[0]: return selected(ds)
    n = Len(ds)
    return UF('common_metrics', SEQ(STR), SeqLit([At(ds, I(i)) for i in range(n.attr)]) if isc(n) else MkSeq(n, lambda i: At(ds, i)))
def common_contract(ex, body, env, args, pc, st):
    return common(to_seq(ex, args[0])) if body.nargs == 1 else None
def fold_common(t):
    """a selection of the metrics of one table by those of one other is common() of the two"""
    v = t.args[2]
    if not (v.op == 'uf' and v.attr == 'series.name' and v.args[0].op == 'uf' and v.args[0].attr == 'df.col'): return None
    ds = [v.args[0].args[0]]
    for x in subterms(t.args[1]):
        if x.op == 'uf' and x.attr == 'df.ncols' and x.args[0] not in ds: ds.append(x.args[0])
    if len(ds) != 2 or any(d.loose for d in ds): return None
    FSEQRULE[0] = None
    try: same = selected(SeqLit(ds)) is t
    finally: FSEQRULE[0] = fold_common
    return common(SeqLit(ds)) if same else None
def common_metrics(v, main, key):
    """extract_common_metrics selects the metrics of the first table that every table has, in order"""
    ds = sym('dfs', SEQ(DF)); n = Len(ds)
    H = [Lt(ZERO, n), All(n, lambda i: Lt(ZERO, Len(columns(At(ds, i)))))]
    ty = ('ref', False, ('slice', ('adt', DF[1], ())))
    st = {G_FILE: EMPTYSEQ, G_OUT: EMPTYSEQ, G_PATH: UNIT}
    v.crate = main
    r, rc, _ = v.exec(key, [ds], H, tyenv={g: ty for g in main.body(key).generics}, ghost=st, label='elinor_compare::extract_common_metrics')
    v.equal('the common metrics', r, selected(ds), H)
def report(v, main, PM, names):
    fields = main.adt('Args')['variants'][0]['fields']
    fs = {n: i for i, (n, t) in enumerate(fields)}
    args = UF('cli.args', ADT('Args')); PB = ADT('std::path::PathBuf')
    sorts = {'input_csvs': SEQ(PB), 'tab_separator': BOOL, 'print_mode': PM, 'n_resamples': USZ, 'n_iters': USZ}
    if set(fs) != set(sorts): raise Unsupported('the arguments of elinor-compare')
    arg = {n: Fld(args, 0, fs[n], s) for n, s in sorts.items()}
    mode, nres, nit = arg['print_mode'], arg['n_resamples'], arg['n_iters']
    sep = Ite(arg['tab_separator'], I(9), I(ord(',')))
    st0 = {G_FILE: EMPTYSEQ, G_OUT: EMPTYSEQ, G_PATH: UNIT}
    con = {names['print_dataframe']: print_contract}
    if names['extract_common_metrics']: con[names['extract_common_metrics']] = common_contract
    def text(*xs): return strcat_(*xs)
    def dec(i): return UF('dec', STR, i)
    def system(i): return text(S('System_'), dec(iadd(i, ONE)))
    for count, paths in (('no table', EmptySeq(PB)), ('one table', SeqLit([sym('p0', PB)])), ('two tables', SeqLit([sym('p0', PB), sym('p1', PB)])), ('more tables', sym('paths', SEQ(PB)))):
        if ONLY and count not in ONLY: continue
        n = Len(paths)
        def d(i): return csv(At(paths, i), sep)
        def ncols(i): return UF('df.ncols', USZ, d(i))
        def topic(i): return sname(UF('df.col', SERIES, d(i), ZERO))
        t = topic(ZERO)
        def metrics(i): return MkSeq(isub(ncols(i), ONE), lambda j: sname(UF('df.col', SERIES, d(i), iadd(j, ONE))))
        same = All(n, lambda i: Eq(topic(i), t))
        H = [Le(I(3), n)] if count == 'more tables' else []
        H += [All(n, lambda i: Lt(ZERO, ncols(i))), same]
        dfs = MkSeq(n, d)
        out = [EMPTYSEQ]
        def tool(H):
            cli.ARGS[0] = Con(('Args', 0), tuple(paths if f == 'input_csvs' else arg[f] for f, _ in fields), ADT('Args'))
            try: return run(v, main, 'main', [], H, False, st0, con)
            finally: cli.ARGS[0] = None
        def refuses(what, H, strict=()):
            STRICT.update(strict)
            try: r, rc, _ = tool(H)
            finally: STRICT.clear()
            v.equal(f'{count}: {what}: the tool fails', And(rc, VarIs(r, 1)), TRUE, H)
        if count == 'no table': refuses('no input', []); continue
        def readable(i): return And(UF('fs.readable', BOOL, At(paths, i)), UF('csv.parses', BOOL, At(paths, i), sep))
        refuses('an unreadable table', H + [Not(All(n, readable))], ('fs.readable', 'csv.parses'))
        if count != 'one table':
            refuses('different first headers', H[:-1] + [Not(same)])
            refuses('no common metric', H + [Eq(Len(common(dfs)), ZERO)])
        def line(x): out[0] = append(out[0], text(x, S('\n')))
        def put(*cols): out[0] = append(out[0], shown(frame(*[Series(S(a) if isinstance(a, str) else a, SeqLit(b) if isinstance(b, list) else b) for a, b in cols]), mode))
        def mean(i, m): return UF('series.mean_of', F64, UF('df.by_name', SERIES, d(i), m))
        line(S('# Basic statistics'))
        put(('Key', [S('n_systems'), S('n_topics'), S('n_metrics')]), ('Value', [n, height(d(ZERO)), isub(ncols(ZERO), ONE)]))
        if count == 'one table':
            ms = metrics(ZERO)
            line(S('\n# Means')); put(('Metric', ms), ('Score', MkSeq(Len(ms), lambda j: mean(ZERO, At(ms, j)))))
        else:
            line(S('\n# Alias')); put(('Alias', MkSeq(n, system)), ('Path', MkSeq(n, lambda i: UF('path.lossy', STR, At(paths, i)))))
            ms = common(dfs); nm = Len(ms)
            H.append(Lt(ZERO, nm))
        if count == 'two tables':
            def each(f): return MkSeq(nm, lambda j: f(At(ms, j)))
            line(S('\n# Means')); put(('Metric', ms), *[(f'System_{i + 1}', each(lambda m: mean(I(i), m))) for i in range(2)])
            def col(n): return UF('expr.col', EXPR, n)
            def side(i, m): return UF('df.select', DF, d(I(i)), SeqLit([col(t), UF('expr.alias', EXPR, col(m), S(f'system_{i + 1}'))]))
            def both(m): return joined(t, SeqLit([side(0, m), side(1, m)]))
            def score(i, m, k): return UF('series.f64', F64, UF('df.by_name', SERIES, both(m), S(f'system_{i + 1}')), k)
            def tt(m): return ttest(diffs(m))
            def diffs(m): return MkSeq(height(both(m)), lambda k: FSub(score(0, m, k), score(1, m, k)))
            def pairs(m): return MkSeq(height(both(m)), lambda k: Tup(score(0, m, k), score(1, m, k)))
            def rows(m): return MkSeq(height(both(m)), lambda k: SeqLit([score(0, m, k), score(1, m, k)]))
            for what, c in (('ttest', lambda m: (diffs(m),)), ('bootstrap', lambda m: (nres, pairs(m))), ('rtukey', lambda m: (I(2), nit, rows(m)))):
                refuses(f'{what} undefined', H + [Any(nm, lambda j: Not(UF(what + '.ok', BOOL, *c(At(ms, j)))))], (what + '.ok',))
            line(S("\n# Two-sided paired Student's t-test for (System_1 - System_2)"))
            put(('Metric', ms), *[(h, each(lambda m: UF(f'ttest.{f}', F64, tt(m)))) for h, f in (('Mean', 'mean'), ('Var', 'variance'), ('ES', 'effect_size'), ('t-stat', 't_stat'), ('p-value', 'p_value'))],
                ('95% MOE', each(lambda m: UF('ttest.moe', F64, tt(m), FC(0.05)))))
            line(text(S('\n# Two-sided paired Bootstrap test (n_resamples = '), dec(nres), S(')')))
            put(('Metric', ms), ('p-value', each(lambda m: UF('bootstrap.p_value', F64, UF('bootstrap', ADT(BT), nres, pairs(m))))))
            line(text(S("\n# Fisher's randomized test (n_iters = "), dec(nit), S(')')))
            put(('Metric', ms), ('p-value', each(lambda m: UF('rtukey.p', F64, rtest(I(2), nit, rows(m)), ZERO, ONE))))
        if count == 'more tables':
            k = fresh('k', IDX); m = At(ms, k)
            def col(n): return UF('expr.col', EXPR, n)
            def sysname(i): return text(S('system_'), dec(iadd(i, ONE)))
            j = joined(t, MkSeq(n, lambda i: UF('df.select', DF, d(i), SeqLit([col(t), UF('expr.alias', EXPR, col(m), sysname(i))]))))
            scores = MkSeq(height(j), lambda r: MkSeq(n, lambda i: UF('series.f64', F64, UF('df.by_name', SERIES, j, sysname(i)), r)))
            an = UF('anova', ADT(AN), scores, n); tk = UF('tukey', ADT(TK), scores, n); rt = rtest(n, nit, scores)
            def A(f): return UF(f'anova.{f}', F64, an)
            # every joined table has a row, and the degrees of freedom fit in 64 bits (said of both ways to write the list of the joined frames)
            def frame_of(i): return UF('df.select', DF, d(i), SeqLit([col(t), UF('expr.alias', EXPR, col(m), sysname(i))]))
            for js in (j, joined(t, Concat(SeqLit([frame_of(ZERO)]), MkSeq(imax(ZERO, isub(n, ONE)), lambda i: frame_of(iadd(i, ONE)))))):
                topics = lambda kk: subst(height(js), {k: kk})
                H += [All(nm, lambda kk: Lt(ZERO, topics(kk))), All(nm, lambda kk: Le(imul(isub(n, ONE), isub(topics(kk), ONE)), I(2**64 - 1)))]
            forms = (j, joined(t, Concat(SeqLit([frame_of(ZERO)]), MkSeq(imax(ZERO, isub(n, ONE)), lambda i: frame_of(iadd(i, ONE))))))
            def table(js): return MkSeq(height(js), lambda r: MkSeq(n, lambda i: UF('series.f64', F64, UF('df.by_name', SERIES, js, sysname(i)), r)))
            for what, f in (('anova', lambda x: (x, n)), ('anova.moe', lambda x: (UF('anova', ADT(AN), x, n), FC(0.05))), ('tukey', lambda x: (x, n)), ('rtukey', lambda x: (n, nit, x))):
                refuses(f'{what} undefined', H + [Any(nm, lambda kk: subst(Not(UF(what + '.ok', BOOL, *f(table(js)))), {k: kk})) for js in forms], (what + '.ok',))
            before = out[0]; out[0] = EMPTYSEQ
            line(text(S('\n# '), m)); line(S('## System means'))
            put(('System', MkSeq(n, system)), ('Mean', MkSeq(n, lambda i: UF('anova.system_mean', F64, an, i))), ('95% MOE', MkSeq(n, lambda i: UF('anova.moe', F64, an, FC(0.05)))))
            line(S('## Two-way ANOVA without replication'))
            s1, t1 = isub(n, ONE), isub(height(j), ONE)
            put(('Factor', [S('Between-systems'), S('Between-topics'), S('Residual')]), ('Variation ', [A('between_system_variation'), A('between_topic_variation'), A('residual_variation')]),
                ('DF', [s1, t1, imul(s1, t1)]), ('Variance', [A('between_system_variance'), A('between_topic_variance'), A('residual_variance')]),
                ('F-stat', [A('between_system_f_stat'), A('between_topic_f_stat'), NAN]), ('p-value', [A('between_system_p_value'), A('between_topic_p_value'), NAN]))
            def square_table(key, f): 
                out[0] = append(out[0], shown(Con((DF[1], 0), (Concat(SeqLit([Series(S(key), MkSeq(n, system))]), MkSeq(n, lambda i: Series(system(i), MkSeq(n, lambda j: f(j, i))))),), DF), mode))
            line(S('## Effect sizes for Tukey HSD test')); square_table('ES', lambda a, b: UF('tukey.es', F64, tk, a, b))
            line(text(S('## p-values for randomized Tukey HSD test (n_iters = '), dec(nit), S(')'))); square_table('p-value', lambda a, b: UF('rtukey.p', F64, rt, a, b))
            out[0] = Concat(before, flat(nm, abst(out[0], k)))
        r, rc, st = tool(H)
        v.equal(f'{count}: the tool succeeds', And(rc, VarIs(r, 0)), TRUE, H)
        v.equal(f'{count}: the report', st[G_OUT], out[0], H)
import os
ONLY = os.environ.get('C32ONLY', '')

def printing(v, main, PM, key):
    """print_dataframe prints the header and one line per row, a cell per column"""
    d = sym('df', DF); m = sym('mode', PM)
    cols = columns(d)
    def text(s, i):
        x = UF('series.any', AV, s, i); f = Fld(x, 12, 0, F64)
        return Ite(VarIs(x, 2), Fld(x, 2, 0, STR), Ite(VarIs(x, 12), Ite(mk('isnan', (f,), None, BOOL), S(''), UF('fixed', STR, f, I(4))), Ite(VarIs(x, 6), UF('dec', STR, Fld(x, 6, 0, INT('u64'))), S('N/A'))))
    def row(i): return MkSeq(Len(cols), lambda j: text(At(cols, j), i))
    head = MkSeq(Len(cols), lambda j: sname(At(cols, j)))
    def line(xs): return append(EMPTYSEQ, strcat_(UF('str.join', STR, xs, S('\t')), S('\n')))
    k = fresh('k', IDX)
    raw = Concat(line(head), flat(height(d), abst(line(row(k)), k)))
    pretty = append(EMPTYSEQ, UF('table.pretty', STR, head, MkSeq(height(d), row)))
    old = sym('printed', SEQ(STR))
    hyp = []
    for name, var, want in (('pretty', 0, pretty), ('raw', 1, raw)):
        hyp = [VarIs(m, i) if i == var else Not(VarIs(m, i)) for i in range(2)]
        r, rc, st = run(v, main, key, [d, m], hyp, False, {G_OUT: EMPTYSEQ})
        v.equal(f'{name}: print_dataframe returns', rc, TRUE, hyp)
        v.equal(f'{name}: the table printed', st[G_OUT], want, hyp)
def strcat_(*a):
    from std import strcat
    return strcat(*a)
