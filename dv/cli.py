"""Contracts on files, standard output, serde_json and the clap parser, with ghost state, and the properties of the command line tools.

Ghost state: ('g', 'file') is the text durably written to the (only) created file, ('g', 'out') the text printed on standard output, both as sequences of
text pieces in a canonical form (literals are maximal up to a line end, formatted values are one piece each).  A buffered writer carries the pieces it holds.
A write succeeds or fails as an uninterpreted function of the writer's history, so every sequence of faults is covered; after a failure the history holds
an unknown piece."""
import re
from terms import *
from std import pieces, bi, tr, REG, TRAIT, NOT, strcat, display, empty_of, C as Ctx
from sym import Unsupported, It, STRING
from mir import strip

G_FILE, G_OUT, G_PATH = ('g', 'file'), ('g', 'out'), ('g', 'path')
FILE = 'std::fs::File'
BUFW = ('BufWriter', 0)
FAULTS = [True]         # False: the runs in which every operation of the operating system succeeds
JSON_TEXT = lambda v: UF('json', STR, v)

def append(h, s):
    """history h followed by the text s"""
    if s.op == 'ite': return Ite(s.args[0], append(h, s.args[1]), append(h, s.args[2]))
    if s.op == 'strcat':
        for x in s.args:
            if x.op == 'ite' and texts(x): return Ite(x.args[0], *[append(h, strcat(*[b if y is x else y for y in s.args])) for b in x.args[1:]])
            if x.op == 'uf' and x.attr == 'str.text':
                i = s.args.index(x)
                return append(Concat(append(h, strcat(*s.args[:i])), x.args[0]), strcat(*s.args[i + 1:]))
    if s.op == 'uf' and s.attr == 'str.text': return Concat(h, s.args[0])
    ps = pieces(s)
    if not ps: return h
    if h.op == 'ite' and ps[0].op == 's': return Ite(h.args[0], append(h.args[1], s), append(h.args[2], s))
    if ps[0].op == 's':
        l = last_lit(h)
        if l is not None and not l[1].endswith('\n'):
            return Concat(l[0], SeqLit([S(l[1] + ps[0].attr)] + ps[1:]))
    return Concat(h, SeqLit(ps))
def texts(x): return x.op == 's' or x.op == 'ite' and texts(x.args[1]) and texts(x.args[2])
def last_lit(h):
    """(the rest, the text) when the last piece is a literal"""
    if h.op == 'concat':
        r = last_lit(h.args[1])
        return None if r is None else (Concat(h.args[0], r[0]), r[1])
    if h.op == 'mkseq' and isc(h.args[0]) and h.args[0].attr > 0:
        n = h.args[0].attr; x = At(h, I(n - 1))
        if x.op == 's': return SeqLit([At(h, I(i)) for i in range(n - 1)]), x.attr
    return None
def okw(kind, h, s):
    return UF('io.ok.' + kind, BOOL, h, s) if FAULTS[0] else TRUE
def after(h, s, ok):
    return append(h, s) if ok is TRUE else Ite(ok, append(h, s), Concat(h, SeqLit([UF('io.partial', STR, h, s)])))
def ioerr(): return Err(UF('io.error', ANY))
def outcome(ok, v=UNIT): return Ite(ok, Ok(v), ioerr())
def emit(c, w, s):
    """write the text s to the writer w (a value or a pointer); returns the condition of success"""
    if w.op == 'ite': raise Unsupported('conditional writer')
    if w.op == 'ptr':
        v = c.ex.load(c.st, w)
        if v.op == 'ptr': return emit(c, v, s)
        if v.op == 'con' and v.attr == BUFW:
            ok = okw('write', v.args[1], s)
            c.ex.store(c.st, w, Con(BUFW, (v.args[0], after(v.args[1], s, ok)), v.sort))
            return ok
        if v.sort == STR:                                           # a String as a fmt::Write target
            c.ex.store(c.st, w, strcat(v, s)); return TRUE
        if v.sort[0] == 'Seq':                                      # a byte buffer
            c.ex.store(c.st, w, Concat(v, UF('str.utf8', SEQ(INT('u8')), s))); return TRUE
        return emit(c, v, s)
    if w.op == 'con' and w.attr[0] == FILE:
        h = cell(c, G_FILE); ok = okw('file', h, s); c.st[G_FILE] = after(h, s, ok); return ok
    if w.op == 'con' and w.attr == ('Stdout', 0):
        h = cell(c, G_OUT); ok = okw('out', h, s); c.st[G_OUT] = after(h, s, ok); return ok
    raise Unsupported(f'writer {w.op}')
def cell(c, g):
    if g not in c.st: raise Unsupported('output in a context that does not track it')
    return c.st[g]
def text_of(b):
    """the text of a byte string, as far as it is known"""
    if b.sort == STR: return b
    if b.op == 'bytes': return S(bytes(b.attr).decode('utf8', 'surrogateescape'))
    if b.op == 'uf' and b.attr == 'str.utf8': return b.args[0]
    if b.op == 'concat': return strcat(text_of(b.args[0]), text_of(b.args[1]))
    if b.op == 'mkseq' and isc(b.args[0]):
        xs = [At(b, I(i)) for i in range(b.args[0].attr)]
        if all(isc(x) for x in xs): return S(bytes(x.attr for x in xs).decode('utf8', 'surrogateescape'))
    return UF('str.of_utf8', STR, b)

# ---------------------------------------------------------------- files
@bi('std::fs::File::create', 'std::fs::File::open')
def _(c):
    p = c.a(0); create = c.key.endswith('create')
    f = Con((FILE, 0), (S('w') if create else S('r'), p), ADT(FILE))
    if not create: return outcome(UF('fs.readable', BOOL, p), f)
    if c.st.get(G_PATH, UNIT) is not UNIT: raise Unsupported('more than one created file')
    cell(c, G_FILE)
    ok = UF('fs.creatable', BOOL, p) if FAULTS[0] else TRUE
    c.st[G_PATH] = p; c.st[G_FILE] = EMPTYSEQ
    return outcome(ok, f)
@bi('alloc::io::buffered::bufreader::BufReader::new', 'std::io::buffered::bufreader::BufReader::new')
def _(c): return c.args[0]
@tr('alloc::io::buf_read::BufRead::lines', 'std::io::BufRead::lines', 'core::io::buf_read::BufRead::lines')
def _(c):
    f = c.a(0)
    if not (f.op == 'con' and f.attr[0] == FILE): raise Unsupported('lines of a reader')
    p = f.args[1]; ls = UF('fs.lines', SEQ(STR), p)
    return It(MkSeq(Len(ls), lambda i: Ite(UF('fs.line_ok', BOOL, p, i), Ok(At(ls, i)), ioerr())))
@bi('alloc::io::buffered::bufwriter::BufWriter::new', 'std::io::buffered::bufwriter::BufWriter::new', 'alloc::io::buffered::bufwriter::BufWriter::with_capacity')
def _(c):
    w = c.args[-1]
    return Con(BUFW, (w, EMPTYSEQ), ADT('BufWriter'))
W = ('core::io::write::Write::', 'std::io::Write::', 'alloc::io::write::Write::')
def wtr(n):
    def d(f):
        for p in W: TRAIT[p + n] = f
        return f
    return d
@wtr('write_all')
def _(c): return outcome(emit(c, c.args[0], text_of(c.a(1))))
@wtr('write_fmt')
def _(c): return outcome(emit(c, c.args[0], c.a(1)))
def flush(c, w):
    if w.op == 'ptr':
        v = c.ex.load(c.st, w)
        if v.op == 'con' and v.attr == BUFW:
            h = v.args[1]; f = v.args[0]
            if f.op == 'ptr': f = c.ex.load(c.st, f)
            if not (f.op == 'con' and f.attr[0] == FILE): raise Unsupported('flush to a writer other than the file')
            ok = okw('flush', h, S(''))
            old = cell(c, G_FILE)
            c.st[G_FILE] = Ite(ok, Concat(old, h), Concat(old, SeqLit([UF('io.partial', STR, old, S('flush'))])))
            c.ex.store(c.st, w, Con(BUFW, (v.args[0], Ite(ok, EMPTYSEQ, h)), v.sort))
            return ok
        return flush(c, v)
    if w.op == 'con' and w.attr[0] in (FILE, 'Stdout'): return TRUE
    raise Unsupported('flush')
@wtr('flush')
def _(c): return outcome(flush(c, c.args[0]))
@wtr('by_ref')
def _(c): return c.args[0]
@bi('alloc::io::buffered::bufwriter::BufWriter::into_inner', 'std::io::buffered::bufwriter::BufWriter::into_inner')
def _(c):
    v = c.a(0); k = (('tmpw', c.ex.nf), 0); c.ex.nf += 1
    c.st[k] = v; ok = flush(c, c.ex.ptr(k)); del c.st[k]
    return outcome(ok, v.args[0])
@bi('alloc::io::buffered::bufwriter::BufWriter::get_ref', 'alloc::io::buffered::bufwriter::BufWriter::get_mut')
def _(c): raise Unsupported('the writer behind a buffer')
@bi('alloc::io::buffered::IntoInnerError::into_error', 'std::io::buffered::IntoInnerError::into_error')
def _(c): return UF('io.error', ANY)
@bi('std::fs::File::sync_all', 'std::fs::File::sync_data')
def _(c): return outcome(okw('sync', cell(c, G_FILE), S('')))
@bi('std::fs::write')
def _(c):
    if c.st.get(G_PATH, UNIT) is not UNIT: raise Unsupported('more than one created file')
    p = c.a(0); s = text_of(c.a(1)); cell(c, G_FILE)
    ok = And(UF('fs.creatable', BOOL, p), okw('file', EMPTYSEQ, s)) if FAULTS[0] else TRUE
    c.st[G_PATH] = p; c.st[G_FILE] = after(EMPTYSEQ, s, ok)
    return outcome(ok)
@bi('alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'core::str::<impl str>::as_bytes')
def _(c):
    s = c.a(0)
    if G_FILE not in c.st and G_OUT not in c.st: return UF(c.key, SEQ(INT('u8')), s)
    return UF('str.utf8', SEQ(INT('u8')), s)
# ---------------------------------------------------------------- standard output
@bi('std::io::stdio::_print')
def _(c):
    if G_OUT in c.st: c.st[G_OUT] = append(c.st[G_OUT], c.a(0))
    return UNIT
@bi('std::io::stdio::_eprint')
def _(c): return UNIT
@bi('std::io::stdio::stdout', 'std::io::stdio::Stdout::lock')
def _(c): return Con(('Stdout', 0), (), ADT('Stdout'))
# ---------------------------------------------------------------- serde_json
@bi('serde_json::ser::to_writer')
def _(c): return outcome(emit(c, c.args[0], JSON_TEXT(c.a(1))))
@bi('serde_json::ser::to_writer_pretty')
def _(c): return outcome(emit(c, c.args[0], UF('json.pretty', STR, c.a(1))))
@bi('serde_json::ser::to_string')
def _(c): return Ok(JSON_TEXT(c.a(0)))
@bi('serde_json::ser::to_string_pretty')
def _(c): return Ok(UF('json.pretty', STR, c.a(0)))
@bi('serde_json::ser::to_vec')
def _(c): return Ok(UF('str.utf8', SEQ(INT('u8')), JSON_TEXT(c.a(0))))
# ---------------------------------------------------------------- the command line
ARGS = [None]       # what the command line was parsed to, when a proof fixes part of it
@tr('clap_builder::derive::Parser::parse')
def _(c):
    s = c.ex.sort(c.dty)
    return ARGS[0] if ARGS[0] is not None and ARGS[0].sort == s else UF('cli.args', s)
@bi('anyhow::error::<impl anyhow::Error>::msg', 'anyhow::Error::msg', 'anyhow::__private::format_err', 'anyhow::__private::must_use')
def _(c): return UF('anyhow', ANY)
_from = TRAIT['core::convert::From::from']
@tr('core::convert::From::from', 'core::convert::Into::into')
def _(c):
    t = c.selfty if c.name == 'from' else c.dty
    if t is not None and t[0] == 'adt' and t[1] == 'anyhow::Error': return UF('anyhow', ANY)
    if t is not None and t[0] == 'adt' and t[1].endswith('::PlSmallStr'): return c.a(0)
    return _from(c)
# ---------------------------------------------------------------- the library, by the contracts of the other properties
REC = lambda s: ADT('elinor::relevance::Record', STR, s)
def store_sort(s): return ADT('elinor::relevance::RelevanceStore', STR, s)
OFS = ADT('ordered_float::OrderedFloat', F64)
@bi('elinor_cli::load_lines')
def _(c):
    p = c.a(0)
    return outcome(UF('fs.loaded', BOOL, p), UF('fs.lines', SEQ(STR), p))
def parsed(kind, c, lines):
    return outcome(UF(f'trec.{kind}.ok', BOOL, lines), UF(f'trec.{kind}', store_sort(INT('u32') if kind == 'true' else OFS), lines))
def lines_of(c):
    from std import seq_of
    return seq_of(c)
@bi('elinor::trec::parse_true_rels_in_trec')
def _(c): return parsed('true', c, lines_of(c))
@bi('elinor::trec::parse_pred_rels_in_trec')
def _(c): return parsed('pred', c, lines_of(c))
EXPAND = [False]        # the stores as maps of maps, for code that walks them query by query
def contents(s): return UF('store.map', MAP(STR, MAP(STR, s.sort[2][1])), s)
def ranked(c, m):
    """the stored ranking of the map m of one query: descending score, ties by ascending document id"""
    R = 'elinor::relevance::Relevance'; a = c.ex.crate.adt(R)
    if a is None: raise Unsupported('Relevance')
    fs = [n for n, t in a['variants'][0]['fields']]; d, s = fs.index('doc_id'), fs.index('score'); sc = m.sort[2]
    def rel(k):
        x = [None, None]; x[d] = k; x[s] = MGet(m, k)
        return Con((R, 0), tuple(x), ADT(R, STR, sc))
    def before(x, y):
        sx, sy, dx, dy = Fld(x, 0, s, sc), Fld(y, 0, s, sc), Fld(x, 0, d, STR), Fld(y, 0, d, STR)
        return Ite(Eq(sx, sy), OLt(dx, dy), OLt(sy, sx))
    return SortBy(MkSeq(MLen(m), lambda i: rel(KeyAt(m, i))), before)
def export(s):
    if not EXPAND[0]: return UF('store.records', SEQ(REC(s.sort[2][1])), s)
    raise Unsupported('exported records together with the contents by query')
def some(t, x): return Ite(t, Some(x), NoneT())
RS = 'elinor::relevance::RelevanceStore::'
def opened(c):
    if not EXPAND[0]: raise Unsupported(f'call {c.key}')
    return contents(c.a(0))
@bi(RS + 'query_ids')
def _(c): m = opened(c); return It(MkSeq(MLen(m), lambda i: KeyAt(m, i)))
@bi(RS + 'get_map')
def _(c): m = opened(c); return some(MHas(m, c.a(1)), MGet(m, c.a(1)))
@bi(RS + 'get_sorted')
def _(c): m = opened(c); return some(MHas(m, c.a(1)), ranked(c, MGet(m, c.a(1))))
@bi(RS + 'get_score')
def _(c):
    m = opened(c); d = MGet(m, c.a(1))
    return some(And(MHas(m, c.a(1)), MHas(d, c.a(2))), MGet(d, c.a(2)))
@bi('elinor::relevance::RelevanceStore::into_records', 'elinor::relevance::RelevanceStore::records')
def _(c): return export(c.a(0))
def score_kind(s): return 'true' if s == INT('u32') else 'pred'
def rec_sort(t):
    """the score sort of a record sort"""
    return t[2][1]
@bi('serde_json::de::from_str')
def _(c):
    s = c.ex.sort(c.dty)[2][0]; l = c.a(0)
    n = f'{s[1]}<{",".join(map(str, s[2]))}>' if s[0] == 'Adt' else str(s)
    return Ite(UF('json.parses ' + n, BOOL, l), Ok(UF('json.value', s, l)), Err(UF('json.error', ANY)))
@bi('elinor::relevance::RelevanceStore::from_records')
def _(c):
    rs = lines_of(c); sc = rec_sort(rs.sort[1])
    return Ite(UF('store.distinct', BOOL, rs), Ok(UF('store', store_sort(sc), rs)), Err(UF('store.error', ANY)))
@bi('elinor::relevance::RelevanceStore::n_queries', 'elinor::relevance::RelevanceStore::n_docs')
def _(c): return UF('store.' + c.key.rsplit('::', 1)[1], INT('usize'), c.a(0))
EVAL = ADT('elinor::Evaluation', STR)
@bi('elinor::evaluate')
def _(c): return Ite(UF('eval.ok', BOOL, c.a(0), c.a(1), c.a(2)), Ok(UF('eval', EVAL, c.a(0), c.a(1), c.a(2))), Err(UF('eval.error', ANY)))
@bi('elinor::Evaluation::mean')
def _(c): return UF('eval.mean', F64, c.a(0))
def as_eval(e):
    if e.op == 'ite':
        a, b = as_eval(e.args[1]), as_eval(e.args[2])
        return UF('eval', EVAL, *[Ite(e.args[0], x, y) for x, y in zip(a.args, b.args)])
    if not (e.op == 'uf' and e.attr == 'eval'): raise Unsupported('scores of an unknown evaluation')
    return e
def scores(e): return MComp(UF('eval.queries', MAP(STR, ADT('tuple')), e.args[0], e.args[1]), lambda q: UF('eval.score', F64, *e.args, q))
@bi('elinor::Evaluation::scores', 'elinor::Evaluation::into_scores')
def _(c):
    return scores(as_eval(c.a(0)))
# ---------------------------------------------------------------- polars
SERIES = ADT('polars_core::series::Series'); DF = ADT('polars_core::frame::DataFrame'); CSVW = ADT('polars_io::csv::write::writer::CsvWriter')
def Series(n, vs): return Con((SERIES[1], 0), (n, vs), SERIES)
@tr('polars_core::named_from::NamedFrom::new')
def _(c): return Series(c.a(0), c.a(1))
@bi('polars_core::frame::DataFrame::new')
def _(c):
    x = c.a(0)
    return Ite(UF('df.ok', BOOL, x), Ok(Con((DF[1], 0), (x,), DF)), Err(UF('df.error', ANY)))
@tr('polars_io::shared::SerWriter::new')
def _(c): return Con((CSVW[1], 0), (c.args[0], I(ord(','))), CSVW)
@bi('polars_io::csv::write::writer::CsvWriter::with_separator')
def _(c): w = c.a(0); return Con(w.attr, (w.args[0], c.a(1)), CSVW)
@bi('polars_io::csv::write::writer::CsvWriter::include_header')
def _(c):
    w = c.a(0)
    if c.a(1) is TRUE: return w
    return Con(w.attr, (w.args[0], UF('csv.no_header', INT('u8'), w.args[1])), CSVW)
def csv_text(cols, sep): return UF('csv', STR, cols, sep)
@tr('polars_io::shared::SerWriter::finish')
def _(c):
    w = c.ex.load(c.st, c.args[0]) if c.args[0].op == 'ptr' else c.args[0]
    d = c.ex.load(c.st, c.args[1]) if c.args[1].op == 'ptr' else c.args[1]
    if w.op != 'con' or d.op != 'con': raise Unsupported('CSV writer')
    return outcome(emit(c, w.args[0], csv_text(d.args[0], w.args[1])))

# ================================================================ properties
def c30(v):
    """main of elinor-convert and load_lines"""
    lib, main = v.crates['elinor_cli'], v.crates['elinor_convert']
    load_lines(v, lib)
    a = main.adt('Args'); fs = {n: i for i, (n, t) in enumerate(a['variants'][0]['fields'])}
    rt = main.adt('RelevanceType')
    if rt is None or [x['name'] for x in rt['variants']] != ['True', 'Pred']: raise Unsupported('RelevanceType')
    args = UF('cli.args', ADT('Args'))
    inp, outp = Fld(args, 0, fs['input_trec'], ADT('std::path::PathBuf')), Fld(args, 0, fs['output_jsonl'], ADT('std::path::PathBuf'))
    rel = Fld(args, 0, fs['rel_type'], ADT('RelevanceType'))
    lines = UF('fs.lines', SEQ(STR), inp)
    loaded = UF('fs.loaded', BOOL, inp)
    for kind, var, sc in (('true', 0, INT('u32')), ('pred', 1, OFS)):
        hyp = [VarIs(rel, i) if i == var else Not(VarIs(rel, i)) for i in range(2)]
        okp = UF(f'trec.{kind}.ok', BOOL, lines)
        recs = export(UF(f'trec.{kind}', store_sort(sc), lines))
        want = MkSeqFlat(recs)
        for faults in (True, False):
            r, rc, st = run(v, main, 'main', [], hyp, faults, {G_FILE: EMPTYSEQ, G_OUT: EMPTYSEQ, G_PATH: UNIT})
            ok = And(rc, VarIs(r, 0))
            if faults:
                v.holds(f'{kind}: success implies that the input was read and parsed', Or(Not(ok), And(loaded, okp)), hyp)
                v.equal(f'{kind}: on success the output file is one JSON line per exported record', assume(st[G_FILE], ok), want, hyp + [ok])
                v.equal(f'{kind}: on success the file written is the one asked for', assume(st[G_PATH], ok), outp, hyp + [ok])
            else:
                v.equal(f'{kind}: without faults, success exactly when the input is readable and parses', ok, And(loaded, okp), hyp)
    v.crate = main
    s = sym('s', STR)
    r, rc = v.exec('<RelevanceType as core::str::traits::FromStr>::from_str', [s])
    for t, i in (('true', 0), ('pred', 1)):
        x = subst_s(r, s, S(t))
        v.equal(f"relevance type '{t}' means {('True', 'Pred')[i]}", x, Ok(Con(('RelevanceType', i), (), ADT('RelevanceType'))))
def subst_s(t, a, b): return subst(t, {a: b})
def MkSeqFlat(recs):
    k = fresh('k', IDX)
    return flat(Len(recs), abst(SeqLit([JSON_TEXT(At(recs, k)), S('\n')]), k))
def load_lines(v, lib):
    v.crate = lib
    p = sym('path', ADT('std::path::PathBuf'))
    ls = UF('fs.lines', SEQ(STR), p)
    r, rc = v.exec('load_lines', [p])
    ok = And(UF('fs.readable', BOOL, p), Bind('all', Len(ls), lambda i: UF('fs.line_ok', BOOL, p, i)))
    v.equal('load_lines returns for every path', rc, TRUE)
    v.equal('load_lines succeeds exactly when the file opens and every line reads', VarIs(r, 0), ok)
    v.equal('load_lines returns the lines of the file', assume(Fld(r, 0, 0, SEQ(STR)), And(ok, VarIs(r, 0))), ls, [ok])
METRIC = 'elinor::metrics::Metric'
def c31(v):
    """main of elinor-evaluate, n_relevant_docs, default_metrics"""
    lib, main = v.crates['elinor_cli'], v.crates['elinor_evaluate']
    load_lines(v, lib)
    v.crate = main
    EXPAND[0] = re.search(r'RelevanceStore(::<[^>]*>)?::(query_ids|get_map|get_sorted|get_score)\b', str(main.raw)) is not None
    fs = {n: (i, t) for i, (n, t) in enumerate(main.adt('Args')['variants'][0]['fields'])}
    args = UF('cli.args', ADT('Args'))
    PB = ADT('std::path::PathBuf'); OPB = ADT('core::option::Option', PB)
    M = ADT(METRIC)
    def arg(n, s): return Fld(args, 0, fs[n][0], s)
    tj, pj, oc, tab, ms = arg('true_jsonl', PB), arg('pred_jsonl', PB), arg('output_csv', OPB), arg('tab_separator', BOOL), arg('metrics', SEQ(M))
    vs = {x['name']: i for i, x in enumerate(main.adt(METRIC)['variants'])}
    def m(n, k): return Con((METRIC, vs[n]), (I(k),), M)
    defaults = SeqLit([m('Success', k) for k in (1, 5, 10)] + [m('Recall', k) for k in (5, 10, 15, 20)] + [m('Precision', k) for k in (5, 10, 15, 20)]
                      + [m('AP', k) for k in (5, 10, 15, 20, 0)] + [m('RR', 0)] + [m('NDCG', k) for k in (5, 10, 15, 20)])
    def lines(p): return UF('fs.lines', SEQ(STR), p)
    def rec(sc): return ADT('elinor::relevance::Record', STR, sc)
    def pok(sc, l): s = rec(sc); return UF(f'json.parses {s[1]}<{",".join(map(str, s[2]))}>', BOOL, l)
    def records(p, sc): ls = lines(p); return MkSeq(Len(ls), lambda i: UF('json.value', rec(sc), At(ls, i)))
    def allparse(p, sc): ls = lines(p); return Bind('all', Len(ls), lambda i: pok(sc, At(ls, i)))
    U32 = INT('u32')
    tr, pr = records(tj, U32), records(pj, OFS)
    T, P = UF('store', store_sort(U32), tr), UF('store', store_sort(OFS), pr)
    loaded = And(UF('fs.loaded', BOOL, tj), UF('fs.loaded', BOOL, pj))
    parse = And(allparse(tj, U32), allparse(pj, OFS))
    distinct = And(UF('store.distinct', BOOL, tr), UF('store.distinct', BOOL, pr))
    valid = And(loaded, parse, distinct)
    st0 = {G_FILE: EMPTYSEQ, G_OUT: EMPTYSEQ, G_PATH: UNIT}
    L = Ite(Eq(Len(ms), ZERO), defaults, ms)
    rA, rcA, stA = run(v, main, 'main', [], [valid, Bind('all', Len(L), lambda i: UF('eval.ok', BOOL, T, P, At(L, i)))], False, st0)
    rB, rcB, stB = run(v, main, 'main', [], [], True, st0)      # no hypothesis on the input, any write may fail; a panic is a failure
    facts = passed(v)
    for given in (False, True):
        ne = Lt(ZERO, Len(ms)) if given else Eq(Len(ms), ZERO)
        L = ms if given else defaults
        n = Len(L)
        def ev(i): return UF('eval', EVAL, T, P, At(L, i))
        evok = Bind('all', n, lambda i: UF('eval.ok', BOOL, T, P, At(L, i)))
        ks = UF('eval.queries', MAP(STR, ADT('tuple')), T, P)
        cols = Concat(SeqLit([Series(S('query_id'), MkSeq(MLen(ks), lambda q: KeyAt(ks, q)))]),
                      MkSeq(n, lambda i: Series(UF('display', STR, At(L, i)), MkSeq(MLen(ks), lambda q: UF('eval.score', F64, T, P, At(L, i), KeyAt(ks, q))))))
        out = EMPTYSEQ
        if EXPAND[0]:
            tm = contents(T); sm = lambda q: MGet(tm, KeyAt(tm, q))
            nr = Bind('isum', MLen(tm), lambda q: Bind('isum', MLen(sm(q)), lambda i: Ite(Lt(ZERO, MGet(sm(q), KeyAt(sm(q), i))), ONE, ZERO)))
        else:
            ex = export(T)
            nr = Bind('isum', Len(ex), lambda i: Ite(Lt(ZERO, Fld(At(ex, i), 0, 2, U32)), ONE, ZERO))
        for t, x in (('n_queries_in_true', UF('store.n_queries', INT('usize'), T)), ('n_queries_in_pred', UF('store.n_queries', INT('usize'), P)),
                     ('n_docs_in_true', UF('store.n_docs', INT('usize'), T)), ('n_docs_in_pred', UF('store.n_docs', INT('usize'), P)), ('n_relevant_docs', nr)):
            out = append(out, strcat(S(t + '\t'), UF('dec', STR, x), S('\n')))
        k = fresh('k', IDX)
        out = Concat(out, flat(n, abst(SeqLit([UF('display', STR, At(L, k)), S('\t'), UF('fixed', STR, UF('eval.mean', F64, ev(k)), I(4)), S('\n')]), k)))
        name = 'given metrics' if given else 'default metrics'
        hyp = [valid, ne, evok]
        r, rc, st = rA, rcA, stA
        ok = And(rc, VarIs(r, 0)); H = hyp + [ok]
        v.equal(f'{name}: the report printed', assume(st[G_OUT], ok), out, H)
        csv = Not(VarIs(oc, 0))
        v.equal(f'{name}: no file without --output-csv', assume(st[G_PATH], And(ok, Not(csv))), UNIT, H + [Not(csv)])
        Hc = H + [csv]
        v.equal(f'{name}: the file is the one asked for', assume(st[G_PATH], And(ok, csv)), Fld(oc, 1, 0, PB), Hc)
        v.equal(f'{name}: the table written', assume(st[G_FILE], And(*hyp, rc)), Ite(And(csv, UF('df.ok', BOOL, cols)), SeqLit([csv_text(cols, Ite(tab, I(9), I(ord(','))))]), EMPTYSEQ), hyp + [rc])
        v.equal(f'{name}: the tool succeeds exactly when the table has distinct columns', ok, Or(Not(csv), UF('df.ok', BOOL, cols)), hyp)
        r, rc, st = rB, rcB, stB
        ok = And(rc, VarIs(r, 0)); H = [ne]
        for what, x in (('both files were read', loaded), ('every line parsed', parse), ('no record repeats', distinct), ('every metric was evaluated', evok)):
            v.holds(f'{name}: success implies that {what}', x, H + [settle(v, ok, H)] + facts)
            H += conj(x)
        for sepn, t, ch in (('comma', Not(tab), ','), ('tab', tab, '\t')):
            Hc = H + [csv, t]
            okc = settle(v, ok, Hc)
            v.equal(f'{name}, {sepn}: success implies that the whole table was written', settle(v, st[G_FILE], Hc + [okc]), SeqLit([csv_text(cols, I(ord(ch)))]), Hc + [okc] + facts)
def settle(v, t, H):
    """t simplified under H"""
    import prove
    prove._inprover[0] = True
    P = v.prover; H = And(*H); t = assume(t, H); H = tuple(prove.norm(h) for h in conj(H))
    t = prove.norm(t)
    for _ in range(3): t = P.firsts(P.simp(t, H), H)
    return t
def passed(v):
    """what holds of a run that did not panic: each check it made held, at every index"""
    from sym import Exec
    out = []
    for o in v.panics:
        body = Or(*[Not(h) for h in o.hyps], o.goal)
        ks = [x for x in body.fv if x.sort == IDX]
        if len(ks) > 1: continue
        for k in ks:
            N = next((n for n in (Exec.bound(None, h, k) for h in o.hyps) if n is not None), None)
            body = None if N is None else Bind('all', N, lambda i: subst(body, {k: i}))
        if body is not None: out.append(body)
    return out
def run(v, crate, key, args, hyps, faults, ghost, contracts=None):
    """every obligation of the fault-free run; the fault runs and the runs on invalid input need not be free of panics"""
    v.crate = crate; FAULTS[0] = faults
    try: return v.exec(key, args, hyps, ghost=ghost, obls='total' if not faults else 'partial', label=f'{crate.name}::{key}', contracts=contracts)
    finally: FAULTS[0] = True
