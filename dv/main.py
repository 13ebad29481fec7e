"""check PROP: verify one property against /repo's current tree; write evidence/PROP.json; report.

Exit 0: every obligation discharged (or: a function is out of the verifier's reach and its bounded stand-in found nothing).
Exit 1 and a VIOLATION line: a failing input was found on the real code, or an obligation is not accepted by the verifier.
"""
import sys, os, time, json, subprocess, fcntl, shutil, struct, resource
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
def sh(cmd, timeout, env=None):
    e = dict(os.environ); e.update(env or {})
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, text=True, errors='replace')
    except subprocess.TimeoutExpired as x: return 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
    return p.returncode, p.stdout, p.stderr
class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name)
    def __enter__(self): os.makedirs(BUILD, exist_ok=True); self.f = open(self.p, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

CLI = {'C30': 'elinor-convert', 'C31': 'elinor-evaluate', 'C32': 'elinor-compare'}     # properties of a command line tool
def dump(out, prop=None):
    b = CLI.get(prop)
    with Lock('dump.lock'):
        rc, o, e = sh(['bash', os.path.join(VERIF, 'tools/dump.sh'), out] + (['elinor-cli', '--bin', b] if b else []), 800)
    return rc == 0 and all(os.path.exists(os.path.join(out, f'{x}.json')) for x in ['elinor'] + ([b.replace('-', '_'), 'elinor_cli'] if b else [])), e[-3000:]

def mined(paths, out):
    """constants of the code under check: sizes and values around which a witness may hide"""
    ints, floats, strs = set(), set(), set()
    def f64(b): return struct.unpack('<d', int(b).to_bytes(8, 'little'))[0]
    def walk(x):
        if isinstance(x, dict):
            if x.get('o') == 'const' and 't' in x:
                k = x['t'].get('k')
                if 'str' in x: strs.add(x['str'])
                elif 'bits' in x and k == 'int':
                    v = int(x['bits']); n = x['t'].get('n', '')
                    if n.startswith('i') and x.get('size') and v >> (8 * x['size'] - 1): v -= 1 << (8 * x['size'])
                    ints.add(v)
                elif 'bits' in x and k == 'float': floats.add(f64(x['bits']))
            if x.get('t') == 'switch': ints.update(int(v) for v, _ in x['v'])
            if x.get('r') == 'cast' or x.get('k') == 'cast':
                n = str((x.get('ty') or x.get('t') or {}).get('n', '')) if isinstance(x.get('ty') or x.get('t'), dict) else ''
                if n in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32'): ints.add(1 << int(n[1:])); ints.add(1 << (int(n[1:]) - 1))
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    for path in paths:
        fs = json.load(open(path))['fns']
        for f in fs.values() if isinstance(fs, dict) else fs:
            if f.get('local') and 'clap_builder' not in (f.get('impl_trait') or ''): walk(f)
    ints.update((256, 300))
    for f in list(floats):
        if f == f and abs(f) < 1e15 and f == int(f): ints.add(int(f))
    for i in list(ints):
        if abs(i) < 1 << 53: floats.add(float(i))
    json.dump({'ints': sorted(map(str, ints)), 'floats': sorted(repr(f) for f in floats if f == f), 'strs': sorted(s for s in strs if len(s) < 40)}, open(out, 'w'))

REPLAY = os.path.join(VERIF, 'replay')
def build_replay():
    t = os.path.join(BUILD, 'replay')
    with Lock('replay.lock'):
        rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--locked'], 800, {'CARGO_TARGET_DIR': t, 'RUSTUP_TOOLCHAIN': 'stable', 'CARGO_NET_OFFLINE': 'true', 'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': '', 'PWD': REPLAY, 'CARGO_MANIFEST_DIR': ''}) if False else \
            sh(['bash', '-c', f'cd {REPLAY} && CARGO_TARGET_DIR={t} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS= cargo build --offline -q --locked'], 800)
    return (os.path.join(t, 'debug/replay') if rc == 0 else None), e[-2000:]

def build_cli(prop):
    t = os.path.join(BUILD, 'cli')
    with Lock('cli.lock'):
        rc, o, e = sh(['bash', os.path.join(VERIF, 'tools/cli.sh'), t, CLI[prop]], 700)
    return rc == 0, e[-2000:]

def search(exe, prop, seed, secs, cases, consts):
    rc, o, e = sh([exe, 'search', prop, str(seed), str(secs), str(cases), consts, ','.join(c for c, t in known(prop))], secs + 120)
    if rc == 1:
        try: return json.loads(o), None
        except ValueError: return None, {}
    if rc == 0:
        try: return None, json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError): return None, {}
    # the process died (stack overflow, allocation failure): that is a failure of the code under the generated input
    if rc < 0 or rc == 134: return {'property': prop, 'seed': seed, 'index': None, 'input': 'one of the generated cases', 'what': 'the call returns', 'expected': 'a result', 'actual': f'the process died with status {rc}: {e[-300:]}'}, None
    return None, {}

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(); prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError: seed = 1
    t0 = time.time()
    work = os.path.join(BUILD, f'run.{prop}.{os.getpid()}'); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try: return run(prop, tier, seed, t0, work)
    finally: shutil.rmtree(work, ignore_errors=True)

class OutOfTime(BaseException): pass

def run(prop, tier, seed, t0, work):
    ok, err = dump(work, prop)
    if not ok:
        print(f'ERROR: /repo does not compile to MIR:\n{err}'); return 2
    names = [n[:-5] for n in os.listdir(work) if n.endswith('.json')]
    if prop in CLI: names.remove('elinor')
    paths = {n: os.path.join(work, n + '.json') for n in names}
    consts = os.path.join(work, 'consts.json'); mined(sorted(paths.values()), consts)
    import check, specs, prove
    from mir import Crate
    v = check.V({n: Crate(p) for n, p in paths.items()}, known={c for c, t in known(prop)}, deadline=time.time() + (420 if tier == 'quick' else 600), timeout=2500 if tier == 'quick' else 10000)
    lost = []
    f = specs.PROPS.get(prop)
    import threading, ctypes
    me = threading.get_ident()
    # the solvers have their own limits; this one ends symbolic execution or rewriting that does not finish
    clock = threading.Timer((420 if tier == 'quick' else 600) + 60, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(OutOfTime)))
    clock.daemon = True; clock.start()
    try: f(v)
    except OutOfTime: lost.append('out of time')
    except specs.Unsupported as e: lost.append(f'{e}')
    except RecursionError: lost.append('recursion limit')
    except Exception as e:
        import traceback
        lost.append('internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + traceback.format_tb(e.__traceback__)[-1].strip().replace('\n', ' '))
    clock.cancel()
    vac = v.vacuity() if not lost else (0, [])
    tv = time.time() - t0
    failed = [r for r in v.results if r[2] == 'failed']
    late = [r for r in v.results if r[2] == 'out of time']
    if late: lost.append(f'out of time: {len(late)} obligations undecided, the first: {late[0][0]}')
    kfr = [r for r in v.results if r[2] == 'known finding']
    good = len(v.results) - len(failed) - len(kfr) - len(late)
    if vac[1]: lost.append('contradictory hypotheses: ' + '; '.join(vac[1][:3]))
    if not v.results: lost.append('no obligation was generated')
    # the same inputs-to-outputs relation run on the real code: a search for a failing input when a proof is missing, otherwise a check of the trusted contracts
    proved = not failed and not lost
    exe, berr = build_replay()
    wit, stats = None, {}
    if exe and prop in CLI:
        good_, berr = build_cli(prop)
        if not good_: exe = None
    if exe:
        if proved: secs, cases = (4 if prop not in CLI else 8, 20000) if tier == 'quick' else (60, 100000000)
        else: secs, cases = (75, 100000000) if tier == 'quick' else (300, 1000000000)
        wit, stats = search(exe, prop, seed, secs, cases, consts)
    else: print('note: the replay harness does not build: ' + berr[:500])
    stats = stats or {}
    out = os.path.join(VERIF, 'evidence'); os.makedirs(out, exist_ok=True)
    kinds = {}
    for r in v.results: kinds[r[1]] = kinds.get(r[1], 0) + 1
    kf = known(prop)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if not lost else 'exploration',
          'coverage': {
              'obligations': len(v.results), 'discharged': good, 'obligations_by_kind': kinds,
              'functions_under_contract': sorted(v.functions), 'n_functions': len(v.functions), 'callee_contracts_used': sorted(v.contracts),
              'back_ends': {'structural prover (dv/prove.py)': 'every obligation', 'z3 queries': v.prover.nq, 'z3_seconds': round(v.prover.tq, 2)},
              'vacuity_checks': vac[0],
              'checker_cmd': f'python3-vt dv/main.py {prop}',
              'trusted_base': ['rustc front end and MIR construction (the verified text is the MIR the compiler builds from /repo)', 'mirdump (MIR to JSON), dv/sym.py (MIR semantics), dv/prove.py, z3'] + sorted('contract: ' + s for s in v.std),
              'evaluations': int(stats.get('evaluations', 0)), 'distinct_nontrivial': int(stats.get('distinct', 0)),
              'rule': 'conformance of the trusted contracts: generated inputs (sizes and values biased to the constants mined from the code) run on the real crate against an independent oracle; distinct by printed input; never counted as proved',
              'samples': [{'obligation': r[0], 'kind': r[1], 'status': r[2]} for r in (failed + v.results)[:12]],
              'unreached': lost,
              'known_findings': {'obligations not discharged': [r[0] for r in kfr], 'failing inputs met': {k: x.get('count') for k, x in (stats.get('known') or {}).items()}},
          },
          'assumptions': ASSUME, 'wall_s': 0.0, 'violations': 0}
    if lost: ev['coverage']['explanation'] = 'the verifier could not process the current code; a bounded stand-in (the generated cases counted under evaluations) ran instead'
    rc = 0
    rdir = os.path.join(out, 'replay'); rp = os.path.join(rdir, f'{prop}.json')
    if os.path.exists(rp): os.remove(rp)
    if wit is not None or failed:
        os.makedirs(rdir, exist_ok=True)
        rep = {'property': prop, 'failing_input': wit, 'failed_obligations': [{'name': r[0], 'kind': r[1], 'verifier_output': r[3]} for r in failed], 'unreached': lost}
        if wit is not None:
            shutil.copy(consts, os.path.join(rdir, f'{prop}.consts.json'))
            rep['rerun'] = f'{BUILD}/replay/debug/replay case {prop} {wit["seed"]} {wit["index"]} {rdir}/{prop}.consts.json'
        else:
            rep['search'] = f'no failing input among {stats.get("evaluations", 0)} generated cases'
        json.dump(rep, open(rp, 'w'), indent=1)
        for r in failed[:8]: print(f'FAILED OBLIGATION: {r[0]} [{r[1]}]')
        if wit is not None: print(f'FAILING INPUT: {wit["what"]}: expected {str(wit["expected"])[:300]}, got {str(wit["actual"])[:300]}\n  for {wit["input"][:600]}')
        print(f'VIOLATION property={prop} replay={rp}' + ('' if wit is not None else ' no-failing-input-found'))
        ev['violations'] = 1; rc = 1
    elif lost:
        print(f'BOUNDED: property={prop} the verifier cannot process the current code ({lost[0][:300]}); its bounded stand-in found no failing input in {stats.get("evaluations", 0)} cases')
    else:
        print(f'OK: property={prop} {good} obligations discharged over {len(v.functions)} functions in {tv:.1f}s; {stats.get("evaluations", 0)} conformance cases')
    for c, k in kf: print(f'KNOWN-FINDING: property={prop} {k}')
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(out, f'{prop}.json'), 'w'), indent=1)
    return rc

ASSUME = [
    'floating point: values of f64 are treated as real numbers (no rounding, no overflow); NaN and infinities arise only where an obligation proves the operation undefined or a precondition names them',
    'machine integers are exact: every arithmetic operation of /repo carries a no-overflow obligation, except sums of lengths of collections, which are assumed to stay below 2^31',
    'standard library and dependency functions obey the contracts listed under trusted_base (dv/std.py)',
    'Ord, Eq and Clone of a generic key type are a total order, its equality, and identity',
    'allocation never fails',
]
def known(prop):
    """recorded findings of the property: (class, text)"""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'finding: property={prop} class='):
                c, t = l.split('class=', 1)[1].strip().split(' ', 1); out.append((c, t))
    return out

if __name__ == '__main__':
    import threading
    threading.stack_size(1 << 30)
    sys.setrecursionlimit(60000)
    r = []
    t = threading.Thread(target=lambda: r.append(main())); t.start(); t.join()
    sys.stdout.flush()
    os._exit(r[0] if r else 2)
