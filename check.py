#!/usr/bin/env python3
"""check.py ID: decides one property for /repo's current working tree.

1. Proof: the contract module contracts/<id>.py extracts the functions which the
   property depends on from /repo/src and attaches contracts; Verus discharges
   every obligation. A second run of the same file with a false assertion at
   the head of each contracted function and loop must fail at each of them.
2. Replay: the replay crate is built against /repo and searches for an input
   on which the real, compiled code breaks the property (bounded; this is the
   counterexample search for failed obligations, and the bounded stand-in for
   the functions around the proved core).
"""
import importlib, json, os, re, shutil, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path[:0] = [os.path.join(VERIF, 'tools'), VERIF]
import vx, fresh

ID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER') or 'quick'
if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
    TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED') or 1)
T0 = time.time()
LEFT = (800 if TIER == 'quick' else 3600)

PROOF_FAIL = [
    'postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
    'possible arithmetic underflow/overflow', 'possible division by zero', 'possible bit shift',
    'decreases not satisfied', 'could not prove termination', 'fails to satisfy', 'unable to prove',
    'loop ensures', 'not satisfied', 'might not', 'may not be', 'cannot show', 'out of bounds', 'unreachable',
]


# ------------------------------------------------------------------ proof

def run_verus(path, extra=(), timeout=400):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', '40', *extra, '--', '--error-format=json']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'cmd': ' '.join(cmd)}
    try:
        d = json.loads(p.stdout)
    except ValueError:
        return {'status': 'unsupported', 'messages': [p.stderr[-2000:]], 'cmd': ' '.join(cmd)}
    diags = []
    for line in p.stderr.split('\n'):
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting due to'):
            diags.append(m)
    vr = d.get('verification-results', {})
    fb = []
    for mod in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        fb += mod.get('function-breakdown', [])
    res = {
        'cmd': ' '.join(cmd), 'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0),
        'functions': {f['function'].split('::', 1)[-1]: bool(f['success']) for f in fb},
        'smt_ms': d.get('times-ms', {}).get('smt', {}).get('smt-run', 0), 'diags': diags,
    }
    if vr.get('encountered-vir-error') or 'verified' not in vr or (diags and not vr.get('errors')):
        res['status'] = 'unsupported'
    elif any('rlimit' in m['message'] or 'Resource limit' in m['message'] for m in diags):
        res['status'] = 'rlimit'
    elif vr.get('success') and not diags:
        res['status'] = 'ok'
    elif diags and all(any(s in m['message'] for s in PROOF_FAIL) for m in diags):
        res['status'] = 'failed'
    else:
        res['status'] = 'unsupported'
    res['messages'] = [m.get('rendered') or m['message'] for m in diags]
    return res


def fn_at(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r'\s*(?:pub )?(?:open |closed )?(?:spec |proof |const )*fn\s+(\w+)', lines[i])
        if m:
            return m.group(1)
    return '?'


def obligation_names(diags, path):
    lines = open(path).read().splitlines()
    out = []
    for m in diags:
        sp = next((s for s in m['spans'] if s.get('is_primary')), m['spans'][0] if m['spans'] else None)
        where = f"{fn_at(lines, sp['line_start'])}: `{sp['text'][0]['text'].strip()[:160]}`" if sp and sp.get('text') else '?'
        ats = [f"{fn_at(lines, s['line_start'])}: `{s['text'][0]['text'].strip()[:160]}`" for s in m['spans'] if s is not sp and s.get('text')]
        out.append(f"{m['message']}: {where}" + (f" ({'; '.join(ats)})" if ats else ''))
    return out


def scan_trusted(src):
    """Every assumption in the generated file, found mechanically."""
    out = []
    for m in re.finditer(r'assume_specification[^;{]*?\[\s*([^\]]+?)\s*\]\s*\(', src):
        out.append('assume_specification ' + re.sub(r'\s+', ' ', m.group(1)))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?((?:proof |const |unsafe )*fn\s+\w+|struct\s+\w+)', src):
        out.append('external_body ' + re.sub(r'\s+', ' ', m.group(1)))
    for m in re.finditer(r'#\[verifier::external_type_specification\][^;{]*?struct\s+\w+\s*(?:<[^>]*>)?\s*\(([^)]*)\)', src):
        out.append('external_type_specification ' + m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(', src):
        out.append(f'{m.group(1)}(...) in ' + fn_at(src[:m.start()].splitlines() + [''], len(src[:m.start()].splitlines())))
    for m in re.finditer(r'axiom fn (\w+)|uninterp spec fn (\w+)', src):
        out.append(('axiom ' + m.group(1)) if m.group(1) else ('uninterpreted ' + m.group(2)))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def prove_unit(unit_fn, idx, results):
    r = {'unit': getattr(unit_fn, '__name__', str(idx))}
    results[idx] = r
    t = time.time()
    try:
        try:
            u = unit_fn()
            r['unit'] = u.name
            u.auto_helpers()
            src = u.source()
            vac = u.source(vacuity=True)
        except vx.AnchorLost as e:
            r['status'] = 'anchor-lost'
            r['messages'] = [str(e)]
            return
        d = os.path.join(BUILD, 'verus', ID, u.name)
        os.makedirs(os.path.join(d, 'vac'), exist_ok=True)
        path = os.path.join(d, u.name + '.rs')
        open(path, 'w').write(src)
        vpath = os.path.join(d, 'vac', u.name + '.rs')
        open(vpath, 'w').write(vac)
        r['file'] = path
        r['helpers'] = u.helpers
        r['functions_under_contract'] = [f'{f.path}::{f.name}' for f in u.fns if not getattr(f, 'uncontracted', False)]
        r['items'] = [f'{p}::{k} {n}' for p, k, n, _ in u.items]
        r['substitutions'] = sorted({f'{f.name}: `{p}` => `{q}`' for f in u.fns for p, q, c in f.subs} | {f'{n}: `{p}` => `{q}`' for _, _, n, ss in u.items for p, q, c in ss})
        r['trusted'] = scan_trusted(src) + u.trusted
        vres = {}
        want = vac.count('/* VACUITY */')
        def vacuity():
            vres.update(run_verus(vpath, ['--rlimit', str(u.rlimit), '--multiple-errors', '40'][:2]))
        th = threading.Thread(target=vacuity)
        th.start()
        p = run_verus(path, ['--rlimit', str(u.rlimit)])
        if p['status'] in ('failed', 'rlimit'):
            # solver instability must not look like a failed obligation
            for seed in (7, 23):
                q = run_verus(path, ['--rlimit', str(u.rlimit * 3), '--smt-option', f'smt.random_seed={seed}'])
                if q['status'] == 'ok':
                    p = q
                    break
        th.join()
        r.update({k: p.get(k) for k in ('status', 'verified', 'errors', 'functions', 'smt_ms', 'messages', 'cmd')})
        if p['status'] == 'failed':
            r['obligations_failed'] = obligation_names(p['diags'], path)
            if u.helpers:
                r['status'] = 'uncontracted-helper'
        if p['status'] == 'ok':
            got = sum(1 for m in vres.get('diags', []) if m['message'] == 'assertion failed' and any('VACUITY' in (t['text'] if t else '') for s in m['spans'] for t in s.get('text', [])[:1]))
            r['vacuity_expected'], r['vacuity_failed_as_expected'] = want, got
            if want == 0 or not r['verified']:
                r['status'] = 'vacuous'
            elif got != want:
                r['status'] = 'vacuous'
                r['messages'] = [f'{want - got} of {want} false assertions were not refuted', str(vres.get('status'))] + (vres.get('messages') or [])[:3]
    except Exception:
        r['status'] = 'tool-error'
        r['messages'] = [traceback.format_exc()]
    finally:
        r['wall_s'] = round(time.time() - t, 2)


def prove():
    try:
        mod = importlib.import_module(f'contracts.{ID.lower()}')
    except ModuleNotFoundError as e:
        if f'contracts.{ID.lower()}' in str(e):
            return []
        raise
    fns = mod.UNITS
    results = [None] * len(fns)
    sem = threading.Semaphore(3)
    def go(i, f):
        with sem:
            prove_unit(f, i, results)
    ths = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fns)]
    for t in ths: t.start()
    for t in ths: t.join()
    return results


# ------------------------------------------------------------------ replay

def build_replay(state):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    fresh.prepare(REPO, os.path.join(BUILD, 'target'))
    src = os.path.join(VERIF, 'replay')
    work = src
    if REPO != '/repo':
        work = os.path.join(BUILD, 'replay-src')
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(src, work, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(work, 'Cargo.toml')
        s = open(p).read().replace('"/repo"', f'"{REPO}"')
        open(p, 'w').write(s)
    base = '--cap-lints allow'
    for hook in (True, False):
        env['RUSTFLAGS'] = base + (' --cfg papyri_verif' if hook else '')
        p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(work, 'Cargo.toml')],
                           env=env, capture_output=True, text=True)
        if p.returncode == 0:
            state.update(ok=True, hook=hook, bin=os.path.join(BUILD, 'target', 'debug', 'papyri-replay'))
            break
        state.setdefault('errors', []).append(p.stderr[-3000:])
    else:
        state['ok'] = False
        return
    if ID in ('C04', 'C16'):
        env['RUSTFLAGS'] = base + (' --cfg papyri_verif' if state['hook'] else '')
        p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--bin', 'papyri',
                            '--config', 'profile.dev.opt-level=1'], env=env, capture_output=True, text=True)
        if p.returncode == 0:
            state['papyri'] = os.path.join(BUILD, 'target', 'debug', 'papyri')
        else:
            state.setdefault('errors', []).append(p.stderr[-3000:])


def run_replay(state):
    trace = os.path.join(BUILD, f'trace-{ID}')
    env = dict(os.environ, REPLAY_TRACE=trace)
    if state.get('papyri'):
        env['PAPYRI_BIN'] = state['papyri']
    if os.path.exists(trace):
        os.remove(trace)
    lim = max(60, LEFT - (time.time() - T0))
    try:
        p = subprocess.run([state['bin'], ID, TIER, str(SEED)], env=env, capture_output=True, text=True, timeout=lim, errors='replace')
    except subprocess.TimeoutExpired:
        return {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'timed out', 'samples': [], 'violations': [], 'incomplete': True}
    line = next((l for l in reversed(p.stdout.split('\n')) if l.startswith('{"evaluations"')), None)
    if line:
        return json.loads(line)
    if p.returncode == 3:
        return None
    last = open(trace, errors='replace').read() if os.path.exists(trace) else '?'
    if p.returncode < 0:
        return {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'aborted', 'samples': [last], 'violations': [
            {'key': 'abort', 'case': last, 'expected': 'the case ends normally', 'got': f'the process was ended by signal {-p.returncode}: {p.stderr[-500:]}'}]}
    return {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the replay harness failed', 'samples': [p.stderr[-500:]], 'violations': [], 'incomplete': True}


# ------------------------------------------------------------------ known findings

def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) case=(\S+) (.*)', line.strip())
            if m and m.group(1) == ID:
                out.append((m.group(2), json.loads('"' + m.group(3) + '"') if '\\' in m.group(3) else m.group(3), m.group(4)))
    return out


def main():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    state = {}
    bt = threading.Thread(target=build_replay, args=(state,))
    bt.start()
    proofs = prove()
    bt.join()
    rep = run_replay(state) if state.get('ok') else None
    viol, known = [], []
    kf = known_findings()
    for v in (rep or {}).get('violations', []):
        k = next((k for k in kf if k[0] == v['key'] and k[1] in ('*', v['case'])), None)
        (known if k else viol).append((v, k))

    failed = [p for p in proofs if p['status'] == 'failed']
    undecided = [p for p in proofs if p['status'] not in ('ok', 'failed')]
    done = [p for p in proofs if p['status'] == 'ok']

    obligations = sum((p.get('verified') or 0) + (p.get('errors') or 0) for p in proofs)
    discharged = sum((p.get('verified') or 0) for p in proofs)
    full = bool(proofs) and not failed and not undecided
    bounded = {
        'label': 'bounded: a search for a failing input on the compiled code of /repo; never counted as proved',
        'evaluations': (rep or {}).get('evaluations', 0),
        'distinct_nontrivial': (rep or {}).get('distinct_nontrivial', 0),
        'rule': (rep or {}).get('rule', 'the replay crate could not be built'),
        'samples': (rep or {}).get('samples', []),
        'hook': bool((rep or {}).get('hook')),
    }
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'verus FILE.rs --rlimit N (FILE.rs generated by contracts/%s.py from /repo/src on this run)' % ID.lower(),
        'trusted_base': sorted({t for p in proofs for t in p.get('trusted', [])} | {
            'Verus 0.2026.09.13, its vstd specifications and the Z3 it ships with',
            'tools/vx.py: the extraction keeps the executable text except for the substitutions listed below, comments, attributes and visibility'}),
        'functions_under_contract': sorted({f for p in proofs for f in p.get('functions_under_contract', [])}),
        'types_extracted': sorted({f for p in proofs for f in p.get('items', [])}),
        'substitutions': sorted({f for p in proofs for f in p.get('substitutions', [])}),
        'units': [{k: p.get(k) for k in ('unit', 'status', 'verified', 'errors', 'smt_ms', 'wall_s', 'vacuity_expected', 'vacuity_failed_as_expected', 'helpers', 'functions')} for p in proofs],
        'solver': 'Z3 (bundled with Verus)',
        'solver_ms': sum(p.get('smt_ms') or 0 for p in proofs),
        'proof_redone': full,
        'bounded': bounded,
    }
    if undecided:
        cov['not_redone'] = [{'unit': p['unit'], 'status': p['status'], 'why': (p.get('messages') or ['?'])[:2]} for p in undecided]
    level = 'proof'
    if not full and not failed:
        level = 'exploration'
        cov.update({k: bounded[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples')})
        cov['rule'] += ' (bounded stand-in: the proof was not redone, see not_redone)'
    ev = {'property': ID, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - T0, 2)}
    if not state.get('ok'):
        cov['replay_build_errors'] = state.get('errors', [])
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{ID}.json'), 'w'), indent=1)

    for v, k in known:
        print(f'KNOWN-FINDING: property={ID} {k[2]}')
    for p in undecided:
        print(f'note: {ID}: proof of unit {p["unit"]} not redone ({p["status"]}): {(p.get("messages") or ["?"])[0][:300]}')
    print(f'{ID}: {discharged}/{obligations} obligations, {len(done)}/{len(proofs)} units proved; bounded search: {bounded["evaluations"]} cases, {len(viol)} violations; {time.time() - T0:.0f} s')
    if not viol and not failed:
        return 0
    rdir = os.path.join(BUILD, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f'{ID}.json')
    json.dump({
        'property': ID,
        'failing_inputs': [v for v, _ in viol],
        'how_to_replay': f'{state.get("bin")} {ID} {TIER} {SEED}' if viol else None,
        'failed_obligations': [o for p in failed for o in p.get('obligations_failed', [])],
        'verifier_output': [m for p in failed for m in (p.get('messages') or [])],
        'verus_files': [p.get('file') for p in failed],
    }, open(rp, 'w'), indent=1)
    for o in [o for p in failed for o in p.get('obligations_failed', [])]:
        print('failed obligation:', o)
    for v, _ in viol:
        print(f'failing input: [{v["key"]}] {v["case"]!r}: expected {v["expected"]!r}, got {v["got"]!r}'[:1500])
    tail = '' if viol else ' no-failing-input-found'
    print(f'VIOLATION property={ID} replay={rp}{tail}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
