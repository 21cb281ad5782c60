#!/usr/bin/env python3
"""Decide one property: check.py <PROPERTY>.  Environment: VERIF_SEED, VERIF_TIER.

1. extract the contracted functions of /repo's working tree into Verus files (extractor/, units/),
2. let Verus discharge every obligation of them,
3. run the bounded differential harness (harness/) for the functions without a contract and to
   find a concrete input when an obligation fails.
"""
import json, os, re, subprocess, sys, time, threading, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS, UNIT_NOTES, COMMON_ASSUMPTIONS

VERUS = 'verus'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(dirname):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(V, dirname), env=e)
    return r.returncode, r.stderr


# ---------------------------------------------------------------- Verus units
class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = 'ok'          # ok | failed | inconclusive
        self.notes = []
        self.failures = []          # dict(fn, msg, line, rendered)
        self.disabled = {}          # fn id -> why
        self.fns = []               # extractor report
        self.verified = 0
        self.errors = 0
        self.obligations = 0
        self.failed_obligations = 0
        self.smt_ms = 0
        self.wall = 0
        self.times = {}
        self.trusted = []
        self.canary = None
        self.cmd = ''
        self.substs = []
        self.per_fn = {}


def regions(text):
    out, cur = [], None
    for n, l in enumerate(text.splitlines(), 1):
        if l.startswith('//@@begin '):
            cur = (l[10:].strip(), n)
        elif l.startswith('//@@end ') and cur:
            out.append((cur[0], cur[1], n))
            cur = None
    return out


def region_of(regs, line):
    for i, a, b in regs:
        if a <= line <= b:
            return i
    return None


def diags(stderr):
    ds = []
    for l in stderr.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try:
                ds.append(json.loads(l))
            except ValueError:
                pass
    return ds


def diag_region(d, regs):
    """the contracted function a diagnostic belongs to: its primary span first, then any span"""
    spans = d.get('spans') or []
    for want in (True, False):
        for s in spans:
            if s.get('is_primary', False) == want:
                r = region_of(regs, s['line_start'])
                if r:
                    return r
    return None


def fail_region(d, regs):
    """function whose body generated a failed obligation: for a failed precondition the call site
    is primary; for a failed postcondition the body's exit carries a label"""
    spans = d.get('spans') or []
    order = sorted(spans, key=lambda s: 0 if 'at this exit' in (s.get('label') or '') or 'at the end of the function body' in (s.get('label') or '')
                   else 1 if s.get('is_primary') else 2)
    for s in order:
        r = region_of(regs, s['line_start'])
        if r:
            return r
    return None


def extract(unit, work, disabled, canary=False):
    out = f'{work}/{unit}{"_canary" if canary else ""}.rs'
    rep = f'{work}/{unit}{"_canary" if canary else ""}.json'
    cmd = [f'{V}/extractor/target/debug/extractor', REPO, f'{V}/units/{unit}.vrs', out, rep]
    for d in disabled:
        cmd += ['--disable', d]
    e = dict(os.environ)
    if canary:
        e['EXTRACT_CANARY'] = '1'
    r = sh(cmd, env=e)
    if r.returncode != 0 or not os.path.exists(rep):
        return None, None, r.stderr[-2000:]
    return out, json.load(open(rep)), ''


def run_verus(path, work, log=None, timeout=420, rlimit=None):
    cmd = [VERUS, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4', path]
    if log:
        cmd += ['--log-dir', log, '--log', 'air']
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    try:
        r = sh(cmd, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, [], 'timeout'
    try:
        j = json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError:
        j = None
    return j, diags(r.stderr), r.stderr


def count_obligations(log):
    """obligations Verus generated, per function: labelled asserts in the AIR log"""
    per = {}
    for root, _, files in os.walk(log):
        for f in files:
            if not f.endswith('.air'):
                continue
            cur = None
            prev = ''
            for l in open(os.path.join(root, f), errors='replace'):
                s = l.strip()
                if s.startswith(';; '):
                    m = re.match(r';; Function-Def (\S+)', s)
                    if m:
                        cur = m.group(1)
                        per.setdefault(cur, 0)
                    elif re.match(r';; (Function|Datatypes|Traits|Fuel|MODULE|Assoc|Opaque|Trait)', s):
                        cur = None
                if cur and prev.startswith('(assert') and s.startswith('("') or (cur and s.startswith('(assert ("')):
                    per[cur] += 1
                prev = s
    return per


TRUST_RE = re.compile(r'assume_specification|external_body|\bassume\s*\(|\badmit\s*\(|verifier::external\b|external_type_specification|external_trait_specification|\buninterp\b|\baxiom\b')


def scan_trusted(text, regs):
    """everything in the verified file that Verus takes on faith"""
    out = []
    lines = text.splitlines()
    for n, l in enumerate(lines, 1):
        c = l.split('//')[0]
        m = TRUST_RE.search(c)
        if not m:
            continue
        what = m.group(0).strip().rstrip('(').strip()
        name = region_of(regs, n)
        if not name:
            t = ' '.join(lines[n - 1:n + 6])
            mm = re.search(r'assume_specification.*?\[\s*(.*?)\s*\]\s*\(', t) if what == 'assume_specification' else None
            if not mm:
                mm = re.search(r'\b(?:fn|struct|enum|trait)\s+(\w+)', t)
            name = mm.group(1) if mm else t.strip()[:80]
        e = f'{what}: {name}'
        if e not in out:
            out.append(e)
    return out


def verify_unit(unit, work, tier):
    u = UnitResult(unit)
    t0 = time.time()
    rl = 60 if tier == 'thorough' else 20
    for attempt in range(8):
        out, rep, err = extract(unit, work, sorted(u.disabled))
        if out is None:
            u.status = 'inconclusive'
            u.notes.append('extractor: ' + err)
            break
        for f in rep['fns']:
            if f['error'] and f['id'] not in u.disabled:
                u.disabled[f['id']] = 'not extractable: ' + f['error']
        u.fns = rep['fns']
        u.substs = rep.get('substs', [])
        if rep['fatal']:
            u.status = 'inconclusive'
            u.notes += ['lost anchor: ' + x for x in rep['fatal']]
            break
        text = open(out).read()
        regs = regions(text)
        log = f'{work}/{unit}_log'
        shutil.rmtree(log, ignore_errors=True)
        u.cmd = f'verus --rlimit {rl} {os.path.basename(out)} (generated by extractor from units/{unit}.vrs)'
        j, ds, raw = run_verus(out, work, log, rlimit=rl)
        errs = [d for d in ds if d.get('level') == 'error' and d.get('spans')]
        vr = (j or {}).get('verification-results')
        if vr is None or vr.get('encountered-vir-error') or (vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0):
            new = {}
            for d in errs:
                r = diag_region(d, regs)
                if r and r not in u.disabled:
                    new[r] = 'outside the accepted subset: ' + d['message'][:200]
            if new:
                u.disabled.update(new)
                continue
            u.status = 'inconclusive'
            u.notes.append('verus: ' + ('; '.join(d['message'] for d in errs)[:600] or raw[-600:]))
            break
        u.verified, u.errors = vr['verified'], vr['errors']
        smt = j.get('times-ms', {}).get('smt', {})
        u.smt_ms = smt.get('smt-run', 0) or 0
        for m in smt.get('smt-run-module-times', []) or []:
            for f in m.get('function-breakdown', []) or []:
                u.times[f['function']] = f.get('time-micros', 0)
        rlim = {}
        for d in errs:
            if 'rlimit' in d['message'] or 'Resource limit' in d['message']:
                r = diag_region(d, regs)
                if r:
                    rlim[r] = 'solver gave no answer (resource limit)'
                else:
                    u.notes.append('resource limit in ' + d['message'][:200])
        if rlim and not set(rlim) <= set(u.disabled):
            u.disabled.update(rlim)
            continue
        u.per_fn = count_obligations(log)
        u.obligations = sum(u.per_fn.values())
        shutil.rmtree(log, ignore_errors=True)
        u.trusted = scan_trusted(text, regs)
        bad = 0
        for d in errs:
            if 'rlimit' in d['message'] or 'Resource limit' in d['message']:
                bad += 1
                continue
            if d['message'].startswith('aborting due to'):
                continue
            r = fail_region(d, regs)
            sp = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
            u.failures.append(dict(fn=r, msg=d['message'], line=sp[0]['line_start'],
                                   text=' / '.join(x['text'].strip() for x in sp[0].get('text', []))[:300],
                                   rendered=d.get('rendered', '')[:4000]))
            bad += 1
        u.failed_obligations = bad
        u.status = 'failed' if any(f['fn'] for f in u.failures) else 'inconclusive' if u.failures else 'ok'
        if u.status == 'inconclusive':
            u.notes.append('a lemma about extracted types is no longer provable: ' + u.failures[0]['msg'] + ' ' + u.failures[0]['text'])
        break
    else:
        u.status = 'inconclusive'
        u.notes.append('did not settle after 8 rounds')
    u.wall = time.time() - t0
    return u


def canary_unit(unit, work, disabled):
    """vacuity guard: with assert(false) put first in every contracted body, every one must fail"""
    out, rep, err = extract(unit, work, sorted(disabled), canary=True)
    if out is None or rep['fatal']:
        return None
    text = open(out).read()
    regs = regions(text)
    j, ds, raw = run_verus(out, work)
    hit = set()
    for d in ds:
        if d.get('level') == 'error' and d.get('message') == 'assertion failed':
            for s in d['spans']:
                if any('assert(false)' in re.sub(r'\s', '', x['text']) for x in s.get('text', [])):
                    r = region_of(regs, s['line_start'])
                    if r:
                        hit.add(r)
    want = {f['id'] for f in rep['fns'] if not f['trusted'] and not f['error'] and not f.get('disabled') and f['id'] not in disabled}
    return dict(functions=len(want), refuted=len(hit & want), vacuous=sorted(want - hit))


# ---------------------------------------------------------------- harness
def harness(prop, work, seed, secs, known, tag='run'):
    out = f'{work}/{tag}.json'
    if os.path.exists(out):
        os.remove(out)
    base = [f'{V}/harness/target/debug/bluejay-harness', 'run', prop, '--seed', str(seed), '--secs', str(secs), '--out', out]
    for k in known:
        base += ['--known', k]
    try:
        r = sh(base, cwd=work, timeout=secs + 200)
        rc = r.returncode
        err = r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return dict(error='harness did not stop', failures=[])
    if rc in (0, 1) and os.path.exists(out):
        return json.load(open(out))
    if rc < 0 or rc >= 128:
        # the code under test took the process down (stack overflow, abort): find the case
        tr = f'{work}/trace'
        shutil.rmtree(tr, ignore_errors=True)
        os.makedirs(tr)
        try:
            sh(base + ['--trace', tr], cwd=work, timeout=secs * 4 + 200)
        except subprocess.TimeoutExpired:
            pass
        for f in sorted(os.listdir(tr)):
            p = os.path.join(tr, f)
            try:
                q = sh([base[0], 'replay', p], timeout=60)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode < 0 or q.returncode >= 128:
                c = json.load(open(p))
                c['class'] = 'process aborted'
                c['detail'] = 'the process died (signal %d): %s' % (-q.returncode, q.stderr[-400:])
                return dict(error=None, failures=[c], evaluations=1, distinct_nontrivial=1, rule='', samples=[])
    return dict(error=f'harness exit {rc}: {err}', failures=[])


def replay(path):
    try:
        r = sh([f'{V}/harness/target/debug/bluejay-harness', 'replay', path], timeout=120)
    except subprocess.TimeoutExpired:
        return True, 'no answer within 120 s'
    return r.returncode not in (0, 3), r.stdout[-1500:]


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    work = f'{V}/work/{prop}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    with ThreadPoolExecutor(2) as ex:
        fe, fh = ex.submit(build, 'extractor'), ex.submit(build, 'harness')
        (ec, ee), (hc, he) = fe.result(), fh.result()
    if ec != 0:
        print('extractor does not build:\n' + ee[-3000:])
        return 3
    if hc != 0:
        print('harness does not build against the current tree:\n' + he[-3000:])
    kf = json.load(open(f'{V}/known-findings.json'))
    known = [k for k in kf['findings'] if k['property'] == prop]
    secs = 540 if tier == 'thorough' else cfg.get('secs', 20)
    units = cfg.get('units', [])
    lines = []
    with ThreadPoolExecutor(8) as ex:
        hf = ex.submit(harness, prop, work, seed, secs, [k['class'] for k in known]) if hc == 0 and cfg.get('harness', True) else None
        ufs = [ex.submit(verify_unit, n, work, tier) for n in units]
        us = [f.result() for f in ufs]
        cfs = [ex.submit(canary_unit, u.name, work, u.disabled) for u in us if u.status != 'inconclusive']
        for f, u in zip(cfs, [u for u in us if u.status != 'inconclusive']):
            u.canary = f.result()
        hr = hf.result() if hf else dict(error='not run', failures=[])
    violations = []
    os.makedirs(f'{work}/replay', exist_ok=True)

    def report_case(f):
        h = hashlib.sha1(json.dumps(f['case']).encode()).hexdigest()[:10]
        p = f'{work}/replay/{h}.json'
        json.dump(f, open(p, 'w'), indent=1)
        ok, txt = replay(p)
        violations.append(p)
        print(f"{prop}: {f['class']}\n{f['detail'][:3000]}\nreplay {'reproduces it' if ok else 'DID NOT reproduce it'}: {V}/harness/target/debug/bluejay-harness replay {p}")
        lines.append(f'VIOLATION property={prop} replay={p}')

    for f in hr.get('failures', []):
        report_case(f)
    # obligations that failed
    scope = cfg.get('scope')
    failed = [(u, f) for u in us for f in u.failures if f['fn'] and (not scope or re.search(scope, f['fn']))]
    extended = None
    if failed and not violations:
        if hf and not hr.get('error'):
            extended = harness(prop, work, seed + 7919, 600 if tier == 'thorough' else 150, [k['class'] for k in known], 'extended')
            for f in extended.get('failures', []):
                report_case(f)
        if not violations:
            u, f = failed[0]
            src = next((x['src'] for x in u.fns if x['id'] == f['fn']), '')
            p = f'{work}/replay/obligation.json'
            json.dump(dict(property=prop, kind='failed obligation', unit=u.name, function=f['fn'], source=src,
                           obligation=f['msg'], at=f['text'], rerun=f'{V}/check.py {prop}',
                           all=[dict(unit=a.name, function=b['fn'], obligation=b['msg'], at=b['text'], output=b['rendered']) for a, b in failed]),
                      open(p, 'w'), indent=1)
            violations.append(p)
            print(f"{prop}: obligation of {f['fn']} ({src}) not discharged: {f['msg']}\n{f['rendered']}")
            lines.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    elif failed:
        for u, f in failed[:3]:
            print(f"{prop}: obligation of {f['fn']} not discharged: {f['msg']}: {f['text']}")
    for k in known:
        p = f'{work}/replay/known.json'
        json.dump(dict(property=prop, case=k['case']), open(p, 'w'))
        again = hc == 0 and replay(p)[0]
        if again:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in us:
        for n in u.notes:
            print(f'note: unit {u.name}: {n[:500]}')
        for d, w in u.disabled.items():
            print(f'note: unit {u.name}: {d} left to the bounded check: {w[:300]}')
        if u.canary and u.canary['vacuous']:
            print(f"note: unit {u.name}: unreachable contracts {u.canary['vacuous']}")
    if hr.get('error'):
        print('note: harness:', hr['error'])
    # ------------------------------------------------------------ evidence
    obl = sum(u.obligations for u in us)
    bad = sum(u.failed_obligations for u in us)
    fns = [(u, f) for u in us for f in u.fns]
    proved = [f['id'] for u, f in fns if u.status != 'inconclusive' and not f['trusted'] and f['id'] not in u.disabled
              and not any(x['fn'] == f['id'] for x in u.failures)]
    cov = dict(
        obligations=obl, discharged=obl - bad,
        checker_cmd=' ; '.join(u.cmd for u in us),
        trusted_base=sorted({t for u in us for t in u.trusted}),
        back_end='Verus 0.2026.09.13 over Z3',
        functions_under_contract=len(proved),
        contracted_functions=[dict(id=f['id'], src=f['src'], line=f['line'], inlined=f.get('inlined', [])) for u, f in fns if f['id'] in set(proved)],
        functions_trusted=[f['id'] for u, f in fns if f['trusted']],
        functions_left_to_bounded_check=[dict(unit=u.name, fn=d, why=w) for u in us for d, w in u.disabled.items()],
        units=[dict(unit=u.name, status=u.status, verified_items=u.verified, errors=u.errors, obligations=u.obligations,
                    solver_ms=u.smt_ms, wall_s=round(u.wall, 2), notes=u.notes, vacuity=u.canary) for u in us],
        solver_ms=sum(u.smt_ms for u in us),
        extraction_rewrites=sorted({x for u in us for x in u.substs}),
        bounded=dict(label='bounded: generated inputs, sizes bounded by the generator; never counted as proved',
                     secs=secs, error=hr.get('error'), skipped=hr.get('skipped'), known_findings_hit=hr.get('known', {})),
        evaluations=hr.get('evaluations', 0) + (extended or {}).get('evaluations', 0), distinct_nontrivial=hr.get('distinct_nontrivial', 0),
        rule=hr.get('rule', ''), samples=hr.get('samples', []),
    )
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=cfg['level'], coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + cfg.get('assumptions', []) + [n for u in units for n in UNIT_NOTES.get(u, [])],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for l in lines:
        print(l)
    if violations:
        return 1
    if hc != 0 and all(u.status == 'inconclusive' for u in us):
        return 3
    print(f"{prop}: held. {len(proved)} functions under contract, {obl} obligations discharged, {cov['evaluations']} bounded cases ({cov['distinct_nontrivial']} distinct), {ev['wall_s']} s")
    return 0


sys.exit(main())
