#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree.

1. gover (built from /verif/gover) translates the functions under contract from /repo's source to Verus,
2. Verus/Z3 discharges every obligation; vacuity probes (assertions of false) must fail,
3. the replay program (overlaid into /repo, exported API only) looks for a concrete failing input: briefly when
   every obligation is discharged (this validates the assumed contracts), at length when one is not.
"""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
GOENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOFLAGS='-mod=readonly',
             GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'),
             PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])


# called here with no postcondition; the body is verified under other properties
BODY_ELSEWHERE = {'crossplane.(*Payload).Combined': 'crossplane.(*Payload).Combined: assumed to return (no postcondition used here); its body is verified under C10, C11 and C14'}

def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace'), 'timeout after %ss' % timeout


def gover():
    d = os.path.join(VERIF, 'gover')
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as fh:
            h.update(f.encode() + b'\0' + fh.read())
    out = os.path.join(CACHE, 'gover-' + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        rc, so, se = sh(['go', 'build', '-o', tmp, '.'], cwd=d, env=dict(GOENV, GOFLAGS='-mod=mod'))
        if rc:
            raise SystemExit('cannot build gover: ' + se)
        os.rename(tmp, out)
    return out


def translate(prop, rs, meta, probes=False, tree=None):
    cmd = [gover(), '-repo', tree or REPO, '-verif', VERIF, '-prop', prop, '-out', rs, '-meta', meta] + (['-probes'] if probes else [])
    rc, so, se = sh(cmd, 120, env=GOENV)
    if rc:
        return None, (se or so).strip()
    return json.load(open(meta)), ''


def verus(rs, timeout, rlimit=None, threads=4):
    cmd = ['verus', rs, '--output-json', '--time', '--multiple-errors', '40', '--num-threads', str(threads)]
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    t = time.time()
    rc, so, se = sh(cmd, timeout, cwd=os.path.dirname(rs))
    res = {'rc': rc, 'stderr': se, 'wall': time.time() - t, 'verified': None, 'errors': None, 'smt_ms': 0}
    try:
        j = json.loads(so)
        v = j.get('verification-results', {})
        res['verified'], res['errors'] = v.get('verified'), v.get('errors')
        res['vir_error'] = v.get('encountered-vir-error')
        tm = j.get('times-ms', {})
        res['smt_ms'] = tm.get('smt', {}).get('smt-run', 0) if isinstance(tm.get('smt'), dict) else 0
    except ValueError:
        pass
    return res


def blame(res, meta, rs):
    """maps the verifier's errors to obligations; returns (failed obligations, messages)"""
    ob = {}
    for o in meta['obligations']:
        ob.setdefault(o['Line'], []).append(o)
    funcs = meta['func_lines']
    src = open(rs).read().split('\n')
    failed, other = {}, []
    for x in re.split(r'\n(?=error)', '\n' + res['stderr']):
        x = x.lstrip('\n')
        if not x.startswith('error') or x.startswith('error: aborting'):
            continue
        lines = [int(a) for a in re.findall(r'--> \S*?:(\d+):\d+', x)]
        lines += [int(a) for a in re.findall(r'^\s*(\d+) \|', x, re.M)]
        hit = [o for l in lines for o in ob.get(l, [])]
        if hit:
            failed.setdefault(hit[0]['ID'], (hit[0], x))
            continue
        fn = [f for f, (a, b) in funcs.items() for l in lines[:1] if a <= l < b]
        head = x.split('\n')[0]
        if fn:
            # no single obligation: resources, or a step of the argument
            failed.setdefault('F' + fn[0] + head, ({'ID': -1, 'Func': fn[0], 'Kind': 'step', 'Name': head[:120],
                                             'Pos': '', 'Text': src[lines[0] - 1].strip()[:300]}, x))
        else:
            other.append((head, lines[:1], src[lines[0] - 1].strip()[:200] if lines else '', x))
    return failed, other


class Replay(threading.Thread):
    """runs the replay program in the background"""

    def __init__(self, prop, budget, out, jobs):
        super().__init__()
        self.prop, self.budget, self.out, self.jobs = prop, budget, out, jobs
        self.rc, self.stdout, self.stderr, self.cases, self.distinct, self.wall = None, '', '', 0, 0, 0.0

    def run(self):
        t = time.time()
        tmp = tempfile.mkdtemp(prefix='zzverif')
        try:
            exe = os.path.join(tmp, 'zz')
            rc, so, se = sh([os.path.join(VERIF, 'replay/build.sh'), exe, REPO], 300, env=GOENV)
            if rc:
                self.rc, self.stderr = 2, 'replay program does not build:\n' + so + se
                return
            self.rc, self.stdout, self.stderr = sh(
                [exe, '-prop', self.prop, '-seed', str(SEED), '-budget', '%ds' % self.budget, '-jobs', str(self.jobs),
                 '-out', self.out, '-tmp', tmp], self.budget + 90, cwd=tmp)
            m = re.search(r'^CASES (\d+) (\d+)$', self.stdout, re.M)
            if m:
                self.cases, self.distinct = int(m.group(1)), int(m.group(2))
        finally:
            self.wall = time.time() - t
            shutil.rmtree(tmp, ignore_errors=True)


def known(prop):
    """known findings: lines 'known: property=<id> match=<text> <what fails>'"""
    res = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) match=("(?:[^"\\]|\\.)*") (.*)', l)
            if m and m.group(1) == prop:
                res.append((json.loads(m.group(2)), m.group(3)))
    except OSError:
        pass
    return res


def main():
    prop = sys.argv[1]
    t0 = time.time()
    manifest = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    entry = next((c for c in manifest['checks'] if c['property'] == prop), {})
    level = entry.get('level', 'proof')
    has_replay = prop not in ('C22x',)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, '%s.json' % prop)
    if os.path.exists(out):
        os.remove(out)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    quick = TIER != 'thorough'
    end = t0 + (800 if quick else 3000)

    def left(reserve, most):
        return max(20, min(most, end - reserve - time.time()))
    rep = Replay(prop, 12 if quick else 120, out, 4)
    try:
        rep.start()
        rs, mj = os.path.join(work, prop.lower() + '.rs'), os.path.join(work, 'm.json')
        prs, pmj = os.path.join(work, prop.lower() + '_probes.rs'), os.path.join(work, 'p.json')
        failures = []  # (title, detail)
        meta, err = translate(prop, rs, mj)
        pmeta, perr = translate(prop, prs, pmj, True)
        res = pres = None
        discharged = obligations = 0
        probes_ok = 0
        nprobes = 0
        if meta is None:
            failures.append(('translation: ' + err.split('\n')[0], err))
        elif meta['errors']:
            for f, e in sorted(meta['errors'].items()):
                failures.append(('translation of %s: %s' % (f, e), e))
        if meta is not None:
            box = {}
            th = threading.Thread(target=lambda: box.update(r=verus(prs, left(200, 600))))
            if pmeta is not None:
                th.start()
            res = verus(rs, left(200, 450), threads=8)
            if res['verified'] is not None and res['errors'] and not res.get('vir_error'):
                # a second try with more resources: solver luck is not a finding
                if 'rlimit' in res['stderr'].lower() or 'Resource limit' in res['stderr']:
                    res2 = verus(rs, left(200, 400), rlimit=60, threads=8)
                    if res2['verified'] is not None:
                        res = res2
            if pmeta is not None:
                th.join()
                pres = box.get('r')
            obligations = len(meta['obligations']) + len(meta['lemmas'])
            if res['verified'] is None or res.get('vir_error') or (res['rc'] != 0 and not res['errors']):
                failures.append(('the verifier rejects the translated code', res['stderr'][-6000:]))
            else:
                failed, other = blame(res, meta, rs)
                for o, msg in failed.values():
                    failures.append(('%s: %s %s [%s] %s' % (o['Func'], o['Kind'], o['Name'], o['Pos'], o['Text']), msg))
                for head, lines, text, msg in other:
                    failures.append(('lemma: %s: %s' % (head, text), msg))
                if res['errors'] and not failed and not other:
                    failures.append(('unattributed verifier error', res['stderr'][-6000:]))
                discharged = obligations - len(failures)
                if pres is not None and not failures:
                    pf, pother = blame(pres, pmeta, prs)
                    want = [o for o in pmeta['obligations'] if o['Kind'] == 'probe']
                    nprobes = len(want)
                    bad = {o['ID'] for o, _ in pf.values() if o['Kind'] == 'probe'}
                    # a probe the solver gives up on is not accepted either
                    out_of = {o['Func'] for o, m in pf.values() if o['ID'] == -1 and 'rlimit' in m}
                    psrc = open(prs).read().split('\n')
                    for _, lines, _, m in pother:
                        if lines and ('rlimit' in m or 'Resource limit' in m):
                            # a theorem: the last one that starts at or above this line
                            k = next((x for l in reversed(psrc[:lines[0]]) for x in re.findall(r'proof fn (\w+)', l)), None)
                            out_of.add('lemma %s' % k)
                    for o in want:
                        if o['ID'] in bad or o['Func'] in out_of:
                            probes_ok += 1
                    for fn in sorted({o['Func'] for o in want}):
                        mine = [o for o in want if o['Func'] == fn]
                        if mine and fn not in out_of and not any(o['ID'] in bad for o in mine):
                            failures.append(('vacuous contract: %s' % fn, 'a probe (assert(false)) at its entry was accepted'))
        rep.join()
        if failures and rep.rc == 0:
            # search harder for an input
            first = rep
            rep = Replay(prop, int(left(30, 120 if quick else 400)), out, 8)
            SEED_OLD = globals()['SEED']
            globals()['SEED'] = SEED_OLD + 7919
            rep.start()
            rep.join()
            globals()['SEED'] = SEED_OLD
            rep.cases += first.cases
            rep.distinct += first.distinct
        concrete = rep.rc == 3
        violation = bool(failures) or concrete or rep.rc not in (0, 3)
        if rep.rc not in (0, 3):
            failures.append(('replay program: ' + (rep.stderr.strip().split('\n') or [''])[0], rep.stdout[-2000:] + rep.stderr[-4000:]))
        # known findings
        detail = rep.stdout if concrete else '\n'.join(f[0] for f in failures)
        suppressed = False
        for match, what in known(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
            if violation and all(match in f[0] for f in failures) and (not concrete or match in detail):
                suppressed = True
        trusted = ['Verus, rustc front end and Z3', 'gover (the Go-to-Verus extractor, /verif/gover)',
                   'specification functions as the meaning of the property (/verif/spec)']
        assumptions = ['machine integers are checked for division and shifts only; int arithmetic is treated as mathematical']
        if meta:
            trusted += ['assumed model: ' + m for m in (meta.get('models') or [])]
            trusted += [BODY_ELSEWHERE.get(m, 'trusted function: ' + m) for m in (meta.get('trusted') or [])]
            assumptions += meta.get('notes') or []
        ev = {
            'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
            'coverage': {
                'obligations': obligations, 'discharged': max(discharged, 0),
                'checker_cmd': 'python3 check.py %s (gover -prop %s; verus %s.rs)' % (prop, prop, prop.lower()),
                'trusted_base': trusted,
                'backend': 'Verus with Z3',
                'functions_under_contract': (meta or {}).get('functions') or [],
                'functions_inlined': (meta or {}).get('inlined') or [],
                'lemmas': (meta or {}).get('lemmas') or [],
                'obligations_by_kind': {},
                'verus_items_verified': (res or {}).get('verified'),
                'solver_ms': (res or {}).get('smt_ms'), 'verifier_wall_s': round((res or {}).get('wall', 0), 2),
                'vacuity_probes': nprobes, 'vacuity_probes_refuted': probes_ok,
                'evaluations': rep.cases, 'distinct_nontrivial': rep.distinct,
                'rule': 'inputs of the replay program run against the real code and an independent reference (validates the assumed contracts; bounded, not counted as proof)',
            },
            'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation and not suppressed else 0,
        }
        for o in (meta or {}).get('obligations') or []:
            k = ev['coverage']['obligations_by_kind']
            k[o['Kind']] = k.get(o['Kind'], 0) + 1
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for f in failures:
            print('FAILED ' + f[0])
        if concrete:
            print(rep.stdout[:3000])
        if suppressed or not violation:
            print('%s: %d obligations, %d discharged, %d probes, %d replay cases, %.1f s' % (
                prop, obligations, discharged, nprobes, rep.cases, time.time() - t0))
            return 0
        if concrete:
            d = json.load(open(out))
            d['failed_obligations'] = [f[0] for f in failures]
            d['replay_with'] = 'replay/build.sh /tmp/zz && /tmp/zz -prop %s -case %s' % (prop, out)
            json.dump(d, open(out, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, out))
        else:
            json.dump({'property': prop, 'failed_obligations': [{'obligation': a, 'verifier_output': b[:8000]} for a, b in failures]},
                      open(out, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, out))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
