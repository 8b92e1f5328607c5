#!/usr/bin/env python3
"""check.py ID: decide one property for /repo's current working tree (see DESIGN.md).

1. vx/ extracts the functions under contract from /repo/src, adds the contracts of vx/contracts and
   lets Verus decide every obligation (vx/run.py).
2. The executable form of the same contracts (harness/) is evaluated on the real functions: it looks
   for a concrete failing input when an obligation fails, and is the bounded stand-in where the
   verifier has no answer.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Nothing else."""
import json, os, re, subprocess, sys, time, threading, traceback, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
SHARDS = 6

def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')
    except OSError as e:
        return 'oserror', str(e)

class Harness:
    def __init__(self, work):
        self.work = work
        self.error = None
        self.bins = {}

    def build(self, variant):
        env = dict(os.environ, RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true')
        env.pop('CARGO_TARGET_DIR', None)
        target = os.path.join(HERE, 'harness', 'target', variant)
        cmd = ['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', target]
        if variant == 'seq':
            cmd.append('--no-default-features')
        rc, out = sh(cmd, 500, cwd=os.path.join(HERE, 'harness'), env=env)
        if rc != 0:
            self.error = 'harness does not build against /repo (%s): %s' % (rc, out[-1500:])
            return False
        self.bins[variant] = os.path.join(target, 'release', 'harness')
        return True

    def search(self, pid, seed, ms, shards):
        """-> (list of failure texts, evaluations, distinct, samples, problems)"""
        env = dict(os.environ, RUST_BACKTRACE='0')
        res = [None] * shards
        def one(k):
            trace = os.path.join(self.work, 'trace%d' % k)
            s = str(seed * 1000 + k)
            rc, out = sh([self.bins['par'], 'search', pid, s, str(ms), trace], ms / 1000 * 2 + 120, env=env)
            if rc not in (0, 1):
                # died or hung: the trace file names the case
                case = open(trace).read() if os.path.exists(trace) else ''
                if case:
                    rc2, out2 = sh([self.bins['par'], 'one', pid, s, case], 120, env=env)
                    if rc2 != 0:
                        out = 'FAIL %s seed=%s case=%s\nthe process ended with %s\n%s' % (pid, s, case, rc2, out2[-3000:])
                        rc = 1
                    else:
                        out = 'process ended with %s at case %s, which passes when run alone' % (rc, case)
            res[k] = (rc, out)
        ts = [threading.Thread(target=one, args=(k,)) for k in range(shards)]
        [t.start() for t in ts]; [t.join() for t in ts]
        fails, ev, dn, samples, problems = [], 0, 0, [], []
        for rc, out in res:
            m = re.search(r'^OK \S+ evaluations=(\d+) distinct_nontrivial=(\d+)', out, re.M)
            if rc == 0 and m:
                ev += int(m.group(1)); dn += int(m.group(2))
                s = re.search(r'^SAMPLE (.*)', out, re.M)
                if s and s.group(1): samples.append(s.group(1))
            elif rc == 1 and 'FAIL' in out:
                fails.append(out[out.index('FAIL'):])
            else:
                problems.append(out[-500:])
        return fails, ev, dn, samples[:3], problems

    def digests(self, seed, n):
        """C12: the build without threads must give the same bytes"""
        env = dict(os.environ, RUST_BACKTRACE='0')
        outs = {}
        for v in ('par', 'seq'):
            outs[v] = sh([self.bins[v], 'digest', str(seed), str(n)], 300, env=env)
        if outs['par'][0] != 0 or outs['seq'][0] != 0:
            return ['digest run failed: %s' % str(outs)[-800:]]
        a, b = outs['par'][1].splitlines(), outs['seq'][1].splitlines()
        return ['digest seed=%d case=%d: with threads %s, without %s' % (seed, i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y]

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    import run as vrun
    work = os.path.join(HERE, 'work', pid)
    if os.path.isdir(work): shutil.rmtree(work)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)

    h = Harness(work)
    box = {}
    def prove():
        try:
            box['v'] = vrun.verify_property(pid, work, tier)
        except Exception:
            box['v'] = {'units': [], 'failed': [], 'limits': ['runner error: ' + traceback.format_exc()[-800:]], 'obligations': 0, 'discharged': 0, 'trusted': [], 'cmds': []}
    t = threading.Thread(target=prove); t.start()
    built = h.build('par') and (pid != 'C12' or h.build('seq'))
    ms = {'quick': 9000, 'thorough': 150000}.get(tier, 9000)
    fails, ev, dn, samples, problems = [], 0, 0, [], []
    if built:
        fails, ev, dn, samples, problems = h.search(pid, seed, ms, SHARDS)
        if pid == 'C12' and not fails:
            fails += h.digests(seed, 60 if tier == 'quick' else 1500)
    t.join()
    v = box['v']
    if (v['failed'] or v.get('weak')) and not fails and built:
        # a failed obligation: look longer for an input
        f2, e2, d2, s2, p2 = h.search(pid, seed + 7919, ms * 3, 8)
        fails += f2; ev += e2; dn += d2; problems += p2

    # known findings are printed and do not count
    kf, rest = known_findings(pid), []
    shown = set()
    for f in fails:
        hit = [d for (rx, d) in kf if re.search(rx, f)]
        if hit: shown.add(hit[0])
        else: rest.append(f)
    fails = rest
    for d in sorted(shown): print('KNOWN-FINDING: property=%s %s' % (pid, d))

    rc = 0
    replay = os.path.join('replay', '%s.txt' % pid)
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp): os.remove(rp)
    note = ''
    if fails:
        with open(rp, 'w') as f:
            f.write('property %s: failing input found on the code of /repo\n' % pid)
            f.write('reproduce: harness/target/par/release/harness one %s <seed> <case> (seed and case below)\n\n' % pid)
            for x in fails: f.write(x[:20000] + '\n\n')
            for x in v['failed'] + v.get('weak', []): f.write('failed obligation: %s\n%s\n\n' % (x['name'], x['text'][:6000]))
        print('failed obligations: %s' % ', '.join(x['name'] for x in (v['failed'] + v.get('weak', []))[:6]))
        print(fails[0][:1500])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        rc = 1
    elif v['failed']:
        with open(rp, 'w') as f:
            f.write('property %s: obligation not discharged; no failing input found in %d evaluations\n\n' % (pid, ev))
            for x in v['failed']: f.write('failed obligation: %s\n%s\n\n' % (x['name'], x['text'][:12000]))
            if not built: f.write(h.error + '\n')
        print('failed obligations: %s' % ', '.join(x['name'] for x in v['failed'][:6]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        rc = 1
    elif not built:
        if v['obligations'] and not v['limits']:
            note = 'bounded part skipped: ' + h.error
        else:
            with open(rp, 'w') as f: f.write('neither the verifier nor the harness could take the code\n%s\n%s\n' % (h.error, v['limits']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
            rc = 1

    full = v['obligations'] > 0 and v['discharged'] == v['obligations'] and not v['limits'] and vrun.claims_proof(pid)
    cov = {
        'obligations': v['obligations'], 'discharged': v['discharged'],
        'checker_cmd': '; '.join(v['cmds']) or 'none',
        'trusted_base': v['trusted'] or ['none: no obligation generated'],
        'back_end': 'Verus 0.2026.09.13 (Z3)', 'functions_under_contract': v.get('functions', []),
        'units': v['units'],
        'bounded_standin': {'label': 'bounded', 'evaluations': ev, 'distinct_nontrivial': dn, 'milliseconds_per_shard': ms, 'shards': SHARDS,
                            'rule': vrun.RULE.get(pid, ''), 'samples': samples, 'problems': problems},
        'limits': v['limits'],
        'explanation': vrun.EXPLAIN.get(pid, '') + ((' ' + note) if note else ''),
        'evaluations': ev, 'distinct_nontrivial': dn, 'rule': vrun.RULE.get(pid, ''), 'samples': samples or ['none'],
    }
    level = vrun.LEVEL[pid]
    if level == 'proof' and not full: level = 'other'   # the bounded stand-in decided this run
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
         'assumptions': vrun.ASSUME.get(pid, []) + vrun.COMMON_ASSUME,
         'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc else 0}
    if tier not in ('quick', 'thorough'): e['tier'] = 'quick'
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s: %d/%d obligations discharged, %d cases evaluated, limits: %s, %.1f s' % (pid, v['discharged'], v['obligations'], ev, '; '.join(str(x)[:300] for x in v['limits']) or 'none', time.time() - t0))
    sys.exit(rc)

main()
