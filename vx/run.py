"""Runs the verifier units a property depends on and collects obligations.

A unit (vx/units/NAME.py) is a set of functions of /repo/src with their contracts.  It is extracted
from the current tree, written to the work directory and given to Verus.  Per unit:
  failed    obligations the verifier refused (a violation)
  limits    reasons why the verifier had no answer: an anchor is lost, the extracted text does not
            compile, a construct is unsupported, the resource limit is reached.  The bounded stand-in
            decides then, and the evidence says so."""
import importlib, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
from registry import UNITS_OF, LEVEL, RULE, EXPLAIN, ASSUME, COMMON_ASSUME, UNIT_TRUST

VERIFY_ERRORS = ('precondition not met', 'unable to prove', 'not satisfied', 'assertion failed', 'assert_by', 'possible arithmetic', 'possible division', 'possible bit shift', 'decreases', 'could not prove', 'unreachable',
                 'cannot show', 'might not', 'must have', 'bitvector assertion', 'recommendation not met', 'index out of bounds', 'possible overflow', 'possible')
RLIMIT = ('Resource limit', 'rlimit', 'timed out', 'not all errors')

def claims_proof(pid): return LEVEL[pid] == 'proof'

def run_verus(path, rlimit, threads, extra=(), timeout=330):
    cmd = ['verus', path, '--rlimit', str(rlimit), '--num-threads', str(threads), '--multiple-errors', '4', '--triggers-mode', 'silent', '--output-json', '--time-expanded'] + list(extra)
    env = dict(os.environ, RUST_BACKTRACE='0')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=os.path.dirname(path))
        return cmd, p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return cmd, 'timeout', '', 'error: the verifier timed out'
    except OSError as e:
        return cmd, 'oserror', '', 'error: %s' % e

def functions_by_line(text):
    """line number -> name of the function it lies in"""
    out, cur, owner = [], '', ''
    for line in text.split('\n'):
        m = re.match(r'\s*(?:pub )?(?:unsafe )?impl\b.*?(?:for\s+)?([A-Za-z_]\w*)(?:<.*)?\s*\{?\s*$', line)
        if re.match(r'(?:pub )?trait (\w+)', line): owner = re.match(r'(?:pub )?trait (\w+)', line).group(1)
        elif re.match(r'(?:unsafe )?impl\b', line):
            h = re.sub(r'^impl\s*(<[^{]*?>\s*(?=[A-Z]))?', '', line)
            h = h.split(' for ')[-1]
            mm = re.search(r'([A-Za-z_]\w*)', h)
            owner = mm.group(1) if mm else ''
        m = re.match(r'(\s*)(?:pub )?(?:open |closed |uninterp |broadcast )?(?:unsafe )?(?:proof |spec |exec )?fn (\w+)', line)
        if m: cur = (owner + '::' if m.group(1) and owner else '') + m.group(2)
        if re.match(r'\}', line): owner = ''
        out.append(cur)
    return out

def parse_errors(err, text, fname):
    """-> (failed obligations, limits)"""
    lines = functions_by_line(text)
    failed, limits = [], []
    for blk in re.split(r'\n(?=error|note:|warning)', '\n' + err):
        blk = blk.strip('\n')
        if not blk.startswith('error'): continue
        first = blk.split('\n')[0]
        if 'aborting due to' in first: continue
        nums = [int(n) for n in re.findall(r'%s:(\d+):\d+' % re.escape(fname), blk)]
        nums += [int(n) for n in re.findall(r'^\s*(\d+) \|', blk, re.M)]
        fs = []
        for n in nums:
            f = lines[n - 1] if 0 < n <= len(lines) else ''
            if f and f not in fs: fs.append(f)
        clause = ''
        m = re.search(r'^\s*\d+ \|(.*)\n\s*\|\s*(\^|-|\|)', blk, re.M)
        if m: clause = ' '.join(m.group(1).split())[:140]
        name = '%s [%s] %s' % (' / '.join(fs[:3]) or '?', first.replace('error: ', ''), clause)
        if any(k in blk for k in RLIMIT[:3]): limits.append('no answer: ' + name)
        elif re.match(r'error\[E', first) or not any(k in first for k in VERIFY_ERRORS): limits.append('not accepted: ' + first[:300] + ' ' + clause)
        else: failed.append({'name': name, 'text': blk})
    return failed, limits

def verify_unit(name, work, threads, tier, res):
    t0 = time.time()
    r = {'unit': name, 'functions': [], 'verified': 0, 'errors': 0, 'failed': [], 'limits': [], 'trusted': [], 'cmd': '', 'smt_ms': 0, 'total_ms': 0, 'per_function': {}, 'probe': ''}
    res[name] = r
    try:
        from rustx import Lost
        import extract
        extract.REPO = os.environ.get('VX_REPO', '/repo')
        try:
            unit = importlib.import_module('units.' + name).UNIT
            text, fns = unit.emit()
        except Lost as e:
            r['limits'].append('%s: the code left the shape the contracts are attached to: %s' % (name, e)); return
        except (OSError, IndexError, KeyError, ValueError, AssertionError) as e:
            r['limits'].append('%s: the code could not be extracted: %r' % (name, e)); return
        r['functions'] = fns
        path = os.path.join(work, name + '.rs')
        # one obligation that must fail: false may not follow from the axioms
        ptext = text + '\nverus! {\nproof fn vx_probe()\n ensures false\n{\n}\n}\n'
        open(path, 'w').write(ptext)
        for rl in (getattr(unit, 'rlimit', 30), 3 * getattr(unit, 'rlimit', 30)):
            cmd, rc, out, err = run_verus(path, rl, threads)
            r['cmd'] = ' '.join(cmd)
            try: j = json.loads(out)
            except ValueError: j = {}
            v = j.get('verification-results', {})
            failed, limits = parse_errors(err, ptext, name + '.rs')
            if 'verified' not in v or v.get('encountered-vir-error'):
                r['limits'] += ['%s: %s' % (name, x) for x in (limits or [err[-600:] or 'no answer from the verifier'])]
                return
            probe = [f for f in failed if f['name'].startswith('vx_probe')]
            r['failed'] = [dict(f, name=name + ': ' + f['name']) for f in failed if f not in probe]
            r['limits'] = ['%s: %s' % (name, x) for x in limits]
            if not r['limits']: break
        r['verified'] = v.get('verified', 0)
        r['errors'] = v.get('errors', 0) - 1
        if not probe: r['limits'].append('%s: the must-fail probe was accepted or missing: the assumptions may be contradictory' % name)
        t = j.get('times-ms', {})
        r['total_ms'] = t.get('total', 0)
        smt = t.get('smt', {})
        r['smt_ms'] = smt.get('smt-run', 0)
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['per_function'][re.sub(r'^(\w+::)?', '', f['function'], count=1)] = '%s %d ms' % ('ok' if f['success'] else 'FAILED', f['time'])
        r['trusted'] = scan_trusted(text)
        if tier == 'thorough' and not r['failed'] and not r['limits']:
            vac = vacuity(name, unit, work, threads)
            if vac: r['limits'].append('%s: vacuous contracts: %s' % (name, ', '.join(vac)))
            r['probe'] = 'every function under contract refuses assert(false) at its entry' if not vac else 'vacuous: ' + ', '.join(vac)
        else: r['probe'] = 'false does not follow from the axioms'
    finally:
        r['wall_s'] = round(time.time() - t0, 2)

def vacuity(name, unit, work, threads):
    """contracts whose precondition nobody can satisfy: each function must refuse assert(false) at its entry"""
    saved = {k: c.entry for k, c in unit.contracts.items()}
    try:
        for c in unit.contracts.values():
            c.entry = 'assert(false);\n' + (c.entry or '')
        text, fns = unit.emit()
    finally:
        for k, c in unit.contracts.items(): c.entry = saved[k]
    path = os.path.join(work, name + '_vacuity.rs')
    open(path, 'w').write(text)
    cmd, rc, out, err = run_verus(path, 10, threads)
    failed, _ = parse_errors(err, text, os.path.basename(path))
    hit = set()
    for f in failed:
        if 'assert(false)' in f['text']:
            hit.add(f['name'].split(' [')[0].split(' / ')[0].split('::')[-1])
    lines = text.split('\n')
    want = set()
    fl = functions_by_line(text)
    for i, l in enumerate(lines):
        if 'assert(false);' in l: want.add(fl[i].split('::')[-1])
    return sorted(want - hit)

def scan_trusted(text):
    out = []
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[((?:[^\[\]]|\[[^\]]*\])*)\]', text): out.append('assumed contract of ' + ' '.join(m.group(1).split()))
    n = {}
    for u in re.findall(r'proved in unit (\w+)', text): n[u] = n.get(u, 0) + 1
    for u in n: out.append('%d contracts and lemmas that unit %s proves' % (n[u], u))
    text = re.sub(r'#\[verifier::external_body\] (?:// proved in unit \w+|/\* proved in unit \w+ \*/)', '', text)
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub )?(?:unsafe )?(?:proof |const )?(fn|struct) (\w+)', text): out.append('external_body %s %s' % (m.group(1), m.group(2)))
    for m in re.finditer(r'(?m)^pub axiom fn (\w+)', text): out.append('axiom ' + m.group(1))
    for m in re.finditer(r'// ASSUMED: (.*)', text): out.append(m.group(1).strip())
    for kw in ('admit()', 'assume('):
        n = len(re.findall(r'(?<![\w_])' + re.escape(kw), text))
        if n: out.append('%d x %s' % (n, kw))
    return sorted(set(out))

SLOW = ['comp', 'color', 'decomp', 'codec', 'lift_cubic', 'lift_linear', 'payload', 'auxd', 'api', 'program', 'golomb']   # started first

def decides(mode, f):
    """does a failed obligation of the unit break the property by itself?  mode 'all': yes.  'safety': only obligations about
    accesses, arithmetic, termination and preconditions of executable functions (what the results are is another property's
    business).  'only:f|g': those of these functions.  'support': no (the unit says more than the property needs; what it proves is another property).  An obligation
    that does not decide still means that the property is not proved on this tree: a failing input is searched for."""
    if mode == 'all': return True
    if mode == 'support': return False
    if mode.startswith('only:'): return re.match(r'\w+: (?:\w+::)*(%s)\b' % mode[5:], f['name']) is not None
    first = f['text'].split('\n')[0]
    return not any(k in first for k in ('postcondition', 'invariant', 'assert')) and 'lemma_' not in f['text'] and 'theorem_' not in f['text']

def verify_property(pid, work, tier):
    modes = dict((u, 'all') if isinstance(u, str) else u for u in UNITS_OF.get(pid, []))
    names = list(modes)
    res = {}
    if not names:
        return {'units': [], 'failed': [], 'weak': [], 'limits': [], 'obligations': 0, 'discharged': 0, 'trusted': [], 'cmds': [], 'functions': []}
    threads = max(1, 6 // len(names)) if len(names) < 4 else 2
    slots = threading.Semaphore(5)
    def one(n):
        with slots: verify_unit(n, work, threads, tier, res)
    order = [n for n in SLOW if n in names] + [n for n in names if n not in SLOW]
    ts = [threading.Thread(target=one, args=(n,)) for n in order]
    [t.start() for t in ts]; [t.join() for t in ts]
    out = {'units': [], 'failed': [], 'weak': [], 'limits': [], 'obligations': 0, 'discharged': 0, 'trusted': [], 'cmds': [], 'functions': []}
    for n in names:
        r = res[n]
        weak = [f for f in r['failed'] if not decides(modes[n], f)]
        out['failed'] += [f for f in r['failed'] if f not in weak]; out['limits'] += r['limits']
        out['weak'] += weak
        out['limits'] += ['%s, which this property does not need as such: the bounded stand-in decides' % f['name'][:300] for f in weak]
        out['obligations'] += r['verified'] + r['errors']; out['discharged'] += r['verified']
        out['trusted'] += ['%s: %s' % (n, x) for x in r['trusted'] + UNIT_TRUST.get(n, [])]
        out['functions'] += ['%s: %s' % (n, f) for f in r['functions']]
        if r['cmd']: out['cmds'].append(r['cmd'])
        out['units'].append({k: r[k] for k in ('unit', 'verified', 'errors', 'smt_ms', 'total_ms', 'wall_s', 'probe', 'per_function')})
    return out

if __name__ == '__main__':
    # run.py UNIT...: developer's view
    # VX_FN=a,b: these functions only, once
    work = os.environ.get('VX_WORK', '/tmp/vxwork'); os.makedirs(work, exist_ok=True)
    if os.environ.get('VX_FN'):
        import extract
        for n in sys.argv[1:]:
            path = os.path.join(work, n + '.rs')
            text, fns = importlib.import_module('units.' + n).UNIT.emit()
            open(path, 'w').write(text)
            for f in os.environ['VX_FN'].split(','):
                t0 = time.time()
                cmd, rc, out, err = run_verus(path, os.environ.get('VX_RL', '10'), 7, ['--verify-root', '--verify-function', f])
                failed, limits = parse_errors(err, text, n + '.rs')
                print('==', f, 'rc', rc, 'failed', len(failed), 'limits', len(limits), '%.1f s' % (time.time() - t0))
                for x in failed: print('FAILED', x['name']); print(x['text'][:int(os.environ.get('VX_LEN', '700'))])
                for l in limits: print('LIMIT', l)
                if rc and not failed and not limits: print(err[-1500:])
        sys.exit(0)
    for n in sys.argv[1:]:
        res = {}
        verify_unit(n, work, 7, os.environ.get('VX_TIER', 'quick'), res)
        r = res[n]
        for f in r['failed']: print('FAILED', f['name']); print(f['text'][:int(os.environ.get('VX_LEN', '1500'))])
        for l in r['limits']: print('LIMIT', l)
        print(n, r['verified'], 'verified', r['errors'], 'errors', r['wall_s'], 's;', r['probe'], r['trusted'])
        slow = sorted(r['per_function'].items(), key=lambda z: -int(re.search(r'(\d+) ms', z[1]).group(1)))[:5]
        print('slowest', slow)
