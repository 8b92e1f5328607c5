"""Builds one Verus file per unit from /repo/src.  Everything that is executed is copied from /repo;
the transformations that are applied to it are the functions t_* below and nothing else:

 t_gets      .get_unchecked(i) / .get_unchecked_mut(i)  ->  .vx_get(i) / .vx_get_mut(i), verified shims over
             safe indexing whose precondition is the bounds condition (only for slices)
 t_for       `for PAT in (A..B).step_by(S) {BODY}` and `for PAT in R.iter_mut().skip(K).step_by(S) {BODY}`,
             `for PAT in &R`, `for PAT in R.iter().rev()`, `for (P, Q) in R.iter_mut().zip(S.iter())` become
             while loops over an index that is advanced before BODY, as the iterator does
             `for PAT in A..B {BODY}` only if BODY contains `continue`
 t_par       process_maybe_parallel_for_each(ITER, |PAT| BODY, HINT) becomes a loop over ITER in order
 t_map       process_maybe_parallel_map_collect(A.zip(B).enumerate(), |(I, (X, Y))| BODY, HINT): BODY becomes a function of its
             own (what it captures are parameters) that is called in a loop over A and B in order; X is passed by mutable
             reference; the results come in an arbitrary order; A or B of the form S.chunks_mut(N) -> vx_chunks_mut(S, N)
 t_sum       V.iter().sum() -> vx_sum(&V), a loop that adds
             `for PAT in V` with a variable V takes the elements out from the front
             `for (P, Q) in S.chunks(N).zip(R.iter_mut())` and .chunks_mut(N): a loop over positions in S
             `for (I, (P, Q)) in V.into_iter().zip(S.chunks_mut(N)).enumerate()`: elements and chunks are taken out from the front
             a chunk of S.chunks_mut(N) that is written through io::Write is the whole chunk and a position (VxSink)
             a parameter `mut X: &mut [u8]` that is written through io::Write (compress_simple) is a VxSink as well; where it is handed
             on as a plain slice, the contract hands on the rest of it (X.rest())
 t_pieces    the iterator `S.chunks_mut(N).take(K).map(|P| E).zip(R.iter())` of a parallel loop is a loop over pieces taken out from the
             front of S; if the iterator is a call of a function of the same file that returns `impl Iterator`, that function's
             body is put in place of the call (its parameters and variables are renamed);
             X.chunks_mut(N).collect::<Vec<_>>() -> vx_rows(X, N), a verified loop
 t_loop      `loop { if C { break; } BODY }` -> `while !(C) { BODY }`
 t_iter      `impl Iterator for X {type Item = T; fn next..}` becomes an inherent method of X
 t_config    Config::multithreading_factors().NAME -> vx_factor(), any number (it only selects serial or parallel execution)
 t_div       `X /= E;` -> `X = X / (E);`
 t_format    format!(..) -> vx_string(), any string
 t_assert    debug_assert!(E, ..) -> vx_assert(E), whose precondition is E: an obligation
 t_prim      the derives FromPrimitive and ToPrimitive of an enum: from_u8 and to_u8 by its discriminants
 t_cast      `X as &[T]` -> X
 t_paths     module prefixes (bits::, header::, ...) and `use` lines are dropped, the unit is one module
 t_params    parameters that are functions are dropped from `lift`/`unlift` and from their calls (the unit holds
             exactly one function of each name)
 pub_fields  the fields of structs are made pub
 attributes, visibility, doc comments and #[cfg(test)] items are dropped.
"""
import os, re, hashlib
from rustx import Toks, items, Edits, Lost, find_seq, stmt_bounds

REPO = os.environ.get('VX_REPO', '/repo')
MODS = ['bits', 'header', 'mem', 'cmp', 'lifting', 'quant', 'io_']

class Fn:
    """contract of one function.  spec: requires/ensures text.  loops[k]: clauses of the (k+1)th loop,
    as a string or as dict(inv=, begin=, end=).  hints: (where, anchor, n, proof text) with where
    'before' / 'after' the statement that contains the nth occurrence of the token pattern."""
    def __init__(self, path, ret=None, spec='', entry='', loops=(), hints=(), attrs='', subst=(), exit='', params='', closures=(), worker=None):
        self.path, self.ret, self.spec, self.entry = path, ret, spec, entry
        self.loops, self.hints, self.attrs, self.subst, self.exit = loops, hints, attrs, subst, exit
        self.params = params
        self.stub = ''   # unit in which the body is verified against this contract: here only the contract is used
        self.worker = worker   # contract of the function a closure of process_maybe_parallel_map_collect becomes; its params: the whole parameter list
        # 'any': its closures are replaced by `subst`
        self.closures = closures   # texts (result type, requires, ensures) put between the parameters and the body of the closures with parameters

def t_loop(text):
    tk = Toks(text); ed = Edits(text); n = 0
    for i in range(len(tk) - 3):
        if tk.x(i) == 'loop' and tk.t[i][0] == 'id' and tk.x(i + 1) == '{' and tk.x(i + 2) == 'if':
            o = i + 1; q = i + 3
            while tk.x(q) != '{': q = tk.pair[q] + 1 if tk.x(q) in '([' else q + 1
            z = tk.pair[q]
            if z - q in (2, 3) and tk.x(q + 1) == 'break' and (z - q == 2 or tk.x(q + 2) == ';') and tk.x(z + 1) != 'else' and not any(tk.x(y) == 'let' for y in range(o + 2, q)):
                ed.put(tk.s(i), tk.e(z), 'while !(' + text[tk.s(o + 2):tk.e(q - 1)] + ') {'); n += 1
    return ed.done(0, len(text)) if n else text

class Source:
    cache = {}
    def __init__(self, rel):
        self.rel = rel
        self.text = t_loop(open(os.path.join(REPO, rel)).read())
        self.tk = Toks(self.text)
        self.items = items(self.tk)
    def all(self):
        for it in self.items:
            yield it
            for k in getattr(it, 'kids', []): yield k
    def get(self, kind, path):
        for it in self.all():
            if it.kind == kind and it.path == path and not (kind == 'impl'): return it
            if it.kind == kind == 'impl' and (it.name + ('@' + it.owner if it.owner else '')) == path: return it
        raise Lost('%s %s not found in %s' % (kind, path, self.rel))

def fn_text(src, it, c, opt):
    """text of one function with its contract, loop clauses and hints"""
    tk, text = src.tk, src.text
    ed = Edits(text)
    so, op = it.header
    # --- signature
    i = so
    while tk.x(i) != 'fn': i += 1
    unsafe_kw = any(tk.x(j) == 'unsafe' for j in range(so, i))
    close = None
    j = i + 2
    if tk.x(j) == '<':
        d = 0
        while True:
            if tk.x(j) == '<': d += 1
            if tk.x(j) == '>': d -= 1
            j += 1
            if d == 0: break
    if tk.x(j) != '(': raise Lost('parameter list of %s' % it.path)
    popen, pclose = j, tk.pair[j]
    if opt.get('drop_fn_params'):
        drop_fn_params(tk, ed, popen, pclose)
    if c and c.params: ed.ins(tk.s(pclose), c.params.lstrip(', ') if tk.x(pclose - 1) == ',' else c.params)
    body_open = it.open
    sig_end = tk.s(body_open) if body_open is not None else it.end - 1
    arrow = None
    k = pclose + 1
    if tk.x(k) == '->': arrow = k
    if c:
        stop = body_open if body_open is not None else tk_index_at(tk, it.end - 1)
        w = None
        for q in range(pclose + 1, stop):
            if tk.x(q) == 'where': w = q; break
        if c.ret and arrow is not None:
            ed.ins(tk.s(arrow + 1), '(%s: ' % c.ret)
            ed.ins(tk.e((w if w is not None else stop) - 1), ')')
        ed.ins(sig_end, '\n' + c.spec.strip('\n') + '\n')
    if body_open is None:
        return ('unsafe ' if unsafe_kw else '') + '%s' % ed.done(tk.s(i), it.end)
    if c and c.stub:
        sig = ed.done(tk.s(i), tk.s(body_open))
        for x, y, *_ in c.subst: sig = re.sub(x, y, sig)   # those that concern the signature
        return '#[verifier::external_body] // proved in unit %s\n    VX_VIS' % c.stub + ('unsafe ' if unsafe_kw else '') + sig + '{ unimplemented!() }'
    lo, hi = body_open, it.close
    # --- body transformations
    loops = transform_body(tk, ed, lo, hi, c, opt)
    if c:
        if c.entry: ed.ins(tk.e(lo), '\n' + c.entry + '\n', -1)
        if c.exit: ed.ins(tk.s(hi), '\n' + c.exit + '\n', 1)
        if len(loops) != len(c.loops): raise Lost('%s has %d loops, its contract %d' % (it.path, len(loops), len(c.loops)))
        for where, anchor, n, proof in c.hints:
            q = find_seq(tk, anchor, lo + 1, hi, n)
            a, b, semi = stmt_bounds(tk, q, lo, hi)
            if where == 'before': ed.ins(tk.s(a), proof + '\n', 5)
            else:
                if not semi and tk.x(b) != '}': raise Lost('no statement to follow at %r in %s' % (anchor, it.path))
                ed.ins(tk.e(b), '\n' + proof, -5)
    elif loops:
        raise Lost('%s has loops and no contract' % it.path)
    vis = ''
    wt = worker_text(tk, text, lo, hi, c, opt)
    out = (c.attrs + '\n' if c and c.attrs else '') + ('unsafe ' if unsafe_kw else '') + ed.done(tk.s(i), tk.e(hi))
    if c:
        for a, b, *opt_ in c.subst:
            out2 = re.sub(a, b, out)
            if out2 == out and not opt_: raise Lost('pattern %r not found in %s' % (a, it.path))
            out = out2
    return out + wt

def map_collect(tk, i):
    """parts of the call at token i: (A, B, index, X, Y patterns, closure body braces)"""
    o = i + 1; close = tk.pair[o]
    a3 = split_args(tk, o, close)
    if len(a3) != 3: raise Lost('arguments of process_maybe_parallel_map_collect')
    (ia, ib), (ca, cb), _ = a3
    if tk.x(ca) == 'move': ca += 1
    if tk.x(ca) != '|': raise Lost('closure expected')
    p = ca + 1
    while tk.x(p) != '|': p = tk.pair[p] + 1 if tk.x(p) in '([{' else p + 1
    pat = ' '.join(tk.text[tk.s(ca + 1):tk.e(p - 1)].split())
    m = re.match(r'^\(\s*(\w+)\s*,\s*\(\s*(mut )?(\w+)\s*,\s*(mut )?(\w+)\s*\)\s*\)$', pat)
    e, calls = chain(tk, ia, ib)
    if not m or [x for x, _ in calls[-2:]] != ['zip', 'enumerate'] or tk.x(p + 1) != '{' or tk.pair[p + 1] != cb: raise Lost('form of process_maybe_parallel_map_collect')
    za, zb = calls[-2][1][0]
    # the receiver of zip
    q = tk.pair[ib] - 1   # enumerate
    q = tk.pair[q - 2] - 1   # zip
    return (ia, q - 2), (za, zb), m.group(1), (m.group(2) or '', m.group(3)), (m.group(4) or '', m.group(5)), p + 1, cb, close

def chunks_src(tk, a, b):
    e, calls = chain(tk, a, b)
    if [x for x, _ in calls] == ['chunks_mut']:
        x, y = calls[0][1][0]
        return 'vx_chunks_mut(&mut *%s, %s)' % (tk.text[tk.s(a):tk.e(e)], tk.text[tk.s(x):tk.e(y)])
    return tk.text[tk.s(a):tk.e(b)]

def worker_text(tk, text, lo, hi, c, opt):
    if not c or not c.worker: return ''
    w = c.worker
    i = find_seq(tk, 'process_maybe_parallel_map_collect (', lo + 1, hi, 1)
    A, B, I, X, Y, bo, bc, close = map_collect(tk, i)
    ed = Edits(text)
    loops = transform_body(tk, ed, bo, bc, w, opt)
    if len(loops) != len(w.loops): raise Lost('%s has %d loops, its contract %d' % (w.path, len(loops), len(w.loops)))
    if w.entry: ed.ins(tk.e(bo), '\n' + w.entry + '\n', -1)
    for where, anchor, n, proof in w.hints:
        q = find_seq(tk, anchor, bo + 1, bc, n)
        a, b, semi = stmt_bounds(tk, q, bo, bc)
        if where == 'before': ed.ins(tk.s(a), proof + '\n', 5)
        else: ed.ins(tk.e(b), '\n' + proof, -5)
    params = w.params.replace('$I', I).replace('$X', X[1]).replace('$Y', Y[1])
    spec = w.spec.replace('$I', I).replace('$X', X[1]).replace('$Y', Y[1])
    out = '\n' + w.attrs + '\nfn %s(%s) -> (r: %s)\n%s\n' % (w.path, params, w.ret, spec) + ed.done(tk.s(bo), tk.e(bc))
    for a, b, *o in w.subst:
        out2 = re.sub(a, b, out)
        if out2 == out and not o: raise Lost('pattern %r not found in %s' % (a, w.path))
        out = out2
    return out

def stubs(contracts, unit):
    """the same contracts, for functions whose bodies another unit verifies"""
    out = []
    for c in contracts:
        d = Fn(c.path, c.ret, re.sub(r'\n\s*decreases[^\n]*$', '', c.spec), attrs='', subst=c.subst, params=c.params); d.stub = unit
        out.append(d)
    return out

def proved(theory, unit):
    """the theory of another unit: its lemmas are proved there"""
    tk = Toks(theory)
    ed = Edits(theory)
    i = 0
    while i < len(tk):
        if tk.x(i) == 'proof' and tk.x(i + 1) == 'fn':
            a = i - 1 if i and tk.x(i - 1) == 'pub' else i
            ed.ins(tk.s(a), '#[verifier::external_body] /* proved in unit %s */ ' % unit)
            o = i + 2
            d = None
            # the body is the last brace group before the next item at this level
            while o < len(tk):
                if tk.x(o) in '([': o = tk.pair[o]
                elif tk.x(o) == 'decreases' and d is None: d = o
                elif tk.x(o) == '{':
                    e = tk.pair[o]
                    nx = tk.x(e + 1) if e + 1 < len(tk) else 'pub'
                    if nx in ('pub', 'proof', 'spec', '#', 'impl', 'trait', '}', 'fn', 'use', 'open'): break
                    o = e
                o += 1
            if d is not None: ed.put(tk.s(d), tk.s(o), '')
            ret = any(tk.x(q) == '->' for q in range(a, o) if not any(tk.x(r) in ('requires', 'ensures') for r in range(a, q)))
            ed.put(tk.s(o), tk.e(tk.pair[o]), '{ arbitrary() }' if ret else '{ }')
            i = tk.pair[o]
        i += 1
    return ed.done(0, len(theory))

def tk_index_at(tk, pos):
    for i in range(len(tk)):
        if tk.s(i) >= pos: return i
    return len(tk)

def drop_fn_params(tk, ed, o, c):
    # parameters of the form `name: unsafe fn(...)`
    parts = split_args(tk, o, c)
    names = []
    for n, (a, b) in enumerate(parts):
        t = tk.text[tk.s(a):tk.e(b)]
        if re.search(r':\s*(unsafe\s+)?fn\s*\(', t):
            end = tk.e(b + 1) if tk.x(b + 1) == ',' else tk.e(b)
            ed.put(tk.s(a), end, '')
            names.append(t.split(':')[0].split()[-1])
    # the arguments are dropped, too (checked there): the names have to be those of the functions passed
    f = tk.x(o - 1)
    if names and names != ['horizontal_' + f, 'vertical_' + f]: raise Lost('function parameters %s of %s' % (names, f))

def split_args(tk, o, c):
    """token ranges of the comma separated parts between brackets o and c"""
    out, a, i = [], o + 1, o + 1
    while i < c:
        if tk.x(i) in '([{' and i in tk.pair: i = tk.pair[i]
        elif tk.x(i) == '|' and (i == a or tk.x(i - 1) == 'move'):
            i += 1
            while tk.x(i) != '|': i = tk.pair[i] + 1 if tk.x(i) in '([{' else i + 1
        elif tk.x(i) == ',':
            out.append((a, i - 1)); a = i + 1
        i += 1
    if a < c: out.append((a, c - 1))
    return out

def loop_clause(c, n, default=''):
    if c is None or n >= len(c.loops): return '', '', ''
    l = c.loops[n]
    if isinstance(l, str): l = dict(inv=l)
    return '\n' + l.get('inv', '') + '\n', l.get('begin', ''), l.get('end', '')

class IterForm:
    """setup; while cond {bind; advance; body}  for the iterator expressions we know"""
    def __init__(self, setup, cond, bind, late=''): self.setup, self.cond, self.bind, self.late = setup, cond, bind, late

def chain(tk, a, b):
    """postfix method chain: returns (index of last token of the receiver, [(name, argument ranges)])"""
    calls = []
    e = b
    while tk.x(e) == ')' and tk.pair[e] >= a:
        o = tk.pair[e]
        if tk.t[o - 1][0] == 'id' and tk.x(o - 2) == '.':
            calls.append((tk.x(o - 1), split_args(tk, o, e)))
            e = o - 3
        else: break
    return e, calls[::-1]

def iter_form(tk, a, b, pat, n, txt):
    """txt(a,b): source text of tokens a..b"""
    e, calls = chain(tk, a, b)
    names = [x for x, _ in calls]
    v = 'vx_n%d' % n
    if tk.x(a) == '(' and tk.pair[a] == e and names == ['step_by']:
        d = None
        q = a + 1
        while q < e:
            if tk.x(q) in '([{' and q in tk.pair: q = tk.pair[q]
            elif tk.x(q) == '..': d = q; break
            q += 1
        if d is None: return None
        A, B = txt(a + 1, d - 1), txt(d + 1, e - 1)
        S = txt(*calls[0][1][0])
        return IterForm('let vx_e%d = %s; let vx_s%d = %s; let mut %s = %s; assert(vx_s%d > 0);' % (n, B, n, S, v, A, n),
                        '%s < vx_e%d' % (v, n), 'let %s = %s; %s = vx_step(%s, vx_s%d, vx_e%d);' % (pat, v, v, v, n, n))
    if tk.x(a) == '&' and tk.x(a + 1) != 'mut' and not names and all(tk.t[q][0] == 'id' or tk.x(q) == '.' for q in range(a + 1, b + 1)):
        R = txt(a + 1, b)   # for PAT in &VEC
        return IterForm('let mut %s: usize = 0;' % v, '%s < %s.len()' % (v, R), 'let %s = &%s[%s]; %s = %s + 1;' % (pat, R, v, v, v))
    if not names and a == b and tk.t[a][0] == 'id':
        return IterForm('let mut vx_v%d = %s; let ghost vx_w%d = vx_v%d@; let mut %s: usize = 0;' % (n, tk.x(a), n, n, v), 'vx_v%d.len() > 0' % n, 'let %s = vx_v%d.remove(0); %s = %s + 1;' % (pat, n, v, v))
    if names in (['chunks', 'zip'], ['chunks_mut', 'zip']):
        zi = 1
        ze, zc = chain(tk, *calls[zi][1][0])
        mm = re.match(r'^\(\s*(mut\s+)?(\w+)\s*,\s*(mut\s+)?(\w+)\s*\)$', pat.strip())
        if [x for x, _ in zc] != ['iter_mut'] or not mm or names[0] != 'chunks': return None
        S, R, N = txt(a, e), txt(calls[zi][1][0][0], ze), txt(*calls[0][1][0])
        return IterForm('let vx_c%d: usize = %s; let mut vx_p%d: usize = 0; let mut %s: usize = 0; assert(vx_c%d > 0);' % (n, N, n, v, n),
                        'vx_p%d < %s.len() && %s < %s.len()' % (n, S, v, R),
                        'let vx_i%d = %s; let vx_q%d: usize = if %s.len() - vx_p%d < vx_c%d { %s.len() } else { vx_p%d + vx_c%d }; let %s%s = vx_sub(%s, vx_p%d, vx_q%d); %s = %s + 1; vx_p%d = vx_q%d;' % (n, v, n, S, n, n, S, n, n, mm.group(1) or '', mm.group(2), S, n, n, v, v, n, n),
                        'let %s%s = &mut %s[vx_i%d];' % (mm.group(3) or '', mm.group(4), R, n))
    if names == ['into_iter', 'zip', 'enumerate'] and a == e and tk.t[a][0] == 'id':
        ze, zc = chain(tk, *calls[1][1][0])
        mm = re.match(r'^\(\s*(\w+)\s*,\s*\(\s*(mut\s+)?(\w+)\s*,\s*(mut\s+)?(\w+)\s*\)\s*\)$', pat.strip())
        if [x for x, _ in zc] != ['chunks_mut'] or not mm: return None
        S, N = txt(calls[1][1][0][0], ze), txt(*zc[0][1][0])
        return IterForm('let mut vx_v%d = %s; let ghost vx_w%d = vx_v%d@; let mut vx_c%d = vx_chunks_mut(&mut *%s, %s); let mut %s: usize = 0;' % (n, tk.x(a), n, n, n, S, N, v),
                        'vx_v%d.len() > 0 && vx_c%d.more()' % (n, n),
                        'let %s = %s; let %s%s = vx_v%d.remove(0); let mut %s = vx_c%d.get(); %s = %s + 1;' % (mm.group(1), v, mm.group(2) or '', mm.group(3), n, mm.group(5), n, v, v))
    if names in (['chunks_mut', 'take', 'map', 'zip'], ['chunks_mut', 'map', 'take', 'zip'], ['chunks_mut', 'map', 'zip']):
        args = {nm: ar for nm, ar in calls}
        ze, zc = chain(tk, *args['zip'][0])
        ma, mb = args['map'][0]
        if tk.x(ma) == 'move': ma += 1
        mm = re.match(r'^\(\s*(ref\s+mut\s+|mut\s+)?(\w+)\s*,\s*(&)?\s*(\w+)\s*\)$', pat.strip())
        if [x for x, _ in zc] != ['iter'] or not mm or tk.x(ma) != '|' or tk.x(ma + 2) != '|': return None
        body = collect_rows(txt(ma + 3, mb))
        S, N, K, R = txt(a, e), txt(*args['chunks_mut'][0]), txt(*args['take'][0]) if 'take' in args else 'usize::MAX', txt(args['zip'][0][0], ze)
        ref = (mm.group(1) or '').split()
        one = 'let mut vx_m%d = %s; /*mapped*/ ' % (n, body) + ('let %s = &mut vx_m%d;' % (mm.group(2), n) if 'ref' in ref else 'let %s%s = vx_m%d;' % ('mut ' if ref else '', mm.group(2), n))
        return IterForm('let mut vx_c%d = vx_pieces(&mut *%s, %s); let mut vx_k%d: usize = %s; let mut %s: usize = 0;' % (n, S, N, n, K, v),
                        'vx_k%d > 0 && vx_c%d.more() && %s < %s.len()' % (n, n, v, R),
                        'vx_k%d = vx_k%d - 1; let %s = vx_c%d.get(); /*taken*/ %s let %s = %s%s[%s]; %s = %s + 1;' % (n, n, tk.x(ma + 1), n, one, mm.group(4), '' if mm.group(3) else '&', R, v, v, v))
    if names == ['iter', 'rev']:
        R = txt(a, e)
        return IterForm('let mut %s: usize = %s.len();' % (v, R), '%s > 0' % v, '%s = %s - 1; let %s = &%s[%s];' % (v, v, pat, R, v))
    if names == ['iter_mut', 'zip']:
        R, (za, zb) = txt(a, e), calls[1][1][0]
        ze, zc = chain(tk, za, zb)
        mm = re.match(r'^\(\s*(\w+)\s*,\s*(\w+)\s*\)$', pat.strip())
        if [x for x, _ in zc] != ['iter'] or not mm: return None
        Z = txt(za, ze)
        return IterForm('let mut %s: usize = 0;' % v, '%s < %s.len() && %s < %s.len()' % (v, R, v, Z),
                        'let vx_i%d = %s; %s = %s + 1;' % (n, v, v, v), 'let %s = &mut %s[vx_i%d]; let %s = &%s[vx_i%d];' % (mm.group(1), R, n, mm.group(2), Z, n))
    if names and names[0] in ('iter_mut', 'iter') and not set(names[1:]) - {'enumerate', 'skip', 'step_by'} and len(set(names)) == len(names):
        R = txt(a, e)
        args = {nm: ar for nm, ar in calls}
        if 'step_by' in names and names[-1] != 'step_by': return None
        if 'enumerate' in names and 'skip' in names: return None
        S = txt(*args['step_by'][0]) if 'step_by' in args else '1usize'
        K = txt(*args['skip'][0]) if 'skip' in args else '0usize'
        m = 'mut ' if names[0] == 'iter_mut' else ''
        el = '&%s%s[vx_i%d]' % (m, R, n)
        p = pat
        if 'enumerate' in names:
            mm = re.match(r'^\(\s*(\w+)\s*,\s*(mut\s+)?(\w+)\s*\)$', pat.strip())
            if not mm: return None
            bind = 'let %s = vx_i%d; let %s%s = %s;' % (mm.group(1), n, mm.group(2) or '', mm.group(3), el)
        else:
            bind = 'let %s = %s;' % (p, el)
        return IterForm('let vx_s%d: usize = %s; let mut %s: usize = %s; assert(vx_s%d > 0);' % (n, S, v, K, n),
                        '%s < %s.len()' % (v, R), 'let vx_i%d = %s; %s = vx_step_usize(%s, vx_s%d, %s.len());' % (n, v, v, v, n, R), bind)
    return None

def collect_rows(t):
    return re.sub(r'(?s)\b(\w+)\s*\.\s*chunks_mut\((.*)\)\s*\.\s*collect(?:::<[^()]*>)?\(\)', r'vx_rows(\1, \2)', t)

def helper_form(tk, a, b, pat, n):
    """a call of a function of this file that returns an iterator: its body in place of the call"""
    if tk.t[a][0] != 'id' or tk.x(a + 1) != '(' or tk.pair[a + 1] != b: return None
    j = next((i for i in range(len(tk)) if tk.x(i) == 'fn' and tk.x(i + 1) == tk.x(a)), None)
    if j is None: return None
    o = j + 2
    while tk.x(o) != '(': o += 1
    c = tk.pair[o]
    q = c + 1
    while tk.x(q) != '{': q = tk.pair[q] + 1 if tk.x(q) in '([' else q + 1
    if [tk.x(c + 1), tk.x(c + 2), tk.x(c + 3)] != ['->', 'impl', 'Iterator']: return None
    e = tk.pair[q]
    params = [(tk.x(x + 1) if tk.x(x) == 'mut' else tk.x(x), x, y) for x, y in split_args(tk, o, c)]
    args = split_args(tk, a + 1, b)
    if len(args) != len(params): return None
    # the statements before the final expression
    lets, i, last = [], q + 1, q + 1
    while i < e:
        if tk.x(i) in '([{': i = tk.pair[i]
        elif tk.x(i) == ';': lets.append((last, i)); last = i + 1
        i += 1
    names = {x for x, _, _ in params}
    for x, y in lets:
        if tk.x(x) != 'let' or tk.x(x + 1) == '(': raise Lost('statement in %s' % tk.x(a))
        names.add(tk.x(x + 2) if tk.x(x + 1) == 'mut' else tk.x(x + 1))
    ed = Edits(tk.text)
    for i in range(o, e):
        if tk.t[i][0] == 'id' and tk.x(i) in names and tk.x(i - 1) != '.' and tk.x(i + 1) != ':' * 2: ed.put(tk.s(i), tk.e(i), 'vx_h_' + tk.x(i))
    strip = lambda t: re.sub(r"&\s*'\w+\s*", '&', t)
    pre = ' '.join('let %s = %s;' % (strip(ed.done(tk.s(x), tk.e(y))), tk.text[tk.s(u):tk.e(v)]) for (_, x, y), (u, v) in zip(params, args))
    pre += ' ' + ' '.join(ed.done(tk.s(x), tk.e(y)) for x, y in lets)
    t2 = Toks(ed.done(tk.s(last), tk.e(e - 1)))
    f = iter_form(t2, 0, len(t2) - 1, pat, n, lambda x, y: t2.text[t2.s(x):t2.e(y)])
    if f: f.setup = pre + ' ' + f.setup
    return f

def range_form(tk, a, b, pat, n, txt):
    """for PAT in A..B, where the verifier has no for loop (continue)"""
    d = None
    q = a
    while q <= b:
        if tk.x(q) in '([{' and q in tk.pair: q = tk.pair[q]
        elif tk.x(q) == '..': d = q; break
        q += 1
    if d is None: return None
    v = 'vx_n%d' % n
    return IterForm('let vx_e%d = %s; let mut %s = %s;' % (n, txt(d + 1, b), v, txt(a, d - 1)), '%s < vx_e%d' % (v, n), 'let %s = %s; %s = %s + 1;' % (pat, v, v, v))

def transform_body(tk, ed, lo, hi, c, opt):
    """applies t_for, t_par, t_gets, t_params in the body and inserts loop clauses; returns loops in order"""
    loops = []
    ncl = 0
    txt = lambda a, b: tk.text[tk.s(a):tk.e(b)]
    i = lo + 1
    while i < hi:
        x = tk.x(i)
        if x == '|' and c and c.closures and c.closures != 'any' and tk.x(i - 1) in ('(', ',', '=', 'move'):
            p = i + 1
            while tk.x(p) != '|': p = tk.pair[p] + 1 if tk.x(p) in '([{' else p + 1
            if ncl >= len(c.closures): raise Lost('closures')
            t = c.closures[ncl]; ncl += 1
            t, ent, ret = (tuple(t) + ('', ''))[:3] if isinstance(t, tuple) else (t, '', '')
            for w in range(i + 1, p):   # a parameter without a name gets one
                if tk.x(w) == '_' and tk.x(w - 1) in ('|', ',') and tk.x(w + 1) in ('|', ',', ':'): ed.put(tk.s(w), tk.e(w), 'vx_u%d' % w)
            ed.ins(tk.e(p), ('-> (r: %s) ' % ret if ret else '') + ' ' + t + ' ')
            if tk.x(p + 1) == '{': ed.ins(tk.e(p + 1), ' ' + ent + ' ')
            if tk.x(p + 1) != '{':
                q = p + 1
                while tk.x(q) not in (')', ',', ';'): q = tk.pair[q] + 1 if tk.x(q) in '([{' else q + 1
                ed.ins(tk.s(p + 1), '{ ' + ent + ' '); ed.ins(tk.s(q), ' }')
        elif c and c.closures != 'any' and x in ('|', '||') and tk.x(i - 1) in ('(', ',', '=', 'move'): raise Lost('%s has a closure without contract' % c.path)
        if x in ('while', 'loop') and tk.t[i][0] == 'id':
            o = i + 1
            while tk.x(o) != '{':
                o = tk.pair[o] + 1 if tk.x(o) in '([' else o + 1
            inv, b, e = loop_clause(c, len(loops))
            ed.ins(tk.s(o), inv); ed.ins(tk.e(o), '\n' + b); ed.ins(tk.s(tk.pair[o]), e + '\n', 3)
            lc = c.loops[len(loops)] if c and len(loops) < len(c.loops) and isinstance(c.loops[len(loops)], dict) else {}
            if lc.get('post'): ed.ins(tk.e(tk.pair[o]), '\n' + lc['post'], -3)
            loops.append(i)
        elif x == 'for' and tk.t[i][0] == 'id' and tk.x(i + 1) != '<':
            q = i + 1
            while tk.x(q) != 'in':
                q = tk.pair[q] + 1 if tk.x(q) in '([' else q + 1
            o = q + 1
            while tk.x(o) != '{':
                o = tk.pair[o] + 1 if tk.x(o) in '([' else o + 1
            n = len(loops)
            inv, b, e = loop_clause(c, n)
            f = iter_form(tk, q + 1, o - 1, txt(i + 1, q - 1), n, txt)
            if not f and any(tk.x(j) == 'continue' for j in range(o, tk.pair[o])): f = range_form(tk, q + 1, o - 1, txt(i + 1, q - 1), n, txt)
            lc = c.loops[n] if c and n < len(c.loops) and isinstance(c.loops[n], dict) else {}
            close = tk.pair[o]
            if e and tk.x(close - 1) not in (';', '{'): e = '; ' + e
            if f:
                ed.put(tk.s(i), tk.e(o), '{ %s %s %s\nwhile %s%s{\n%s\n%s\n%s' % (lc.get('setup', ''), f.setup, lc.get('pre', ''), f.cond, inv, f.bind, b, f.late))
                ed.put(tk.s(close), tk.e(close), e + '\n} %s }' % lc.get('post', ''), 3)
            else:
                ed.ins(tk.s(o), inv); ed.ins(tk.e(o), '\n' + b); ed.ins(tk.s(close), e + '\n', 3)
            loops.append(i)
        elif x == 'process_maybe_parallel_for_each' and tk.x(i + 1) == '(':
            o = i + 1; close = tk.pair[o]
            a3 = split_args(tk, o, close)
            if len(a3) != 3: raise Lost('arguments of process_maybe_parallel_for_each')
            (ia, ib), (ca, cb), (ha, hb) = a3
            if tk.x(ca) == 'move': ca += 1
            if tk.x(ca) != '|': raise Lost('closure expected')
            p = ca + 1
            while tk.x(p) != '|': p = tk.pair[p] + 1 if tk.x(p) in '([{' else p + 1
            pat = txt(ca + 1, p - 1)
            n = len(loops)
            inv, b, e = loop_clause(c, n)
            f = iter_form(tk, ia, ib, pat, n, txt) or helper_form(tk, ia, ib, pat, n)
            lc = c.loops[n] if c and n < len(c.loops) and isinstance(c.loops[n], dict) else {}
            if f:
                f.setup += ' ' + lc.get('pre', '')
                for k in ('taken', 'mapped'): f.bind = f.bind.replace('/*%s*/' % k, lc.get(k, ''))
                ed.put(tk.s(i), tk.s(p + 1), '{ %s %s\nwhile %s%s{\n%s\n%s\n%s\n' % (lc.get('setup', ''), f.setup, f.cond, inv, f.bind, b, f.late))
                ed.put(tk.e(cb), tk.e(close), ';\n%s\n} %s }' % (e, lc.get('post', '')), 3)
            else:
                src = txt(ia, ib)
                src = re.sub(r'\(\s*&mut\s+(\w+)\s*,', r'(&mut *\1,', src, count=1)
                pre, post = lc.get('pre', ''), lc.get('post', '')
                ed.put(tk.s(i), tk.s(p + 1), '{ ' + lc.get('setup', '') + ' let mut vx_it%d = %s;\n%s\nloop%s{ match vx_it%d.next() { None => { break; }, Some(vx_item) => { let %s = vx_item; %s\n' % (n, src, pre, inv, n, pat, b))
                ed.put(tk.e(cb), tk.e(close), ';\n%s\n} } }\n%s }' % (e, post), 3)
            loops.append(i)
            i = p   # transform inside of the closure body, too
        elif x == 'process_maybe_parallel_map_collect' and tk.x(i + 1) == '(':
            A, B, I, X, Y, bo, bc, close = map_collect(tk, i)
            if not c or not c.worker: raise Lost('no contract for the closure of process_maybe_parallel_map_collect')
            n = len(loops)
            inv, b, e = loop_clause(c, n)
            lc = c.loops[n] if c and n < len(c.loops) and isinstance(c.loops[n], dict) else {}
            sub = lambda t: t.replace('$I', I).replace('$X', X[1]).replace('$Y', Y[1])
            call = sub(lc['call']); b = sub(b); e = sub(e); lc = dict(lc, join=sub(lc.get('join', '')))
            ed.put(tk.s(i), tk.e(close), '{ %s let mut vx_a%d = %s; let mut vx_b%d = %s; let mut vx_r%d: Vec<%s> = Vec::new(); let mut vx_n%d: usize = 0;\n%s\nloop%s{ %s match vx_a%d.next() { None => { %s break; }, Some(vx_x) => match vx_b%d.next() { None => { %s break; }, Some(vx_y) => {\nlet %s = vx_n%d; let mut %s = vx_x; let mut %s = vx_y; %s\nlet vx_z = %s(%s);\n%s\nvx_r%d.push(vx_z); vx_n%d = vx_n%d + 1; %s } } } }\n%s let vx_o%d = vx_any_order(vx_r%d); %s vx_o%d }'
                   % (lc.get('setup', ''), n, chunks_src(tk, *A), n, chunks_src(tk, *B), n, c.worker.ret, n, lc.get('pre', ''), inv, lc.get('top', ''), n, lc.get('none', ''), n, lc.get('none2', ''), I, n, X[1], Y[1], b, c.worker.path, call, lc.get('join', ''), n, n, n, e, lc.get('post', ''), n, n, lc.get('order', ''), n))
            loops.append(i)
            i = close
        elif x == 'sum' and tk.x(i - 1) == '.' and tk.x(i - 2) == ')' and tk.x(i - 4) == 'iter' and tk.x(i + 1) == '(' and tk.t[i - 6][0] == 'id':
            ed.put(tk.s(i - 6), tk.e(i + 2), 'vx_sum(&%s)' % tk.x(i - 6))
        elif x in ('get_unchecked', 'get_unchecked_mut') and tk.x(i - 1) == '.' and opt.get('gets', True):
            ed.put(tk.s(i), tk.e(i), 'vx_get' if x == 'get_unchecked' else 'vx_get_mut')
        elif x == '/=' :
            a_, b_, semi_ = stmt_bounds(tk, i, lo, hi)
            if not semi_: raise Lost('division assignment')
            ed.put(tk.s(i), tk.e(i), '= ' + txt(a_, i - 1) + ' / (')
            ed.ins(tk.s(b_), ')')
        elif x == 'debug_assert' and tk.x(i + 1) == '!' and tk.x(i + 2) == '(':
            a_, b_ = split_args(tk, i + 2, tk.pair[i + 2])[0]
            ed.put(tk.s(i), tk.e(i + 1), 'vx_assert'); ed.put(tk.e(b_), tk.s(tk.pair[i + 2]), '')
        elif x == 'format' and tk.x(i + 1) == '!' and tk.x(i + 2) == '(':
            ed.put(tk.s(i), tk.e(tk.pair[i + 2]), 'vx_string()')
        elif x == 'Config' and tk.x(i + 2) == 'multithreading_factors' and tk.x(i + 5) == '.':
            ed.put(tk.s(i), tk.e(i + 6), 'vx_factor()')
        elif x == 'as' and tk.x(i + 1) == '&':
            j = i + 2   # a cast of a reference to the same reference type
            while tk.x(j) != '[': j += 1
            ed.put(tk.s(i), tk.e(tk.pair[j]), '')
        elif x in ('lift', 'unlift') and tk.x(i + 1) == '(' and opt.get('drop_fn_params'):
            parts = split_args(tk, i + 1, tk.pair[i + 1])
            dropped = []
            for a, b in parts:
                if a == b and re.match(r'(horizontal|vertical)_', tk.x(a)):
                    ed.put(tk.s(a), tk.e(b + 1) if tk.x(b + 1) == ',' else tk.e(b), '')
                    dropped.append(tk.x(a))
            if dropped != ['horizontal_' + x, 'vertical_' + x]: raise Lost('%s is called with %s' % (x, dropped))
        i += 1
    return loops

def t_paths(s, mods):
    s = re.sub(r'\b(?:std|core)::((?:i|u)(?:8|16|32|64|size))::(MAX|MIN)\b', r'\1::\2', s)
    return re.sub(r'\b(?:crate::)?(?:%s)::(?=[A-Za-z_])' % '|'.join(mods), '', s)

class Unit:
    """items: ('fn', file, path) | ('struct'|'enum'|'const'|'trait', file, name) | ('impl', file, key, [method names], extra text)"""
    def __init__(self, name, items, contracts, prelude='', post='', opt=None, mods=('bits', 'header', 'encode', 'io_x')):
        self.name, self.items, self.prelude, self.post = name, items, prelude, post
        self.contracts = {c.path: c for c in contracts}
        self.opt = opt or {}
        self.mods = list(mods)

    def emit(self):
        """-> (text, functions under contract)"""
        S = {}
        out, fns, used = [], [], set()
        def src(f):
            if f not in S: S[f] = Source(f)
            return S[f]
        def fn(sr, it):
            c = self.contracts.get(it.path)
            if c: used.add(it.path)
            t = fn_text(sr, it, c, self.opt)
            if c and not c.stub: fns.append(it.path)
            return t
        for d in self.items:
            sr = src(d[1])
            if d[0] == 'fn':
                it = sr.get('fn', d[2])
                t = '// ---- %s %s\n' % (d[1], d[2]) + fn(sr, it).replace('VX_VIS', 'pub ', 1)
            elif d[0] in ('struct', 'enum', 'const'):
                it = sr.get(d[0], d[2])
                a, b = it.tok
                x = sr.text[sr.tk.s(a):it.end]
                x = re.sub(r'#\[[^\]]*\]', '', x)
                if d[0] == 'struct': x = pub_fields(x)
                if not x.startswith('pub'): x = 'pub ' + x
                if d[0] == 'enum' and len(d) > 3:
                    pre = sr.text[:sr.tk.s(a)]
                    pre = pre[max(pre.rfind('}'), pre.rfind(';')) + 1:]
                    if d[3] == 'prim':
                        if 'FromPrimitive' not in pre or 'ToPrimitive' not in pre: raise Lost('derives of enum %s' % d[2])
                        x = '#[derive(Clone, Copy)]\n' + x + prim(x, d[2])
                    elif d[3] == 'eq': x = '#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n' + x
                t = '// ---- %s %s\n' % (d[1], d[2]) + x
            elif d[0] in ('impl', 'trait'):
                it = sr.get(d[0], d[2])
                tk = sr.tk
                head = sr.text[tk.s(it.tok[0]):tk.e(it.open)]
                body = []
                item_ty = None
                if d[0] == 'impl' and it.owner == 'Iterator':
                    head = re.sub(r'\bIterator\s+for\s+', '', head)
                    for k in it.kids:
                        if k.kind == 'type':
                            m = re.match(r'type\s+Item\s*=\s*(.*);\s*$', sr.text[k.start:k.end], re.S)
                            if m: item_ty = m.group(1)
                kids = {k.name: k for k in it.kids if k.kind == 'fn'}
                for k in it.kids:
                    if k.kind == 'fn' and d[3] is not None and k.name not in d[3]: continue
                    if k.kind == 'fn':
                        k.owner = d[2].split('@')[0] if d[0] == 'impl' else it.name
                        vis = 'pub ' if d[0] == 'impl' and it.owner in ('', 'Iterator') else ''
                        if self.contracts.get(k.path) and self.contracts[k.path].stub and k.open is not None: body.append('    ' + fn(sr, k).replace('VX_VIS', vis, 1))
                        else: body.append('    ' + vis + fn(sr, k) if not (self.contracts.get(k.path) and self.contracts[k.path].attrs) else fn_with_attr(fn(sr, k), vis, self.contracts[k.path].attrs))
                    elif k.kind == 'type' and item_ty is None:
                        body.append('    ' + sr.text[k.start:k.end])
                if item_ty: body = [b.replace('Self::Item', item_ty) for b in body]
                for nm in (d[3] or []):
                    if nm not in kids: raise Lost('method %s of %s not found' % (nm, d[2]))
                if d[0] == 'impl' and len(d) > 5 and d[5]: head = d[5](head)
                t = '// ---- %s %s %s\n' % (d[1], d[0], d[2]) + head + '\n' + (d[4] if len(d) > 4 else '') + '\n' + '\n'.join(body) + '\n}\n'
            out.append(t_paths(t, self.mods))
        miss = set(self.contracts) - used
        if miss: raise Lost('no function for contracts %s' % sorted(miss))
        body = self.prelude + '\n' + '\n'.join(out) + '\n' + self.post
        text = '#![allow(unused, non_camel_case_types)]\nuse vstd::prelude::*;\nuse std::mem;\nverus! {\nglobal size_of usize == 8;\n' + prelude(body) + body + '\n} // verus!\nfn main() {}\n'
        return text, fns

def prim(x, name):
    """from_u8 / to_u8 as the derives FromPrimitive / ToPrimitive make them"""
    body = x[x.index('{') + 1:x.rindex('}')]
    vs, n = [], 0
    for p in body.split(','):
        p = ' '.join(re.sub(r'//[^\n]*', '', p).split())
        if not p: continue
        m = re.match(r'^(\w+)(?:\s*=\s*(\d+))?$', p)
        if not m: raise Lost('variants of enum %s' % name)
        if m.group(2): n = int(m.group(2))
        if n > 255: raise Lost('discriminant of %s::%s' % (name, m.group(1)))
        vs.append((m.group(1), n)); n += 1
    return """
impl %(n)s {
    pub open spec fn code(self) -> u8 { match self { %(to)s } }
    pub open spec fn of(x: u8) -> Option<%(n)s> { %(ofs)s }
    pub fn from_u8(x: u8) -> (r: Option<%(n)s>) ensures r == %(n)s::of(x) { match x { %(fr)s _ => None } }
    pub fn to_u8(&self) -> (r: Option<u8>) ensures r == Some((*self).code()) { match self { %(too)s } }
    pub proof fn lemma_code(self) ensures %(n)s::of(self.code()) == Some(self) {}
}
""" % dict(n=name, to=' '.join('%s::%s => %du8,' % (name, v, k) for v, k in vs), ofs=''.join('if x == %d { Some(%s::%s) } else ' % (k, name, v) for v, k in vs) + '{ None }',
           fr=' '.join('%du8 => Some(%s::%s),' % (k, name, v) for v, k in vs), too=' '.join('%s::%s => Some(%du8),' % (name, v, k) for v, k in vs))

def pub_fields(x):
    """all fields public: specification functions may name them"""
    tk = Toks(x)
    i = next((k for k in range(len(tk)) if tk.x(k) == '{'), None)
    if i is None: return x
    ed, e = Edits(x), tk.pair[i]
    for a, b in split_args(tk, i, e):
        if tk.x(a) != 'pub': ed.ins(tk.s(a), 'pub ')
    return ed.done(0, len(x))

def fn_with_attr(t, vis, attrs):
    return '    ' + attrs + '\n    ' + vis + t[len(attrs) + 1:]

# (key, text): emitted when the key occurs in what is emitted anyway
CHUNKS = [
('io::', r'''
pub mod io {
    pub struct Error { pub x: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
}
'''),
('vx_string()', r'''
#[verifier::external_body]
pub fn vx_string() -> String { String::new() }
'''),
('LittleEndian', 'pub struct LittleEndian;\n'),
('.contains(&', r'''
pub assume_specification<T> [<[T]>::contains] (s: &[T], y: &T) -> (r: bool) where T: core::cmp::PartialEq
    ensures T::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(y));
'''),
('i32::from(', r'''
pub assume_specification[ <i32 as core::convert::From<u16>>::from ](x: u16) -> (r: i32) ensures r == x;
pub assume_specification[ <i32 as core::convert::From<u8>>::from ](x: u8) -> (r: i32) ensures r == x;
'''),
('.abs()', r'''
pub assume_specification[ i32::abs ](x: i32) -> (r: i32)
    requires x > i32::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
'''),
('wrapping_abs', r'''
pub assume_specification[ i32::wrapping_abs ](x: i32) -> (r: i32)
    ensures r == (if x == i32::MIN { x as int } else if x < 0 { -x } else { x as int });
'''),
('wrapping_neg', r'''
pub assume_specification[ i32::wrapping_neg ](x: i32) -> (r: i32)
    ensures r == (if x == i32::MIN { x as int } else { -x });
'''),
('wrapping_div', r'''
pub assume_specification[ i32::wrapping_div ](x: i32, y: i32) -> (r: i32)
    requires y != 0, !(x == i32::MIN && y == -1),
    ensures r == tdiv(x as int, y as int);
'''),
('tdiv', r'''
/// division truncated toward zero
#[verifier::opaque]
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
'''),
('vx_step(', r'''
/// what Iterator::step_by does to the position of a Range
pub fn vx_step(n: i32, s: usize, e: i32) -> (r: i32)
    requires n < e, s > 0,
    ensures r == (if e - n > s { n + s } else { e as int }),
{ if (s as u64) < (e as i64 - n as i64) as u64 { (n as i64 + s as i64) as i32 } else { e } }
'''),
('vx_step_usize(', r'''
pub fn vx_step_usize(n: usize, s: usize, e: usize) -> (r: usize)
    requires n < e, s > 0,
    ensures r == (if e - n > s { n + s } else { e as int }),
{ if s < e - n { n + s } else { e } }
'''),
('vx_sub(', r'''
pub fn vx_sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ let (x, y) = s.split_at(b); let (z, w) = x.split_at(a); assert(w@ =~= s@.subrange(a as int, b as int)); w }
'''),
('vx_sum(', r'''
pub open spec fn vsum(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { vsum(s.drop_last()) + s.last() } }
pub proof fn lemma_vsum(s: Seq<usize>, k: int) requires 0 <= k <= s.len() ensures vsum(s.take(k)) <= vsum(s), vsum(s.take(k)) >= 0 decreases s.len()
{ if s.len() == 0 { assert(s.take(k) =~= s); } else if k == s.len() { assert(s.take(k) =~= s); lemma_vsum(s.drop_last(), k - 1); } else { lemma_vsum(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } }
/// Iterator::sum: an addition that overflows panics
pub fn vx_sum(s: &Vec<usize>) -> (r: usize)
    requires vsum(s@) <= usize::MAX,
    ensures r == vsum(s@),
{
    let mut r: usize = 0; let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), r == vsum(s@.take(i as int)), vsum(s@) <= usize::MAX,
        decreases s.len() - i,
    {
        proof { lemma_vsum(s@, i + 1); assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); assert(s@.take(i + 1).last() == s@[i as int]); }
        r = r + s[i]; i = i + 1;
    }
    proof { assert(s@.take(i as int) =~= s@); }
    r
}
'''),
('vx_any_order(', r'''
/// r is v in another order
pub open spec fn reorder<R>(v: Seq<R>, r: Seq<R>, f: Seq<int>) -> bool {
    &&& r.len() == v.len() && f.len() == v.len()
    &&& forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] f[i] < v.len() && r[i] == v[f[i]]
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] f[i] == #[trigger] f[j] ==> i == j
    &&& forall|j: int| 0 <= j < v.len() ==> #[trigger] f.contains(j)
}
// ASSUMED: process_maybe_parallel_map_collect calls its closure once per item and returns the results in some order (rayon: par_bridge, map, collect)
#[verifier::external_body]
pub fn vx_any_order<R>(v: Vec<R>) -> (r: Vec<R>) ensures exists|f: Seq<int>| #[trigger] reorder(v@, r@, f) { v }
'''),
('vx_factor', r'''
#[verifier::external_body]
pub fn vx_factor() -> usize { 0 }
'''),
('vx_get', r'''
pub trait VxGet<T> {
    spec fn vw(&self) -> Seq<T>;
    unsafe fn vx_get(&self, i: usize) -> (r: &T)
        requires i < self.vw().len(),
        ensures *r == self.vw()[i as int];
    unsafe fn vx_get_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).vw().len(),
        ensures *r == old(self).vw()[i as int], final(self).vw() == old(self).vw().update(i as int, *final(r));
}
impl<T> VxGet<T> for [T] {
    open spec fn vw(&self) -> Seq<T> { self@ }
    unsafe fn vx_get(&self, i: usize) -> (r: &T) { &self[i] }
    unsafe fn vx_get_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
'''),
]
def prelude(body):
    out = ''
    for _ in range(3):
        out = ''.join(t for k, t in CHUNKS if k in body + out and not (k == 'io::' and 'pub mod io {' in body))
    return out
