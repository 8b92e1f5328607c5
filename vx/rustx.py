"""Token-level reader of Rust source: finds items and edits them by span.  No semantic rewriting is
done here; see extract.py for the list of textual transformations."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<str>b?"(?:\\.|[^"\\])*"|r\#*".*?"\#*)
|(?P<char>b?'(?:\\.[^']*|[^\\'])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>[A-Za-z_]\w*)
|(?P<p>::|->|=>|\.\.=|\.\.|&&|\|\||==|<=|>=|!=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|>>=|.)
''', re.X | re.S)

class Lost(Exception):
    """the code no longer has the shape a contract is anchored to"""

class Toks:
    def __init__(self, text):
        self.text = text
        self.t = []          # (kind, text, start, end)
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            k = m.lastgroup
            if k != 'ws':
                self.t.append((k, m.group(), m.start(), m.end()))
            i = m.end()
        self.pair = {}
        st = []
        for i, (k, x, s, e) in enumerate(self.t):
            if k == 'p':
                if x in '([{' : st.append(i)
                elif x in ')]}' and st:
                    j = st.pop(); self.pair[j] = i; self.pair[i] = j

    def __len__(self): return len(self.t)
    def x(self, i): return self.t[i][1] if 0 <= i < len(self.t) else ''
    def s(self, i): return self.t[i][2]
    def e(self, i): return self.t[i][3]

class Item:
    def __init__(self, kind, name, owner, start, end, open_, close, header):
        self.kind, self.name, self.owner, self.start, self.end = kind, name, owner, start, end
        self.open, self.close, self.header = open_, close, header   # token indices of the body braces
    @property
    def path(self): return (self.owner + '::' if self.owner else '') + self.name

KINDS = ('fn', 'struct', 'enum', 'trait', 'impl', 'mod', 'const', 'type', 'use', 'static', 'macro_rules', 'extern')

def items(tk, lo=0, hi=None, owner=''):
    """items between token indices lo..hi (attributes and visibility are not part of the item)"""
    if hi is None: hi = len(tk)
    out = []
    i = lo
    skip_test = False
    while i < hi:
        x = tk.x(i)
        if x == '#':
            j = i + 1
            if tk.x(j) == '!': j += 1
            close = tk.pair[j]
            if re.sub(r'\s', '', tk.text[tk.s(i):tk.e(close)]).startswith('#[cfg(test)'): skip_test = True
            if re.sub(r'\s', '', tk.text[tk.s(i):tk.e(close)]).startswith('#[macro_use'): pass
            i = close + 1
            continue
        start = i
        while tk.x(i) in ('pub', 'unsafe', 'const', 'async', 'default', 'extern') or tk.x(i) == '(' and tk.x(i - 1) == 'pub':
            if tk.x(i) == 'const' and tk.x(i + 1) not in ('fn', 'unsafe'): break
            if tk.x(i) == 'extern' and tk.x(i + 1) == 'crate': break
            i = tk.pair[i] + 1 if tk.x(i) == '(' else i + 1
        k = tk.x(i)
        if k not in KINDS:
            raise Lost('unexpected token %r at item position' % k)
        # end of item: ';' or the brace block
        j = i + 1
        op = None
        while j < hi:
            y = tk.x(j)
            if y in '([' and j in tk.pair: j = tk.pair[j]
            elif y == '{':
                op = j
                j = tk.pair[j]
                if k in ('const', 'static', 'type', 'use'):
                    op = None; j += 1; continue
                break
            elif y == ';': break
            j += 1
        end = j
        name = tk.x(i + 1)
        if k == 'impl':
            h = tk.text[tk.s(i):tk.s(op)]
            hh = re.sub(r'\bwhere\b.*', '', h, flags=re.S)
            hh = re.sub(r"^impl\s*", '', hh).strip()
            if hh.startswith('<'):
                d = 0
                for n, c in enumerate(hh):
                    d += (c == '<') - (c == '>')
                    if d == 0: hh = hh[n + 1:]; break
            tr = ''
            if re.search(r'\bfor\b', hh): tr, hh = re.split(r'\bfor\b', hh, maxsplit=1)
            base = lambda z: re.sub(r'<.*', '', z.strip(), flags=re.S).split('::')[-1].strip()
            name = base(hh)
            it = Item('impl', name, base(tr), tk.s(start), tk.e(end), op, end, (start, op))
        elif k == 'macro_rules':
            it = Item(k, tk.x(i + 2), owner, tk.s(start), tk.e(end), op, end if op else None, (start, op or end))
        else:
            it = Item(k, name, owner, tk.s(start), tk.e(end), op, end if op else None, (start, op or end))
        it.test = skip_test
        skip_test = False
        it.tok = (start, end)
        if not it.test:
            out.append(it)
            if k == 'impl':
                it.kids = items(tk, op + 1, end, name)
            elif k == 'trait':
                it.kids = items(tk, op + 1, end, name)
        i = end + 1
    return out

class Edits:
    """non-overlapping replacements of spans of a text"""
    def __init__(self, text): self.text, self.e = text, []
    def put(self, a, b, s, order=0): self.e.append((a, b, order, len(self.e), s))
    def ins(self, a, s, order=0): self.put(a, a, s, order)
    def done(self, lo, hi):
        out, p = [], lo
        for a, b, o, n, s in sorted(self.e, key=lambda z: (z[0], z[1] > z[0], z[2], z[3])):
            if a < lo or b > hi: continue
            if a < p: raise Lost('overlapping edits near %r' % self.text[a:a + 40])
            out.append(self.text[p:a]); out.append(s); p = b
        out.append(self.text[p:hi])
        return ''.join(out)

def find_seq(tk, pat, lo, hi, nth):
    """token index of the nth (1-based) occurrence of the token sequence pat in lo..hi (-1: the last); 'a || b': the earliest of these"""
    if ' || ' in pat:
        hits = []
        for x in pat.split(' || '):
            try: hits.append(find_seq(tk, x, lo, hi, nth))
            except Lost: pass
        if hits: return min(hits)
        raise Lost('anchor %r not found' % pat)
    ps = [m.group() for m in TOK.finditer(pat) if m.lastgroup != 'ws']
    n = 0; last = None
    for i in range(lo, hi - len(ps) + 1):
        if all(tk.x(i + k) == p or p == '_' and tk.t[i + k][0] == 'id' for k, p in enumerate(ps)):
            n += 1; last = i
            if n == nth: return i
    if nth < 0 and last is not None: return last
    raise Lost('anchor %r (occurrence %d) not found' % (pat, nth))

def stmt_bounds(tk, i, lo, hi):
    """(start token, end token, has semicolon) of the innermost statement containing token i"""
    # innermost enclosing brace block
    o = lo
    for a, b in tk.pair.items():
        if tk.x(a) == '{' and a < i < b and a >= lo and b <= hi and a > o:
            # struct literals / match bodies are not statement blocks; accept blocks only
            o = a
    c = tk.pair[o]
    s = o + 1
    j = o + 1
    while j < c:
        y = tk.x(j)
        if y in '([{' and j in tk.pair:
            k = tk.pair[j]
            if y == '{' and k < i and tk.x(k + 1) not in ('.', '?', ';', ',', ')', 'else', 'as', '==', '+', '-', '*', '/', '&&', '||', '<', '>'):
                # a block statement ends here
                s = k + 1; j = k + 1; continue
            if j <= i <= k and y != '{':
                j = k + 1; continue
            j = k + 1; continue
        if y == ';':
            if j < i: s = j + 1
            else: return s, j, True
        j += 1
    return s, c - 1, False
