"""A small Rust tokenizer and token-tree helpers for the mechanical extraction."""
import re
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?r?\#*"(?:\\.|[^"\\])*"\#*)
 |(?P<life>'[A-Za-z_]\w*(?!'))
 |(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>[A-Za-z_]\w*!?(?!=))
 |(?P<id2>[A-Za-z_]\w*)
 |(?P<op>\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|\^=|\.\.|.)
''', re.X | re.S)

class T:
    __slots__ = ('k', 's', 'line')
    def __init__(self, k, s, line=0): self.k, self.s, self.line = k, s, line
    def __repr__(self): return self.s

def lex(src):
    """tokens without comments; whitespace tokens kept (collapsed)"""
    out, line, i = [], 1, 0
    while i < len(src):
        m = TOK.match(src, i)
        k, s = m.lastgroup, m.group()
        if k == 'id2': k = 'id'
        if k in ('lc', 'bc'):
            out.append(T('ws', '\n' if '\n' in s else ' ', line))
        else:
            out.append(T(k, s, line))
        line += s.count('\n')
        i = m.end()
    return out

def text(ts): return ''.join(t.s for t in ts)
OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}

def match(ts, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(ts)):
        s = ts[j].s
        if ts[j].k == 'op':
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return j
    raise ValueError('unbalanced')

def match_angle(ts, i):
    """index of the '>' closing the '<' at i (types only: '->' is one token)"""
    d = 0
    j = i
    while j < len(ts):
        s = ts[j].s
        if ts[j].k == 'op':
            if s == '<': d += 1
            elif s == '>':
                d -= 1
                if d == 0: return j
            elif s in OPEN: j = match(ts, j)
        j += 1
    raise ValueError('unbalanced <')

def nxt(ts, i):
    """next non-space index after i"""
    j = i + 1
    while j < len(ts) and ts[j].k == 'ws': j += 1
    return j

def prv(ts, i):
    j = i - 1
    while j >= 0 and ts[j].k == 'ws': j -= 1
    return j

def split_top(ts, sep=','):
    """splits a token list at top-level separators, minding brackets and angle brackets in types"""
    out, cur, j, d = [], [], 0, 0
    while j < len(ts):
        t = ts[j]
        if t.k == 'op' and t.s in OPEN:
            e = match(ts, j)
            cur += ts[j:e + 1]
            j = e + 1
            continue
        if t.k == 'op' and t.s == '<': d += 1
        elif t.k == 'op' and t.s == '>': d -= 1
        if t.k == 'op' and t.s == sep and d <= 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
        j += 1
    if any(t.k != 'ws' for t in cur): out.append(cur)
    return out
