"""Mechanical extraction of /repo/src into one Verus file.

What it drops or rewrites is listed in DROPS below and reported in the evidence; function bodies are
otherwise the tokens of /repo's source.  Contracts, loop invariants and hints come from the overlay
files, keyed by the path of the function; loops by their ordinal in the function."""
import os, re, sys
from rtok import *

DROPS = [
    'attributes, doc comments, use items, test modules; impls of Debug, Eq, Send, Sync, IntoIterator, Error',
    'async, .await, async_recursion and unsafe keywords (futures run to completion where they are made; join!(a, b) -> (a, b))',
    'bounds Send, Sync, Debug, Clone, Default, Hash, HashLike and static lifetimes; TryFrom::Error: Debug predicates',
    '*const T -> Ptr<T>, a value-carrying stand-in, made where a reference is coerced',
    'dyn BitIndexedArray -> DynBia, a stand-in whose methods carry the contracts proved for BitIndexedArrayImpl',
    'for loops over ranges and arrays -> while loops over an index',
    '.clone() .into() .unwrap() T::default() panic! assert! assert_eq! -> stand-ins with contracts (vp_*)',
    'impl Clone/Default for T -> inherent vp_clone/vp_default; impl From -> impl VpFrom with a relation',
    '.map(|p| e), .map_err(|p| e) on a Result (on an Option where the receiver is a single name) -> a match',
    'vec![..] -> a Vec built by push; v.iter().position(closure) -> a loop; closures get the parameter types and the contract the overlay gives',
    'a function taking a closure that returns nothing (a visitor) gets a log parameter; each run of the visitor appends its outcome to it, and so do closures that run it',
    'private items and fields become pub',
]
DROP_TRAITS = {'Debug', 'Eq', 'Send', 'Sync', 'IntoIterator', 'Error', 'Display', 'HashLike'}
DROP_BOUNDS = {'Send', 'Sync', 'Debug', 'Clone', 'Default', 'Hash', 'HashLike', 'Unpin', 'Copy'}

class Lost(Exception):
    pass

def strip(ts):
    """attributes, cfg(test) items, use items, async/await/unsafe, pub(...) """
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.s == '#' and ts[nxt(ts, i)].s in ('[', '!'):
            j = nxt(ts, i)
            if ts[j].s == '!': j = nxt(ts, j)
            e = match(ts, j)
            attr = text(ts[j:e + 1]).replace(' ', '')
            i = e + 1
            if attr.startswith('[derive(') and 'Copy' in attr: out.append(T('attr', '#[derive(Clone, Copy)] '))
            if attr == '[cfg(test)]':
                while ts[i].s not in ('{', ';'): i += 1
                if ts[i].s == '{': i = match(ts, i)
                i += 1
            continue
        if t.k == 'id' and t.s == 'use' and (not out or text(out[-4:]).rstrip()[-1:] in ('', ';', '}', 'b')):
            while ts[i].s != ';': i += 1
            i += 1
            while out and (out[-1].k == 'ws' or out[-1].s == 'pub'): out.pop()
            out.append(T('ws', '\n'))
            continue
        if t.k == 'id' and t.s in ('async', 'unsafe'):
            i = nxt(ts, i)
            if ts[i].s == 'move' and t.s == 'async': i = nxt(ts, i)
            continue
        if t.s == '.' and ts[nxt(ts, i)].s == 'await':
            i = nxt(ts, i) + 1
            continue
        if t.k == 'id' and t.s == 'pub':
            j = nxt(ts, i)
            if ts[j].s == '(':
                e = match(ts, j)
                i = e + 1
                out.append(T('id', 'pub', t.line))
                continue
        out.append(t)
        i += 1
    return out

def sub_types(ts):
    """type-level rewrites valid anywhere"""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.s == '*' and ts[nxt(ts, i)].s in ('const', 'mut') and ts[nxt(ts, i)].k == 'id':
            j = nxt(ts, nxt(ts, i))
            e = j + 1
            k = nxt(ts, j)
            if k < len(ts) and ts[k].s == '<': e = match_angle(ts, k) + 1
            out += lex('Ptr<' + text(ts[j:e]) + '>')
            i = e
            continue
        if t.k == 'id' and t.s == 'dyn' and ts[nxt(ts, i)].s == 'BitIndexedArray':
            out.append(T('id', 'DynBia', t.line))
            i = nxt(ts, i) + 1
            k = i if ts[i].k != 'ws' else nxt(ts, i)
            if ts[k].s == '::': i = k + 1
            continue
        if t.s == '+' and ts[nxt(ts, i)].s in ("'static", 'Send', 'Sync', 'Clone', 'Debug'):
            j = nxt(ts, i)
            while out and out[-1].k == 'ws': out.pop()
            i = j + 1
            continue
        out.append(t)
        i += 1
    return out

def keep_bound(b):
    s = text(b).strip()
    if not s or s.startswith("'"): return False
    head = re.match(r'[?\w:]+', s)
    name = head.group().split('::')[-1] if head else ''
    return name not in DROP_BOUNDS and not s.startswith('?')

def bound_rename(s):
    return re.sub(r'\bInto\s*<', 'VpInto<', s)

def filter_generics(ts):
    """tokens between < > of a declaration -> text"""
    out = []
    for p in split_top(ts):
        s = text(p).strip()
        if s.startswith("'") or s.startswith('const '):
            out.append(s); continue
        if ':' in [t.s for t in p]:
            k = [t.s for t in p].index(':')
            bs = [text(b).strip() for b in split_top(p[k + 1:], '+') if keep_bound(b)]
            n = text(p[:k]).strip()
            out.append(n + (': ' + ' + '.join(map(bound_rename, bs)) if bs else ''))
        else:
            out.append(s)
    return ', '.join(out)

def filter_where(ts):
    out = []
    for p in split_top(ts):
        s = text(p).strip()
        if not s or s.startswith('<'): continue
        d = 0
        ks = [t.s for t in p]
        if ':' not in ks: continue
        k = ks.index(':')
        bs = [text(b).strip() for b in split_top(p[k + 1:], '+') if keep_bound(b)]
        if bs: out.append(text(p[:k]).strip() + ': ' + ' + '.join(map(bound_rename, bs)))
    return out

def split_where(ts):
    """splits header tokens at a top-level `where`"""
    j = 0
    while j < len(ts):
        if ts[j].s in OPEN and ts[j].k == 'op': j = match(ts, j)
        elif ts[j].k == 'id' and ts[j].s == 'where': return ts[:j], ts[j + 1:]
        j += 1
    return ts, []

VISITORS = set()
def visitor_bound(s):
    """the type parameter whose bound is a closure returning nothing"""
    m = re.search(r'(\w+)\s*:\s*(?:[\w:]+\s*\+\s*)*Fn(?:Mut|Once)?\s*\((?:[^()]|\([^()]*\))*\)(?!\s*->)', s)
    return m.group(1) if m else None
def find_visitors(srcs):
    VISITORS.clear()
    for s in srcs:
        s = re.sub(r'//[^\n]*', '', s)
        for m in re.finditer(r'\bfn\s+(\w+)([^{;]*)[{;]', s):
            if visitor_bound(m.group(2)): VISITORS.add(m.group(1))

CALLS = {'clone': 'vp_clone', 'into': 'vp_into', 'unwrap': 'vp_unwrap', 'into_owned': 'vp_into_owned', 'eq': 'vp_eq', 'expect': 'vp_expect', 'as_ref': 'vp_as_ref'}

class Body:
    """rewrites of a function body; numbers its loops"""
    def __init__(self, overlay):
        self.ov, self.loops, self.ranges, self.closures = overlay, 0, set(), 0
        self.vis = None     # names of visitor parameters, in a function that takes one
    def rw(self, ts):
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            n = nxt(ts, i) if i + 1 < len(ts) else i
            ns = ts[n].s if n < len(ts) else ''
            if t.s == '.' and t.k == 'op' and ns in ('map', 'map_err') and nxt(ts, n) < len(ts) and ts[nxt(ts, n)].s == '(' and ts[nxt(ts, nxt(ts, n))].s == '|':
                j = nxt(ts, n); e = match(ts, j)
                p, c = self.closure1(ts[j + 1:e])
                a = len(out)
                while a > 0:
                    q = out[a - 1]
                    if q.k == 'ws' and a > 1 and (out[a - 2].s in ('.', '::') or (a < len(out) and out[a].s in ('.', '::', '('))): a -= 1
                    elif q.s in (')', ']', '}') and q.k == 'op':
                        d = 0; b = a - 1
                        while True:
                            if out[b].k == 'op' and out[b].s in CLOSE: d += 1
                            elif out[b].k == 'op' and out[b].s in OPEN:
                                d -= 1
                                if d == 0: break
                            b -= 1
                        if q.s == '}':   # a match made by this rewrite
                            while out[b].s != 'match': b -= 1
                        a = b
                        if q.s == '}': break
                    elif q.s in ('.', '::') or (q.k == 'id' and q.s not in ('return', 'match', 'if', 'in', 'else', 'let', 'move')): a -= 1
                    else: break
                while out[a].k == 'ws': a += 1
                recv = out[a:]; del out[a:]
                if len([x for x in recv if x.k != 'ws']) == 1 and ns == 'map':
                    pat = 'match %s { Some(%s) => Some(%s), None => None }'
                elif ns == 'map': pat = 'match %s { Ok(%s) => Ok(%s), Err(vp_e) => Err(vp_e) }'
                else: pat = 'match %s { Err(%s) => Err(%s), Ok(vp_o) => Ok(vp_o) }'
                out += lex(pat % (text(recv).strip(), p, c))
                i = e + 1
                continue
            if t.s == '.' and t.k == 'op' and n < len(ts) and ts[n].s in CALLS and nxt(ts, n) < len(ts) and ts[nxt(ts, n)].s == '(':
                out += [t, T('id', CALLS[ts[n].s], t.line)]
                i = n + 1
                continue
            if t.s == '::' and ns == 'default' and ts[nxt(ts, n)].s == '(' and not (prv(ts, i) >= 0 and ts[prv(ts, i)].s in ('Vec',)):
                out += [t, T('id', 'vp_default', t.line)]
                i = n + 1
                continue
            if t.s == '::' and ns == 'clone' and ts[nxt(ts, n)].s == '(':
                out += [t, T('id', 'vp_clone', t.line)]; i = n + 1
                # Arc::clone(x) -> vp_clone by the blanket trait
                continue
            if t.s == '::' and ns == 'ptr_eq':
                out += [t, T('id', 'vp_ptr_eq', t.line)]; i = n + 1
                continue
            if self.vis is not None and t.k == 'id' and ns == '(':
                pj = prv(ts, i); ps = ts[pj].s if pj >= 0 else ''
                if t.s in self.vis and ps not in ('.', '::', 'fn'):     # the visitor runs: what it does is appended to the log
                    e = match(ts, n)
                    out += lex('vp_add(vp_log, %s(' % t.s) + self.rw(ts[n + 1:e]) + lex('))'); i = e + 1
                    continue
                if t.s in VISITORS and ps in ('.', '::'):               # what the callee's visits do is appended to the log
                    e = match(ts, n)
                    a = text(self.rw(ts[n + 1:e])).strip().rstrip(',')
                    out += lex('%s(%svp_log)' % (t.s, a + ', ' if a else '')); i = e + 1
                    continue
            if t.k == 'id' and t.s in ('panic!', 'unreachable!', 'todo!', 'unimplemented!'):
                e = match(ts, n)
                out += lex('vp_panic()'); i = e + 1
                continue
            if t.k == 'id' and t.s in ('assert_eq!', 'debug_assert_eq!', 'assert!', 'debug_assert!', 'assert_ne!', 'debug_assert_ne!'):
                e = match(ts, n)
                args = split_top(ts[n + 1:e])
                if 'eq' in t.s: inner = text(self.rw(args[0])) + ' == ' + text(self.rw(args[1]))
                elif 'ne' in t.s: inner = text(self.rw(args[0])) + ' != ' + text(self.rw(args[1]))
                else: inner = text(self.rw(args[0]))
                out += lex('vp_assert(' + inner + ')'); i = e + 1
                continue
            if t.k == 'id' and t.s == 'vec!' and ns in ('(', '['):
                e = match(ts, n)
                args = split_top(self.rw(ts[n + 1:e]))
                if not (len([x for x in ts[n + 1:e] if x.s == ';']) == 0): raise Lost('vec![x; n]')
                out += lex('{ let mut vp_vec = Vec::new(); ') + [y for a in args if text(a).strip() for y in lex('vp_vec.push(' + text(a).strip() + '); ')] + lex('vp_vec }')
                i = e + 1
                continue
            if t.s == '|' and t.k == 'op' and self.ov and self.closure_at(ts, i):
                i = self.closure(ts, i, out)
                continue
            if t.k == 'id' and t.s == 'join!':
                e = match(ts, n)
                out += [T('op', '(')] + self.rw(ts[n + 1:e]) + [T('op', ')')]; i = e + 1
                continue
            if t.k == 'id' and t.s == 'let':
                m = re.match(r'let\s+(\w+)\s*:\s*\*const\s+(\w+)\s*=', text(ts[i:i + 16]))
                if m:
                    j = i
                    while ts[j].s != '=': j += 1
                    e = j
                    while ts[e].s != ';':
                        e = match(ts, e) + 1 if ts[e].s in OPEN else e + 1
                    out += lex('let %s: Ptr<%s> = Ptr::of(' % (m.group(1), m.group(2))) + self.rw(ts[j + 1:e]) + lex(');')
                    i = e + 1
                    continue
            if t.k == 'id' and t.s == 'mem' and ns == '::' and ts[nxt(ts, n)].s == 'uninitialized':
                out += lex('InitArr::uninit'); i = nxt(ts, n) + 1
                continue
            if t.k == 'id' and t.s == 'ptr' and ns == '::' and ts[nxt(ts, n)].s == 'eq':
                j = nxt(ts, nxt(ts, n)); e = match(ts, j)
                m = [re.match(r'\s*Arc\s*::\s*as_ptr\s*\((.*)\)\s*as\s*\*\s*const\s+\w+\s*$', text(a), re.S) for a in split_top(ts[j + 1:e])]
                if len(m) != 2 or not all(m): raise Lost('ptr::eq of unexpected places')
                out += lex('Arc::vp_ptr_eq(%s, %s)' % (m[0].group(1), m[1].group(1)))
                i = e + 1
                continue
            if t.k == 'id' and t.s == 'ptr' and ns == '::' and ts[nxt(ts, n)].s == 'write':
                j = nxt(ts, nxt(ts, n)); e = match(ts, j)
                a = split_top(ts[j + 1:e])
                m = re.match(r'\s*&\s*mut\s+(\w+)\s*\[(.*)\]\s*$', text(a[0]), re.S)
                if not m: raise Lost('ptr::write of an unexpected place')
                out += lex('%s.write(%s, ' % (m.group(1), m.group(2))) + self.rw(a[1]) + lex(')')
                i = e + 1
                continue
            m = t.k == 'id' and re.match(r'(\w+)\s*\.\s*iter\s*\(\s*\)\s*\.\s*position\s*\(', text(ts[i:i + 24]))
            if m and not (prv(ts, i) >= 0 and ts[prv(ts, i)].s == '.'):
                i = self.position(ts, i, m.group(1), out)
                continue
            if t.k == 'id' and t.s == 'for' and ns != '<':
                i = self.for_loop(ts, i, out)
                continue
            if t.k == 'id' and t.s in ('while', 'loop'):
                j = i + 1
                while ts[j].s != '{':
                    j = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
                e = match(ts, j)
                k = self.loops; self.loops += 1
                cond = self.rw(ts[i + 1:j])
                out += [t] + cond + lex('\n' + self.inv(k)) + [ts[j]] + lex(self.hint(k, 'begin')) + self.rw(ts[j + 1:e]) + lex(self.hint(k, 'end')) + [ts[e]]
                i = e + 1
                continue
            out.append(t)
            i += 1
        return out
    def closure_at(self, ts, i):
        j = prv(ts, i)
        return j < 0 or ts[j].s in ('(', ',', '=', 'move', 'return')
    def closure(self, ts, i, out):
        """|p, q: T| E  ->  |vp_0: T0, vp_1: T1| -> (r: R) requires .. ensures .. { let p = vp_0; .. E }"""
        e = nxt(ts, i)
        while ts[e].s != '|':
            e = match(ts, e) + 1 if ts[e].s in OPEN and ts[e].k == 'op' else e + 1
        params = [text(p).strip() for p in split_top(ts[i + 1:e]) if text(p).strip()]
        b = nxt(ts, e)
        z = b
        while z < len(ts) and not (ts[z].k == 'op' and ts[z].s in (',', ';', ')', ']', '}')):
            z = match(ts, z) + 1 if ts[z].k == 'op' and ts[z].s in OPEN else z + 1
        k = self.closures; self.closures += 1
        body = self.rw(ts[b:z])
        if self.vis is not None:
            body = lex('{ let mut vp_log1 = vp_nil(); { let vp_log = &mut vp_log1; ') + body + lex('; } vp_log1 }')
        c = self.ov.closures.get(k) if self.ov else None
        if not c:
            out += ts[i:e + 1] + [T('ws', ' ')] + body
            return z
        if len(c['params']) != len(params): raise Lost('closure %d of %s' % (k, self.ov.path))
        h = '|' + ', '.join(c['params']) + '| -> (' + c['ret'] + ')\n'
        if c['req']: h += '    requires ' + ''.join('%s, //%%L %s\n' % (self.ov.sub(x), ','.join(l)) for l, x in c['req'])
        if c['ens']: h += '    ensures ' + ''.join('%s, //%%L %s\n' % (self.ov.sub(x), ','.join(l)) for l, x in c['ens'])
        h += '{ ' + ''.join('let %s = %s; ' % (re.sub(r':.*$', '', q, flags=re.S).strip(), re.match(r'\w+', p).group()) for p, q in zip(c['params'], params))
        if self.ov.path.startswith(('set::', 'map::', 'transformations::Set')):
            # the closure is bound to a name for the proof: vp_c2(f) is f, with the outcome of its calls named
            w = lex('vp_c%d(' % len(params)); n = len(out) - 1
            while n >= 0 and out[n].k in ('ws', 'cm'): n -= 1
            if n >= 0 and out[n].s == 'move': del out[n:]; w += lex('move ')
            out += w + lex(h) + body + lex(' })')
            return z
        out += lex(h) + body + lex(' }')
        return z
    def closure1(self, ts):
        """|p| E -> p, E"""
        j = nxt(ts, -1)
        if ts[j].s != '|': raise Lost('closure expected')
        e = nxt(ts, j)
        while ts[e].s != '|': e = nxt(ts, e)
        return text(ts[j + 1:e]).strip(), text(self.rw(ts[e + 1:])).strip()
    def position(self, ts, i, v, out):
        """v.iter().position(|p| E) [.map(|q| F)] -> a loop"""
        j = i
        while ts[j].s != 'position': j += 1
        j = nxt(ts, j); e = match(ts, j)
        k = self.loops; self.loops += 1
        p, c = self.closure1(ts[j + 1:e])
        s = ('{ let mut vp_i%d: usize = 0; let mut vp_f%d: Option<usize> = None;\nwhile vp_i%d < %s.len() && vp_f%d.is_none()\n' % (k, k, k, v, k)) + self.inv(k)
        s += '{ let %s = &%s[vp_i%d]; %s if %s { vp_f%d = Some(vp_i%d); } else { vp_i%d = vp_i%d + 1; } %s }\n' % (p, v, k, self.hint(k, 'begin'), c, k, k, k, k, self.hint(k, 'end'))
        r = nxt(ts, e) if e + 1 < len(ts) else e
        end = e + 1
        if r < len(ts) and ts[r].s == '.' and ts[nxt(ts, r)].s == 'map':
            j = nxt(ts, nxt(ts, r)); e = match(ts, j)
            q, f = self.closure1(ts[j + 1:e])
            s += 'match vp_f%d { Some(%s) => Some(%s), None => None } }' % (k, q, f)
            end = e + 1
        else: s += 'vp_f%d }' % k
        out += lex(s)
        return end
    def inv(self, k):
        return self.ov.loop_inv(k) if self.ov else ''
    def hint(self, k, w):
        return self.ov.loop_hint(k, w) if self.ov else ''
    def for_loop(self, ts, i, out):
        j = i + 1
        while not (ts[j].k == 'id' and ts[j].s == 'in'):
            j = match(ts, j) + 1 if ts[j].s in OPEN else j + 1
        pat = text(ts[i + 1:j]).strip()
        b = j + 1
        while ts[b].s != '{':
            b = match(ts, b) + 1 if ts[b].s in OPEN else b + 1
        e = match(ts, b)
        expr = ts[j + 1:b]
        k = self.loops; self.loops += 1
        inv, hb, he = self.inv(k), self.hint(k, 'begin'), self.hint(k, 'end')
        dots = [x for x in range(len(expr)) if expr[x].s == '..']
        body = None
        et = text(self.rw(expr)).strip()
        if dots or et in self.ranges:
            if dots:
                a, z = text(self.rw(expr[:dots[0]])).strip(), text(self.rw(expr[dots[0] + 1:])).strip()
            else:
                a, z = et + '.start', et + '.end'
            pre = 'let mut vp_i%d: usize = %s; let vp_e%d: usize = %s;\nwhile vp_i%d < vp_e%d\n' % (k, a, k, z, k, k)
            bind = ' let %s = vp_i%d; vp_i%d = vp_i%d + 1; ' % (pat, k, k, k)
        else:
            vec = re.fullmatch(r'\w+', et)
            pre = ('let vp_s%d = ' + ('%s' if vec else 'vp_iter(%s)') + '; let mut vp_i%d: usize = 0;\nwhile vp_i%d < vp_s%d.len()\n') % (k, et, k, k, k)
            bind = ' let %s = ' % pat + ('' if vec else '&') + 'vp_s%d[vp_i%d]; vp_i%d = vp_i%d + 1; ' % (k, k, k, k)
        out += lex(pre + inv) + [T('op', '{')] + lex(bind + hb) + self.rw(ts[b + 1:e]) + lex(he) + [T('op', '}')]
        return e + 1

class Contract:
    def __init__(self, path, params):
        self.path, self.params = path, params
        self.requires, self.ensures, self.loops, self.pre, self.post = [], [], {}, '', ''
        self.trusted = False; self.labels = []; self.opts = []; self.hide = []; self.used = False; self.line = 0
        self.spec = ''  # extra items for trait impls
        self.closures = {}
        self.map = {}
    def sub(self, s):
        for a, b in self.map.items():
            if a != b: s = re.sub(r'(?<![\w.])%s\b(?!\s*:[^:])' % re.escape(a), b, s)
        return s
    def loop_inv(self, k):
        L = self.loops.get(k)
        if not L: return ''
        return ''.join('    ' + w + '\n' + ''.join('        %s, //%%L %s\n' % (self.sub(x), ','.join(l)) for l, x in L[q])
                       for w, q in (('invariant_except_break', 'xinv'), ('invariant', 'inv'), ('ensures', 'lens')) if L[q])
    def loop_hint(self, k, w):
        L = self.loops.get(k)
        return ('\nproof { ' + self.sub(L[w]) + ' }\n') if L and L.get(w) else ''

def split_commas(s):
    return [text(p).strip() for p in split_top(lex(s)) if text(p).strip()]

def parse_overlay(files):
    """fn <path> (params) : labels
         requires <expr>
         ensures[labels] <expr>
         loop <k> inv[labels] <expr> | begin <proof> | end <proof>
                  xinv, lens: for loops left by break
         closure <k> (params with types) -> (r: type), then creq / cens clauses
         more <path> : labels   further clauses for a function that has a contract
         def <name> <text>: $name stands for the text from there on
         pre <proof> | post <proof> | trusted | opt <attr> | hide <spec fns whose definitions the proof does without>
       A clause continues on the following lines that start with 6 or more spaces."""
    cs, cur = {}, None
    for f in files:
        lines, buf, defs = open(f).read().split('\n'), [], {}
        for n, l in enumerate(lines):
            l = re.sub(r'\$(\w+)', lambda m: defs[m.group(1)], l)
            if l.startswith('def '): _, nm, tx = l.split(None, 2); defs[nm] = tx; l = ''
            lines[n] = l
        for n, l in enumerate(lines):
            if l.strip().startswith('//') or not l.strip(): continue
            if l.startswith('      ') and buf: buf[-1][0] += '\n' + l
            else: buf.append([l, n + 1])
        for l, n in buf:
            if l.startswith('fn '):
                m = re.match(r'fn\s+(\S+)\s*\(([^)]*)\)\s*(?::\s*(.*))?$', l.strip())
                if not m: raise Exception('%s:%d bad header %s' % (f, n, l))
                cur = Contract(m.group(1), [x.strip() for x in m.group(2).split(',') if x.strip()])
                cur.labels = [x.strip() for x in (m.group(3) or '').split(',') if x.strip()]
                cur.line = n; more = None
                if cur.path in cs: raise Exception('duplicate contract ' + cur.path)
                cs[cur.path] = cur
                continue
            if l.startswith('more '):
                m = re.match(r'more\s+(\S+)\s*(?::\s*(.*))?$', l.strip())
                if not m or m.group(1) not in cs: raise Exception('%s:%d bad header %s' % (f, n, l))
                cur = cs[m.group(1)]
                more = [x.strip() for x in (m.group(2) or '').split(',') if x.strip()]
                continue
            s = l.strip()
            m = re.match(r'(requires|ensures|inv|xinv|lens|closure|creq|cens|pre|post|trusted|opt|hide|loop|spec|begin|end)(?:\[([\w,]*)\])?\s*(.*)$', s, re.S)
            if not m: raise Exception('%s:%d bad clause %s' % (f, n, l))
            kw, lab, rest = m.groups()
            lab = [x for x in (lab or '').split(',') if x] or more or cur.labels
            if kw == 'requires': cur.requires.append((lab, rest))
            elif kw == 'ensures': cur.ensures.append((lab, rest))
            elif kw == 'pre': cur.pre += rest + '\n'
            elif kw == 'post': cur.post += rest + '\n'
            elif kw == 'trusted': cur.trusted = True
            elif kw == 'opt': cur.opts.append(rest)
            elif kw == 'hide': cur.hide += [x.strip() for x in rest.split(',')]
            elif kw == 'spec': cur.spec += rest + '\n'
            elif kw == 'loop':
                curloop = cur.loops.setdefault(int(rest), dict(inv=[], xinv=[], lens=[], begin='', end=''))
            elif kw == 'closure':
                m = re.match(r'(\d+)\s*\((.*)\)\s*->\s*\((.*)\)\s*$', rest, re.S)
                curclo = cur.closures.setdefault(int(m.group(1)), dict(params=split_commas(m.group(2)), ret=m.group(3), req=[], ens=[]))
            elif kw in ('creq', 'cens'): curclo[kw[1:]].append((lab, rest))
            elif kw in ('inv', 'xinv', 'lens'): curloop[kw].append((lab, rest))
            elif kw in ('begin', 'end'): curloop[kw] += rest + '\n'
    return cs

class Extract:
    def __init__(self, contracts):
        self.cs = contracts
        self.nocontract, self.functions, self.trusted = [], [], []
    def fn(self, ts, prefix, mods, suffix='', rename=None, in_trait_impl=False, pubkw=True):
        """ts: tokens of a whole fn item"""
        i = 0
        while ts[i].s != 'fn': i += 1
        j = nxt(ts, i)
        name = ts[j].s
        k = nxt(ts, j)
        gens = ''
        if ts[k].s == '<':
            e = match_angle(ts, k)
            gens = filter_generics(ts[k + 1:e])
            k = nxt(ts, e)
        e = match(ts, k)
        params = split_top(ts[k + 1:e])
        b = e + 1
        while ts[b].s not in ('{', ';'):
            b = match(ts, b) + 1 if ts[b].s in ('(', '[') else b + 1
        hdr, wh = split_where(ts[e + 1:b])
        ret = text(sub_types(hdr)).strip()
        ret = re.sub(r'^->\s*', '', ret)
        preds = filter_where(wh)
        m = re.search(r',\s*fn\s*\(.*\)\s*->.*>$', ret, re.S)
        if m:   # a function pointer type that no value of the result has: any type
            ret = ret[:m.start()] + ', VpFn>'
            gens = gens + ', VpFn' if gens else 'VpFn'
        names, ptxt = [], []
        for p in params:
            s = text(sub_types(p)).strip()
            s = re.sub(r'\s+', ' ', s)
            if re.fullmatch(r"(&\s*('\w+ )?\s*(mut )?|mut )?self", s):
                names.append('self'); ptxt.append(s); continue
            m = re.match(r'(mut )?(\w+)\s*:\s*(.*)$', s, re.S)
            if not m: raise Lost('parameter pattern in %s%s' % (prefix, name))
            names.append(m.group(2)); ptxt.append('%s%s: %s' % (m.group(1) or '', m.group(2), bound_rename(m.group(3))))
        path = prefix + name + suffix
        ov = self.cs.get(path)
        if ov is not None:
            ov.used = True
            if len(ov.params) != len(names): raise Lost('%s has %d parameters, its contract %d' % (path, len(names), len(ov.params)))
            ov.map = dict(zip(ov.params, names))
        else:
            self.nocontract.append(path)
        body = None
        if ts[b].s == '{':
            be = match(ts, b)
            B = Body(ov)
            vt = visitor_bound('; '.join([gens] + preds))
            if vt:
                B.vis = {m.group(1) for m in (re.match(r'(?:mut )?(\w+)\s*:\s*(.*)$', q, re.S) for q in ptxt) if m and re.fullmatch(r'(&\s*(mut )?)?' + vt, m.group(2).strip())}
                if ret: raise Lost('%s takes a visitor and returns a value' % path)
                gens, preds = [re.sub(r'(Fn(?:Mut|Once)?\s*\((?:[^()]|\([^()]*\))*\))(?!\s*->)', r'\1 -> VpLog', x) for x in [gens]][0], [re.sub(r'(Fn(?:Mut|Once)?\s*\((?:[^()]|\([^()]*\))*\))(?!\s*->)', r'\1 -> VpLog', x) for x in preds]
                ptxt.append('vp_log: &mut VpLog')
            B.ranges = {re.match(r'(mut )?(\w+)', q).group(2) for q in ptxt if re.search(r':\s*Range\s*<', q)}
            body = text(sub_types(B.rw(ts[b + 1:be])))
            if ov and [k for k in ov.loops if k >= B.loops]: raise Lost('%s has %d loops' % (path, B.loops))
            if ov and [k for k in ov.closures if k >= B.closures]: raise Lost('%s has %d closures' % (path, B.closures))
        out = ''
        if (ov and ov.trusted) or (ov is None and ts[b].s == '{' and not in_trait_impl):
            out += '#[verifier::external_body]\n'
            if ov: self.trusted.append(path)
        if ov:
            for o in ov.opts: out += o + '\n'
        out += '#[verifier::exec_allows_no_decreases_clause]\n'
        out += '/*@FN %s @*/ ' % path
        out += ('' if in_trait_impl else 'pub ') + 'fn ' + (rename or name) + ('<' + gens + '>' if gens else '') + '(' + ', '.join(ptxt) + ')'
        if ret: out += ' -> (res: ' + ret + ')'
        if preds: out += '\n    where ' + ', '.join(preds) + ','
        out += '\n'
        if ov:
            if ov.requires: out += '    requires\n' + ''.join('        %s, //%%L %s\n' % (ov.sub(x), ','.join(l)) for l, x in ov.requires)
            if ov.ensures: out += '    ensures\n' + ''.join('        %s, //%%L %s\n' % (ov.sub(x), ','.join(l)) for l, x in ov.ensures)
        if body is None: return out + ';\n'
        self.functions.append(path)
        out += '{\n'
        if ov: out += ''.join('hide(%s);\n' % h for h in ov.hide)
        if ov and ov.pre: out += 'proof { ' + ov.sub(ov.pre) + ' }\n'
        if ov and ov.post:
            out += 'let res = {' + body + '};\nproof { ' + ov.sub(ov.post) + ' }\nres\n'
        else:
            out += body + '\n'
        out += '} /*@END*/\n'
        return out

    def items(self, ts):
        """yields (kind, tokens) of the items of a module or impl body"""
        i = 0
        while i < len(ts):
            if ts[i].k == 'ws': i += 1; continue
            j = i
            while ts[j].s not in ('{', ';'):
                j = match(ts, j) + 1 if ts[j].s in ('(', '[') else j + 1
            e = match(ts, j) if ts[j].s == '{' else j
            # tuple struct ends with ;  ; macro invocations end with )
            yield ts[i:e + 1]
            i = e + 1

    def module(self, name, src, shards=1):
        """shards > 1: the free functions are dealt out to that many parts (the verifier works on modules in parallel)"""
        ts = sub_keep(strip(lex(src)))
        out, self.parts, n = '', [''] * (shards - 1), 0
        for it in self.items(ts):
            w = [t.s for t in it if t.k not in ('ws', 'attr')][:4]
            if w[0] == 'pub': w = w[1:]
            if w[0] == 'fn':
                f = self.fn(it, name + '::', None)
                n += 1
                if n % shards: self.parts[n % shards - 1] += f
                else: out += f
            elif w[0] in ('struct', 'enum'): out += self.typedef(it, w[0])
            elif w[0] == 'impl': out += self.impl(it, name)
            elif w[0] == 'trait': out += self.trait(it, name)
            elif w[0] in ('mod', 'macro_rules!', 'macro_rules', 'type', 'extern', 'const', ';'): continue
            else: raise Lost('item %s in %s' % (' '.join(w), name))
        return out

    def typedef(self, it, kw):
        b = 0
        while it[b].s not in ('{', ';'): b = match(it, b) + 1 if it[b].s == '(' else b + 1
        hdr = it[:b]
        i = [t.s for t in hdr].index(kw)
        j = nxt(hdr, i)
        name = hdr[j].s
        k = nxt(hdr, j)
        gens = ''
        if k < len(hdr) and hdr[k].s == '<':
            e = match_angle(hdr, k)
            gens = '<' + filter_generics(hdr[k + 1:e]) + '>'
        rr = '#[derive(Clone, Copy)] ' if any(t.k == 'attr' for t in hdr) else ''
        it = [t for t in it if t.k != 'attr']; b = 0
        while it[b].s not in ('{', ';'): b = match(it, b) + 1 if it[b].s == '(' else b + 1
        if it[b].s == '{':
            e = match(it, b)
            fields = []
            for f in split_top(it[b + 1:e]):
                s = re.sub(r'\s+', ' ', text(sub_types(f)).strip())
                if kw == 'struct' and not s.startswith('pub '): s = 'pub ' + s
                fields.append(s)
            return '%spub %s %s%s {\n    %s,\n}\n' % (rr, kw, name, gens, ',\n    '.join(fields))
        return rr + 'pub ' + text(sub_types(it)).lstrip('pub').strip() + '\n'

    def impl(self, it, mod):
        b = 0
        while it[b].s != '{': b = match(it, b) + 1 if it[b].s in ('(', '[') else b + 1
        hdr, wh = split_where(it[:b])
        preds = filter_where(wh)
        k = nxt(hdr, 0) if hdr[0].s == 'impl' else nxt(hdr, [t.s for t in hdr].index('impl'))
        gens = ''
        if hdr[k].s == '<':
            e = match_angle(hdr, k)
            gens = '<' + filter_generics(hdr[k + 1:e]) + '>'
            k = nxt(hdr, e)
        rest = hdr[k:]
        f = next((x for x in range(len(rest)) if rest[x].k == 'id' and rest[x].s == 'for'), None)
        trait = text(sub_types(rest[:f])).strip() if f is not None else None
        ty = text(sub_types(rest[f + 1:] if f is not None else rest)).strip()
        tyname = re.match(r"(?:Box\s*<\s*)?(?:&\s*'\w+\s*(?:mut\s*)?)?(\w+)", ty).group(1)
        tname = re.match(r'(?:core::|alloc::)?(?:\w+::)*(\w+)', trait).group(1) if trait else None
        if tname in DROP_TRAITS: return ''
        e = match(it, b)
        body = list(self.items(it[b + 1:e]))
        where = ('\n    where ' + ', '.join(preds) + ',') if preds else ''
        pre = mod + '::' + tyname + '::'
        if trait is None or tname == 'BitIndexedArray':
            out = 'impl%s %s%s {\n' % (gens, ty, where)
            for m in body: out += self.fn(m, pre, None)
            return out + '}\n'
        if tname in ('Clone', 'Default', 'PartialEq'):
            if ty.startswith('Box') or tyname in ('DynBia',): return ''
            ren = {'clone': 'vp_clone', 'default': 'vp_default', 'eq': 'vp_eq'}
            if tname == 'PartialEq' and '<' in trait: return ''
            out = 'impl%s %s%s {\n' % (gens, ty, where)
            if tname == 'PartialEq':
                out = 'impl%s PartialEqSpecImpl for %s%s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n' % (gens, ty, where)
                out += 'impl%s PartialEq for %s%s {\n' % (gens, ty, where)
                for m in body: out += self.fn(m, pre, None, in_trait_impl=True)
                return out + '}\n'
            for m in body:
                n = [t.s for t in m if t.k != 'ws']; n = n[n.index('fn') + 1]
                out += self.fn(m, pre, None, rename=ren.get(n, n))
            return out + '}\n'
        if tname == 'From':
            arg = re.match(r'From\s*<(.*)>$', trait, re.S).group(1).strip()
            an = re.match(r"(?:Arc\s*<\s*)?(\w+)", arg).group(1)
            suf = '<' + an + '>'
            ov = self.cs.get(pre + 'from' + suf)
            rel = ov.spec if ov and ov.spec else '{ true }'
            out = 'impl%s VpFrom<%s> for %s%s {\n' % (gens, arg, ty, where)
            pn = 'other'
            out += '    open spec fn from_rel(%s: %s, res: %s) -> bool %s\n' % (ov.params[0] if ov else 'other', arg, ty, rel)
            for m in body: out += self.fn(m, pre, None, suffix=suf, rename='vp_from', in_trait_impl=True)
            return out + '}\n'
        # any other trait: kept
        ov = self.cs.get(pre + 'impl<' + tname + '>')
        out = 'impl%s %s for %s%s {\n' % (gens, trait, ty, where)
        if ov: ov.used = True; out += ov.spec
        for m in body: out += self.fn(m, pre, None, in_trait_impl=True)
        return out + '}\n'

    def trait(self, it, mod):
        return ''   # traits are stand-ins of the prelude

RECURSIVE = {}
def sub_keep(ts): return ts

USES = '''
use vstd::prelude::*;
#[allow(unused_imports)] use std::sync::Arc;
#[allow(unused_imports)] use std::ops::Range;
#[allow(unused_imports)] use std::cmp::Ordering;
#[allow(unused_imports)] use vstd::std_specs::cmp::*;
#[allow(unused_imports)] use crate::base::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::traits::*;
#[allow(unused_imports)] use crate::flag::*;
#[allow(unused_imports)] use crate::enums::*;
#[allow(unused_imports)] use crate::results::*;
#[allow(unused_imports)] use crate::transformations::*;
#[allow(unused_imports)] use crate::bia::*;
#[allow(unused_imports)] use crate::node::{self, *};
'''

def refs(txt, spec):
    """a mention of every hidden spec function, so that the verifier's pruning keeps the declarations hide() names"""
    out = ''
    for h in sorted(set(re.findall(r'^hide\((\w+)\);', txt, re.M))):
        m = re.search(r'(?m)^\s*pub (?:open |closed |uninterp )?spec fn %s\b' % h, spec)
        i = m.end(); gens = ''
        if spec[i] == '<':
            j = i; d = 0
            while True:
                if spec[j] == '<': d += 1
                elif spec[j] == '>' and spec[j - 1] not in '-=':
                    d -= 1
                    if d == 0: break
                j += 1
            gens = spec[i:j + 1]; i = j + 1
        j = i; d = 0
        while True:
            if spec[j] in '([{': d += 1
            elif spec[j] in ')]}':
                d -= 1
                if d == 0: break
            j += 1
        ps = spec[i + 1:j]
        names = re.findall(r'(?:^|,)\s*(\w+)\s*:(?!:)', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', ps.replace('->', '')))))
        tg = [re.match(r'\s*(\w+)', x).group(1) for x in re.sub(r'\([^()]*\)', '', gens[1:-1]).split(',') if x.strip()] if gens else []
        out += 'proof fn vp_ref_%s%s(%s) { let _ = %s%s(%s); }\n' % (h, gens, ps, h, '::<%s>' % ', '.join(tg) if tg else '', ', '.join(names))
    return out

def generate(repo, here, select=None):
    ovdir = os.path.join(here, 'overlay')
    cs = parse_overlay(sorted(os.path.join(ovdir, f) for f in os.listdir(ovdir) if f.endswith('.vspec')))
    X = Extract(cs)
    find_visitors(open(os.path.join(d, f)).read() for d in (os.path.join(repo, 'src'), os.path.join(repo, 'src', 'node')) for f in sorted(os.listdir(d)) if f.endswith('.rs'))
    src = lambda f: open(os.path.join(repo, 'src', f)).read()
    prel = lambda f: open(os.path.join(here, 'prelude', f)).read()
    out = '#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_braces, unused_parens, unused_must_use, unreachable_code)]\n'
    def mod(name, body, pre='', uses=USES, extra=''):
        uses = uses.replace('#[allow(unused_imports)] use crate::%s::*;\n' % name, '')
        return 'pub mod %s {\n%s\n%sverus! {\nbroadcast use crate::spec::group_vp;\n%s\n%s\n} }\n' % (name, uses, extra, pre, body)
    nob = lambda s: s.replace('broadcast use crate::spec::group_vp;\n', '')
    out += nob(mod('base', prel('base.rs')))
    out += nob(mod('traits', prel('traits.rs')))
    out += nob(mod('flag', prel('flag.rs')))
    out += nob(mod('bia', prel('bia.rs')))
    spec = ''.join(prel(f) for f in sorted(os.listdir(os.path.join(here, 'prelude'))) if f.startswith('spec'))
    out += nob(mod('spec', spec))
    out += mod('enums', X.module('enums', src('enums.rs')))
    out += mod('results', X.module('results', src('results.rs')))
    out += mod('transformations', X.module('transformations', src('transformations.rs')))
    nodes = ''
    for m, ex in (('mnode', 'use super::{cnode::{self, *}, lnode::{self, *}, snode::{self, *}};'),
                  ('cnode', 'use super::{lnode::{self, *}, mnode::*, snode::{self, *}};'),
                  ('lnode', 'use super::{cnode::{self}, mnode::*, snode::{self, *}, cnode::CNode};'),
                  ('snode', 'use super::{cnode::{self}, lnode::{self, *}, mnode::*, cnode::CNode};')):
        pre = os.path.join(here, 'prelude', m + '.rs')
        uses = USES.replace('use crate::node::{self, *};', '')
        body = X.module(m, src('node/' + m + '.rs'), dict(lnode=6, cnode=6).get(m, 1))
        ps = ['%s_%d' % (m, i) for i in range(len(X.parts))]
        own = [re.findall(r'/\*@FN \S+ @\*/ pub fn (\w+)', re.sub(r'(?s)\nimpl\b.*?\n}', '', t)) for t in X.parts]
        here_ = [n for n in re.findall(r'/\*@FN %s::(\w+) @\*/ pub fn' % m, body)]
        for p, t, o in zip(ps, X.parts, own):
            nodes += mod(p, t + refs(t, spec), uses=uses, extra=ex + '\nuse super::%s::*;\n' % m + ''.join('use super::%s::{%s};\n' % (q, ', '.join(oo)) for q, oo in zip(ps + [m], own + [here_]) if q != p and oo))
        nodes += mod(m, body + refs(body, spec), pre=open(pre).read() if os.path.exists(pre) else '', uses=uses, extra=ex + '\n' + ''.join('pub use super::%s::{%s};\n' % (p, ', '.join(o)) for p, o in zip(ps, own) if o))
    out += 'pub mod node {\n%s\npub use self::mnode::MNode; pub use self::cnode::CNode; pub use self::lnode::{LNode, LNodeNext}; pub use self::snode::SNode;\n}\n' % nodes
    for f in ('hash_trie', 'map', 'set'):
        if os.path.exists(os.path.join(here, 'prelude', f + '.on')):
            pre = os.path.join(here, 'prelude', f + '.rs')
            out += mod(f, X.module(f, src(f + '.rs')), pre=open(pre).read() if os.path.exists(pre) else '', extra='use crate::hash_trie::*;\n' if f != 'hash_trie' else '')
    out += 'use vstd::prelude::*;\nverus! { fn main() {} }\n'
    unused = [p for p, c in cs.items() if not c.used]
    return out, X, unused

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    out, X, unused = generate(sys.argv[1], here)
    open(sys.argv[2], 'w').write(out)
    print('functions', len(X.functions), 'no contract', len(X.nocontract), 'unused', unused)
