"""Textual LLVM-IR (clang-20, -O0) reader.  Functions are parsed on demand."""
import re, subprocess, os

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fs', 'packed', 'name', '_sz', '_al', '_offs')
    def __init__(s, k, **kw):
        s.k = k; s.w = s.n = 0; s.el = s.fs = s.name = None; s.packed = False
        s._sz = s._al = s._offs = None
        for a, b in kw.items(): setattr(s, a, b)
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{%s}' % ','.join(map(repr, s.fs or []))
        return s.k
PTR = Ty('ptr'); VOID = Ty('void'); TOKEN = Ty('token')
_ints = {}
def INT(w):
    t = _ints.get(w)
    if t is None: t = _ints[w] = Ty('int', w=w)
    return t
FLOAT = Ty('fp', w=32); DOUBLE = Ty('fp', w=64); X86FP80 = Ty('fp', w=80)

def align_up(x, a): return (x + a - 1) // a * a
def sizeof(t):
    if t._sz is None: _layout(t)
    return t._sz
def alignof(t):
    if t._al is None: _layout(t)
    return t._al
def offsets(t):
    if t._offs is None: _layout(t)
    return t._offs
def _layout(t):
    if t.k == 'int':
        n = max(1, (t.w + 7) // 8); p = 1
        while p < n: p *= 2
        t._sz = p; t._al = min(p, 16)
    elif t.k == 'ptr': t._sz = t._al = 8
    elif t.k == 'fp':
        t._sz = {32: 4, 64: 8, 80: 16}[t.w]; t._al = t._sz
    elif t.k == 'arr':
        t._sz = t.n * sizeof(t.el); t._al = alignof(t.el)
    elif t.k == 'struct':
        if t.fs is None: raise ValueError('opaque type ' + str(t.name))
        o = 0; al = 1; offs = []
        for f in t.fs:
            a = 1 if t.packed else alignof(f)
            al = max(al, a); o = align_up(o, a); offs.append(o); o += sizeof(f)
        t._offs = offs; t._sz = align_up(o, al); t._al = al
    elif t.k == 'vec':
        t._sz = t.n * sizeof(t.el); t._al = t._sz
    else: t._sz = 0; t._al = 1

# ---------------------------------------------------------------- lexer-ish helpers
_tok = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-\w$.]+)
 | (?P<glb>@"(?:[^"\\]|\\.)*"|@[-\w$.]+)
 | (?P<md>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_$.][-\w$.]*)
 | (?P<p>\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|])
 )''', re.X)
class Toks:
    def __init__(s, text):
        s.l = []
        pos = 0; n = len(text); m = _tok.match
        while pos < n:
            g = m(text, pos)
            if not g:
                if text[pos:].strip() == '': break
                raise ValueError('lex: ' + text[pos:pos + 60])
            k = g.lastgroup; v = g.group(k)
            s.l.append((k, v)); pos = g.end()
        s.i = 0
    def peek(s, o=0):
        return s.l[s.i + o] if s.i + o < len(s.l) else ('eof', '')
    def next(s):
        t = s.peek(); s.i += 1; return t
    def accept(s, v):
        if s.peek()[1] == v and s.peek()[0] in ('p', 'word'): s.i += 1; return True
        return False
    def expect(s, v):
        t = s.next()
        if t[1] != v: raise ValueError('expected %s got %s near %s' % (v, t, s.l[max(0, s.i - 5):s.i + 5]))
    def done(s): return s.i >= len(s.l)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
  'zeroext', 'inreg', 'returned', 'nofree', 'immarg', 'dead_on_unwind', 'writable', 'nest', 'swiftself',
  'noext', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'nofpclass', 'nsw', 'nuw', 'exact', 'fastcc', 'ccc', 'coldcc', 'range',
  'allocptr', 'dead_on_return', 'initializes', 'captures'}

class Inst:
    __slots__ = ('op', 'dst', 'a', 'line', 'txt')
    def __init__(s, op, dst, a, line, txt): s.op = op; s.dst = dst; s.a = a; s.line = line; s.txt = txt

class Fn:
    def __init__(s): s.blocks = None

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}; self.fnlines = {}; self.globs = {}; self.declared = set(); self.aliases = {}
        self.md = {}
        text = open(path).read().split('\n')
        self.lines = text
        i = 0; n = len(text); typedefs = []
        while i < n:
            L = text[i]
            if L.startswith('%'):
                typedefs.append(L)
            elif L.startswith('define'):
                name = self._fname(L)
                st = i
                while text[i] != '}': i += 1
                self.fnlines[name] = (st, i)
            elif L.startswith('declare'):
                self.declared.add(self._fname(L))
            elif L.startswith('@'):
                nm, rest = self._gname(L)
                if re.match(r'\s*=\s*.*\balias\b', rest.split('"')[0]):
                    self.aliases[nm] = re.findall(r'@"(?:[^"\\]|\\.)*"|@[-\w$.]+', rest)[-1][1:].strip('"')
                else: self.globs[nm] = rest
            elif L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m: self.md[m.group(1)] = m.group(2)
            i += 1
        for L in typedefs:
            m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w$.]+) = type', L)
            nm = m.group(1); self.types[nm] = Ty('struct', name=nm)
        for L in typedefs:
            m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w$.]+) = type (.*)', L)
            t = self.types[m.group(1)]
            if m.group(2).strip() == 'opaque': t.fs = None
            else:
                u = self.ptype(Toks(m.group(2)))
                t.fs = u.fs; t.packed = u.packed; t.k = u.k; t.el = u.el; t.n = u.n; t.w = u.w
        self.fns = {}
        names = list(self.fnlines) + list(self.declared) + list(self.globs) + list(self.aliases)
        out = subprocess.run(['/usr/bin/llvm-cxxfilt-20'] if os.path.exists('/usr/bin/llvm-cxxfilt-20') else ['c++filt'],
                             input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.ndem = {}
        for k in list(self.fnlines) + list(self.declared):
            self.ndem[k] = normname(self.dem[k])
        self.bydem = {}
        for k, v in self.ndem.items(): self.bydem.setdefault(v, k)

    @staticmethod
    def _fname(L):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L)
        return m.group(1).strip('"')
    @staticmethod
    def _gname(L):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)', L)
        return m.group(1).strip('"'), L[m.end():]

    # ---- types
    def ptype(self, T):
        k, v = T.next()
        if v == 'ptr':
            if T.peek()[1] == 'addrspace':
                T.next(); T.expect('('); T.next(); T.expect(')')
            return PTR
        if v == 'void': t = VOID
        elif v == 'token': t = TOKEN
        elif v == 'metadata': t = Ty('metadata')
        elif v == 'float': t = FLOAT
        elif v == 'double': t = DOUBLE
        elif v == 'x86_fp80': t = X86FP80
        elif v == 'label': t = Ty('label')
        elif k == 'word' and re.match(r'i\d+$', v): t = INT(int(v[1:]))
        elif v == '[':
            n = int(T.next()[1]); T.expect('x'); el = self.ptype(T); T.expect(']')
            t = Ty('arr', n=n, el=el)
        elif v == '<':
            n = int(T.next()[1]); T.expect('x'); el = self.ptype(T); T.expect('>')
            t = Ty('vec', n=n, el=el)
        elif v in ('{', '<{'):
            fs = []; end = '}' if v == '{' else '}>'
            if T.peek()[1] != end:
                while True:
                    fs.append(self.ptype(T))
                    if not T.accept(','): break
            T.expect(end)
            t = Ty('struct', fs=fs, packed=(v == '<{'))
        elif k == 'loc':
            t = self.types[v]
        else: raise ValueError('type? %s %s' % (k, v))
        return t

    # ---- constants / operands -> tuples
    # ('r',name) ('i',int) ('g',name) ('null',) ('undef',) ('zero',) ('agg',[(ty,op)..]) ('bytes',b) ('ce',op,...) ('fp',str)
    def pval(self, T, ty):
        k, v = T.next()
        if k == 'loc': return ('r', v[1:].strip('"'))
        if k == 'glb': return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty.k == 'fp': return ('fp', v)
            return ('i', int(v, 0) & ((1 << ty.w) - 1))
        if k == 'str':
            if v.startswith('c"'): return ('bytes', unesc(v[2:-1]))
        if v == 'null': return ('null',)
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if v in ('{', '[', '<{', '<'):
            end = {'{': '}', '[': ']', '<{': '}>', '<': '>'}[v]
            el = []
            if T.peek()[1] != end:
                while True:
                    t = self.ptype(T); el.append((t, self.pval(T, t)))
                    if not T.accept(','): break
            T.expect(end)
            return ('agg', el)
        if v == 'getelementptr':
            while T.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                w = T.next()[1]
                if w == 'inrange': self._skip_paren(T)
            T.expect('('); bt = self.ptype(T); T.expect(',')
            ops = []
            while True:
                t = self.ptype(T); ops.append((t, self.pval(T, t)))
                if not T.accept(','): break
            T.expect(')')
            return ('ce', 'gep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            T.expect('('); t = self.ptype(T); x = self.pval(T, t); T.expect('to'); t2 = self.ptype(T); T.expect(')')
            return ('ce', 'cast', v, t, x, t2)
        if v in ('add', 'sub'):
            while T.peek()[1] in ('nuw', 'nsw'): T.next()
            T.expect('('); t = self.ptype(T); x = self.pval(T, t); T.expect(','); t2 = self.ptype(T); y = self.pval(T, t2); T.expect(')')
            return ('ce', v, t, x, y)
        if v == 'dso_local_equivalent' or v == 'no_cfi': return self.pval(T, ty)
        raise ValueError('val? %s %s' % (k, v))

    def _skip_paren(self, T):
        T.expect('('); d = 1
        while d:
            x = T.next()[1]
            if x == '(': d += 1
            elif x == ')': d -= 1

    def skip_attrs(self, T):
        """skip parameter attributes; returns dict of interesting ones (sret/byval)"""
        r = {}
        while True:
            k, v = T.peek()
            if k == 'attr': T.next(); continue
            if k != 'word' and not (k == 'str'): break
            if v in PARAM_ATTRS:
                T.next()
                if v in ('range', 'nofpclass', 'captures', 'initializes') and T.peek()[1] == '(': self._skip_paren(T)
            elif v == 'align':
                T.next()
                if T.peek()[0] == 'num': T.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'allocsize', 'alignstack'):
                T.next(); self._skip_paren(T)
            elif v in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                T.next(); T.expect('('); r[v] = self.ptype(T); T.expect(')')
            elif k == 'str' and False: T.next()
            else: break
        return r

    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is None and name in self.fnlines:
            f = self.fns[name] = self._parse_fn(name)
        return f

    def _parse_fn(self, name):
        st, en = self.fnlines[name]
        f = Fn(); f.name = name; f.dem = self.ndem[name]
        L = self.lines[st]
        f.dbg = None
        m = re.search(r'!dbg !(\d+)', L)
        if m: f.dbg = m.group(1)
        # params
        i = L.index('@' + (name if ('@' + name + '(') in L else '"' + name + '"')) + 1
        pre = L[len('define'):i - 1]
        T = Toks(pre)
        while True:
            k, v = T.peek()
            if v in ('linkonce_odr', 'dso_local', 'internal', 'weak_odr', 'private', 'available_externally', 'hidden', 'weak', 'linkonce', 'protected') or v in PARAM_ATTRS: T.next(); self._after_attr(T, v)
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null'): self.skip_attrs(T)
            else: break
        f.ret = self.ptype(T)
        j = L.index('(', i)
        d = 0; e = j; q = False
        while True:
            c = L[e]
            if c == '"': q = not q
            elif not q:
                if c == '(': d += 1
                elif c == ')':
                    d -= 1
                    if d == 0: break
            e += 1
        T = Toks(L[j + 1:e]); f.params = []; f.vararg = False
        while not T.done():
            if T.accept('...'): f.vararg = True; break
            t = self.ptype(T); at = self.skip_attrs(T)
            nm = T.next()[1][1:].strip('"')
            f.params.append((nm, t, at))
            if not T.accept(','): break
        f.presplit = 'presplitcoroutine' in L[e:] or True
        # blocks
        blocks = {}; order = []; cur = None; buf = []
        k = st + 1
        while k < en:
            s = self.lines[k]
            if s == '': k += 1; continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', s)
            if m:
                cur = m.group(1).strip('"'); blocks[cur] = []; order.append(cur)
                k += 1; continue
            # join multi-line (switch, invoke, landingpad)
            txt = s.strip()
            if cur is None:
                cur = str(len(f.params)) ; blocks[cur] = []; order.append(cur)
            if re.match(r'(%\S+ = )?(tail |musttail |notail )?invoke ', txt):
                k += 1; txt += ' ' + self.lines[k].strip()
            elif txt.startswith('switch '):
                while ']' not in txt.split('!dbg')[0][txt.index('['):]:
                    k += 1; txt += ' ' + self.lines[k].strip()
            elif re.match(r'(%\S+|%".*?") = landingpad', txt):
                while re.match(r'\s+(catch|filter|cleanup)\b', self.lines[k + 1]):
                    k += 1; txt += ' ' + self.lines[k].strip()
            blocks[cur].append(txt); k += 1
        f.entry = order[0]; f.order = order
        f.blocks = {}
        f.raw = blocks
        for b in order:
            f.blocks[b] = [x for x in (self._parse_inst(t) for t in blocks[b]) if x is not None]
        self._loops(f)
        return f

    def _after_attr(self, T, v):
        if v in ('range', 'nofpclass') and T.peek()[1] == '(': self._skip_paren(T)

    def line_of(self, mdid):
        s = self.md.get(mdid)
        if not s: return None
        m = re.search(r'line: (\d+)', s); return int(m.group(1)) if m else None
    def file_of_fn(self, name):
        f = self.fn(name)
        if f is None or not f.dbg: return None
        s = self.md.get(f.dbg, ''); m = re.search(r'file: !(\d+)', s)
        if not m: return None
        s2 = self.md.get(m.group(1), ''); m2 = re.search(r'filename: "([^"]*)"', s2)
        return m2.group(1) if m2 else None

    def _parse_inst(self, txt):
        line = None
        m = re.search(r', !dbg !(\d+)', txt)
        if m: line = m.group(1)
        if txt.startswith('#dbg'): return None
        body = re.sub(r',? ![-\w.]+ !(?:\d+|\{\})', '', txt)
        body = re.sub(r'\s*;.*$', '', body) if ' ; ' in body and '"' not in body else body
        T = Toks(body)
        dst = None
        if T.peek()[0] == 'loc' and T.peek(1)[1] == '=':
            dst = T.next()[1][1:].strip('"'); T.next()
        op = T.next()[1]
        P = self.ptype; V = self.pval
        if op in ('tail', 'musttail', 'notail'): op = T.next()[1]
        if op == 'alloca':
            if T.peek()[1] == 'inalloca': T.next()
            t = P(T); cnt = None
            if T.accept(','):
                if T.peek()[1] != 'align':
                    ct = P(T); cnt = V(T, ct)
            return Inst('alloca', dst, (t, cnt), line, txt)
        if op == 'load':
            atomic = T.accept('atomic'); T.accept('volatile')
            t = P(T); T.expect(','); P(T); p = V(T, PTR)
            return Inst('load', dst, (t, p), line, txt)
        if op == 'store':
            T.accept('atomic'); T.accept('volatile')
            t = P(T); v = V(T, t); T.expect(','); P(T); p = V(T, PTR)
            return Inst('store', None, (t, v, p), line, txt)
        if op == 'getelementptr':
            while T.peek()[1] in ('inbounds', 'nuw', 'nusw'): T.next()
            bt = P(T); T.expect(','); ops = []
            while True:
                t = P(T); ops.append((t, V(T, t)))
                if not T.accept(','): break
            return Inst('gep', dst, (bt, ops), line, txt)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while T.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(T.next()[1])
            t = P(T); a = V(T, t); T.expect(','); b = V(T, t)
            return Inst('bin', dst, (op, t, a, b, fl), line, txt)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while T.peek()[0] == 'word' and T.peek()[1] not in ('float', 'double', 'x86_fp80'): T.next()
            t = P(T); a = V(T, t); T.expect(','); b = V(T, t)
            return Inst('fbin', dst, (op, t, a, b), line, txt)
        if op == 'fneg':
            t = P(T); a = V(T, t); return Inst('fneg', dst, (t, a), line, txt)
        if op == 'icmp':
            T.accept('samesign')
            pr = T.next()[1]; t = P(T); a = V(T, t); T.expect(','); b = V(T, t)
            return Inst('icmp', dst, (pr, t, a, b), line, txt)
        if op == 'fcmp':
            while T.peek(1)[1] not in ('float', 'double', 'x86_fp80'): T.next()
            pr = T.next()[1]; t = P(T); a = V(T, t); T.expect(','); b = V(T, t)
            return Inst('fcmp', dst, (pr, t, a, b), line, txt)
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while T.peek()[1] in ('nneg', 'nuw', 'nsw'): T.next()
            t = P(T); a = V(T, t); T.expect('to'); t2 = P(T)
            return Inst('cast', dst, (op, t, a, t2), line, txt)
        if op == 'select':
            t = P(T); c = V(T, t); T.expect(','); t1 = P(T); a = V(T, t1); T.expect(','); P(T); b = V(T, t1)
            return Inst('select', dst, (c, t1, a, b), line, txt)
        if op == 'phi':
            t = P(T); inc = []
            while True:
                T.expect('['); v = V(T, t); T.expect(','); b = T.next()[1][1:].strip('"'); T.expect(']')
                inc.append((v, b))
                if not T.accept(','): break
            return Inst('phi', dst, (t, inc), line, txt)
        if op == 'br':
            t = P(T)
            if t.k == 'label': return Inst('br', None, (T.next()[1][1:].strip('"'),), line, txt)
            c = V(T, t); T.expect(','); T.expect('label'); x = T.next()[1][1:].strip('"'); T.expect(','); T.expect('label'); y = T.next()[1][1:].strip('"')
            return Inst('cbr', None, (c, x, y), line, txt)
        if op == 'switch':
            t = P(T); v = V(T, t); T.expect(','); T.expect('label'); d = T.next()[1][1:].strip('"'); T.expect('[')
            cs = []
            while T.peek()[1] != ']':
                ct = P(T); c = V(T, ct)[1]; T.expect(','); T.expect('label'); cs.append((c, T.next()[1][1:].strip('"')))
            return Inst('switch', None, (t, v, d, cs), line, txt)
        if op == 'ret':
            t = P(T); return Inst('ret', None, (t, V(T, t) if t.k != 'void' else None), line, txt)
        if op == 'unreachable': return Inst('unreachable', None, (), line, txt)
        if op == 'resume':
            t = P(T); return Inst('resume', None, (t, V(T, t)), line, txt)
        if op == 'extractvalue':
            t = P(T); a = V(T, t); idx = []
            while T.accept(','): idx.append(int(T.next()[1]))
            return Inst('extractvalue', dst, (t, a, idx), line, txt)
        if op == 'insertvalue':
            t = P(T); a = V(T, t); T.expect(','); t2 = P(T); b = V(T, t2); idx = []
            while T.accept(','): idx.append(int(T.next()[1]))
            return Inst('insertvalue', dst, (t, a, t2, b, idx), line, txt)
        if op == 'freeze':
            t = P(T); return Inst('freeze', dst, (t, V(T, t)), line, txt)
        if op == 'landingpad':
            P(T); clauses = []
            while not T.done():
                w = T.next()[1]
                if w == 'cleanup': clauses.append(('cleanup',))
                elif w in ('catch', 'filter'):
                    t = P(T); clauses.append((w, V(T, t)))
            return Inst('landingpad', dst, (clauses,), line, txt)
        if op in ('call', 'invoke'):
            # fast-math / cc / ret attrs
            while T.peek()[1] in PARAM_ATTRS or T.peek()[1] in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                v = T.next()[1]; self._after_attr(T, v)
            self.skip_attrs(T)
            rt = P(T)
            if T.peek()[1] == '(':   # full function type (vararg)
                self._skip_paren(T)
            ck, cv = T.peek()
            if cv == 'asm':
                return Inst('asm', dst, (), line, txt)
            callee = V(T, PTR); T.expect('('); args = []
            while T.peek()[1] != ')':
                t = P(T)
                if t.k == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and T.peek()[1] in (',', ')')):
                        x = T.next()[1]
                        if x == '(' : d += 1
                        elif x == ')': d -= 1
                    args.append((t, ('undef',), {}))
                else:
                    at = self.skip_attrs(T); args.append((t, V(T, t), at))
                if not T.accept(','): break
            T.expect(')')
            nd = ud = None
            if op == 'invoke':
                while not (T.peek()[1] == 'to'): T.next()
                T.expect('to'); T.expect('label'); nd = T.next()[1][1:].strip('"'); T.expect('unwind'); T.expect('label'); ud = T.next()[1][1:].strip('"')
            return Inst('call', dst, (rt, callee, args, nd, ud), line, txt)
        if op == 'atomicrmw':
            T.accept('volatile'); o = T.next()[1]; P(T); p = V(T, PTR); T.expect(','); t = P(T); v = V(T, t)
            return Inst('atomicrmw', dst, (o, p, t, v), line, txt)
        if op == 'cmpxchg':
            T.accept('weak'); T.accept('volatile'); P(T); p = V(T, PTR); T.expect(','); t = P(T); c = V(T, t); T.expect(','); P(T); v = V(T, t)
            return Inst('cmpxchg', dst, (p, t, c, v), line, txt)
        if op == 'fence': return Inst('nop', None, (), line, txt)
        return Inst('unsup', dst, (op,), line, txt)

    def _succ(self, f, b):
        i = f.blocks[b][-1]
        if i.op == 'br': return [i.a[0]]
        if i.op == 'cbr': return [i.a[1], i.a[2]]
        if i.op == 'switch': return [i.a[2]] + [x for _, x in i.a[3]]
        if i.op == 'call' and i.a[3]: return [i.a[3], i.a[4]]
        return []

    def _loops(self, f):
        """natural loops: header -> set(blocks)"""
        succ = {b: self._succ(f, b) for b in f.order}
        pred = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]: pred[s].append(b)
        # dominators (iterative)
        rpo = []; seen = set()
        stack = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                rpo.append(b); stack.pop()
        rpo.reverse(); idx = {b: i for i, b in enumerate(rpo)}
        idom = {f.entry: f.entry}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a = p
                    while a != n:
                        while idx[a] > idx[n]: a = idom[a]
                        while idx[n] > idx[a]: n = idom[n]
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = idom[b]
        f.loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = f.loops.setdefault(s, set([s]))
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body or x not in idx: continue
                        body.add(x); wl.extend(pred[x])

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out += s[i].encode('utf-8'); i += 1
    return bytes(out)

_rw = [
 ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string'),
 ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string'),
 ('std::basic_string_view<char, std::char_traits<char>>', 'string_view'),
 ('std::basic_string_view<char, std::char_traits<char> >', 'string_view'),
 ('[abi:cxx11]', ''), ('[abi:ne180100]', ''),
 ('unsigned long', 'ulong'), ('unsigned char', 'uchar'), ('unsigned int', 'uint'), ('unsigned short', 'ushort'),
]
def normname(s):
    for a, b in _rw: s = s.replace(a, b)
    return s.replace('> >', '>>')
