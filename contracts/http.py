"""HTTP requests (C07) and responses (C08): head lines, body framing"""
import re, z3
from hxv.contract import *
from hxv.contract import contract
from hxv.engine import *
from hxv import models, loops
from contracts.str import scalars, mb, lower8

BUF = 16384
def crlf(B, p): return z3.And(B.fn(p) == 13, B.fn(p + 1) == 10)
def blank(B, p): return z3.And(crlf(B, p), crlf(B, p + 2))
def call1(E, st, fn, *a):
    outs = [o for o in E.run_fn(st, fn, list(a)) if o.kind == 'ret']
    if len(outs) != 1: raise Unsupported(fn + ' forks')
    return outs[0].st, outs[0].val
def throw(s, t='_ZTISt13runtime_error'): return Res(s, None, Exc(t, Ptr(s.new_obj(16, 'exception', 'heap').id, 0)))

class Msg:
    """a request / response object whose receive buffer holds n arbitrary bytes B"""
    def __init__(M, K, E, st, w):
        M.E = E; M.w = w
        st, M.size = call1(E, st, 'h_sz' + w); M.st = st
        M.p = empty_slot(st, M.size, 'message')
        M.buf, M.n, M.B = st.buffer('received'); st.assume(z3.ULE(M.n, BUF))
        for f in ('rem', 'bodystr', 'line', 'map', 'it', 'done', 'n', 'arr'): st, v = call1(E, st, '%s_%s' % (w, f), M.p); setattr(M, 'at_' + f, v)
        M.st = st
        A = r'HX::container::ArrayBuf<.*>::'
        E.add_model(A + r'data\(\)( const)?', lambda c: M.buf)
        E.add_model(A + r'size\(\)( const)?', lambda c: M.n)
        def move(c):
            s = c.st; ln, p = c.args[1], c.args[2]
            if not isinstance(p, Ptr) or isinstance(ln, Ptr): ln, p = p, ln
            off = tobv(p.off, 64) if p.obj is not None else BV(0)
            E.oblige(s, 'the kept bytes are bytes of the receive buffer', z3.And(z3.BoolVal(p.obj == M.buf.obj), z3.ULE(off, M.n), z3.ULE(tobv(ln, 64), M.n - off)) if p.obj is not None else tobv(ln, 64) == 0)
            s.ghost['keep'] = s.ghost.get('keep', ()) + ((off, tobv(ln, 64)),)
            return None
        E.add_model(A + r'moveToHead\(.*\)', move)
        def clr(c): c.st.ghost['keep'] = c.st.ghost.get('keep', ()) + ((BV(0), BV(0)),)
        E.add_model(A + r'clear\(\)', clr)
    def kept(M, s):
        k = s.ghost.get('keep', ())
        if not k: return BV(0), M.n
        if len(k) != 1: raise Unsupported('the receive buffer is rewritten twice')
        return k[0]
def lit(c, p):
    """the text a string_view argument points at, if it is a constant"""
    sv = models.sv_load(c.E, c.st, p) if isinstance(p, Ptr) else p
    if not isinstance(sv.n, int): raise Unsupported('header name is not a constant')
    b = [sv.read(i) for i in range(sv.n)]
    if any(not isinstance(x, int) for x in b): raise Unsupported('header name is not a constant')
    return bytes(b).lower()
class Next:
    """ghost function: at(p) = offset of the first occurrence of the text t in the receive buffer at or after p (none = 2^64-1); a search of the code over the whole rest of the buffer returns it"""
    def __init__(N, M, t, name):
        N.M, N.t = M, t; N.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(64))
    def at(N, p): return N.f(p)
    def none(N, p): return N.f(p) == BV(MASK(64))
    def hit(N, p): return z3.And(*[N.M.B.fn(p + i) == c for i, c in enumerate(N.t)])
    def axiom(N, st, p, full=True):
        r = N.at(p); n, d = N.M.n, len(N.t)
        st.assume(z3.Or(N.none(p), z3.And(z3.ULE(p, r), z3.ULE(BV(d), n), z3.ULE(r, n - d), N.hit(r))))
        if full: st.fact(N.M.B, lambda k: z3.Implies(z3.And(z3.ULE(p, k), z3.ULE(BV(d), n), z3.ULE(k, n - d), z3.Or(N.none(p), z3.ULT(k, r))), z3.Not(N.hit(k))))
def ghost_next(E, M, nexts):
    def hook(st, hay, needle, pos):
        if not isinstance(needle.n, int) or hay.ptr is None or hay.ptr.obj != M.buf.obj: return None
        t = bytes(x if isinstance(x, int) else 0 for x in (needle.read(i) for i in range(needle.n)))
        for N in nexts:
            if N.t != t: continue
            off = tobv(hay.ptr.off, 64); e = off + tobv(hay.n, 64); q = simp(off + tobv(pos, 64)); q = tobv(q, 64)
            if E.valid(st, z3.And(e == M.n, z3.ULE(off, M.n), z3.ULE(tobv(pos, 64), tobv(hay.n, 64))), 20)[0] != 'proved': return None
            for k in ('pos', 'ls'):                       # the same place under the name the ghost state gives it
                gk = tobv(st.ghost.get('g:' + k, 0), 64)
                if not z3.eq(gk, q) and E.valid(st, gk == q, 5)[0] == 'proved': q = gk; break
            N.axiom(st, q, False); r = FBV('found')
            st.assume(z3.If(N.none(q), r == BV(MASK(64)), r == N.at(q) - off))
            return r
    E.find_ghost = hook
def map_stub(E, st, M, has):
    """a header map of which only the two framing headers are known: has = {name: (ghost z3 Bool, node Ptr)}; every key is looked up by constant name"""
    U = r'.*std::unordered_map<string, string, HX::net::internal::TransparentCaseInsensitiveHash.*>::'
    def ent(c):
        k = lit(c, c.args[1])
        if k not in has: raise Unsupported('header %r' % k)
        return has[k]
    E.add_model(U + r'contains.*\(.*\) const', lambda c: z3.If(ent(c)[0], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if False else ent(c)[0])
    E.add_model(U + r'count.*\(.*\) const', lambda c: z3.If(ent(c)[0], BV(1), BV(0)))
    def find(c):
        b, node = ent(c); out = []
        for v, r in ((b, node), (z3.Not(b), NULL)):
            if E.feasible(c.st, [v]): s = c.st.clone(); s.assume(v); out.append(Res(s, r))
        return out
    E.add_model(U + r'find.*\(.*\)( const)?', find)
    E.add_model(U + r'c?end\(\)( const)?', lambda c: NULL)
    def deref(c):
        q = c.E.load(c.st, c.args[0], PTR)
        if q.obj is None: c.E.oblige(c.st, 'no dereference of an end iterator', False); return []
        return q
    E.add_model(r'std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)\(\) const', deref)

def body(K, w, engaged, fn, coro=False):
    E = K.engine(max_paths=20000); st = State(E)
    M = Msg(K, E, st, w); st = M.st; B, n = M.B, M.n
    cl, te = z3.Bool('has_length'), z3.Bool('has_chunks')
    st.assume(z3.Not(z3.And(cl, te)))
    K.assume('a message carrying both Content-Length and Transfer-Encoding is outside the contract')
    nodes = {}
    for nm in ('cl', 'te'):
        nd = empty_slot(st, 64, nm + '_node'); nodes[nm] = (nd,) + new_string(st, nm + '_value', at=nd + 32)[1:]
    for a in ('parseContentLength and parseChunkSize are replaced by their contracts http_content_length and http_chunk_size', 'the header map is replaced by the contract of unordered_map::contains/find for the two framing names (key equality and hashing: C06)'): K.assume(a)
    N2, N4 = Next(M, b'\r\n', 'line_end'), Next(M, b'\r\n\r\n', 'blank_line'); ghost_next(E, M, (N2, N4))
    map_stub(E, st, M, {b'content-length': (cl, nodes['cl'][0]), b'transfer-encoding': (te, nodes['te'][0])})
    new_string(st, 'body', 0, Bytes([]), at=M.at_bodystr)
    R0 = z3.BitVec('remaining', 64); st.assume(z3.ULT(R0, BV(1 << 60)))
    E.store(st, M.at_rem, R0 if engaged else FBV('unset'), INT(64)); E.store(st, M.at_rem + 8, int(engaged), INT(8))
    if engaged: st.assume(z3.Or(cl, te))
    g0 = dict(pos=BV(0), ph=BV(1 if engaged else 0, 8), rem=R0 if engaged else BV(0), ls=BV(0))
    for k, v in g0.items(): st.ghost['g:' + k] = v
    g = lambda s, k: s.ghost['g:' + k] if not isinstance(s.ghost['g:' + k], int) else BV(s.ghost['g:' + k], 8 if k == 'ph' else 64)
    cex = lambda m: {'op': w + 'body', 'in': [bytes([int(engaged)]).hex(), model_int(m, R0).to_bytes(8, 'little').hex(), (b'L' if z3.is_true(m.eval(cl, True)) else b'C' if z3.is_true(m.eval(te, True)) else b'N').hex(), mb(m, nodes['cl'][2], nodes['cl'][1], 20), mb(m, B, n, 3000)]}
    def ob(s, name, goal): K.prove(E, s, name, goal, cex)
    def append(s, p, sv):
        if isinstance(p, Ptr) and (p.obj, p.off) != (M.at_bodystr.obj, M.at_bodystr.off): return False
        event(s, sv); return True
    def event(s, sv):
        L = tobv(sv.n, 64); k = SKV('k'); pos, rem = g(s, 'pos'), g(s, 'rem')
        ob(s, 'body bytes are taken only inside the length or inside a chunk', z3.And(g(s, 'ph') == 1, z3.ULE(L, rem), z3.ULE(pos, n), z3.ULE(L, n - pos)))
        t = s.clone(); t.assume(z3.ULT(k, L)); ob(t, 'body bytes are the next bytes received', tobv(sv.read(k), 8) == B.fn(pos + k))
        s.ghost['g:pos'] = pos + L; s.ghost['g:rem'] = rem - L
    E.on_append.append(append)
    def clen(c):
        s = c.st; sv = models.sv_of(E, s, c.args[1], c.args[0]); k = SKV('k'); V, vn = nodes['cl'][2], nodes['cl'][1]
        ob(s, 'the length is read from the Content-Length header', z3.And(cl, g(s, 'ph') == 0, tobv(sv.n, 64) == vn, z3.Implies(z3.ULT(k, vn), tobv(sv.read(k), 8) == V.fn(k))))
        v = z3.BitVec('length', 64); f = s.clone(); f.ghost['badsize'] = True
        s.assume(z3.ULT(v, BV(1 << 60))); s.ghost['g:ph'] = BV(1, 8); s.ghost['g:rem'] = v
        return [Res(s, v), throw(f)]
    def csize(c):
        s = c.st; L = tobv(c.args[0], 64); o = tobv(c.args[1].off, 64); k = SKV('k'); pos = g(s, 'pos')
        ob(s, 'a chunk size is read only in a chunked message', te)
        ph = g(s, 'ph'); start = z3.If(ph == 1, pos + 2, pos)
        ob(s, 'a chunk size is read only after the whole previous chunk and its line end', z3.And(z3.Or(ph == 0, z3.And(ph == 1, g(s, 'rem') == 0, crlf(B, pos))), o == start, z3.BoolVal(c.args[1].obj == M.buf.obj)))
        s.assume(o == start); t = s.clone(); N2.axiom(t, start)
        ob(t, 'the chunk size is one whole line', z3.And(z3.Not(N2.none(start)), o + L == N2.at(start)))
        s.assume(o + L == N2.at(start)); N2.axiom(s, start, False)
        v = FBV('chunk'); f = s.clone(); f.ghost['badsize'] = True
        s.assume(z3.ULT(v, BV(1 << 60)))
        z = s.clone(); out = []
        s.assume(v != 0); s.ghost['g:ph'] = BV(1, 8); s.ghost['g:rem'] = v; s.ghost['g:pos'] = o + L + 2
        z.assume(v == 0); z.ghost['g:ph'] = BV(2, 8); z.ghost['g:rem'] = BV(0); z.ghost['g:pos'] = o + L; z.ghost['g:ls'] = o
        return [Res(s, v), Res(z, 0), throw(f)]
    E.add_model(r'HX::net::internal::parseContentLength\(.*\)', clen)
    E.add_model(r'HX::net::internal::parseChunkSize\(.*\)', csize)
    def cb(ctx):
        out = [('ghost', ('state', lambda s, m: z3.And(z3.ULE(g(s, 'pos'), n), z3.ULE(g(s, 'ph'), 1), z3.ULT(g(s, 'rem'), BV(1 << 60)), te)))]
        for nm, r in scalars(ctx):
            out.append(('pos=' + nm, ('state', lambda s, m, r=r: r(s) == g(s, 'pos'))))
            out.append(('left=' + nm, ('state', lambda s, m, r=r: r(s) + g(s, 'pos') == n)))
            out.append(('rem=' + nm, ('state', lambda s, m, r=r: z3.Implies(g(s, 'ph') == 1, r(s) == g(s, 'rem')))))
        for nm, r in scalars(ctx, 8): out.append(('phase=' + nm, ('state', lambda s, m, r=r: r(s) == g(s, 'ph'))))
        return out
    E.invs.append((re.compile('HX::net::'), cb)); E.nocontrol.append(re.compile('HX::net::')); E.onlyinv.append(re.compile('HX::net::'))
    seen = set()
    if coro: outs = coro(K, E, st, M, event)
    else: outs = K.call(E, st, K.fn(fn), [M.p], allow=('ret', 'throw'))
    for o in outs:
        s = o.st
        if not E.feasible_sure(s): continue
        pos, ph, rem, ls = (g(s, k) for k in ('pos', 'ph', 'rem', 'ls')); k = SKV('k')
        if o.kind == 'throw':
            if s.ghost.get('badsize'): seen.add('badsize'); continue
            seen.add('throw')
            ob(s, 'refused only if a chunk is not followed by a line end', z3.And(te, ph == 1, rem == 0, z3.ULE(pos + 2, n), z3.Not(crlf(B, pos)))); continue
        ko, kl = M.kept(s); r = tobv(o.val, 64)
        eng = E.load(s, M.at_rem + 8, INT(8)); eng = tobv(eng, 8) & 1; val = tobv(E.load(s, M.at_rem, INT(64)), 64)
        ob(s, 'everything after the kept position is kept', z3.And(z3.ULE(ko, n), z3.Or(ko + kl == n, z3.And(kl == 0, pos == n))))
        ko = z3.If(kl == 0, n, ko)
        for what in ('none', 'length', 'chunks'):
            t = s.clone(); t.assume({'none': z3.Not(z3.Or(cl, te)), 'length': cl, 'chunks': te}[what])
            if not E.feasible_sure(t): continue
            seen.add(what)
            if what == 'none':
                ob(t, 'without a framing header there is no body and nothing is consumed', z3.And(r == 0, ko == 0 if False else z3.Or(ko == 0, n == 0), pos == 0)); continue
            if what == 'length':
                ob(t, 'length: the result is what is still missing', z3.And(r == rem, ph == 1))
                ob(t, 'length: nothing is left unread while bytes are missing', z3.Or(rem == 0, pos == n))
                ob(t, 'length: bytes after the body are kept', ko == pos)
                ob(t, 'length: the missing count is remembered', z3.And(eng == 1, val == rem)); continue
            a = t.clone(); a.assume(r == 0)
            if E.feasible_sure(a):
                seen.add('done')
                ob(a, 'chunks: finished only after the last chunk', ph == 2)
                e = ko - 4
                N4.axiom(a, pos); ob(a, 'chunks: finished at the first blank line after the last size line', z3.And(z3.Not(N4.none(pos)), e == N4.at(pos)))
            a = t.clone(); a.assume(r != 0)
            if E.feasible_sure(a):
                seen.add('more')
                ob(a, 'chunks: room to receive more', r == BUF)
                for q in (1, 3, 0, 2):                   # inside a chunk, chunk and its line end read, before a size line, after the last size line
                    over = z3.And(rem == 0, z3.ULE(BV(2), n - pos))
                    b = a.clone(); b.assume(z3.And(ph == (q & 1 if q != 2 else 2), over if q == 3 else z3.Not(over) if q == 1 else z3.BoolVal(True)))
                    if not E.feasible_sure(b): continue
                    if q == 1:
                        ob(b, 'chunks: more is needed only if the chunk is not complete', z3.Or(rem == 0, pos == n))
                        ob(b, 'chunks: the rest of the chunk is remembered', z3.And(eng == 1, val == rem, ko == pos)); continue
                    if q == 3: ob(b, 'chunks: a chunk is followed by a line end', crlf(B, pos))
                    at = pos + 2 if q == 3 else pos
                    ob(b, 'chunks: the unread size line is kept', z3.And(eng == 0, ko == (ls if q == 2 else at)))
                    N = N4 if q == 2 else N2; N.axiom(b, at); ob(b, 'chunks: more is needed only without a complete ' + ('end' if q == 2 else 'size line'), N.none(at))
    want = {'length', 'chunks', 'more', 'done', 'badsize', 'throw'} | (set() if engaged else {'none'})
    K.cover(E, 'body parser: all kinds of outcome %s' % sorted(want - seen), want <= seen)

def mk(name, prop, tu, f, doc, **kw):
    def fn(K): f(K)
    fn.__name__ = name; fn.__doc__ = doc
    contract(prop, tu, **kw)(fn)
BODY = 'the body parser takes from the receive buffer exactly the bytes that Content-Length or the chunked encoding assign to the body, however the stream was cut into reads (%s), remembers exactly where it is, and keeps every byte after the body'
for w, pr, cls in (('q', 'httpreq', 'HttpRequest'), ('s', 'httpres', 'HttpResponse')):
    for e in (0, 1):
        mk('http_%s_body_%s' % ({'q': 'req', 's': 'res'}[w], ('start', 'resume')[e]), pr, 'http',
           (lambda w, cls, e: lambda K: body(K, w, e, r'HX::net::%s<HX::net::HttpIO>::_parserReqBody\(\)' % cls))(w, cls, e), BODY % ('first call', 'later call, any remembered count')[e])

# ------------------------------------------------------------------ head
WS = (32, 9)
def head(K, w, fn, stage, hdr, words=None):
    """stage 0: nothing parsed yet, 1: the first line is parsed (hdr: some header field already is), 2: the head is complete"""
    E = K.engine(max_paths=20000); st = State(E)
    M = Msg(K, E, st, w); st = M.st; B, n = M.B, M.n
    N2 = Next(M, b'\r\n', 'line_end'); ghost_next(E, M, (N2,))
    for a in ('split, splitAtFirst, toLower and trim are replaced by their contracts (C10)', 'unordered_map::insert is replaced by a recorded event: the first entry of a repeated name wins (key equality and hashing: C06)', 'fewer than 2^20 words in the first line'): K.assume(a)
    nodes = st.new_obj(1 << 20, 'header fields', 'alloca').id; ND = lambda o: Ptr(nodes, o)
    toks = st.new_obj(1 << 40, 'tokens', 'alloca').id; T = lambda o: Ptr(toks, o)
    E.store(st, M.at_done, int(stage == 2), INT(8))
    for i in (0, 8, 16): E.store(st, M.at_line + i, T(0 if i == 0 or stage == 0 else 96), PTR)
    E.store(st, M.at_it, ND(64 if hdr else 0), PTR)
    st.ghost.update({'g:pos': BV(0), 'g:it': BV(64 if hdr else 0), 'g:stage': BV(min(stage, 1)), 'g:tok': BV(3), 'g:sp': BV(0), 'nt': None})
    g = lambda s, k: tobv(s.ghost['g:' + k], 64)
    cex = lambda m: {'op': w + 'head', 'in': [bytes([stage, int(hdr)]).hex(), mb(m, B, n, 3000)]}
    def ob(s, name, goal): return K.prove(E, s, name, goal, cex)
    def text(s, p, ln, lo, hi, what):
        """the given text is exactly B[lo, hi)"""
        if not isinstance(p, Ptr) or p.obj is None: ob(s, what, lo == hi); return
        L = tobv(ln, 64)
        if p.obj == M.buf.obj: ob(s, what, z3.And(z3.ULE(lo, hi), L == hi - lo, z3.Or(L == 0, tobv(p.off, 64) == lo))); return
        k = SKV('k'); r = models.readerof(E, s, p)
        ob(s, what, z3.And(z3.ULE(lo, hi), L == hi - lo)); t = s.clone(); t.assume(z3.ULT(k, L)); ob(t, what, tobv(r(k), 8) == B.fn(lo + k))
    def line(s):
        """the current line [pos, e): it has to be complete"""
        pos = g(s, 'pos'); t = s.clone(); N2.axiom(t, pos)
        ob(t, 'a line is used only when it is complete', z3.Not(N2.none(pos))); N2.axiom(s, pos, False); s.assume(z3.Not(N2.none(pos)))
        return pos, N2.at(pos)
    def split(c):
        s = c.st; ret, ln, p, dl, dp = c.args[:5]
        ob(s, 'only the first line is split into words', g(s, 'stage') == 0); pos, e = line(s)
        text(s, p, ln, pos, e, 'the words are those of the whole first line')
        ob(s, 'words are separated by blanks', z3.And(tobv(dl, 64) == 1, tobv(E.load(s, dp, INT(8)), 8) == 32))
        s.ghost['g:pos'] = e + 2; s.ghost['g:stage'] = BV(1); out = []
        q = s; t = words
        if t is None: t = z3.BitVec('words', 64); q.assume(z3.And(z3.UGE(t, 3 if w == 'q' else 4), z3.ULT(t, 1 << 20)))
        if True:
            q.ghost['nt'] = t
            for i, o in ((0, 0), (8, tobv(t, 64) * 32 if is_sym(t) else 32 * t), (16, 1 << 39)): E.store(q, ret + i, T(o), PTR)
            out.append(Res(q, None))
        return out
    E.add_model(r'.*HX::utils::StringUtil::split<string, true>\(.*\)', split)
    V = r'(string& )?std::vector<string, std::allocator<string>>::'
    def vassign(c):
        s = c.st
        for i in (0, 8, 16): E.store(s, c.args[0] + i, E.load(s, c.args[1] + i, PTR), PTR); E.store(s, c.args[1] + i, T(0), PTR)
        return c.args[0]
    E.add_model(V + r'operator=\(.*&&\)', vassign)
    def vctor(c):
        for i in (0, 8, 16): E.store(c.st, c.args[0] + i, T(0), PTR)
    E.add_model(V + r'vector\(\)', vctor); E.add_model(V + r'~vector\(\)', lambda c: None)
    def vgrow(c):
        s = c.st; e = E.load(s, c.args[0] + 8, PTR); E.store(s, c.args[0] + 8, T(simp(tobv(e.off, 64) + 32)), PTR); s.ghost['grown'] = s.ghost.get('grown', 0) + 1; return T(e.off)
    E.add_model(V + r'emplace_back<>\(\)', vgrow)
    E.add_model(V + r'resize\(.*\)', lambda c: E.store(c.st, c.args[0] + 8, T(simp(tobv(c.args[1], 64) * 32)), PTR))
    def plus(c):
        s = c.st; p = c.args[0]
        if not isinstance(p, Ptr) or p.obj != toks: return E.default(c, plus)
        ob(s, 'the reason phrase is the third word and what follows', tobv(p.off, 64) == 64)
        a = c.args[1]; tok, sp = g(s, 'tok'), g(s, 'sp')
        if isinstance(a, Ptr): ob(s, 'words of the reason phrase are joined in order, with one blank between', z3.And(z3.BoolVal(a.obj == toks), tobv(a.off, 64) == tok * 32, z3.ULT(tok, tobv(s.ghost['nt'], 64)), sp == 1)); s.ghost['g:tok'] = tok + 1; s.ghost['g:sp'] = BV(0)
        else: ob(s, 'words of the reason phrase are joined in order, with one blank between', z3.And(tobv(a, 8) == 32, sp == 0)); s.ghost['g:sp'] = BV(1)
        return p
    E.add_model(r'string::(operator\+=|append|push_back)\((char|string const&|string&&)\)', plus)
    def first(c):
        s = c.st; ret, ln, p, dl, dp = c.args[:5]
        ob(s, 'header lines follow the first line', g(s, 'stage') == 1); pos, e = line(s)
        text(s, p, ln, pos, e, 'a header line is taken whole')
        ob(s, 'a header name ends at a colon', z3.And(tobv(dl, 64) == 1, tobv(E.load(s, dp, INT(8)), 8) == 58))
        col = FBV('colon'); a = s.clone(); b = s
        a.assume(z3.And(z3.ULE(pos, col), z3.ULT(col, e), B.fn(col) == 58))
        a.ghost['col'] = col; b.ghost['col'] = None
        for q, x in ((a, ((col - pos, pos), (e - col - 1, col + 1))), (b, ((0, pos), (0, pos)))):
            for i, (L, o) in enumerate(x): q.mkbuf(ret + 32 * i, 'string', simp(L) if is_sym(L) else L, FnSeq((lambda o: lambda k: B.fn(tobv(o, 64) + tobv(k, 64)))(o)), 1, 'part').kind = 'strbuf'
        return [Res(a, None), Res(b, None)]
    E.add_model(r'HX::utils::StringUtil::splitAtFirst\(.*\)', first)
    def lower(c):
        s = c.st; ln, r = str_result(s, c.args[0]); b = s.getbuf(c.args[0]); s.wobj(b.obj).seq = FnSeq(lambda k: lower8(tobv(r(k), 8))); s.wobj(b.obj).slots = {}
        return None
    E.add_model(r'HX::utils::StringUtil::toLower\(.*\)', lower)
    def trim(c):
        s = c.st; ln, p = c.args[0], c.args[1]; col = s.ghost.get('col'); pos = g(s, 'pos')
        if col is None: raise Unsupported('trim of something else than a header value')
        e = N2.at(pos); text(s, p, ln, col + 1, e, 'the value is everything after the colon')
        lo, hi = FBV('value'), FBV('valend'); ws = lambda x: z3.Or(*[x == c_ for c_ in WS])
        s.assume(z3.And(z3.ULE(col + 1, lo), z3.ULE(lo, hi), z3.ULE(hi, e), z3.Or(lo == hi, z3.And(z3.Not(ws(B.fn(lo))), z3.Not(ws(B.fn(hi - 1)))))))
        s.ghost['trim'] = (lo, hi)
        return [hi - lo, Ptr(p.obj, simp(tobv(p.off, 64) + (lo - col - 1)))]
    E.add_model(r'HX::utils::StringUtil::trim\(.*\)', trim)
    U = r'.*std::unordered_map<string, string, HX::net::internal::TransparentCaseInsensitiveHash.*>::'
    def insert(c):
        s = c.st; p = c.args[1]; pos = g(s, 'pos'); col = s.ghost.get('col')
        if col is None: ob(s, 'a field is stored only for a line with a name', False); return []
        e = N2.at(pos); k = SKV('k')
        ob(s, 'a field has a name', z3.ULT(pos, col))
        l1, r1 = str_result(s, p); L1 = tobv(l1, 64); ob(s, 'length of the name', L1 == col - pos)
        t = s.clone(); t.assume(z3.ULT(k, L1)); ob(t, 'the name is the text before the colon in lower case', tobv(r1(k), 8) == lower8(B.fn(pos + k)))
        l2, r2 = str_result(s, p + 32); L2 = tobv(l2, 64); tr = s.ghost.get('trim')
        if tr is None: ob(s, 'blanks around the value are not part of it', False); return []
        lo, hi = tr; ob(s, 'length of the value', L2 == hi - lo); t = s.clone(); t.assume(z3.ULT(k, L2)); ob(t, 'the value is the text after the colon without the blanks around it', tobv(r2(k), 8) == B.fn(lo + k))
        s.ghost['g:pos'] = e + 2; s.ghost['col'] = s.ghost['trim'] = None; s.ghost['g:it'] = BV(64)
        return [ND(64), 1]
    E.add_model(U + r'insert<.*>\(.*\)', insert)
    E.add_model(U + r'c?end\(\)( const)?', lambda c: ND(0))
    def deref(c):
        q = E.load(c.st, c.args[0], PTR)
        ob(c.st, 'the last field exists when it is continued', z3.And(z3.BoolVal(q.obj == nodes), tobv(q.off, 64) == 64)); c.st.assume(tobv(q.off, 64) == 64)
        return ND(64)
    E.add_model(r'std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)\(\) const', deref)
    def append(s, p, sv):
        if not isinstance(p, Ptr) or p.obj != nodes: return False
        pos, e = line(s); col = s.ghost.get('col')
        ob(s, 'a line continues the last field only if it has no name and is not empty', z3.And(tobv(p.off, 64) == 96, g(s, 'it') == 64, z3.ULT(pos, e), z3.BoolVal(True) if col is None else col == pos))
        text(s, sv.ptr, sv.n, pos, e, 'a continuation is taken whole'); s.ghost['g:pos'] = e + 2; s.ghost['col'] = None
        return True
    E.on_append.append(append)
    def cb(ctx):
        if ctx.key[1] is None: return []
        done = lambda s: tobv(E.load(s, M.at_done, INT(8)), 8) & 1
        off = lambda s: g(s, 'pos') + z3.If(done(s) == 1, BV(2), BV(0))
        out = [('ghost', ('state', lambda s, m: z3.And(z3.ULE(g(s, 'pos'), n), z3.ULE(off(s), n), g(s, 'stage') == 1, z3.Implies(done(s) == 1, crlf(B, g(s, 'pos'))), z3.ULE(done(s), 1)))),
               ('join', ('state', lambda s, m: z3.And(g(s, 'tok') == 3 + m, g(s, 'sp') == 0, z3.ULE(g(s, 'tok'), tobv(s.ghost['nt'], 64))) if s.ghost['nt'] is not None else z3.BoolVal(True)))]
        for nm, r in scalars(ctx):
            out.append(('pos=' + nm, ('state', lambda s, m, r=r: r(s) == off(s))))
            out.append(('left=' + nm, ('state', lambda s, m, r=r: r(s) + off(s) == n)))
            out.append(('last=' + nm, ('state', lambda s, m, r=r: z3.And(r(s) == g(s, 'it'), z3.Or(r(s) == 0, r(s) == 64)))))
            out.append(('word=' + nm, ('state', lambda s, m, r=r: r(s) == g(s, 'tok'))))
        return out
    E.invs.append((re.compile('HX::net::'), cb)); E.nocontrol.append(re.compile('HX::net::')); E.onlyinv.append(re.compile('HX::net::'))
    seen = set()
    for o in K.call(E, st, K.fn(fn), [M.p], allow=('ret', 'throw')):
        s = o.st
        if not E.feasible_sure(s): continue
        pos, sg, nt = g(s, 'pos'), g(s, 'stage'), s.ghost['nt']; N2.axiom(s, pos)
        need = 3 if w == 'q' else 2
        if o.kind == 'throw':
            if isinstance(nt, int) and nt < need: seen.add('short'); continue
            seen.add('orphan'); col = s.ghost.get('col')
            ob(s, 'refused only if a line without a name comes before any field', z3.And(sg == 1, g(s, 'it') == 0, z3.Not(N2.none(pos)), z3.ULT(pos, N2.at(pos)), z3.BoolVal(True) if col is None else col == pos)); continue
        ko, kl = M.kept(s); ko = z3.If(kl == 0, n, ko); r = tobv(o.val, 64); done = tobv(E.load(s, M.at_done, INT(8)), 8) & 1
        if stage == 0 and nt is not None:
            ob(s, 'a first line with too few words is refused', z3.UGE(tobv(nt, 64), need))
            vb, ve = E.load(s, M.at_line, PTR), E.load(s, M.at_line + 8, PTR)
            ob(s, 'the words of the first line are kept', z3.And(z3.BoolVal(vb.obj == toks), tobv(vb.off, 64) == 0, tobv(ve.off, 64) == (tobv(nt, 64) * 32 if w == 'q' else 96), z3.BoolVal(w == 'q' or s.ghost.get('grown', 0) == (1 if isinstance(nt, int) and nt == 2 else 0))))
            if w == 's': ob(s, 'the whole reason phrase is kept', z3.And(g(s, 'sp') == 0, z3.Implies(z3.UGT(tobv(nt, 64), 3), g(s, 'tok') == tobv(nt, 64))))
        a = s.clone(); a.assume(r == 0)
        if E.feasible_sure(a):
            seen.add('done')
            ob(a, 'the head is marked complete', done == 1)
            if stage == 2: ob(a, 'a complete head consumes nothing', z3.Or(ko == 0, n == 0))
            else: ob(a, 'the head ends at the first empty line and everything after it is kept', z3.And(sg == 1, z3.Not(N2.none(pos)), N2.at(pos) == pos, ko == pos + 2, z3.Or(kl == n - ko, z3.And(kl == 0, pos + 2 == n))))
        a = s.clone(); a.assume(r != 0)
        if E.feasible_sure(a):
            seen.add('more')
            ob(a, 'more is needed only if the head is not complete', z3.And(done == 0, z3.BoolVal(stage != 2)))
            ob(a, 'room to receive more', r == BUF)
            ob(a, 'more is needed only without a complete line', N2.none(pos))
            ob(a, 'the incomplete line is kept', z3.And(ko == pos, z3.Or(kl == n - ko, z3.And(kl == 0, pos == n))))
    want = {0: ({'short', 'more'} if words is not None and words < (3 if w == 'q' else 2) else {'orphan', 'done', 'more'}), 1: {'done', 'more'} | (set() if hdr else {'orphan'}), 2: {'done'}}[stage]
    K.cover(E, 'head parser: all kinds of outcome %s' % sorted(want - seen), want <= seen)
HEAD = 'the head parser (%s) reads line by line: the words of the first line, then per line the lower-cased name before the colon and the value after it without surrounding blanks (a line without a name continues the last value), up to the first empty line; an incomplete line stays in the buffer, and so does everything after the empty line'
for w, pr, cls, f in (('q', 'httpreq', 'HttpRequest', '_parserReqHead'), ('s', 'httpres', 'HttpResponse', '_parserResHead')):
    k = {'q': (0, 1, 2, None), 's': (0, 1, 2, 3, None)}[w]
    for nm, sg, h, n in [('first_%s' % ('more' if x is None else x), 0, 0, x) for x in k] + [('line', 1, 0, None), ('field', 1, 1, None), ('complete', 2, 1, None)]:
        mk('http_%s_head_%s' % ({'q': 'req', 's': 'res'}[w], nm), pr, 'http',
           (lambda w, cls, f, sg, h, n: lambda K: head(K, w, r'HX::net::%s<HX::net::HttpIO>::%s\(\)' % (cls, f), sg, h, n))(w, cls, f, sg, h, n),
           HEAD % {0: 'first call, first line of %s words' % ('more' if n is None else n), 1: 'called again %s some field' % ('after' if h else 'before'), 2: 'called again after the empty line'}[sg])

# ------------------------------------------------------------------ lengths and trimming
def length_text(K, fn, base, digits, stop, longest, op):
    E = K.engine(); st = State(E); p, n, B = st.buffer('s'); k = SKV('k')
    cex = lambda m: {'op': op, 'in': [mb(m, B, n, 64)]}
    isd = lambda c: z3.Or(*[z3.And(z3.UGE(c, BV(a, 8)), z3.ULE(c, BV(b, 8))) for a, b in digits])
    iss = lambda c: z3.Or(*[c == x for x in stop]) if stop else z3.BoolVal(False)
    end = z3.BitVec('end', 64)                       # ghost: where the digits have to end
    st.assume(z3.And(z3.ULE(end, n), z3.Or(end == n, iss(B.fn(end))))); st.fact(B, lambda k: z3.Implies(z3.ULT(k, end), z3.Not(iss(B.fn(k)))))
    K.ghost_finds(E, (end,)); calls = []
    def num(c):
        s = c.st; sv = models.sv_load(E, s, c.args[0]); L = tobv(sv.n, 64); k = SKV('k'); calls.append(1)
        K.prove(E, s, 'the whole number is read', L == end, cex)
        K.prove(E, s, 'the number has 1 to %d digits' % longest, z3.And(z3.ULE(1, L), z3.ULE(L, longest)), cex)
        t = s.clone(); t.assume(z3.ULT(k, L)); K.prove(E, t, 'the text of the number', tobv(sv.read(k), 8) == B.fn(k), cex); K.prove(E, t, 'only digits', isd(tobv(sv.read(k), 8)), cex)
        s.ghost['num'] = True; return z3.BitVec('value', 64)
    E.add_model(r'ulong HX::utils::NumericBaseConverter::strToNum<ulong, %dul, .*>\(.*\)' % base, num)
    K.assume('strToNum is replaced by its contract (C10, num_from_text)')
    outs = K.call(E, st, K.fn(fn), [n, p], allow=('ret', 'throw')); kinds = set()
    for o in outs:
        s = o.st
        if not E.feasible_sure(s): continue
        kinds.add(o.kind)
        if o.kind == 'ret': K.prove(E, s, 'the result is the value of the digits', z3.And(z3.BoolVal(bool(s.ghost.get('num'))), tobv(o.val, 64) == z3.BitVec('value', 64)), cex); continue
        K.prove(E, s, 'refused as a runtime_error', z3.BoolVal(o.exc.tname == '_ZTISt13runtime_error'), cex)
        s.fact(B, lambda k: z3.Implies(z3.ULT(k, end), isd(B.fn(k)))); s.assume(z3.And(z3.ULE(1, end), z3.ULE(end, longest)))
        K.prove(E, s, 'a well-formed length is not refused', z3.BoolVal(False), cex)
    K.cover(E, 'accepts and refuses', kinds == {'ret', 'throw'})
D10 = ((48, 57),); D16 = D10 + ((65, 70), (97, 102))
@contract(['httpreq', 'httpres'], 'http')
def http_content_length(K):
    """Content-Length: exactly the texts of 1 to 18 decimal digits are accepted, with their value; everything else is refused"""
    length_text(K, r'HX::net::internal::parseContentLength\(.*\)', 10, D10, (), 18, 'clen')
@contract(['httpreq', 'httpres'], 'http')
def http_chunk_size(K):
    """chunk size lines: exactly 1 to 15 hexadecimal digits, ended by the end of the line, a blank or the ';' of an extension, are accepted, with their value"""
    length_text(K, r'HX::net::internal::parseChunkSize\(.*\)', 16, D16, (59, 32, 9), 15, 'csize')
@contract(['httpreq', 'httpres', 'str'], 'http')
def str_trim(K):
    """trim(s) for every s: the part of s without the blanks and tabs at its two ends"""
    E = K.engine(); st = State(E); p, n, B = st.buffer('s'); cex = lambda m: {'op': 'trim', 'in': [mb(m, B, n)]}
    ws = lambda c: z3.Or(*[c == x for x in (32, 9)])
    for o in K.call(E, st, 'h_trim', [n, p]):
        s = o.st; L, q = o.val; L = tobv(L, 64); k = SKV('k')
        K.prove(E, s, 'a part of the text', z3.And(z3.BoolVal(q.obj == p.obj), z3.ULE(tobv(q.off, 64), n), z3.ULE(L, n - tobv(q.off, 64))) if q.obj is not None else L == 0, cex)
        off = tobv(q.off, 64) if q.obj is not None else BV(0)
        K.prove(E, s, 'no blank at either end', z3.Or(L == 0, z3.And(z3.Not(ws(B.fn(off))), z3.Not(ws(B.fn(off + L - 1))))), cex)
        s.assume(z3.And(z3.ULT(k, n), z3.Or(L == 0, z3.ULT(k, off), z3.ULE(off + L, k))))
        K.prove(E, s, 'only blanks are dropped', ws(B.fn(k)), cex)

@contract(['httpreq', 'httpres'], 'http')
def http_recv_buffer(K):
    """the receive buffer: moveToHead keeps exactly the given part of the content, for every content and every part of it; addSize, resetSize and clear change only the size; size, data and max_size report it"""
    for part in ('move', 'add', 'reset', 'clear', 'read'):
        E = K.engine(); st = State(E); a = empty_slot(st, BUF + 8, 'buffer'); n = z3.BitVec('n', 64); st.assume(z3.ULE(n, BUF)); st, vn = call1(E, st, 'ab_n', a); st, va = call1(E, st, 'ab_arr', a)
        E.store(st, vn, n, INT(64)); B = Base('content'); st.wobj(a.obj).seq = Copy(st.wobj(a.obj).seq or Base('rest'), va.off, BUF, B, 0)
        at = lambda s, k: tobv(E.rseq(s, a.obj).read(va.off + k), 8); size = lambda s: tobv(E.load(s, vn, INT(64)), 64); k = SKV('k')
        if part == 'move':
            lo, ln = FBV('from'), FBV('len'); st.assume(z3.And(z3.ULE(lo, n), z3.ULE(ln, n - lo)))
            cex = lambda m: {'op': 'abuf', 'in': [mb(m, B, n, BUF), model_int(m, lo).to_bytes(8, 'little').hex(), model_int(m, ln).to_bytes(8, 'little').hex()]}
            for o in K.call(E, st, 'ab_move', [a, Ptr(a.obj, simp(lo + va.off)), ln]):
                s = o.st; K.prove(E, s, 'the size is that of the kept part', size(s) == ln, cex)
                s.assume(z3.ULT(k, ln)); K.prove(E, s, 'the kept part is at the head', at(s, k) == B.fn(lo + k), cex)
            continue
        x = FBV('x'); st.assume(z3.ULE(x, BUF))
        for o in K.call(E, st, {'add': 'ab_add', 'reset': 'ab_reset', 'clear': 'ab_clear', 'read': 'ab_read'}[part], [a] + ([x] if part in ('add', 'reset') else [])):
            s = o.st; want = {'add': n + x, 'reset': x, 'clear': BV(0), 'read': n}[part]
            K.prove(E, s, 'size (%s)' % part, size(s) == want)
            if part == 'read': L, q = o.val; K.prove(E, s, 'data and size give the content', z3.And(tobv(L, 64) == n, z3.BoolVal(q.obj == a.obj), tobv(q.off, 64) == va.off))
            s.assume(z3.ULT(k, BUF)); K.prove(E, s, 'the content is unchanged (%s)' % part, at(s, k) == B.fn(k))

# ------------------------------------------------------------------ the reading loops around the parsers
def loop(K, w, entry, parser, reads_first, value):
    """reads_first: whether the loop may read before it has asked the parser (the receive buffer is empty then)"""
    E = K.engine(); st = State(E); M = Msg(K, E, st, w); st = M.st
    K.assume('the parsers are replaced by their contracts (http_%s_*): they keep a part of the receive buffer, and ask for more with room for it' % {'q': 'req', 's': 'res'}[w])
    K.assume('the transport is replaced by its contract: at most as many bytes as asked for, 0 at the end of the stream, negative on an error, or a timeout')
    n0 = z3.BitVec('n0', 64); st.assume(z3.ULE(n0, BUF)); buf = Ptr(st.new_obj(BUF, 'receive buffer', 'alloca').id, 0); st.obj(buf.obj).seq = Base('received bytes')
    if reads_first == 'empty': st.assume(n0 == 0)
    # size: bytes in the buffer; ret: last answer of the parser; ok: the parser has seen everything in the buffer; pend: received, not yet added; bad: 1 stream ended or error, 2 timeout, 3 refused
    for k, v in dict(size=n0, ret=BV(BUF), ok=z3.If(n0 == 0, BV(1), BV(0)) if reads_first else BV(0), pend=BV(0), bad=BV(0), asked=BV(0)).items(): st.ghost['g:' + k] = v
    g = lambda s, k: tobv(s.ghost['g:' + k], 64)
    def ob(s, name, goal): return K.prove(E, s, name, goal)
    A = r'HX::container::ArrayBuf<.*>::'
    E.add_model(A + r'data\(\)( const)?', lambda c: buf)
    E.add_model(A + r'size\(\)( const)?', lambda c: g(c.st, 'size'))
    def add(c):
        s = c.st; x = tobv(c.args[1], 64); ob(s, 'exactly the received bytes are added to the receive buffer', z3.And(g(s, 'pend') != 0, x == g(s, 'pend')))
        s.ghost['g:size'] = g(s, 'size') + g(s, 'pend'); s.ghost['g:pend'] = BV(0)
    E.add_model(A + r'addSize\(.*\)', add)
    def drop(c): ob(c.st, 'received bytes are taken from the buffer by the parser only', False)
    E.add_model(A + r'(clear|resetSize|moveToHead)\(.*\)', drop)
    def parse(c):
        s = c.st; ob(s, 'the parser is asked only after the received bytes were added', z3.And(g(s, 'pend') == 0, g(s, 'bad') == 0))
        ob(s, 'a finished message is not parsed further', z3.Or(g(s, 'asked') == 0, g(s, 'ret') != 0))
        f = s.clone(); f.ghost['g:bad'] = BV(3); f.ghost['refused'] = True
        r, z = FBV('answer'), FBV('kept'); s.assume(z3.And(z3.ULE(z, g(s, 'size')), z3.Or(r == 0, r == BUF, z == 0)))
        s.ghost.update({'g:ret': r, 'g:size': z, 'g:ok': BV(1), 'g:asked': BV(1)})
        return [Res(s, r), throw(f)]
    E.add_model(parser, parse)
    def recv(c):
        s = c.st; io, p, n = c.args; n = tobv(n, 64); r = FBV('got', 32); z, a = g(s, 'size'), g(s, 'ret')
        ob(s, 'more is read only if the parser has asked for it', z3.And(g(s, 'ok') == 1, a != 0, g(s, 'pend') == 0, g(s, 'bad') == 0))
        lim = z3.If(z3.ULE(a, BUF), a, BV(BUF))
        ob(s, 'received bytes follow the ones kept', z3.And(z3.BoolVal(p.obj == buf.obj), tobv(p.off, 64) == z))
        ob(s, 'as much is read as the parser asked for and the buffer holds', n == lim - z)
        s.assume(z3.And(n == lim - z, r >= -4095, r <= z3.Extract(31, 0, n)))
        f = s.clone(); f.assume(r <= 0); f.ghost['g:bad'] = BV(1); s.assume(r > 0); s.ghost['g:pend'] = z3.SignExt(32, r)
        s.ghost['g:ok'] = BV(0); w_ = s.wobj(buf.obj); w_.seq = Base(fresh_name('received'))
        return [Res(s, r), Res(f, r)]
    def tmo(c): f = c.st.clone(); f.ghost['g:bad'] = BV(2); ob(f, 'more is read only if the parser has asked for it', z3.And(g(f, 'ok') == 1, g(f, 'ret') != 0)); return [Res(c.st, 0), Res(f, 1)]
    E.add_model('io_recv_some', recv); E.add_model('io_timeout', tmo)
    t = [x for x in E.m.fnlines if 'http_recv_contract' in x and '__await' not in x]
    E.redirect.append((re.compile(r'.*HX::net::HttpIO::recvLinkTimeout<.*|_ZN2HX3net6HttpIO15recvLinkTimeout.*'), t[0]))
    def cb(ctx):
        out = [('ghost', ('state', lambda s, m: z3.And(z3.ULE(g(s, 'size'), BUF), g(s, 'pend') == 0, g(s, 'bad') == 0, g(s, 'ok') == 1, z3.Or(g(s, 'ret') == 0, g(s, 'ret') == BUF, g(s, 'size') == 0), z3.Or(g(s, 'asked') == 1, z3.And(g(s, 'ret') == BUF, g(s, 'size') == 0)))))]
        for nm, r in scalars(ctx): out.append(('asked=' + nm, ('state', lambda s, m, r=r: r(s) == g(s, 'ret'))))
        return out
    E.invs.append((re.compile('HX::net::'), cb)); E.nocontrol.append(re.compile('HX::net::')); seen = set(); out = None
    args = [M.p]
    if value == 'string':
        out = empty_slot(st, 32, 'result'); args = [out] + args; T, tn, TB = new_string(st, 'parsed', at=M.at_bodystr)
    else: new_string(st, 'parsed', 0, Bytes([]), at=M.at_bodystr)
    if value != 'head': st, _ = call1(E, st, w + '_fresh', M.p)
    for o in K.call(E, st, entry, args, allow=('ret', 'throw')):
        s = o.st
        if not E.feasible_sure(s): continue
        done = z3.And(g(s, 'asked') == 1, g(s, 'ret') == 0, g(s, 'bad') == 0)
        if o.kind == 'throw':
            seen.add('refused' if s.ghost.get('refused') else 'broken')
            ob(s, 'an error is reported only for a refused message or a broken connection', z3.And(g(s, 'bad') != 0, g(s, 'pend') == 0)); continue
        if value == 'string':
            seen.add('done'); ob(s, 'a body is returned only when the parser has finished it', done); k = SKV('k')
            ln, r = str_result(s, out); ob(s, 'the body is the parsed one', tobv(ln, 64) == tn); s.assume(z3.ULT(k, tn)); ob(s, 'bytes of the body', tobv(r(k), 8) == TB.fn(k)); continue
        v = tobv(o.val, 8) if not isinstance(o.val, bool) else BV(int(o.val), 8)
        for x in (0, 1):
            t = s.clone(); t.assume((v & 1) == x)
            if not E.feasible_sure(t): continue
            seen.add(('broken', 'done')[x])
            ob(t, 'success is reported exactly when the parser has finished', done if x else g(t, 'bad') != 0)
    K.cover(E, 'reading loop: all outcomes %s' % sorted({'done', 'broken', 'refused'} - seen), {'done', 'broken', 'refused'} <= seen)
LOOP = 'the reading loop (%s) asks the parser about everything received, reads behind the kept bytes and only while the parser asks for more, never beyond the buffer, and reports success exactly when the parser has finished and failure exactly when the connection broke, timed out or the message was refused'
for nm, pr, w, e, px, rf, v in (('http_req_head_loop', 'httpreq', 'q', 'q_head_loop', r'HX::net::HttpRequest<HX::net::HttpIO>::_parserReqHead\(\)', 'any', 'head'), ('http_req_body_loop', 'httpreq', 'q', 'q_body_loop', r'HX::net::HttpRequest<HX::net::HttpIO>::_parserReqBody\(\)', None, 'string'),
                            ('http_res_head_loop', 'httpres', 's', 's_head_loop', r'HX::net::HttpResponse<HX::net::HttpIO>::_parserResHead\(\)', 'empty', 'head'), ('http_res_body_loop', 'httpres', 's', 's_body_loop', r'HX::net::HttpResponse<HX::net::HttpIO>::_parserReqBody\(\)', None, 'bool')):
    mk(nm, pr, 'http', (lambda *a: lambda K: loop(K, *a))(w, e, px, rf, v), LOOP % ('head' if v == 'head' else 'body'))
