"""WebSocket frames (RFC 6455 section 5)."""
from hxv.contract import *
from hxv import models

def ws_engine(K, **kw):
    E = K.engine(**kw)
    def send(c):
        s = c.st; p, n, at = c.args
        E.bounds_n(s, p, n, 'bytes handed to the transport')
        r = models.readerof(E, s, p); nm = fresh_name('sent')
        b = Base(nm)
        s.ghost['out'] = s.ghost['out'] + ((at, n, r),)
        return None
    E.add_model(r'io_send', send)
    return E
def sock(E, st, server):
    """a WebSocket over a fresh transport, nothing buffered"""
    io = st.new_obj(16, 'transport', 'alloca'); io.slots[0] = (8, FBV('pos')); io.slots[8] = (8, 0)
    st.ghost['out'] = ()
    return Ptr(io.id, 0)
def mksock(K, E, st, server, buf=None):
    io = sock(E, st, server)
    at = st.new_obj(128, 'websocket', 'alloca')
    v = st.new_obj(24, 'prebuf.arg', 'alloca'); vp = Ptr(v.id, 0)
    if buf is None: st.mkbuf(vp, 'vector', 0, Bytes([]), 1, 'prebuf')
    else: st.mkbuf(vp, 'vector', buf[0], buf[1], 1, 'prebuf')
    a = [Ptr(at.id, 0), io, vp]
    if not server: a.append(FBV('seed'))
    outs = E.run_fn(st, 'w_new_s' if server else 'w_new_c', a)
    outs = [o for o in outs if o.kind == 'ret']
    if len(outs) != 1: raise Unsupported('constructor forks')
    return outs[0].st, outs[0].val, io
def stream(s):
    """concatenation of everything sent: (length, read)"""
    tot = BV(0); parts = []
    for at, n, r in s.ghost['out']: parts.append((tot, tobv(n, 64), r)); tot = tot + tobv(n, 64)
    def read(k):
        v = BV(0, 8)
        for st_, n, r in parts: v = z3.If(z3.And(z3.ULE(st_, k), z3.ULT(k - st_, n)), tobv(r(k - st_), 8), v)
        return v
    return tot, read
def check_frame(K, E, s, op, n, msg, masked, cex):
    tot, rd = stream(s)
    ext = z3.If(z3.ULT(n, 126), BV(0), z3.If(z3.ULE(n, 0xffff), BV(2), BV(8)))
    hl = 2 + ext + (4 if masked else 0)
    K.prove(E, s, 'frame length is header plus message', tot == hl + n, cex)
    K.prove(E, s, 'first byte: final fragment, no reserved bits, the opcode', rd(BV(0)) == (op | 0x80), cex)
    l7 = z3.If(z3.ULT(n, 126), z3.Extract(7, 0, n), z3.If(z3.ULE(n, 0xffff), BV(126, 8), BV(127, 8)))
    K.prove(E, s, 'second byte: mask bit and 7-bit length', rd(BV(1)) == (l7 | (0x80 if masked else 0)), cex)
    K.prove(E, s, '16-bit extended length is minimal and big-endian', z3.Implies(ext == 2, z3.And(*[rd(BV(2 + i)) == z3.Extract(15 - 8 * i, 8 - 8 * i, n) for i in range(2)])), cex)
    K.prove(E, s, '64-bit extended length is minimal and big-endian', z3.Implies(ext == 8, z3.And(*[rd(BV(2 + i)) == z3.Extract(63 - 8 * i, 56 - 8 * i, n) for i in range(8)])), cex)
    k = SKV('k'); s.assume(z3.ULT(k, n))
    exp = msg.fn(k)
    if masked:
        key = [rd(2 + ext + i) for i in range(4)]
        exp = exp ^ select(key, k & 3)
    K.prove(E, s, 'payload byte k is message byte k' + (' xor mask byte k mod 4' if masked else ''), rd(hl + k) == exp, cex)

def inv_xor(E, rx):
    """in-place masking: buffer byte k is xored with key byte k mod 4, for every 4 byte array in scope as the key"""
    def cb(ctx):
        out = []
        for mid in in_scope(ctx, 4):
            try: kr = rd(ctx.S0, mid)
            except Unsupported: continue
            key = [kr(j) for j in range(4)]
            if any(not isinstance(x, (int, z3.ExprRef)) for x in key): continue
            for i, (c, get) in enumerate(buf_cells(ctx)):
                if c.kind != 'seq' or c.entry is None: continue
                ent = c.entry
                def f(s, mm, k, get=get, ent=ent, key=key):
                    nn, r = get(s)
                    return tobv(r(k), 8) == z3.If(z3.ULT(k, mm), tobv(ent.read(k), 8) ^ select(key, k & 3), tobv(ent.read(k), 8))
                out.append(('mask[%d]:%d' % (i, mid), ('forall', (lambda c: lambda h: trig(c))(c), f)))
        return out
    E.invs.append((re.compile(rx), cb))
def _send(K, server):
    E = ws_engine(K); st = State(E)
    st, w, io = mksock(K, E, st, server)
    p, n, B = new_string(st, 'msg'); op = z3.BitVec('op', 8); st.assume(z3.ULE(op, 15))
    cex = lambda m: {'op': 'wssend', 'server': server, 'opcode': model_int(m, op), 'len': model_int(m, n)}
    E.add_model(r'HX::utils::XorShift32::operator\(\)\(\)', lambda c: FBV('mask', 32))
    if not server: inv_xor(E, 'sendPacket')
    for o in K.call(E, st, 'w_send_ss' if server else 'w_send_cc', [w, op, p]):
        check_frame(K, E, o.st, op, n, B, not server, cex)
@contract('wsenc', 'ws')
def ws_send_server(K):
    """a message sent by a server is one final unmasked RFC 6455 frame with the shortest length form and the message as payload"""
    _send(K, True)
@contract('wsenc', 'ws')
def ws_send_client(K):
    """a message sent by a client is one final masked RFC 6455 frame; unmasking the payload with the transmitted key gives the message"""
    _send(K, False)
@contract('wsenc', 'ws')
def ws_send_view(K):
    """a frame prepared once for many receivers is sent as the same RFC 6455 frame"""
    E = ws_engine(K); st = State(E)
    st, w, io = mksock(K, E, st, True)
    p, n, B = st.buffer('msg'); op = z3.BitVec('op', 8); st.assume(z3.ULE(op, 15))
    cex = lambda m: {'op': 'wsview', 'opcode': model_int(m, op), 'len': model_int(m, n)}
    for o in K.call(E, st, 'w_view', [w, op, p, n]):
        check_frame(K, E, o.st, op, n, B, False, cex)

# ------------------------------------------------------------------ receiving
class Rx:
    """the RFC 6455 reading of a byte stream: everything is a function of the position at which a frame starts"""
    def __init__(R, server):
        R.server = server; B64 = z3.BitVecSort(64); B8 = z3.BitVecSort(8)
        R.S = Base('S'); R.MLEN = z3.Function('MLEN', B64, B64); R.FOP = z3.Function('FOP', B64, B8); R.MSG = Base('MSG')
    def s(R, i): return R.S.fn(i)
    def op(R, P): return R.s(P) & 15
    def fin(R, P): return R.s(P) & 0x80 != 0
    def masked(R, P): return R.s(P + 1) & 0x80 != 0
    def l7(R, P): return R.s(P + 1) & 0x7f
    def ext(R, P): return z3.If(R.l7(P) == 126, BV(2), z3.If(R.l7(P) == 127, BV(8), BV(0)))
    def len(R, P):
        g = lambda a, n: z3.Concat(*[R.s(P + a + i) for i in range(n)])
        return z3.If(R.l7(P) == 126, z3.ZeroExt(48, g(2, 2)), z3.If(R.l7(P) == 127, g(2, 8), z3.ZeroExt(56, R.l7(P))))
    def Q(R, P): return P + 2 + R.ext(P) + (4 if R.server else 0)
    def end(R, P): return R.Q(P) + R.len(P)
    def byte(R, P, j):
        b = R.s(R.Q(P) + j)
        if R.server: b = b ^ select([R.s(P + 2 + R.ext(P) + i) for i in range(4)], j & 3)
        return b
    def control(R, P): return z3.UGE(R.op(P), 8)
    def bad(R, P):
        o = R.op(P)
        return z3.Or(R.masked(P) != z3.BoolVal(R.server), z3.And(z3.UGT(o, 2), z3.ULT(o, 8)), z3.UGT(o, 10), z3.And(z3.UGE(o, 8), z3.Or(z3.Not(R.fin(P)), z3.UGE(R.l7(P), 126))),
                     z3.And(o == 0, R.FOP(P) == 255), z3.And(z3.ULE(o, 2), o != 0, R.FOP(P) != 255))
    def unfold(R, st, P):
        """definition of the accumulated message at the end of the frame at P (data frames only)"""
        n = R.len(P); e = R.end(P); d = z3.And(z3.Not(R.control(P)), z3.ULT(n, BV(1 << 47)), z3.ULT(R.MLEN(P), BV(1 << 47)))
        st.assume(z3.Implies(d, z3.And(R.MLEN(e) == R.MLEN(P) + n, R.FOP(e) == z3.If(R.FOP(P) == 255, R.op(P), R.FOP(P)))))
        st.fact(R.MSG, lambda k: z3.Implies(z3.And(d, z3.ULE(R.MLEN(P), k), z3.ULT(k, R.MLEN(P) + n)), R.MSG.fn(k) == R.byte(P, k - R.MLEN(P))))

def rx_engine(K, R, iofail=False):
    E = ws_engine(K, max_paths=20000)
    def far(st, at):                       # a connection carries fewer than 2^60 bytes
        if is_sym(at): st.assume(z3.ULT(at, BV(1 << 60)))
    def stream(st):
        id = st.ghost.get('stream')
        if id is None:
            o = st.new_obj(1 << 63, 'stream', 'mem'); o.seq = R.S; id = st.ghost['stream'] = o.id
        return id
    def recv(c):
        s = c.st; p, n, at = c.args
        E.bounds_n(s, p, n, 'buffer handed to the transport'); far(s, at)
        out = [Res(s, 1)]
        if iofail: f = s.clone(); f.ghost['iofail'] = True; out.append(Res(f, 0))
        E.memcpy(s, p, Ptr(stream(s), at), n)
        return out
    def recv_some(c):
        s = c.st; p, n, at = c.args; r = FBV('got', 32)
        E.bounds_n(s, p, n, 'buffer handed to the transport')
        far(s, at); R.unfold(s, at); s.ghost['P'] = at
        s.assume(z3.And(r <= z3.Extract(31, 0, tobv(n, 64)), r >= -4095))
        f = s.clone(); f.assume(r <= 0); f.ghost['eof'] = True
        out = [Res(f, r)]
        if isinstance(n, int) and n <= 8:
            for j in range(1, n + 1):
                t = s.clone(); E.memcpy(t, p, Ptr(stream(t), at), j); out.append(Res(t, j))
            return out
        s.assume(r > 0)
        E.memcpy(s, p, Ptr(stream(s), at), z3.ZeroExt(32, r))
        return out + [Res(s, r)]
    def timeout(c):
        s = c.st; f = s.clone(); f.ghost['timeout'] = True
        return [Res(s, 0), Res(f, 1)]
    E.add_model('io_recv', recv); E.add_model('io_recv_some', recv_some); E.add_model('io_timeout', timeout)
    return E
def posof(s, io): return tobv(s.obj(io.obj).slots[io.off][1], 64)

def _recv(K, server, frag):
    R = Rx(server); X = 's' if server else 'c'
    if True:
        E = rx_engine(K, R); st = State(E)
        st, w, io = mksock(K, E, st, server)
        p0 = posof(st, io); st.assume(z3.ULT(p0, BV(1 << 60)))
        fop = z3.BitVec('fop', 8)
        if frag:
            p, n, F = new_string(st, 'frag'); st.assume(z3.Or(fop == 1, fop == 2))
            outs = [o for o in E.run_fn(st, 'w_frag_' + X, [w, fop, p]) if o.kind == 'ret']
            if len(outs) != 1: raise Unsupported('fragment setup forks')
            st = outs[0].st
            st.assume(z3.And(R.MLEN(p0) == n, R.FOP(p0) == fop))
            st.fact(R.MSG, lambda k: z3.Implies(z3.ULT(k, n), R.MSG.fn(k) == F.fn(k)))
        else: st.assume(z3.And(R.MLEN(p0) == 0, R.FOP(p0) == 255))
        inv_xor(E, 'recvPacket')
        def cb(ctx, io=io):
            out = []
            for i, (c, get) in enumerate(buf_cells(ctx)):
                out.append(('len[%d]' % i, ('state', lambda s, mm, get=get: tobv(get(s)[0], 64) == R.MLEN(posof(s, io)))))
                out.append(('msg[%d]' % i, ('forall', (lambda c: lambda h: trig(c) + [R.MSG])(c), lambda s, mm, k, get=get: z3.Implies(z3.ULT(k, tobv(get(s)[0], 64)), tobv(get(s)[1](k), 8) == R.MSG.fn(k)))))
            if frag: out.append(('op', ('state', lambda s, mm: R.FOP(posof(s, io)) == fop)))
            for k, c in ctx.cells.items():
                if c.w == 8 and c.kind == 'slot':
                    out.append(('op%s' % (k,), ('state', lambda s, mm, c=c: tobv(ctx.read(s, c), 8) == R.FOP(posof(s, io)))))
            return out
        E.invs.append((re.compile('recvPacket'), cb))
        out = empty_slot(st, 56, 'result')
        outs = E.run_fn(st, 'w_recv_' + X, [out, w])
        nret = 0
        def fragment(s):
            oo = [x for x in E.run_fn(s, 'w_getfrag_' + X, [w])]
            return [(x.st, x.val) for x in oo if x.kind == 'ret']
        def chk_fragment(s, P, expect, what):
            for s2, fp in fragment(s):
                if fp.obj is None: K.prove(E, s2, what + ': no partial message is kept only if there is none', z3.Not(expect)); continue
                K.prove(E, s2, what + ': a partial message is kept only if there is one', expect)
                K.prove(E, s2, what + ': type of the partial message', tobv(E.load(s2, fp, INT(8)), 8) == R.FOP(P))
                ln, r = str_result(s2, fp + 8)
                K.prove(E, s2, what + ': length of the partial message', tobv(ln, 64) == R.MLEN(P))
                k = SKV('k'); s2.assume(z3.ULT(k, R.MLEN(P)))
                K.prove(E, s2, what + ': bytes of the partial message', tobv(r(k), 8) == R.MSG.fn(k))
        for o in outs:
            s = o.st; g = s.ghost; P = g.get('P')
            if not E.feasible_sure(s): continue
            if o.kind == 'throw':
                if g.get('iofail'): continue
                K.prove(E, s, 'an error is reported only for a protocol violation or an unrepresentable length', z3.Or(R.bad(P), z3.UGE(R.len(P), BV(1 << 47)), z3.UGE(R.MLEN(P) + R.len(P), BV(1 << 47)), z3.BoolVal(bool(g.get('toolong')))) if P is not None else False); continue
            for y in E.run_fn(s, 'w_getpk', [out]):
                s = y.st; pk = y.val
                if pk.obj is None:
                    nret |= 1
                    K.prove(E, s, 'nothing is returned only on timeout or end of stream', z3.BoolVal(bool(g.get('timeout') or g.get('eof'))))
                    pos = posof(s, io)
                    chk_fragment(s, pos, R.FOP(pos) != 255, 'timeout')
                    continue
                ln, r = str_result(s, pk + 8); op = tobv(E.load(s, pk, INT(8)), 8)
                K.prove(E, s, 'a frame that violates the protocol is never delivered', z3.Not(R.bad(P)))
                K.prove(E, s, 'exactly the bytes of the frame are consumed', posof(s, io) == R.end(P))
                for ctl in (True, False):
                    s2 = s.clone(); s2.assume(R.control(P) if ctl else z3.Not(R.control(P)))
                    if not E.feasible_sure(s2): continue
                    nret |= 2 if ctl else 4
                    k = SKV('k')
                    if ctl:
                        K.prove(E, s2, 'control frame: its own opcode', op == R.op(P))
                        K.prove(E, s2, 'control frame: its own length', tobv(ln, 64) == R.len(P))
                        s2.assume(z3.ULT(k, R.len(P)))
                        K.prove(E, s2, 'control frame: its own unmasked payload', tobv(r(k), 8) == R.byte(P, k))
                        chk_fragment(s2, P, R.FOP(P) != 255, 'control frame')
                    else:
                        K.prove(E, s2, 'data message ends with a final frame', R.fin(P))
                        K.prove(E, s2, 'data message: type of the first fragment', op == z3.If(R.FOP(P) == 255, R.op(P), R.FOP(P)))
                        K.prove(E, s2, 'data message: total length', tobv(ln, 64) == R.MLEN(P) + R.len(P))
                        s2.assume(z3.ULT(k, R.MLEN(P) + R.len(P)))
                        K.prove(E, s2, 'data message: concatenated unmasked payloads', tobv(r(k), 8) == R.MSG.fn(k))
                        chk_fragment(s2, P, z3.BoolVal(False), 'data message')
        K.cover(E, 'recvPacket (all three kinds of result)', nret == 7)
@contract('wsdec', 'ws', timeout=600)
def ws_recv_server(K):
    """a server's receive turns any byte stream into exactly the messages RFC 6455 says it carries"""
    _recv(K, True, False)
@contract('wsdec', 'ws', timeout=600)
def ws_recv_client(K):
    """a client's receive turns any byte stream into exactly the messages RFC 6455 says it carries"""
    _recv(K, False, False)
@contract('wsdec', 'ws', timeout=600)
def ws_recv_server_partial(K):
    """a server's receive continues a partially received message"""
    _recv(K, True, True)
@contract('wsdec', 'ws', timeout=600)
def ws_recv_client_partial(K):
    """a client's receive continues a partially received message"""
    _recv(K, False, True)

# ------------------------------------------------------------------ bytes read ahead during the upgrade
def _ahead(K, fn):
    R = Rx(True); E = rx_engine(K, R); st = State(E)
    N = z3.BitVec('ahead', 64); st.assume(z3.ULT(N, BV(1 << 40))); RB = Base('RB')
    st, w, io = mksock(K, E, st, True, (N, RB))
    p0 = posof(st, io); st.assume(z3.ULT(p0, BV(1 << 59)))
    p, n, B = st.buffer('dst')
    if fn == 'w_some_s': st.assume(z3.And(z3.ULT(n, BV(1 << 30)), z3.ULT(BV(0), n)))
    log = lambda k: z3.If(z3.ULT(k, N), RB.fn(N - 1 - k), R.s(p0 + k - N))
    inv_inplace(E, lambda k: RB.fn(N - 1 - k), 'fullyRecv|recvLinkTimeout')
    cex = lambda m: {'op': 'wsahead', 'fn': fn, 'ahead': model_int(m, N), 'n': model_int(m, n)}
    nret = 0
    for o in E.run_fn(st, fn, [w, p, n]):
        s = o.st
        if not E.feasible_sure(s): continue
        if o.kind == 'throw': continue
        if fn == 'w_full_s': got = n; short = z3.BoolVal(False)
        else: got = z3.SignExt(32, tobv(o.val, 32)); short = got <= 0
        nret += 1
        K.prove(E, s, 'never more bytes than asked for', z3.Or(short, z3.ULE(got, n)), cex)
        k = SKV('k'); r = rd(s, p.obj)
        K.prove(E, s, 'byte k delivered is byte k of read-ahead followed by the transport', z3.Implies(z3.And(z3.Not(short), z3.ULT(k, got)), tobv(r(k), 8) == log(k)), cex)
        x = E.run_fn(s, 'w_ahead_s', [w]); s2 = x[0].st
        ln, rr = str_result(s2, x[0].val); ln = tobv(ln, 64)
        used = z3.If(short, BV(0), z3.If(z3.ULT(got, N), got, N))
        K.prove(E, s2, 'what was read ahead and not delivered stays', ln == N - used, cex)
        K.prove(E, s2, 'what stays is unchanged', z3.Implies(z3.ULT(k, ln), tobv(rr(k), 8) == RB.fn(k)), cex)
        K.prove(E, s2, 'the transport advances by the rest', posof(s2, io) == p0 + z3.If(short, BV(0), got - used), cex)
    K.cover(E, fn, nret)
@contract('wsdec', 'ws')
def ws_ahead_fully(K):
    """fullyRecv delivers the bytes read ahead, then the transport's, each once and in order"""
    _ahead(K, 'w_full_s')
@contract('wsdec', 'ws')
def ws_ahead_timeout(K):
    """recvLinkTimeout delivers the bytes read ahead, then the transport's, and loses none on a timeout"""
    _ahead(K, 'w_some_s')

# ------------------------------------------------------------------ recv(): control frames answered, the wanted type returned
def _get(K, server):
    E = ws_engine(K); st = State(E); X = 's' if server else 'c'
    st, w, io = mksock(K, E, st, server)
    mod = r'HX::net::WebSocket<\(HX::net::WebSocketModel\)%d, FakeIO>' % (1 if server else 0)
    def sym(base): 
        r = [n for n in E.m.fnlines if base in n and ('ModelE%d' % (1 if server else 0)) in n and '__await' not in n]
        if len(r) != 1: raise Unsupported('harness function %s not found (%r)' % (base, r))
        return r[0]
    E.redirect.append((re.compile(r'.*%s::recvPacket<.*|_ZN2HX3net9WebSocketILNS0_14WebSocketModelE%d.*10recvPacket.*' % (mod, 1 if server else 0)), sym('recvPacket_contract')))
    E.redirect.append((re.compile(r'%s::send\(HX::net::OpCode, .*\) const' % mod), sym('send_contract')))
    st.ghost['g:pending'] = 0
    def packet(c):
        s = c.st; g = s.ghost
        K.prove(E, s, 'every Ping and Close received is answered before anything else is read', z3.BoolVal(g['g:pending'] == 0) if isinstance(g['g:pending'], int) else False)
        out = []
        f = s.clone(); E.store(f, c.args[1], 0, INT(8)); f.ghost['last'] = (None,) + f.ghost.get('last', ())[:1]; f.ghost['tmo'] = True; out.append(Res(f, None))
        op, n, B = FBV('rop', 8), FBV('rlen'), Base(fresh_name('rmsg'))
        s.assume(z3.And(z3.Or(op == 1, op == 2, op == 8, op == 9, op == 10), z3.ULT(n, BV(MAXLEN))))
        for kind, cond in ((1, op == 9), (2, op == 8), (0, z3.And(op != 8, op != 9))):
            t = s.clone(); t.assume(cond)
            E.store(t, c.args[1], 1, INT(8)); E.store(t, c.args[0], op, INT(8))
            b = t.getbuf(c.args[0] + 8); o = t.wobj(b.obj); o.size = n; o.seq = B
            t.ghost['g:pending'] = kind; t.ghost['last'] = ((op, n, B),) + t.ghost.get('last', ())[:1]; t.ghost['tmo'] = False
            out.append(Res(t, None))
        return out
    def sent(c):
        s = c.st; op, p, n = c.args; pend = s.ghost['g:pending']; op = tobv(op, 8)
        if pend == 0:
            K.prove(E, s, 'unasked, only an empty Ping is sent, and only after a timeout', z3.And(op == 9, tobv(n, 64) == 0, z3.BoolVal(bool(s.ghost.get('tmo')))))
        else:
            rop, rn, B = s.ghost['last'][0]
            K.prove(E, s, 'a Ping is answered with Pong, a Close with Close', op == (10 if pend == 1 else 8))
            K.prove(E, s, 'the answer has the length of the request', tobv(n, 64) == rn)
            r = models.readerof(E, s, p); k = SKV('k'); s3 = s.clone(); s3.assume(z3.ULT(k, rn))
            K.prove(E, s3, 'the answer carries the payload of the request', tobv(r(k), 8) == B.fn(k))
        if pend == 0: s.ghost['waiting'] = True
        s.ghost['g:pending'] = 0 if pend != 2 else 3
        return None
    E.add_model('io_packet', packet); E.add_model('io_sent', sent)
    a, b = z3.BitVec('want', 8), z3.BitVec('alt', 8)
    for v in (a, b): st.assume(z3.And(v != 8, v != 9))
    out = empty_slot(st, 40, 'result'); nret = nthr = 0
    for o in E.run_fn(st, 'w_get_' + X, [out, w, a, b]):
        s = o.st; g = s.ghost
        if not E.feasible_sure(s): continue
        last = [x for x in g.get('last', ()) if x is not None]
        if o.kind == 'throw':
            nthr += 1
            # while the Pong of an own Ping is awaited, the library accepts only that Pong and one message of the wanted type
            ok = z3.BoolVal(g['g:pending'] == 3 or bool(g.get('waiting') and g['g:pending'] == 0))
            if last: ok = z3.Or(ok, z3.And(last[0][0] != a, last[0][0] != b, z3.BoolVal(g['g:pending'] == 0)))
            K.prove(E, s, 'an error is reported only for a Close (answered), a timeout after a Ping, or an unexpected type', ok); continue
        nret += 1
        op = tobv(E.load(s, out, INT(8)), 8); ln, r = str_result(s, out + 8); k = SKV('k'); ln = tobv(ln, 64)
        K.prove(E, s, 'the returned message has a wanted type', z3.Or(op == a, op == b))
        K.prove(E, s, 'nothing is left unanswered', z3.BoolVal(g['g:pending'] == 0))
        K.prove(E, s, 'what is returned is a message received', z3.Or(*[z3.And(op == x[0], ln == x[1], z3.Implies(z3.ULT(k, ln), tobv(r(k), 8) == x[2].fn(k))) for x in last]) if last else False)
    K.cover(E, 'recv returns', nret); K.cover(E, 'recv throws', nthr)
@contract('wsdec', 'ws', timeout=600)
def ws_get_server(K):
    """a server's recv answers control frames with their payload and returns only a message of the wanted type"""
    _get(K, True)
@contract('wsdec', 'ws', timeout=600)
def ws_get_client(K):
    """a client's recv answers control frames with their payload and returns only a message of the wanted type"""
    _get(K, False)
