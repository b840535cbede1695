from hxv.contract import *
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64U = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
def b64char(B, n, k, tab):
    """spec: character k of the base64 text of bytes B[0..n) (no padding)"""
    g = z3.LShR(k, 2) * 3; j = z3.Extract(1, 0, k)
    byte = lambda i: z3.If(z3.ULT(g + i, n), z3.ZeroExt(16, B(g + i)), z3.BitVecVal(0, 24))
    v = (byte(0) << 16) | (byte(1) << 8) | byte(2)
    six = z3.If(j == 0, z3.Extract(23, 18, v), z3.If(j == 1, z3.Extract(17, 12, v), z3.If(j == 2, z3.Extract(11, 6, v), z3.Extract(5, 0, v))))
    return table_read(tab, six)
def divmod_const(st, n, d):
    """quotient and remainder by a constant, introduced by their defining property (exists and is unique)"""
    q, r = FBV('quot'), FBV('rem')
    st.assume(z3.And(n == q * d + r, z3.ULT(r, BV(d)), z3.ULE(q, BV(MAXLEN))))
    return q, r
def b64len(st, n):
    """(characters that carry data: ceil(8n/6), padded length 4*ceil(n/3))"""
    q, r = divmod_const(st, n, 3)
    return q * 4 + z3.If(r == 0, BV(0), r + 1), q * 4 + z3.If(r == 0, BV(0), BV(4)), (q, r)

@contract('base64', 'codec')
def base64_encode(K):
    """base64Encode(in) == RFC 4648 section 4 encoding of in, for every input length and content"""
    E = K.engine(); st = State(E)
    p, n, B = st.buffer('in')
    ret = empty_slot(st, 32)
    f = K.fn(r'HX::net::base64Encode\(.*\)')
    inv_pointwise(E, lambda k: b64char(B.fn, n, k, B64))
    for o in K.call(E, st, f, [ret, p, n]):
        ln, rd_ = str_result(o.st, ret)
        data, pad, qr = b64len(o.st, n)
        K.lemma_iter(E, o.st, [qr[0]])
        cex = lambda m: {'op': 'b64enc', 'in': model_bytes(m, B, min(model_int(m, n), 600)).hex()}
        K.prove(E, o.st, 'length is 4*ceil(n/3)', tobv(ln, 64) == pad, cex)
        k = SKV('k'); o.st.assume(z3.ULT(k, tobv(ln, 64)))
        K.prove(E, o.st, 'every character is the RFC 4648 character', tobv(rd_(k), 8) == z3.If(z3.ULT(k, data), b64char(B.fn, n, k, B64), z3.BitVecVal(ord('='), 8)), cex)

def b64u_spec(Bfn, n, k): return b64char(Bfn, n, k, B64U)
def b64u_enc(K, rx):
    E = K.engine(); st = State(E)
    p, n, B = st.buffer('in')
    ret = empty_slot(st, 32)
    inv_inplace(E, lambda k: b64char(B.fn, n, k, B64U), strides=(4,))
    for o in K.call(E, st, K.fn(rx), [ret, p, n]):
        ln, rd_ = str_result(o.st, ret)
        data, pad, qr = b64len(o.st, n)
        K.lemma_iter(E, o.st, [qr[0]])
        cex = lambda m: {'op': 'b64uenc', 'in': model_bytes(m, B, min(model_int(m, n), 600)).hex()}
        K.prove(E, o.st, 'length is ceil(8n/6), no padding', tobv(ln, 64) == data, cex)
        k = SKV('k'); o.st.assume(z3.ULT(k, tobv(ln, 64)))
        K.prove(E, o.st, 'every character is the RFC 4648 section 5 character', tobv(rd_(k), 8) == b64char(B.fn, n, k, B64U), cex)
@contract('base64', 'codec')
def base64url_encode(K):
    """base64UrlEncode(in) == unpadded RFC 4648 section 5 encoding of in"""
    b64u_enc(K, r'HX::net::base64UrlEncode\(std::span<uchar const,.*\)')
@contract('base64', 'codec')
def base64url_encode_chars(K):
    """the overload for character spans encodes the same bytes"""
    b64u_enc(K, r'HX::net::base64UrlEncode\(std::span<char const,.*\)')
@contract('base64', 'codec')
def base64url_roundtrip(K):
    """base64UrlDecode(encoding of x, as specified above) == x for every byte string x"""
    E = K.engine(); st = State(E)
    n = z3.BitVec('x_len', 64); B = Base('x'); st.assume(z3.ULT(n, BV(MAXLEN >> 1)))
    data, _, (q, r) = b64len(st, n)
    o = st.new_obj(data, 'text', 'buf')
    txt = Base('text'); o.seq = txt
    st.fact(txt, lambda k: txt.fn(k) == b64char(B.fn, n, k, B64U))
    ret = empty_slot(st, 32)
    inv_inplace(E, lambda k: B.fn(k), strides=(3,))
    for o in K.call(E, st, K.fn(r'HX::net::base64UrlDecode\(.*\)'), [ret, data, Ptr(o.id, 0)]):
        ln, rd_ = str_result(o.st, ret)
        K.lemma_iter(E, o.st, [q])
        cex = lambda m: {'op': 'b64rt', 'in': model_bytes(m, B, min(model_int(m, n), 600)).hex()}
        K.prove(E, o.st, 'decoded length is the original length', tobv(ln, 64) == n, cex)
        k = SKV('k'); o.st.assume(z3.ULT(k, n))
        K.prove(E, o.st, 'decoded bytes are the original bytes', tobv(rd_(k), 8) == B.fn(k), cex)
@contract('base64', 'codec')
def base64url_decode_any(K):
    """on arbitrary text: no memory error; length mod 4 == 1 is rejected with runtime_error, any other length gives floor(3*len/4) bytes"""
    E = K.engine(); st = State(E)
    p, n, B = st.buffer('in'); ret = empty_slot(st, 32)
    q, r = divmod_const(st, n, 4)
    cex = lambda m: {'op': 'b64udec', 'in': model_bytes(m, B, min(model_int(m, n), 600)).hex()}
    for o in K.call(E, st, K.fn(r'HX::net::base64UrlDecode\(.*\)'), [ret, n, p], allow=('ret', 'throw')):
        if o.kind == 'throw':
            K.prove(E, o.st, 'rejection is a runtime_error', z3.BoolVal(o.exc.tname == '_ZTISt13runtime_error'), cex)
            K.prove(E, o.st, 'rejected only when length mod 4 is 1', r == 1, cex); continue
        ln, rd_ = str_result(o.st, ret)
        K.prove(E, o.st, 'a length that no encoding has is rejected', r != 1, cex)
        K.prove(E, o.st, 'length of the result', tobv(ln, 64) == q * 3 + z3.If(r == 0, BV(0), r - 1), cex)

@contract('num', 'codec')
def byteswap_all(K):
    """byteswapIfLittle reverses the byte order for every 16/32/64-bit value"""
    for w, f in ((16, 'r_bs16'), (32, 'r_bs32'), (64, 'r_bs64')):
        E = K.engine(); st = State(E); v = z3.BitVec('v%d' % w, w)
        for o in K.call(E, st, f, [v]):
            want = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])
            K.prove(E, o.st, '%d-bit value is reversed' % w, tobv(o.val, w) == want, lambda m, v=v, w=w: {'op': 'bswap', 'in': model_int(m, v).to_bytes(w // 8, 'little').hex()})

# ---------------------------------------------------------------- SHA-1 (FIPS 180-4)
def rol32(x, n): return z3.RotateLeft(x, n)
def ch_(x, y, z): return (x & y) ^ (~x & z)
def par_(x, y, z): return x ^ y ^ z
def maj_(x, y, z): return (x & y) ^ (x & z) ^ (y & z)
FK = [(ch_, 0x5a827999), (par_, 0x6ed9eba1), (maj_, 0x8f1bbcdc), (par_, 0xca62c1d6)]
def words(st, base, n=16):
    o = st.new_obj(4 * n, 'block', 'alloca'); ws = [z3.BitVec('%s%d' % (base, i), 32) for i in range(n)]
    for i in range(n): o.slots[4 * i] = (4, ws[i])
    return Ptr(o.id, 0), ws
def rdw(E, st, p, i): return tobv(E.load(st, p + 4 * i, INT(32)), 32)
def cell(st, nm):
    o = st.new_obj(4, nm, 'alloca'); v = z3.BitVec(nm, 32); o.slots[0] = (4, v); return Ptr(o.id, 0), v
ROUNDS = [('R0', 0, False), ('R1', 0, True), ('R2', 1, True), ('R3', 2, True), ('R4', 3, True)]
@contract('sha1', 'codec')
def sha1_rounds(K):
    """each round function performs the FIPS 180-4 step (with message schedule where required)"""
    for nm, k, sched in ROUNDS:
        f = K.fn(r'HX::net::sha1::%s\(.*\)' % nm)
        for i in range(16):
            E = K.engine(); st = State(E)
            b, ws = words(st, 'b'); wp, w = cell(st, 'w'); zp, z = cell(st, 'z')
            v, x, y = [z3.BitVec(c, 32) for c in 'vxy']
            for o in K.call(E, st, f, [b, v, wp, x, y, zp, i]):
                F, kc = FK[k]
                wi = rol32(ws[(i + 13) & 15] ^ ws[(i + 8) & 15] ^ ws[(i + 2) & 15] ^ ws[i], 1) if sched else ws[i]
                s = o.st
                K.prove(E, s, '%s index %d: z' % (nm, i), rdw(E, s, zp, 0) == z + F(w, x, y) + wi + BV(kc, 32) + rol32(v, 5))
                K.prove(E, s, '%s index %d: w' % (nm, i), rdw(E, s, wp, 0) == rol32(w, 30))
                for j in range(16): K.prove(E, s, '%s index %d: block[%d]' % (nm, i, j), rdw(E, s, b, j) == (wi if j == i else ws[j]))
S32 = z3.BitVecSort(32)
STEP = [z3.Function('step%d' % k, *([S32] * 7)) for k in range(4)]
SCH = z3.Function('sched', *([S32] * 5)); ROL30 = z3.Function('rol30', S32, S32)
def round_model(k, sched):
    def h(c):
        E, st = c.E, c.st
        b, v, wp, x, y, zp, i = c.args
        W = [rdw(E, st, b, j) for j in range(16)]
        wi = SCH(W[(i + 13) & 15], W[(i + 8) & 15], W[(i + 2) & 15], W[i]) if sched else W[i]
        if sched: E.store(st, b + 4 * i, wi, INT(32))
        w, z = rdw(E, st, wp, 0), rdw(E, st, zp, 0)
        E.store(st, zp, STEP[k](tobv(v, 32), w, tobv(x, 32), tobv(y, 32), z, wi), INT(32)); E.store(st, wp, ROL30(w), INT(32))
        return None
    return h
@contract('sha1', 'codec')
def sha1_transform(K):
    """transform == 80 FIPS 180-4 steps in order on (digest, block), added to digest (round functions by their contracts)"""
    E = K.engine(); st = State(E)
    for nm, k, s in ROUNDS: E.add_model(r'HX::net::sha1::%s\(.*\)' % nm, round_model(k, s))
    b, ws = words(st, 'm'); d, hs = words(st, 'h', 5)
    a_, b_, c_, d_, e_ = hs; W = list(ws)
    for t in range(80):
        if t < 16: wt = W[t]
        else:
            i = t & 15; wt = SCH(W[(i + 13) & 15], W[(i + 8) & 15], W[(i + 2) & 15], W[i]); W[i] = wt
        nxt = STEP[t // 20](a_, b_, c_, d_, e_, wt)
        a_, b_, c_, d_, e_ = nxt, a_, ROL30(b_), c_, d_
    for o in K.call(E, st, K.fn(r'void HX::net::sha1::transform<void>\(.*\)'), [d, b]):
        for i, v in enumerate((a_, b_, c_, d_, e_)): K.prove(E, o.st, 'digest word %d' % i, rdw(E, o.st, d, i) == hs[i] + v)
@contract('sha1', 'codec')
def sha1_make_block(K):
    """make_block reads sixteen big-endian words"""
    E = K.engine(); st = State(E); p, n, B = st.buffer('p', 64); b, ws = words(st, 'b')
    for o in K.call(E, st, K.fn(r'HX::net::sha1::make_block\(.*\)'), [p, b]):
        for i in range(16): K.prove(E, o.st, 'word %d' % i, rdw(E, o.st, b, i) == z3.Concat(*[B.fn(BV(4 * i + j)) for j in range(4)]))
# ---- streaming: ghost message M, digest after b whole blocks = D(b)
MSG = z3.Function('M', z3.BitVecSort(64), z3.BitVecSort(8))
DG = [z3.Function('D%d' % i, z3.BitVecSort(64), S32) for i in range(5)]
def ctx_fields(K):
    return {'buflen': 0, 'blocks': 8, 'digest': 16, 'buf': 36, 'size': 104}
MW = [z3.Function('MW%d' % i, z3.BitVecSort(64), S32) for i in range(16)]     # word i of message block b (make_block by its contract)
@contract('sha1', 'codec', timeout=600)
def sha1_update(K):
    """update(p,n) absorbs exactly the n bytes for every n and every buffered amount: the state keeps representing the whole message
    (representation: digest == D(blocks), buffer == tail of the message, 64*blocks+buflen == bytes absorbed)"""
    F = ctx_fields(K)
    E = K.engine(); st = State(E)
    c = st.new_obj(F['size'], 'ctx', 'alloca'); cp = Ptr(c.id, 0)
    bl, blk = z3.BitVec('buflen', 64), z3.BitVec('blocks', 64)
    st.assume(z3.And(z3.ULT(bl, BV(64)), z3.ULT(blk, BV(1 << 50))))
    c.slots[0] = (8, bl); c.slots[8] = (8, blk)
    for i in range(5): c.slots[16 + 4 * i] = (4, DG[i](blk))
    bufb = Base('ctxbuf'); c.seq = bufb
    L = blk * 64 + bl
    p, n, B = st.buffer('msg')
    # ghost: M agrees with the buffered tail and with the new bytes
    st.fact(bufb, lambda k: z3.Implies(z3.And(z3.ULE(BV(36), k), z3.ULT(k, bl + 36)), bufb.fn(k) == MSG(blk * 64 + (k - 36))))
    st.fact(B, lambda k: z3.Implies(z3.ULT(k, n), B.fn(k) == MSG(L + k)))
    def tr(cc):
        E2, s = cc.E, cc.st; d, b = cc.args
        cnt = tobv(E2.load(s, cp + 8, INT(64)), 64)
        for i in range(5):
            E2.oblige(s, 'transform starts from the digest of the preceding blocks (word %d)' % i, rdw(E2, s, d, i) == DG[i](cnt))
        E2.oblige(s, 'transform gets the block made from the message', z3.And(*[rdw(E2, s, b, i) == MW[i](cnt) for i in range(16)]))
        for i in range(5): E2.store(s, d + 4 * i, DG[i](cnt + 1), INT(32))
        return None
    E.add_model(r'void HX::net::sha1::transform<void>\(.*\)', tr)
    def mk(cc):
        E2, s = cc.E, cc.st; src, b = cc.args
        cnt = tobv(E2.load(s, cp + 8, INT(64)), 64)
        k = SKV('k'); r = models.readerof(E2, s, src); E2.bounds_n(s, src, 64, 'make_block')
        s2 = s.clone(); s2.assume(z3.ULT(k, BV(64)))
        E2.oblige(s2, 'make_block reads exactly the next 64 bytes of the message', tobv(r(k), 8) == MSG(cnt * 64 + k))
        for i in range(16): E2.store(s, b + 4 * i, MW[i](cnt), INT(32))
        return None
    E.add_model(r'HX::net::sha1::make_block\(.*\)', mk)
    def inv(ctx):
        out = []
        cellby = {}
        def fld(s, off, w=64): return tobv(E.load(s.clone(), cp + off, INT(w)), w)
        def local(s, nm): 
            f = s.frames[-1]; q = f.regs[nm]; return E.load(s.clone(), q, PTR if nm == 'p' else INT(64))
        def tot(s, m):
            b2, k2, sz, q = fld(s, 0), fld(s, 8), local(s, 'size.addr'), local(s, 'p')
            return z3.And(k2 * 64 + b2 == L + tobv(q.off, 64), z3.ULT(b2, BV(64)), z3.ULE(tobv(sz, 64), n), z3.ULE(k2, BV((1 << 51))), z3.ULE(blk, k2))
        def pp(s, m):
            q = local(s, 'p')
            return z3.And(z3.BoolVal(q.obj == p.obj), tobv(q.off, 64) + tobv(local(s, 'size.addr'), 64) == n)
        def dg(s, m):
            k2 = fld(s, 8); return z3.And(*[fld(s, 16 + 4 * i, 32) == DG[i](k2) for i in range(5)])
        out.append(('accounting', ('state', tot))); out.append(('cursor', ('state', pp))); out.append(('digest', ('state', dg)))
        def bf(s, m, k):
            b2, k2 = fld(s, 0), fld(s, 8)
            return z3.Implies(z3.And(z3.ULE(BV(36), k), z3.ULT(k, b2 + 36)), tobv(rd(s, c.id)(k), 8) == MSG(k2 * 64 + (k - 36)))
        for c2 in ctx.cells.values():
            if c2.cls == 'seq' and c2.key == c.id: out.append(('buffered tail', ('forall', (lambda c2: lambda h: trig(c2))(c2), bf)))
        return out
    E.invs.append((re.compile('update'), inv))
    for o in K.call(E, st, K.fn(r'void HX::net::SHA1Context::update<void>\(.*\)'), [cp, p, n]):
        s = o.st
        f = lambda off, w=64: tobv(E.load(s, cp + off, INT(w)), w)
        K.prove(E, s, 'bytes absorbed are accounted for', f(8) * 64 + f(0) == L + n)
        K.prove(E, s, 'fewer than 64 bytes stay buffered', z3.ULT(f(0), BV(64)))
        for i in range(5): K.prove(E, s, 'digest word %d is the digest of all whole blocks' % i, f(16 + 4 * i, 32) == DG[i](f(8)))
        k = SKV('k'); s.assume(z3.ULT(k, f(0)))
        K.prove(E, s, 'the buffer holds the tail of the message', tobv(rd(s, c.id)(k + 36), 8) == MSG(f(8) * 64 + k))
TR = [z3.Function('T%d' % i, *([S32] * 22)) for i in range(5)]
@contract('sha1', 'codec', timeout=600)
def sha1_finish(K):
    """finish pads with 0x80, zeros and the 64-bit bit length, for every buffered amount 0..63, and writes the digest big-endian"""
    F = ctx_fields(K)
    for bl in range(64):
        E = K.engine(); st = State(E)
        c = st.new_obj(F['size'], 'ctx', 'alloca'); cp = Ptr(c.id, 0)
        blk = z3.BitVec('blocks', 64); st.assume(z3.ULT(blk, BV(1 << 50)))
        c.slots[0] = (8, bl); c.slots[8] = (8, blk)
        hs = [z3.BitVec('h%d' % i, 32) for i in range(5)]
        for i in range(5): c.slots[16 + 4 * i] = (4, hs[i])
        bufb = Base('ctxbuf'); c.seq = bufb
        def tr(cc):
            E2, s = cc.E, cc.st; d, b = cc.args
            a = [rdw(E2, s, d, i) for i in range(5)] + [rdw(E2, s, b, i) for i in range(16)]
            for i in range(5): E2.store(s, d + 4 * i, TR[i](*a), INT(32))
            return None
        E.add_model(r'void HX::net::sha1::transform<void>\(.*\)', tr)
        out = Ptr(st.new_obj(20, 'digest', 'alloca').id, 0)
        msg = [bufb.fn(BV(36 + i)) for i in range(bl)] + [BV(0x80, 8)]
        z = (56 - len(msg)) % 64
        msg += [BV(0, 8)] * z
        bits = (blk * 64 + bl) * 8
        msg += [z3.Extract(63 - 8 * i, 56 - 8 * i, bits) for i in range(8)]
        H = hs
        for i in range(0, len(msg), 64):
            W = [z3.Concat(*msg[i + 4 * j:i + 4 * j + 4]) for j in range(16)]
            H = [TR[q](*(H + W)) for q in range(5)]
        E.fork_limit = 100
        for o in K.call(E, st, K.fn(r'void HX::net::SHA1Context::finish<void>\(.*\)'), [cp, out]):
            for i in range(20):
                w = H[i // 4]; sh = 24 - 8 * (i % 4)
                K.prove(E, o.st, 'buffered %d: digest byte %d' % (bl, i), tobv(E.load(o.st, out + i, INT(8)), 8) == z3.Extract(sh + 7, sh, w))
@contract('sha1', 'codec')
def sha1_initial_state(K):
    """a new context is the empty message with the FIPS 180-4 initial hash value"""
    E = K.engine(); st = State(E); c = st.new_obj(104, 'ctx', 'alloca'); cp = Ptr(c.id, 0)
    for o in K.call(E, st, K.fn(r'HX::net::SHA1Context::SHA1Context\(\)'), [cp]):
        for off, w, v in [(0, 64, 0), (8, 64, 0)] + [(16 + 4 * i, 32, x) for i, x in enumerate((0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0))]:
            K.prove(E, o.st, 'field at %d' % off, tobv(E.load(o.st, cp + off, INT(w)), w) == BV(v, w))
GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
@contract('sha1', 'codec')
def ws_accept(K):
    """the accept key is base64(SHA-1(key + GUID)) for every key (SHA-1 and base64 by their contracts)"""
    E = K.engine(); st = State(E)
    kp, n, B = new_string(st, 'key'); ret = empty_slot(st, 32)
    SH = z3.Function('sha1digest', z3.BitVecSort(64), z3.BitVecSort(8))
    st.ghost['msgs'] = ()
    def init(c): c.st.ghost['msgs'] = c.st.ghost['msgs'] + (('init', c.args[0]),); return None
    def upd(c):
        E.bounds_n(c.st, c.args[1], c.args[2], 'update')
        r = models.readerof(E, c.st, c.args[1]); c.st.ghost['msgs'] = c.st.ghost['msgs'] + (('update', c.args[0], r, c.args[2]),); return None
    def fin(c):
        for i in range(20): E.store(c.st, c.args[1] + i, SH(BV(i)), INT(8))
        c.st.ghost['msgs'] = c.st.ghost['msgs'] + (('finish', c.args[0]),); return None
    def enc(c):
        s = c.st; r = models.readerof(E, s, c.args[1]); 
        s.ghost['msgs'] = s.ghost['msgs'] + (('b64', r, c.args[2]),)
        models.setbuf(E, s, c.args[0], 'string', 28, Base('accept')); s.wobj(s.getbuf(c.args[0]).obj).kind = 'strbuf'
        return None
    E.add_model(r'HX::net::SHA1Context::SHA1Context\(\)', init)
    E.add_model(r'void HX::net::SHA1Context::update<void>\(.*\)', upd)
    E.add_model(r'void HX::net::SHA1Context::finish<void>\(.*\)', fin)
    E.add_model(r'HX::net::base64Encode\(.*\)', enc)
    acc = z3.Function('accept', z3.BitVecSort(64), z3.BitVecSort(8))
    cex = lambda m: {'op': 'wshash', 'in': model_bytes(m, B, min(model_int(m, n), 600)).hex()}
    for o in K.call(E, st, K.fn(r'HX::net::internal::webSocketSecretHash\(.*\)'), [ret, kp]):
        s = o.st; ev = s.ghost['msgs']; ups = [e for e in ev if e[0] == 'update']
        K.prove(E, s, 'one digest computation', z3.BoolVal([e[0] for e in ev if e[0] != 'update'] == ['init', 'finish', 'b64']), cex)
        tot = BV(0)
        k = SKV('k')
        val = BV(0, 8)
        for e in ups:
            val = z3.If(z3.And(z3.ULE(tot, k), z3.ULT(k, tot + tobv(e[3], 64))), tobv(e[2](k - tot), 8), val); tot = tot + tobv(e[3], 64)
        K.prove(E, s, 'hashed length is key length + 36', tot == n + 36, cex)
        s.assume(z3.ULT(k, n + 36))
        K.prove(E, s, 'hashed text is key followed by the GUID', val == z3.If(z3.ULT(k, n), B.fn(k), tobv(Bytes(GUID).read(k - n), 8)), cex)
        e = [e for e in ev if e[0] == 'b64'][0]
        K.prove(E, s, 'base64 input is the 20 byte digest', AND(EQ(e[2], 20), *[tobv(e[1](i), 8) == SH(BV(i)) for i in range(20)]), cex)
        ln, r = str_result(s, ret)
        j = SKV('j'); s.assume(z3.ULT(j, BV(28)))
        K.prove(E, s, 'the result is the base64 text', AND(EQ(ln, 28), tobv(r(j), 8) == acc(j)), cex)
