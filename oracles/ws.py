"""RFC 6455 framing, from the RFC."""
from hxv.oracle import *
from hxv.contract import ID
from oracles.codec import rbytes, contents
def frame(op, data, fin=1, mask=None, form=None):
    n = len(data); b = bytes([fin << 7 | op])
    if form is None: form = 0 if n < 126 else (1 if n < 65536 else 2)
    m = 128 if mask is not None else 0
    b += bytes([m | n]) if form == 0 else (bytes([m | 126]) + n.to_bytes(2, 'big') if form == 1 else bytes([m | 127]) + n.to_bytes(8, 'big'))
    if mask is not None: b += mask; data = bytes(c ^ mask[i & 3] for i, c in enumerate(data))
    return b + data
def parse(b):
    """-> (fin, rsv, op, masked, payload, total length, minimal) of the first frame or None when incomplete"""
    if len(b) < 2: return None
    n = b[1] & 127; p = 2; mini = True
    if n == 126:
        if len(b) < 4: return None
        n = int.from_bytes(b[2:4], 'big'); p = 4; mini = n >= 126
    elif n == 127:
        if len(b) < 10: return None
        n = int.from_bytes(b[2:10], 'big'); p = 10; mini = n >= 65536
    key = None
    if b[1] & 128:
        if len(b) < p + 4: return None
        key = b[p:p + 4]; p += 4
    if len(b) < p + n: return None
    d = b[p:p + n]
    if key is not None: d = bytes(c ^ key[i & 3] for i, c in enumerate(d))
    return b[0] >> 7, b[0] >> 4 & 7, b[0] & 15, key is not None, d, p + n, mini
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 124, 125, 126, 127, 128, 129, 255, 256, 257, 511, 1000, 65534, 65535, 65536, 65537, 70001]
@oracle(ID['wsenc'])
class Send(Oracle):
    tu = 'ws'
    def cases(s, rng):
        i = 0
        while True:
            n = SIZES[i] if i < len(SIZES) else rng.randrange(0, 700)
            d = contents(rng, n)
            for op in ((1, 2, 8, 9, 10, 0) if i < len(SIZES) else (rng.choice((1, 2, 8, 9, 10)),)):
                yield 'wssend', [b'\1', bytes([op]), d]; yield 'wssend', [b'\0', bytes([op]), d]; yield 'wsview', [bytes([op]), d]
            i += 1
    def from_cex(s, c):
        n = c['len']
        if n > 1 << 26: return []
        d = (b'0123456789abcdefghijklmnopqrstuvwxyz' * (n // 36 + 1))[:n]
        if c['op'] == 'wsview': return [('wsview', [bytes([c['opcode']]), d])]
        return [('wssend', [bytes([c['server']]), bytes([c['opcode']]), d])]
    def judge(s, op, a, r):
        if r[0] != 'ok': return 'sending throws'
        b = r[1]; srv = op == 'wsview' or a[0][0]; o, d = (a[0][0], a[1]) if op == 'wsview' else (a[1][0], a[2])
        keys = []
        for i in range(1 if srv else 2):
            f = parse(b)
            if f is None: return 'frame is incomplete: %r for a message of %d bytes' % (b[:16], len(d))
            if not f[0] or f[1]: return 'FIN clear or reserved bits set'
            if f[2] != o: return 'opcode %d instead of %d' % (f[2], o)
            if f[3] == bool(srv): return 'mask bit %d' % f[3]
            if not f[6]: return 'length form is not minimal'
            if f[4] != d: return 'payload differs for a message of %d bytes' % len(d)
            b = b[f[5]:]
        if b: return '%d bytes after the frame' % len(b)

def decode(srv, cfg, stream, frag=None):
    """what a receiver reports for the stream: list of ('P',op,payload,consumed) | 'o' | 'T' | 'N'"""
    out = []; pos = 0; ci = 0; acc = None
    while True:
        c = cfg[ci] if ci < len(cfg) else 0; ci += 1
        if c == 2: out.append('o'); continue
        if pos >= len(stream): out.append('N'); return out
        b = stream[pos:]
        if len(b) < 2: out.append('X'); return out     # cut inside the first two bytes: an error or 'nothing', either way no message
        op, fin = b[0] & 15, b[0] >> 7
        bad = bool(b[1] & 128) != bool(srv) or 2 < op < 8 or op > 10 or (op >= 8 and (not fin or (b[1] & 127) >= 126)) or (op == 0 and acc is None) or (op in (1, 2) and acc is not None)
        f = parse(b)
        if bad or f is None: out.append('T'); return out
        pos += f[5]
        if op >= 8: out.append(('P', op, f[4], pos)); continue
        acc = (op, f[4]) if acc is None else (acc[0], acc[1] + f[4])
        if fin: out.append(('P', acc[0], acc[1], pos)); acc = None
def rstream(rng, srv):
    """frames of an own making, mostly legal"""
    b = b''; bad = rng.random() < .4; openf = False
    for _ in range(rng.randrange(1, 7)):
        mask = rbytes(rng, 4) if srv else None
        if bad and rng.random() < .1: mask = None if mask else rbytes(rng, 4)
        x = rng.random()
        if x < .3:
            op = rng.choice((8, 9, 10)); n = rng.choice((0, 1, 5, 124, 125)); fin = 1
            if bad and rng.random() < .2: n = 126
            if bad and rng.random() < .2: fin = 0
        else:
            op = 0 if openf else rng.choice((1, 2)); n = rng.choice(SIZES[:-5]) if rng.random() < .9 else rng.choice(SIZES); fin = rng.random() < .6; openf = not fin
        if bad and rng.random() < .15: op = rng.randrange(16)
        form = rng.choice((None, None, None, 1, 2)) if n < 126 and op < 8 else None
        b += frame(op, contents(rng, n), int(fin), mask, form)
    return b if rng.random() < .7 else b[:rng.randrange(0, len(b) + 1)]
@oracle(ID['wsdec'])
class Recv(Oracle):
    tu = 'ws'
    def cases(s, rng):
        i = 0
        while True:
            srv = rng.randrange(2)
            cfg = bytes(rng.choice((0, 0, 0, 1, 1, 2)) for _ in range(rng.randrange(0, 8)))
            ahead = rng.choice((0, 0, 0, 1, 2, 3, rng.randrange(0, 200)))
            if i < len(SIZES): st = frame(1 + i % 2, contents(rng, SIZES[i]), 1, rbytes(rng, 4) if srv else None)
            else: st = rstream(rng, srv)
            if ahead: cfg = bytes(c for c in cfg if c != 2)   # the index of a header read served from the read-ahead bytes is not a transport read
            yield 'wsrecv', [bytes([srv]), bytes([ahead]), cfg if not ahead else b'', st]
            if rng.random() < .4: yield 'wsget', [bytes([srv]), bytes([ahead]), b'', st, bytes(rng.choice(((1, 255), (2, 255), (1, 2), (10, 255))))]
            i += 1
    def judge(s, op, a, r):
        if r[0] != 'ok': return 'unexpected exception ' + str(r[1])
        srv, ahead, cfg, st = a[0][0], a[1][0], a[2], a[3]; b = r[1]
        # a truncated header or payload is an error of the transport: the stream is cut
        want = decode(srv, cfg, st)
        if op == 'wsrecv':
            got = []; p = 0
            while p < len(b):
                c = chr(b[p]); p += 1
                if c == 'P':
                    n = int.from_bytes(b[p + 1:p + 9], 'little'); got.append(('P', b[p], b[p + 9:p + 9 + n], int.from_bytes(b[p + 9 + n:p + 17 + n], 'little'))); p += 17 + n
                else: got.append(c)
            if ahead: got = [g if isinstance(g, str) else g[:3] for g in got]; want = [w if isinstance(w, str) else w[:3] for w in want]
            if want[-1] == 'X' and got and got[-1] in ('T', 'N'): got[-1] = 'X'
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                sh = lambda l: repr(l[i] if isinstance(l[i], str) else (l[i][0], l[i][1], len(l[i][2])) + l[i][3:] + (l[i][2][:24],)) if i < len(l) else 'nothing'
                return 'event %d: got %s, expected %s' % (i, sh(got), sh(want))
            return None
        w = a[4]; res = None; exp = b''; i = 0; other = False
        for e in want:
            if isinstance(e, str): res = 'T'; exp = None if e != 'T' else exp; break
            if e[1] == 9: exp += frame(10, e[2]) if srv else b''; other = True; continue
            if e[1] == 8: exp += frame(8, e[2]) if srv else b''; res = 'T'; break
            res = ('P', e[1], e[2]) if e[1] in w else 'T'; break
        c = chr(b[0]); got = c
        if c == 'P': n = int.from_bytes(b[2:10], 'little'); got = ('P', b[1], b[10:10 + n]); rest = b[10 + n:]
        else: rest = b[1:]
        if got != res: return 'recv: got %r, expected %r' % (str(got)[:80], str(res)[:80])
        if srv and exp is not None and rest != exp: return 'answers sent: %r, expected %r' % (rest[:60], exp[:60])
        if not srv and exp is not None:
            k = [e for e in want[:1 + next((i for i, e in enumerate(want) if isinstance(e, str) or e[1] != 9), len(want))] if not isinstance(e, str) and e[1] in (8, 9)]
            for e in k:
                f = parse(rest)
                if f is None or f[2] != (10 if e[1] == 9 else 8) or f[4] != e[2]: return 'a control frame is not answered with its payload'
                rest = rest[f[5]:]
