import base64, hashlib
from hxv.oracle import *
from hxv.contract import ID
def rbytes(rng, n): return bytes(rng.getrandbits(8) for _ in range(n))
def lengths(rng):
    """0,1,2,... first, then random sizes"""
    i = 0
    while True:
        if i < 130: yield i
        elif i % 50 == 0: yield rng.randrange(1000, 70000)
        else: yield rng.randrange(0, 400)
        i += 1
def contents(rng, n):
    return rng.choice([lambda: rbytes(rng, n), lambda: b'\xff' * n, lambda: bytes(n), lambda: bytes(rng.choice((0, 1, 0x7f, 0x80, 0xfb, 0xff, 0x3e, 0x3f)) for _ in range(n))])()
@oracle(ID['base64'])
class Base64(Oracle):
    tu = 'codec'
    def cases(s, rng):
        # every 3-byte-group value class, then sizes
        for v in range(64): 
            for sh in (18, 12, 6, 0): yield 'b64enc', [(v << sh).to_bytes(3, 'big')]; yield 'b64rt', [(v << sh).to_bytes(3, 'big')]
        for n in lengths(rng):
            d = contents(rng, n)
            for op in ('b64enc', 'b64uenc', 'b64uencc', 'b64rt'): yield op, [d]
            yield 'b64udec', [bytes(rng.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_') for _ in range(n))]
            yield 'b64udec', [d]
    def from_cex(s, c):
        d = bytes.fromhex(c['in']); ops = ['b64udec'] if c['op'] == 'b64udec' else ['b64enc', 'b64uenc', 'b64uencc', 'b64rt']
        return [(op, [d]) for op in ops]
    def judge(s, op, a, r):
        d = a[0]
        if op == 'b64udec':
            if len(d) % 4 == 1: return None if r[0] == 'throw' else 'text of impossible length is not rejected'
            if r[0] != 'ok': return 'decoding throws on a text of possible length'
            if len(r[1]) != len(d) * 3 // 4: return 'decoded length %d' % len(r[1])
            return None
        want = {'b64enc': base64.b64encode(d), 'b64rt': d}.get(op, base64.urlsafe_b64encode(d).rstrip(b'='))
        if r != ('ok', want): return '%s: got %r, expected %r' % (op, r, want)
@oracle(ID['sha1'])
class Sha1(Oracle):
    tu = 'codec'
    def cases(s, rng):
        for n in lengths(rng):
            d = contents(rng, n)
            yield 'sha1', [d, b'']; yield 'sha1', [d, rbytes(rng, rng.randrange(0, 12))]; yield 'sha1', [d, bytes([n % 64])]
            yield 'wshash', [bytes(rng.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/') for _ in range(22)) + b'==']
            yield 'wshash', [d[:200]]
    def from_cex(s, c): return [('wshash', [bytes.fromhex(c['in'])])] if 'in' in c else []
    def judge(s, op, a, r):
        want = hashlib.sha1(a[0]).digest() if op == 'sha1' else base64.b64encode(hashlib.sha1(a[0] + b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11').digest())
        if r != ('ok', want): return '%s: got %r, expected %r' % (op, r, want)
@oracle(ID['num'])
class ByteOrder(Oracle):
    tu = 'codec'
    def cases(s, rng):
        for i in range(3000):
            for w in (2, 4, 8): yield 'bswap', [contents(rng, w)]
    def from_cex(s, c): return [('bswap', [bytes.fromhex(c['in'])])] if c.get('op') == 'bswap' else []
    def judge(s, op, a, r):
        if r != ('ok', a[0][::-1]): return 'byte order of %r: %r' % (a[0], r)
