"""String utilities, header names, URL parsing: plain Python readings of the properties."""
from hxv.oracle import *
from hxv.contract import ID
from oracles.codec import rbytes, contents
def items(b, pos=False):
    out = []; i = 0
    while i < len(b):
        if pos: p = int.from_bytes(b[i:i + 8], 'little'); i += 8
        n = int.from_bytes(b[i:i + 4], 'little'); i += 4; t = b[i:i + n]; i += n
        out.append((p, t) if pos else t)
    return out
def text(rng, al, n): return bytes(rng.choice(al) for _ in range(n))
def low(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)
def up(b): return bytes(c - 32 if 97 <= c <= 122 else c for c in b)
def pieces(s, d):
    """(offset, piece) for every piece between delimiters; nothing for an empty text"""
    out = []; i = 0
    if not s: return out
    while True:
        j = s.find(d, i)
        if j < 0: out.append((i, s[i:])); break
        out.append((i, s[i:j])); i = j + 1
    return out
@oracle(ID['str'])
class Strings(Oracle):
    tu = 'str'
    def cases(s, rng):
        for c in range(256): yield 'lower', [bytes([c]) * 3]; yield 'upper', [bytes([c]) * 3]; yield 'num10', [bytes([c])]; yield 'num36', [bytes([c])]
        for i in range(64): yield 'hex', [(1 << i).to_bytes(8, 'little')]; yield 'hex', [((1 << i) - 1).to_bytes(8, 'little')]; yield 'hex', [(2 ** 64 - 1 - (1 << i)).to_bytes(8, 'little')]
        i = 0
        while True:
            i += 1; n = rng.randrange(0, 12) if i % 9 else rng.randrange(12, 90)
            d = contents(rng, n); yield 'lower', [d]; yield 'upper', [d]
            yield 'lower', [text(rng, b'@AMZ[`amz{ 09', n)]; yield 'upper', [text(rng, b'@AMZ[`amz{ 09', n)]
            al = rng.choice((b'a;', b';', b'ab;', b'a\r\n;', bytes(range(256))))
            t = text(rng, al, n)
            for op in ('split', 'splitv', 'splite', 'splitp', 'splitpe', 'rtrim', 'first'): yield op, [t, b';']
            yield 'first', [text(rng, b'a\r\n', n), b'\r\n']; yield 'first', [text(rng, b':: a', n), b': ']
            yield 'append', [contents(rng, n), contents(rng, rng.randrange(0, 20))]
            yield 'num16', [text(rng, b'0123456789abcdefABCDEF', rng.randrange(0, 20))]; yield 'num10', [text(rng, b'0123456789', rng.randrange(0, 24))]
            yield 'num36', [text(rng, b'0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', rng.randrange(0, 16))]
            yield 'hex', [rbytes(rng, 8)]; yield 'hex', [rng.randrange(1 << rng.randrange(1, 64)).to_bytes(8, 'little')]
            if i % 5 == 0: yield 'num10', [rbytes(rng, 5)]; yield 'num36', [rbytes(rng, 5)]
    def from_cex(s, c): return [(c['op'], [bytes.fromhex(x) for x in c['in']])] if 'op' in c else []
    def judge(s, op, a, r):
        x = a[0]
        if r[0] != 'ok': return '%s throws' % op
        got = r[1]
        if op in ('lower', 'upper'): want = (low if op == 'lower' else up)(x)
        elif op == 'append': want = x + a[1]
        elif op == 'hex': want = b'%X' % int.from_bytes(x, 'little')
        elif op in ('num16', 'num10', 'num36'):
            b = int(op[3:])
            try: want = (int(x, b) if x else 0) & (2 ** 64 - 1)
            except ValueError: return None
            if not x.isalnum() and x: return None
            got = int.from_bytes(got, 'little')
        elif op == 'rtrim': i = x.rfind(a[1]); want = x[i + 1:] if i >= 0 else x
        elif op == 'first':
            got = items(got); i = x.find(a[1]); want = [b'', b''] if i < 0 else [x[:i], x[i + len(a[1]):]]
        else:
            ps = pieces(x, a[1]); pos = op in ('splitp', 'splitpe'); got = items(got, pos)
            if op in ('split', 'splitv', 'splitp'): ps = [(p, t) for p, t in ps if t]
            # a delimiter at the very end is followed by no further piece
            elif ps and ps[-1][1] == b'': ps2 = ps[:-1]; ps = ps2 if (got == (ps2 if pos else [t for _, t in ps2])) else ps
            want = ps if pos else [t for _, t in ps]
        if got != want: return '%s: got %r, expected %r' % (op, got, want)
@oracle(ID['hdr'])
class HeaderNames(Oracle):
    tu = 'str'
    def cases(s, rng):
        for c in range(256):
            for d in (c, c ^ 32, (c + 1) & 255): yield 'cieq', [b'X-' + bytes([c]), b'x-' + bytes([d])]; yield 'cihash2', [bytes([c]) + b'k', bytes([d]) + b'k']
        while True:
            n = rng.randrange(0, 70); a = text(rng, rng.choice((b'aA', b'abcABC-', b'@`[{Zz', bytes(range(256)))), n)
            b = bytes(c ^ 32 if 65 <= (c & 223) <= 90 and rng.random() < .5 else c for c in a)
            if rng.random() < .3 and n: i = rng.randrange(n); b = b[:i] + bytes([rng.choice((b[i] ^ 32, b[i] ^ 1, b[i] ^ 128))]) + b[i + 1:]
            if rng.random() < .1: b += b'a'
            yield 'cieq', [a, b]; yield 'cihash2', [a, b]; yield 'hdr', [a, b]
    def from_cex(s, c):
        v = [bytes.fromhex(x) for x in c['in']]
        if c.get('op') == 'cieq': return [('cieq', v), ('hdr', v)]
        return [('cihash2', [v[0], low(v[0])]), ('cihash2', [v[0], up(v[0])])]
    def judge(s, op, a, r):
        if r[0] != 'ok': return '%s throws' % op
        same = low(a[0]) == low(a[1])
        if op == 'cihash2': return 'names equal up to case hash differently: %r' % (a,) if same and r[1] != b'1' else None
        if (r[1] == b'1') != same: return '%s of %r: %r' % (op, a, r[1])
PORTS = dict(http=80, https=443, ftp=21, ftps=990, sftp=22, smtp=25, pop3=110, imap=143, ldap=389, ldaps=636, telnet=23, ssh=22, dns=53, dhcp=67, ws=80, wss=443)
@oracle(ID['url'])
class Url(Oracle):
    tu = 'str'
    def cases(s, rng):
        for k in PORTS:
            yield 'port', [k.encode()]
            for j in range(len(k)): yield 'port', [k[:j].encode() + b'_' + k[j + 1:].encode()]
        while True:
            t = b''.join(rng.choice((b'http', b'ws', b'wss', b'://', b':', b'/', b'@', b'a', b'b.cc', b'80', b'?', b'#', b'//', b'h')) for _ in range(rng.randrange(0, 9)))
            for op in ('path', 'proto', 'rmproto', 'user'): yield op, [t]
            u = rng.choice((b'', b'http://', b'ws://', b'wss://')) + t
            for op in ('path', 'origin', 'proto', 'rmproto', 'user'): yield op, [u]
            yield 'service', [rng.choice((b'', b'http://', b'ws://')) + rng.choice((b'', b'u@', b'u:p@')) + b'h.com' + rng.choice((b'', b':81', b':9', b':')) + rng.choice((b'', b'/', b'/a:b', b'?x=a@b:1', b'#a:b', b'/a@b:7'))]
            yield 'port', [str(rng.randrange(0, 70000)).encode()]
    def from_cex(s, c): return [(c['op'], [bytes.fromhex(x) for x in c['in']])] if c.get('op') != 'service' else []
    def judge(s, op, a, r):
        x = a[0]; j = x.find(b'://'); st = j + 3 if j >= 0 else 0
        if op == 'port':
            try: t = x.decode(); want = PORTS.get(t, None) if t in PORTS else int(t) & 65535
            except Exception: return None if r[0] == 'throw' else ('%r taken for a port' % x if not x[:1].isdigit() and x[:1] not in b' \t\n\v\f\r+-' else None)
            return None if r == ('ok', want.to_bytes(8, 'little')) else 'port of %r: %r' % (x, r)
        if op == 'path':
            i = x.find(b'/', st); want = b'/' if i < 0 else x[i:]
        elif op == 'proto':
            if j < 0: return None if r[0] == 'throw' else 'no scheme, but %r' % (r,)
            want = x[:j]
        elif op == 'rmproto':
            if j < 0: return None if r[0] == 'throw' else 'no scheme, but %r' % (r,)
            return None if r[0] == 'ok' and items(r[1]) == [x[:j], x[st:]] else 'rmproto of %r: %r' % (x, r)
        elif op == 'origin':
            if j < 0 or x[:j] not in (b'ws', b'wss'): return None if r[0] == 'throw' else 'origin of %r: %r' % (x, r)
            i = x.find(b'/', st); y = x if i < 0 else x[:i]; want = {b'ws': b'http', b'wss': b'https'}[x[:j]] + y[j:]
        elif op == 'service':
            e = min([i for i in (x.find(c, st) for c in (b'/', b'?', b'#')) if i >= 0] or [len(x)]); au = x[st:e]
            i = au.find(b'@'); au = au[i + 1:]; i = au.find(b':')
            if i >= 0:
                want = b''
                for c in au[i + 1:]:
                    if not 48 <= c <= 57: break
                    want += bytes([c])
            else: want = x[:j] if j >= 0 else b'http'
        elif op == 'user':
            e = x.find(b'@'); m = x.rfind(b':', 0, e + 1) if e >= 0 else -1
            if e < 0 or m < 0 or b'/' in x[m:e]: return None if r == ('ok', b'none') else 'user of %r: %r' % (x, r)
            b = x.rfind(b'/', 0, m + 1) + 1
            return None if r[0] == 'ok' and items(r[1]) == [x[b:m], x[m + 1:e]] else 'user of %r: %r' % (x, r)
        if r != ('ok', want): return '%s of %r: got %r, expected %r' % (op, x, r, want)
