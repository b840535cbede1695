"""HTTP messages: a plain reading of the byte stream, and of one call of each parser."""
from hxv.oracle import *
from hxv.contract import ID
from oracles.codec import rbytes, contents
from oracles.str import items, low, text
BUF = 16384
def clen(x): return int(x) if 1 <= len(x) <= 18 and x.isdigit() else None
def csize(x):
    for i, c in enumerate(x):
        if c in b'; \t': x = x[:i]; break
    return int(x, 16) if 1 <= len(x) <= 15 and all(c in b'0123456789abcdefABCDEF' for c in x) else None
class Bad(Exception): pass
def read_head(w, s, i=0, line=None, fields=None, last=None):
    """-> (state, line words, fields, where): state 'd' done, 'h' incomplete"""
    fields = fields if fields is not None else {}; need = 3 if w == 'q' else 2
    while True:
        e = s.find(b'\r\n', i)
        if e < 0: return 'h', line, fields, i
        l = s[i:e]
        if line is None:
            line = [x for x in l.split(b' ') if x]
            if len(line) < need: raise Bad
            if w == 's': line = line[:2] + [b' '.join(line[2:])]
        else:
            c = l.find(b':')
            if c > 0:
                k = low(l[:c]); v = l[c + 1:].strip(b' \t')
                if k not in fields: fields[k] = v
                last = k
            elif l:
                if last is None: raise Bad
                fields[last] += l
            else: return 'd', line, fields, e + 2
        i = e + 2
def read_body(fields, s, i, rem=None):
    """-> (done, body, state, where); state: None = before a size line / nothing read yet, n = bytes left of the chunk or body"""
    body = b''
    if b'content-length' in fields:
        if rem is None:
            rem = clen(fields[b'content-length'])
            if rem is None: raise Bad
        d = s[i:i + rem]; return rem == len(d), d, rem - len(d), i + len(d)
    if b'transfer-encoding' not in fields: return True, b'', None, i
    while True:
        if rem is not None:
            d = s[i:i + rem]; body += d; rem -= len(d); i += len(d)
            if rem or len(s) - i < 2: return False, body, rem, i
            if s[i:i + 2] != b'\r\n': raise Bad
            i += 2; rem = None
        e = s.find(b'\r\n', i)
        if e < 0: return False, body, None, i
        n = csize(s[i:e])
        if n is None: raise Bad
        if n == 0:
            j = s.find(b'\r\n\r\n', e)
            return (False, body, None, i) if j < 0 else (True, body, None, j + 4)
        rem = n; i = e + 2
def unpack(b, spec):
    out = []
    for c in spec:
        if c == 'b': out.append(b[0]); b = b[1:]
        elif c == 'n': out.append(int.from_bytes(b[:8], 'little')); b = b[8:]
        else: n = int.from_bytes(b[:4], 'little'); out.append(b[4:4 + n]); b = b[4 + n:]
    return out
def fields_of(b): x = items(b); return dict(zip(x[::2], x[1::2]))
class Http(Oracle):
    tu = 'http'; w = 'q'
    def first(s, rng):
        if s.w == 'q': t = rng.choice((b'GET', b'POST', b'PUT')) + b' ' + rng.choice((b'/', b'/a/b?x=1', b'*')) + b' HTTP/1.1'
        else: t = b'HTTP/1.1 ' + rng.choice((b'200', b'404')) + rng.choice((b' OK', b' Not Found', b'', b' ', b'  a  b c '))
        if rng.random() < .06: t = rng.choice((b'', b'GET', b'GET /', b' ', b'A B C D'))
        return t
    def message(s, rng):
        h = [s.first(rng)]; body = b''
        for _ in range(rng.choice((0, 0, 1, 2, 4))):
            h.append(rng.choice((b'Host', b'X-a', b'a', b'A', b'Cookie')) + rng.choice((b':', b': ', b':\t ', b':  ')) + text(rng, b'ab:; \tC', rng.randrange(0, 9)))
        if rng.random() < .05: h.insert(rng.randrange(1, len(h) + 1), rng.choice((b' more', b': x', b'noname', b':')))
        k = rng.random()
        if k < .4:
            body = text(rng, b'ab\r\n0', rng.choice((0, 1, 2, 5, 40, 300)) if rng.random() < .97 else rng.choice((16383, 16384, 16385, 40000))); n = str(len(body)).encode()
            if rng.random() < .05: n = rng.choice((b'', b'-1', b'1x', b'0x5', b'+3', b'9' * 19, b'00', b'7 '))
            h.append(rng.choice((b'Content-Length: ', b'content-length:', b'CONTENT-LENGTH:  ')) + n)
        elif k < .85:
            h.append(rng.choice((b'Transfer-Encoding: chunked', b'transfer-encoding:chunked')))
            for _ in range(rng.choice((0, 1, 2, 3))):
                d = text(rng, b'ab\r\n0', rng.choice((1, 2, 3, 15, 16, 17, 255)) if rng.random() < .97 else rng.choice((16370, 16384, 20000)))
                z = b'%x' % len(d); z = z.upper() if rng.random() < .3 else z; z = b'00' + z if rng.random() < .1 else z
                body += z + rng.choice((b'', b'', b';x=y', b' ;q', b' ')) + b'\r\n' + d + (b'\r\n' if rng.random() < .98 else rng.choice((b'', b'x', b'\n', b'\rx')))
            if rng.random() < .03: body += rng.choice((b'g', b'', b'-1', b'0x1', b' 1', b'f' * 16)) + b'\r\n'
            body += rng.choice((b'0', b'0', b'000', b'0;a')) + b'\r\n' + rng.choice((b'', b'', b'X-T: 1\r\n', b'a:b\r\nc:d\r\n')) + b'\r\n'
        return b'\r\n'.join(h) + b'\r\n\r\n' + body
    def cases(s, rng):
        w = s.w
        for x in (b'', b'0', b'00', b'9' * 18, b'9' * 19, b'1 ', b' 1', b'-1', b'+1', b'1a', b'12'): yield 'clen', [x]; yield 'csize', [x]
        for x in (b'', b' ', b'\t', b' a ', b'a b', b'\r a'): yield 'trim', [x]
        i = 0
        while True:
            i += 1
            t = s.message(rng) + rng.choice((b'', b'', b'GET / HTTP/1.1\r\n', b'x', b'\r\n'))
            if rng.random() < .1: t = t[:rng.randrange(len(t) + 1)]
            m = rng.randrange(4); n = len(t)
            if m == 0: cuts = []
            elif m == 1 and n < 600: cuts = list(range(n))
            else: cuts = sorted(rng.randrange(min(n, 65000) + 1) for _ in range(rng.randrange(1, 6)))
            yield w + 'msg', [b''.join(c.to_bytes(2, 'little') for c in cuts), t]
            yield 'clen', [text(rng, b'0123456789a ', rng.randrange(0, 21))]; yield 'csize', [text(rng, b'019afAFgG; \t', rng.randrange(0, 18))]; yield 'trim', [text(rng, b' \ta\r', rng.randrange(0, 9))]
            if i % 16 == 0: z = rng.choice((10, 100, 16384)); lo = rng.randrange(z + 1); yield 'abuf', [rbytes(rng, z), lo.to_bytes(8, 'little'), rng.randrange(z - lo + 1).to_bytes(8, 'little')]
    def from_cex(s, c): return [(c['op'], [bytes.fromhex(x) for x in c['in']])] if 'op' in c else []
    def judge(s, op, a, r):
        if op in ('clen', 'csize'):
            want = (clen if op == 'clen' else csize)(a[0])
            if want is None: return None if r[0] == 'throw' else '%s accepts %r' % (op, a[0])
            return None if r[0] == 'ok' and int.from_bytes(r[1], 'little') == want else '%s(%r) is %d' % (op, a[0], want)
        if op == 'abuf': lo, n = (int.from_bytes(x, 'little') for x in a[1:]); return None if r[0] == 'ok' and r[1] == a[0][lo:lo + n] else 'moveToHead(%d, %d)' % (lo, n)
        if op == 'trim': return None if r[0] == 'ok' and r[1] == a[0].strip(b' \t') else 'trim(%r)' % a[0]
        w = op[0]
        if op[1:] == 'body':
            eng, rem, kind, cl, buf = a
            f = {b'L': {b'content-length': cl}, b'C': {b'transfer-encoding': b'chunked'}, b'N': {}}[kind]; e = bool(eng[0]); v = int.from_bytes(rem, 'little')
            if len(buf) > BUF: return None
            try: done, body, st, at = read_body(f, buf, 0, v if e else None)
            except Bad: return None if r[0] == 'throw' else 'a malformed body is accepted'
            if r[0] != 'ok': return 'a well-formed body is refused'
            n, ge, gv, gb, gk = unpack(r[1], 'nbnss'); rest = buf[at:]
            if gb != body: return 'body bytes differ: %r instead of %r' % (gb[:80], body[:80])
            if (n == 0) != done: return 'reports %d still missing, although the body is%s complete' % (n, '' if done else ' not')
            if ge and gv == 0 and kind == b'C' and gk[:2] == b'\r\n': ge, gv, gk = 0, 0, gk[2:]
            if gk != rest: return 'keeps %r instead of %r' % (gk[:80], rest[:80])
            if not done and (ge, gv) != ((1, st) if st is not None else (0, 0)): return 'remembers %r instead of %r' % ((ge, gv), st)
            if kind == b'L' and n != st: return 'reports %d missing instead of %d' % (n, st)
            return None
        if op[1:] == 'head':
            stage, hdr = a[0]; buf = a[1]
            if len(buf) > BUF or (stage == 2): return None if r[0] == 'ok' else 'throws'
            f = {b'old': b'value'} if hdr else {}
            try: st, line, f, at = read_head(w, buf, 0, [b'A', b'B', b'C'] if stage else None, f, b'old' if hdr else None)
            except Bad: return None if r[0] == 'throw' else 'a malformed head is accepted'
            if r[0] != 'ok': return 'a well-formed head is refused'
            n, dn, gl, gf, gk = unpack(r[1], 'nbsss')
            if (n == 0) != (st == 'd') or bool(dn) != (st == 'd'): return 'head complete: %r instead of %r' % ((n, dn), st)
            if items(gl) != (line or []) : return 'first line %r instead of %r' % (items(gl), line)
            if fields_of(gf) != f: return 'fields %r instead of %r' % (fields_of(gf), f)
            if gk != buf[at:]: return 'keeps %r instead of %r' % (gk[:80], buf[at:at + 80])
            return None
        t = a[1]
        try:
            st, line, f, at = read_head(w, t)
            if st == 'd':
                if b'content-length' in f and b'transfer-encoding' in f: return None
                done, body, _, at = read_body(f, t, at)
                if not done: st = 'b'
        except Bad: return None if r[0] == 'ok' and r[1][:1] in b't' else 'a malformed message is accepted: %r' % t[:200]
        if at > BUF - 400 or len(t) > BUF:
            if st != 'd': return None                  # a line longer than the receive buffer
        if r[0] != 'ok' or r[1][:1] == b't': return 'a well-formed message is refused: %r' % t[:200]
        gs, gl, gf, gb, gk, ga = unpack(r[1], 'bssssn')
        if chr(gs) != st: return 'message read up to %r instead of %r' % (chr(gs), st)
        if items(gl) != (line or []): return 'first line %r instead of %r' % (items(gl), line)
        if fields_of(gf) != f: return 'fields %r instead of %r' % (fields_of(gf), f)
        if st != 'h' and gb != body: return 'body %r instead of %r' % (gb[:100], body[:100])
        if st == 'd' and gk != t[at:ga]: return 'keeps %r of the following bytes instead of %r' % (gk[:60], t[at:ga][:60])
        return None
@oracle(ID['httpreq'])
class Request(Http): w = 'q'
@oracle(ID['httpres'])
class Response(Http): w = 's'
