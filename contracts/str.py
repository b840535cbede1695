"""string utilities (C10), header names (C06), URL parsing (C09)"""
import re, z3
from hxv.contract import *
from hxv.contract import contract
from hxv.engine import *
from hxv import models, loops

def lower8(c): return z3.If(z3.And(z3.UGE(c, BV(65, 8)), z3.ULE(c, BV(90, 8))), c + 32, c)
def upper8(c): return z3.If(z3.And(z3.UGE(c, BV(97, 8)), z3.ULE(c, BV(122, 8))), c - 32, c)
def mb(m, B, n, lim=400): return model_bytes(m, B, min(model_int(m, n), lim)).hex()
def scalars(ctx, w=64):
    """loop-modified scalar variables (name, reader)"""
    for k, c in ctx.cells.items():
        if c.cls in ('fresh', 'linear') and c.w == w:
            yield repr(k), (lambda c: lambda s: tobv(offv(loops.read_cell(s.E, s, s.frames[-1], c)), w))(c)

def case_contract(K, fn, op, spec):
    E = K.engine(); st = State(E)
    p, n, B = new_string(st, 's')
    inv_inplace(E, lambda k: spec(B.fn(k)), strides=(1, 8))
    for o in K.call(E, st, K.fn(fn), [p]):
        ln, r = str_result(o.st, p)
        cex = lambda m: {'op': op, 'in': [mb(m, B, n)]}
        K.prove(E, o.st, 'length unchanged', tobv(ln, 64) == n, cex)
        k = SKV('k'); o.st.assume(z3.ULT(k, n)); K.lemma_iter(E, o.st, [n])
        K.prove(E, o.st, 'every letter is converted, every other byte is unchanged', tobv(r(k), 8) == spec(B.fn(k)), cex)
@contract('str', 'str')
def str_to_lower(K):
    """toLower: A-Z become a-z, every other byte and the length are unchanged, for every string"""
    case_contract(K, r'HX::utils::StringUtil::toLower\(.*\)', 'lower', lower8)
@contract('str', 'str')
def str_to_upper(K):
    """toUpper: a-z become A-Z, every other byte and the length are unchanged, for every string"""
    case_contract(K, r'HX::utils::StringUtil::toUpper\(.*\)', 'upper', upper8)

def sv_arg(st, name, n=None):
    p, ln, B = st.buffer(name, n); return p, ln, B
def no_match(B, n, D, d, lo, hi):
    """no occurrence of D[0..d) in B starts at a position of [lo, hi)"""
    return lambda k: z3.Implies(z3.And(z3.ULE(lo, k), z3.ULT(k, hi), z3.ULE(k + d, n)), z3.Not(z3.And(*[B.fn(k + j) == D.fn(BV(j)) for j in range(d)])))
def match(B, D, d, p): return z3.And(*[B.fn(p + j) == D.fn(BV(j)) for j in range(d)])

@contract('str', 'str')
def str_split_at_first(K):
    """splitAtFirst(s, d) for every s and every delimiter of 1 or 2 bytes: (before, after) the first occurrence, ("","") if there is none"""
    for d in (1, 2):
        E = K.engine(); st = State(E)
        p, n, B = sv_arg(st, 's'); q, _, D = sv_arg(st, 'd', d)
        ret = empty_slot(st, 64)
        cex = lambda m: {'op': 'first', 'in': [mb(m, B, n), model_bytes(m, D, d).hex()]}
        for o in K.call(E, st, K.fn(r'HX::utils::StringUtil::splitAtFirst\(.*\)'), [ret, n, p, d, q]):
            s = o.st
            l1, r1 = str_result(s, ret); l2, r2 = str_result(s, ret + 32)
            L1, L2 = tobv(l1, 64), tobv(l2, 64)
            k = SKV('k')
            # either nothing matches anywhere and both are empty, or first = s[0,L1), delimiter at L1, second = rest, no earlier match
            a = s.clone(); a.assume(z3.Not(z3.And(z3.ULE(L1 + d, n), L1 + L2 + d == n, match(B, D, d, L1))))
            K.prove(E, a, 'without an occurrence both parts are empty (%d)' % d, z3.And(L1 == 0, L2 == 0), cex)
            K.prove(E, a, 'empty parts only when there is no occurrence (%d)' % d, no_match(B, n, D, d, BV(0), n)(k), cex)
            b = s.clone(); b.assume(z3.And(z3.ULE(L1 + d, n), L1 + L2 + d == n, match(B, D, d, L1)))
            K.prove(E, b, 'split at the first occurrence (%d)' % d, no_match(B, n, D, d, BV(0), L1)(k), cex)
            b1 = b.clone(); b1.assume(z3.ULT(k, L1)); K.prove(E, b1, 'first part (%d)' % d, tobv(r1(k), 8) == B.fn(k), cex)
            b2 = b.clone(); b2.assume(z3.ULT(k, L2)); K.prove(E, b2, 'second part (%d)' % d, tobv(r2(k), 8) == B.fn(L1 + d + k), cex)
@contract('str', 'str')
def str_rfind_and_trim(K):
    """rfindAndTrim(s, c) for every s and one-byte c: what follows the last c, or s itself"""
    E = K.engine(); st = State(E)
    p, n, B = sv_arg(st, 's'); q, _, D = sv_arg(st, 'd', 1); ret = empty_slot(st, 32)
    cex = lambda m: {'op': 'rtrim', 'in': [mb(m, B, n), model_bytes(m, D, 1).hex()]}
    for o in K.call(E, st, K.fn(r'HX::utils::StringUtil::rfindAndTrim\(.*\)'), [ret, n, p, 1, q]):
        s = o.st; ln, r = str_result(s, ret); L = tobv(ln, 64); k = SKV('k')
        K.prove(E, s, 'a suffix', z3.ULE(L, n), cex)
        K.prove(E, s, 'starts at the beginning or after the delimiter', z3.Or(L == n, B.fn(n - L - 1) == D.fn(BV(0))), cex)
        s.assume(z3.ULT(k, L))
        K.prove(E, s, 'the suffix itself', tobv(r(k), 8) == B.fn(n - L + k), cex)
        K.prove(E, s, 'the delimiter does not occur in it', B.fn(n - L + k) != D.fn(BV(0)), cex)
@contract('str', 'str')
def str_append(K):
    """append(v, s): v keeps its bytes and gains exactly the bytes of s, for every v and s"""
    E = K.engine(); st = State(E)
    v, n, A = new_string(st, 'v', kind='vector'); p, m_, B = sv_arg(st, 's')
    cex = lambda m: {'op': 'append', 'in': [mb(m, A, n), mb(m, B, m_)]}
    for o in K.call(E, st, K.fn(r'HX::utils::StringUtil::append\(.*\)'), [v, p, m_]):
        s = o.st; ln, r = str_result(s, v); k = SKV('k')
        K.prove(E, s, 'length', tobv(ln, 64) == n + m_, cex); s.assume(z3.ULT(k, n + m_))
        K.prove(E, s, 'contents', tobv(r(k), 8) == z3.If(z3.ULT(k, n), A.fn(k), B.fn(k - n)), cex)

# ---- split: the tokens appended are checked one by one against the text (ghost: where the previous token ended)
def split_contract(K, fn, op, skip, withpos):
    E = K.engine(); st = State(E)
    p, n, B = sv_arg(st, 's'); q, _, D = sv_arg(st, 'd', 1); dl = D.fn(BV(0))
    ret = empty_slot(st, 24); vec = empty_slot(st, 24)
    for x in (vec,):
        for i in (0, 8, 16): E.store(st, x + i, NULL, PTR)
    st.ghost['g:pos'] = BV(0); st.ghost['g:done'] = BV(0)
    cex = lambda m: {'op': op, 'in': [mb(m, B, n), model_bytes(m, D, 1).hex()]}
    def emit(c):
        E2, s = c.E, c.st
        args = c.args[1:]
        if withpos:
            ps = tobv(E2.load(s, args[0], INT(64)), 64); sv = models.sv_load(E2, s, args[1])
        else: sv = models.sv_load(E2, s, args[0])
        if sv.ptr is None or sv.ptr.obj != p.obj: E2.oblige(s, 'token is a part of the text', False); return NULL
        b = tobv(sv.ptr.off, 64); e = b + tobv(sv.n, 64); pos = tobv(s.ghost['g:pos'], 64); done = tobv(s.ghost['g:done'], 64)
        k = SKV('k')
        K.prove(E2, s, 'token lies in the text', z3.And(z3.ULE(b, e), z3.ULE(e, n)), cex)
        if withpos: K.prove(E2, s, 'reported position is where the token starts', ps == b, cex)
        K.prove(E2, s, 'no token after the last one', done == 0, cex)
        if skip:
            K.prove(E2, s, 'token is not empty', z3.ULT(b, e), cex)
            K.prove(E2, s, 'token follows the previous one', z3.And(z3.ULE(pos, b), z3.Or(b == 0, z3.ULT(pos, b))), cex)
            a = s.clone(); a.assume(z3.And(z3.ULE(pos, k), z3.ULT(k, b))); K.prove(E2, a, 'only delimiters between tokens', B.fn(k) == dl, cex)
        else: K.prove(E2, s, 'token starts right after the previous delimiter', b == pos, cex)
        a = s.clone(); a.assume(z3.And(z3.ULE(b, k), z3.ULT(k, e))); K.prove(E2, a, 'no delimiter inside a token', B.fn(k) != dl, cex)
        K.prove(E2, s, 'token ends at a delimiter or at the end', z3.Or(e == n, B.fn(e) == dl), cex)
        s.ghost['g:pos'] = e if skip else e + 1
        s.ghost['g:done'] = z3.If(e == n, BV(1), BV(0))
        return NULL
    E.add_model(r'.*std::vector<.*>::(emplace_back|push_back)(<.*>)?\(.*\)', emit)
    E.add_model(r'.*std::vector<.*>::vector\(std::vector<.*>&&\)', lambda c: None)
    E.add_model(r'.*std::vector<.*>::(~vector|reserve)\(.*\)', lambda c: None)
    def inv(ctx):
        out = []
        gp = lambda s: tobv(s.ghost['g:pos'], 64)
        for nm, v in scalars(ctx):
            if skip:
                out.append(('start:' + nm, ('state', (lambda v: lambda s, m: z3.And(z3.ULE(gp(s), v(s)), z3.ULE(v(s), n), z3.Or(v(s) == 0, z3.ULT(gp(s), v(s)))))(v))))
                out.append(('gap:' + nm, ('forall', lambda h: [B], (lambda v: lambda s, m, k: z3.Implies(z3.And(z3.ULE(gp(s), k), z3.ULT(k, v(s))), B.fn(k) == dl))(v))))
            else: out.append(('start:' + nm, ('state', (lambda v: lambda s, m: z3.And(gp(s) == v(s), z3.ULE(v(s), n)))(v))))
            for n2, v2 in scalars(ctx):
                if n2 == nm: continue
                out.append(('end:%s:%s' % (nm, n2), ('state', (lambda v, w: lambda s, m: z3.Or(w(s) == BV(MASK(64)), z3.And(z3.ULE(v(s), w(s)), z3.ULT(w(s), n), B.fn(w(s)) == dl)))(v, v2))))
                out.append(('tok:%s:%s' % (nm, n2), ('forall', lambda h: [B], (lambda v, w: lambda s, m, k: z3.Implies(z3.And(z3.ULE(v(s), k), z3.ULT(k, w(s)), z3.ULT(k, n)), B.fn(k) != dl))(v, v2))))
        out.append(('not done', ('state', lambda s, m: tobv(s.ghost['g:done'], 64) == 0)))
        return out
    E.invs.append((re.compile('split'), inv))
    for o in K.call(E, st, K.fn(fn), [ret, n, p, 1, q, vec]):
        s = o.st; k = SKV('k'); pos = tobv(s.ghost['g:pos'], 64); done = tobv(s.ghost['g:done'], 64)
        if skip:
            a = s.clone(); a.assume(z3.And(z3.ULE(pos, k), z3.ULT(k, n))); K.prove(E, a, 'nothing but delimiters after the last token', B.fn(k) == dl, cex)
        else: K.prove(E, s, 'the whole text has been split', z3.Or(n == 0, done == 1), cex)
SPL = r'.*HX::utils::StringUtil::%s<%s, %s>\(.*\)'
@contract('str', 'str')
def str_split(K):
    """split<std::string>: for every text and one-byte delimiter, exactly the maximal delimiter-free runs, in order"""
    split_contract(K, SPL % ('split', 'string', 'true'), 'split', True, False)
@contract('str', 'str')
def str_split_view(K):
    """split<std::string_view>: the same"""
    split_contract(K, SPL % ('split', 'string_view', 'true'), 'splitv', True, False)
@contract('str', 'str')
def str_split_keep_empty(K):
    """split<std::string, false>: every piece between delimiters, empty ones included"""
    split_contract(K, SPL % ('split', 'string', 'false'), 'splite', False, False)
@contract('str', 'str')
def str_split_pos(K):
    """splitWithPos: the same tokens with the offset of each in the text"""
    split_contract(K, SPL % ('splitWithPos', 'string_view', 'true'), 'splitp', True, True)
@contract('str', 'str')
def str_split_pos_keep_empty(K):
    """splitWithPos<Str, false>"""
    split_contract(K, SPL % ('splitWithPos', 'string_view', 'false'), 'splitpe', False, True)

# ---- numbers
def digit36(c, base):
    v = z3.If(z3.And(z3.UGE(c, BV(48, 8)), z3.ULE(c, BV(57, 8))), c - 48, z3.If(z3.And(z3.UGE(c, BV(65, 8)), z3.ULE(c, BV(90, 8))), c - 55, z3.If(z3.And(z3.UGE(c, BV(97, 8)), z3.ULE(c, BV(122, 8))), c - 87, BV(255, 8))))
    return v
@contract('str', 'str')
def num_to_hex(K):
    """hexadecimalConversion(n) for every 64-bit n: the upper-case hexadecimal digits of n, most significant first, no leading zero"""
    E = K.engine(); st = State(E); ret = empty_slot(st, 32); v = z3.BitVec('n', 64)
    E.never_cut.append(re.compile('hexadecimalConversion'))
    for o in K.call(E, st, K.fn(r'HX::utils::NumericBaseConverter::hexadecimalConversion\(.*\)'), [ret, v]):
        s = o.st; ln, r = str_result(s, ret)
        cex = lambda m: {'op': 'hex', 'in': [model_int(m, v).to_bytes(8, 'little').hex()]}
        if not isinstance(ln, int): K.prove(E, s, 'one to sixteen digits', False, cex); continue
        K.prove(E, s, 'at least one digit', 1 <= ln <= 16, cex)
        val = BV(0); ok = []
        for i in range(ln):
            c = tobv(r(i), 8); d = digit36(c, 16); ok.append(z3.And(z3.ULT(d, BV(16, 8)), z3.ULT(c, BV(97, 8)))); val = val * 16 + z3.ZeroExt(56, d)
        K.prove(E, s, 'upper-case hexadecimal digits', z3.And(*ok), cex)
        K.prove(E, s, 'value of the digits is the number', val == v, cex)
        K.prove(E, s, 'no leading zero', z3.Or(v == 0, tobv(r(0), 8) != 48), cex)
@contract('str', 'str')
def num_from_text(K):
    """strToNum<size_t, B>(s) for B = 10, 16, 36 and digit strings of every length: the sum of digit_i * B^i modulo 2^64, letters in either case"""
    for base, op in ((16, 'num16'), (10, 'num10'), (36, 'num36')):
        E = K.engine(); st = State(E); p, n, B = sv_arg(st, 's'); E.uf_mul = True
        sv = empty_slot(st, 16, 'sv'); E.store(st, sv, n, INT(64)); E.store(st, sv + 8, p, PTR)
        st.fact(B, lambda k: z3.Implies(z3.ULT(k, n), z3.ULT(digit36(B.fn(k), base), BV(base, 8))))
        R = z3.Function('R%d' % base, z3.BitVecSort(64), z3.BitVecSort(64)); P = z3.Function('P%d' % base, z3.BitVecSort(64), z3.BitVecSort(64))
        st.assume(z3.And(R(BV(0)) == 0, P(BV(0)) == 1))
        st.fact(R, lambda k: z3.Implies(z3.ULT(k, n), z3.And(R(k + 1) == R(k) + E.umul(z3.ZeroExt(56, digit36(B.fn(n - 1 - k), base)), P(k)), P(k + 1) == E.umul(P(k), BV(base)))))
        def inv(ctx):
            out = []
            for nm, v in scalars(ctx):
                out.append(('value:' + nm, ('state', (lambda v: lambda s, m: v(s) == R(m))(v)))); out.append(('power:' + nm, ('state', (lambda v: lambda s, m: v(s) == P(m))(v))))
            return out
        E.invs.append((re.compile('strToNum'), inv))
        cex = lambda m: {'op': op, 'in': [mb(m, B, n)]}
        for o in K.call(E, st, K.fn(r'ulong HX::utils::NumericBaseConverter::strToNum<ulong, %dul, string_view&>\(.*\)' % base), [sv]):
            K.lemma_iter(E, o.st, [n])
            K.prove(E, o.st, 'value of the digit string (base %d)' % base, tobv(o.val, 64) == R(n), cex)
@contract('str', 'str')
def num_from_any_text(K):
    """strToNum on arbitrary bytes: no access outside the text and its digit table"""
    for base, op in ((16, 'num16'), (10, 'num10'), (36, 'num36')):
        E = K.engine(); st = State(E); p, n, B = sv_arg(st, 's')
        sv = empty_slot(st, 16, 'sv'); E.store(st, sv, n, INT(64)); E.store(st, sv + 8, p, PTR)
        K.call(E, st, K.fn(r'ulong HX::utils::NumericBaseConverter::strToNum<ulong, %dul, string_view&>\(.*\)' % base), [sv])
@contract('hdr', 'str')
def header_hash(K):
    """the hash of a header name is a function of its lower-cased bytes alone (fold over all of them), for every name"""
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 's'); this = empty_slot(st, 1, 'hash'); E.uf_mul = True
    LB = z3.Function('lowered', z3.BitVecSort(64), z3.BitVecSort(8)); H = z3.Function('H', z3.BitVecSort(64), z3.BitVecSort(64))
    st.fact(B, lambda k: LB(k) == lower8(B.fn(k)))
    st.assume(H(BV(0)) == BV(1469598103934665603))
    st.fact(H, lambda k: z3.Implies(z3.ULT(k, n), H(k + 1) == E.umul(H(k) ^ z3.ZeroExt(56, LB(k)), BV(1099511628211))))
    st.fact(LB, lambda k: LB(k) == lower8(B.fn(k)))
    E.invs.append((re.compile('Hash'), lambda ctx: [('fold:' + nm, ('state', (lambda v: lambda s, m: v(s) == H(m))(v))) for nm, v in scalars(ctx)]))
    for o in K.call(E, st, K.fn(r'HX::net::internal::TransparentCaseInsensitiveHash::operator\(\)\(string_view\) const'), [this, n, p]):
        K.lemma_iter(E, o.st, [n])
        K.prove(E, o.st, 'hash is the fold over the lower-cased bytes', tobv(o.val, 64) == H(n), lambda m: {'op': 'cihash', 'in': [mb(m, B, n)]})
@contract('hdr', 'str')
def header_equal(K):
    """two header names compare equal exactly when they have the same length and the same bytes up to ASCII case, for all pairs"""
    E = K.engine(); st = State(E); p, n, A = sv_arg(st, 'a'); q, m_, B = sv_arg(st, 'b'); this = empty_slot(st, 1, 'eq')
    E.invs.append((re.compile('Equal'), lambda ctx: [('prefix:' + nm, ('forall', lambda h: [A, B], (lambda v: lambda s, m, k: z3.Implies(z3.ULT(k, v(s)), lower8(A.fn(k)) == lower8(B.fn(k))))(v))) for nm, v in scalars(ctx)]))
    cex = lambda m: {'op': 'cieq', 'in': [mb(m, A, n), mb(m, B, m_)]}
    for o in K.call(E, st, K.fn(r'HX::net::internal::TransparentCaseInsensitiveEqual::operator\(\)\(.*\) const'), [this, n, p, m_, q]):
        s = o.st; eq = tobool(o.val) if not isinstance(o.val, int) else z3.BoolVal(bool(o.val)); k = SKV('k')
        K.lemma_iter(E, s, [n])
        a = s.clone(); a.assume(eq); K.prove(E, a, 'equal names have the same length', n == m_, cex)
        a.assume(z3.ULT(k, n)); K.prove(E, a, 'equal names agree at every byte up to case', lower8(A.fn(k)) == lower8(B.fn(k)), cex)
        b = s.clone(); b.assume(z3.Not(eq)); b.assume(n == m_); b.fact(A, lambda k: z3.Implies(z3.ULT(k, n), lower8(A.fn(k)) == lower8(B.fn(k))))
        K.prove(E, b, 'names that agree are not told apart', z3.BoolVal(False), cex)

# ---- URL parsing
SEP = b'://'
def at_sep(B, p): return z3.And(*[B.fn(p + j) == SEP[j] for j in range(3)])
def no_sep(B, n, lo, hi): return lambda k: z3.Implies(z3.And(z3.ULE(lo, k), z3.ULT(k, hi), z3.ULE(k + 3, n)), z3.Not(at_sep(B, k)))
def first_sep(st, B, n, name='sep'):
    """ghost: the offset of the first "://", 2^64-1 if there is none"""
    r = z3.BitVec(name, 64); NP = BV(MASK(64))
    st.assume(z3.Or(r == NP, z3.And(z3.ULE(r + 3, n), z3.ULT(r, n), at_sep(B, r))))
    def f(k): return z3.Implies(z3.And(z3.ULT(k, n), z3.ULE(k + 3, n), z3.Or(r == NP, z3.ULT(k, r))), z3.Not(at_sep(B, k)))
    st.fact(B, f)
    return r, r == NP
@contract('url', 'str')
def url_path(K):
    """extractPath(u): everything from the first '/' after the scheme separator (or from the start when there is none), "/" if there is no such '/'"""
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u'); r, none = first_sep(st, B, n)
    a = z3.If(none, BV(0), r + 3); cex = lambda m: {'op': 'path', 'in': [mb(m, B, n)]}
    for o in K.call(E, st, K.fn(r'HX::net::UrlParse::extractPath\(.*\)'), [n, p]):
        s = o.st; ln, q = o.val; L = tobv(ln, 64); k = SKV('k')
        if not isinstance(q, Ptr): K.prove(E, s, 'a text', False, cex); continue
        if q.obj == p.obj:
            off = tobv(q.off, 64)
            K.prove(E, s, 'path is a suffix of the URL', z3.And(z3.ULT(off, n), off + L == n), cex)
            K.prove(E, s, 'path starts with / after the scheme', z3.And(z3.ULE(a, off), B.fn(off) == 47), cex)
            s.assume(z3.And(z3.ULE(a, k), z3.ULT(k, off))); K.prove(E, s, 'path starts at the first /', B.fn(k) != 47, cex)
        else:
            K.prove(E, s, 'default path is /', z3.And(L == 1, tobv(E.load(s, q, INT(8)), 8) == 47), cex)
            s.assume(z3.And(z3.ULE(a, k), z3.ULT(k, n))); K.prove(E, s, 'default path only without a /', B.fn(k) != 47, cex)
@contract('url', 'str')
def url_protocol(K):
    """extractProtocol / removeProtocol: the text before the first "://" (and the text after it); invalid_argument if there is none"""
    for which in (0, 1):
        E = K.engine(); st = State(E)
        if which == 0: p, n, B = sv_arg(st, 'u')
        else: p, n, B = new_string(st, 'u')
        r, none = first_sep(st, B, n); ret = empty_slot(st, 32); op = ('proto', 'rmproto')[which]
        cex = lambda m: {'op': op, 'in': [mb(m, B, n)]}
        args = [n, p] if which == 0 else [ret, p]
        for o in K.call(E, st, K.fn((r'HX::net::UrlParse::extractProtocol\(.*\)', r'HX::net::UrlParse::removeProtocol\(.*\)')[which]), args, allow=('ret', 'throw')):
            s = o.st; k = SKV('k')
            if o.kind == 'throw':
                K.prove(E, s, 'rejected only without a scheme separator', none, cex); K.prove(E, s, 'rejected as invalid_argument', z3.BoolVal(o.exc.tname == '_ZTISt16invalid_argument'), cex); continue
            K.prove(E, s, 'accepted only with a scheme separator', z3.Not(none), cex)
            if which == 0:
                K.prove(E, s, 'scheme is the text before the separator', z3.And(tobv(o.val[0], 64) == r, z3.BoolVal(o.val[1].obj == p.obj), tobv(o.val[1].off, 64) == 0), cex)
            else:
                l1, r1 = str_result(s, ret); l2, r2 = str_result(s, p)
                K.prove(E, s, 'length of the scheme', tobv(l1, 64) == r, cex); K.prove(E, s, 'length of the rest', tobv(l2, 64) == n - r - 3, cex)
                a = s.clone(); a.assume(z3.ULT(k, r)); K.prove(E, a, 'scheme', tobv(r1(k), 8) == B.fn(k), cex)
                s.assume(z3.ULT(k, n - r - 3)); K.prove(E, s, 'rest', tobv(r2(k), 8) == B.fn(k + r + 3), cex)
@contract('url', 'str')
def url_ws_origin(K):
    """extractWsOrigin: ws -> http, wss -> https, followed by "://" and the authority up to the first '/'; anything else is rejected"""
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u'); r, none = first_sep(st, B, n); ret = empty_slot(st, 32)
    cex = lambda m: {'op': 'origin', 'in': [mb(m, B, n)]}
    isws = z3.And(r == 2, B.fn(BV(0)) == 119, B.fn(BV(1)) == 115); iswss = z3.And(r == 3, B.fn(BV(0)) == 119, B.fn(BV(1)) == 115, B.fn(BV(2)) == 115)
    for o in K.call(E, st, K.fn(r'HX::net::UrlParse::extractWsOrigin\(.*\)'), [ret, n, p], allow=('ret', 'throw')):
        s = o.st; k = SKV('k')
        if o.kind == 'throw':
            K.prove(E, s, 'rejected only if not ws or wss', z3.Or(none, z3.Not(z3.Or(isws, iswss))), cex); K.prove(E, s, 'rejected as runtime_error', z3.BoolVal(o.exc.tname == '_ZTISt13runtime_error'), cex); continue
        K.prove(E, s, 'accepted only for ws and wss', z3.And(z3.Not(none), z3.Or(isws, iswss)), cex)
        ln, rd_ = str_result(s, ret); L = tobv(ln, 64); sh = BV(2)       # http/https is two longer than ws/wss
        end = L - 2
        K.prove(E, s, 'authority is a prefix of the URL', z3.And(z3.ULE(r + 3, end), z3.ULE(end, n)), cex)
        K.prove(E, s, 'authority ends at a / or at the end', z3.Or(end == n, B.fn(end) == 47), cex)
        a = s.clone(); a.assume(z3.And(z3.ULE(r + 3, k), z3.ULT(k, end))); K.prove(E, a, 'authority holds no /', B.fn(k) != 47, cex)
        http = b'http'
        K.prove(E, s, 'scheme becomes http', z3.And(*[tobv(rd_(i), 8) == http[i] for i in range(4)]), cex)
        K.prove(E, s, 'wss becomes https', z3.Or(r == 2, tobv(rd_(4), 8) == 115), cex)
        s.assume(z3.And(z3.ULE(r + 2, k), z3.ULT(k, L))); K.prove(E, s, 'the rest is unchanged', tobv(rd_(k), 8) == B.fn(k - 2), cex)
@contract('url', 'str')
def url_user(K):
    """extractUser: for every URL, either none, or the account and password directly before the first '@', separated by its nearest ':' with no '/' between;
    none exactly when there is no '@' or no such ':'"""
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u'); ret = empty_slot(st, 40)
    cex = lambda m: {'op': 'user', 'in': [mb(m, B, n)]}
    for o in K.call(E, st, K.fn(r'HX::net::UrlParse::extractUser\(.*\)'), [ret, n, p]):
        s = o.st; k = SKV('k')
        eng = E.load(s, ret + 32, INT(8))
        if not isinstance(eng, int): K.prove(E, s, 'an optional', False, cex); continue
        if not eng & 1:
            # nothing reported: any position of a first '@' has no ':' free of '/' before it
            at, c_ = SKV('at'), SKV('c')
            s.assume(z3.And(z3.ULT(at, n), B.fn(at) == 64, z3.ULT(c_, at), B.fn(c_) == 58))
            s.fact(B, lambda k: z3.Implies(z3.ULT(k, at), B.fn(k) != 64))
            s.fact(B, lambda k: z3.Implies(z3.And(z3.ULT(c_, k), z3.ULT(k, at)), z3.And(B.fn(k) != 47, B.fn(k) != 58)))
            K.prove(E, s, 'an account and password before @ is reported', z3.BoolVal(False), cex); continue
        al, ap, pl, pp = E.load(s, ret, INT(64)), E.load(s, ret + 8, PTR), E.load(s, ret + 16, INT(64)), E.load(s, ret + 24, PTR)
        if ap.obj != p.obj or pp.obj != p.obj: K.prove(E, s, 'parts of the URL', False, cex); continue
        ab, ae, pb = tobv(ap.off, 64), tobv(ap.off, 64) + tobv(al, 64), tobv(pp.off, 64); pe = pb + tobv(pl, 64)
        K.prove(E, s, 'account and password lie next to each other in the URL', z3.And(z3.ULE(ab, ae), ae + 1 == pb, z3.ULE(pb, pe), z3.ULT(pe, n)), cex)
        K.prove(E, s, 'separated by : and followed by @', z3.And(B.fn(ae) == 58, B.fn(pe) == 64), cex)
        K.prove(E, s, 'account starts at the beginning or after a /', z3.Or(ab == 0, B.fn(ab - 1) == 47), cex)
        a = s.clone(); a.assume(z3.ULT(k, pe)); K.prove(E, a, 'the first @', B.fn(k) != 64, cex)
        a = s.clone(); a.assume(z3.And(z3.ULE(pb, k), z3.ULT(k, pe))); K.prove(E, a, 'password holds neither / nor :', z3.And(B.fn(k) != 47, B.fn(k) != 58), cex)
        a = s.clone(); a.assume(z3.And(z3.ULE(ab, k), z3.ULT(k, ae))); K.prove(E, a, 'account holds no /', B.fn(k) != 47, cex)
PORTS = dict(http=80, https=443, ftp=21, ftps=990, sftp=22, smtp=25, pop3=110, imap=143, ldap=389, ldaps=636, telnet=23, ssh=22, dns=53, dhcp=67, ws=80, wss=443)
def stoi_model(E, B, n, seen):
    def h(c):
        s = c.st; ln, r = str_result(s, c.args[0]); k = SKV('k'); seen.append(1)
        E.oblige(s, 'the number is read from the whole text', z3.And(tobv(ln, 64) == n, z3.Implies(z3.ULT(k, n), tobv(r(k), 8) == B.fn(k))))
        return z3.BitVec('stoi', 32)
    E.add_model(r'(std::)?(__cxx11::)?stoi\(.*\)', h)
@contract('url', 'str')
def url_port(K):
    """getProtocolPort: each of the 16 well-known names gives its port; any other text is never taken for a well-known name and is read as a decimal number"""
    fn = K.fn(r'HX::net::UrlParse::getProtocolPort\(.*\)')
    for name, port in PORTS.items():
        E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u', len(name)); t = name.encode()
        E.never_cut.append(re.compile('.'))
        st.wobj(p.obj).seq = Bytes(t)
        for o in K.call(E, st, fn, [len(name), p]):
            K.prove(E, o.st, 'port of ' + name, tobv(o.val, 16) == port, lambda m: {'op': 'port', 'in': [t.hex()]})
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u'); seen = []; stoi_model(E, B, n, seen)
    cex = lambda m: {'op': 'port', 'in': [mb(m, B, n)]}
    for o in K.call(E, st, fn, [n, p]):
        isn = lambda t: z3.And(n == len(t), *[B.fn(BV(i)) == c for i, c in enumerate(t.encode())])
        v = tobv(o.val, 16)
        K.prove(E, o.st, 'a well-known port belongs to a well-known name', z3.Or(v == z3.Extract(15, 0, z3.BitVec('stoi', 32)), *[z3.And(v == q, isn(t)) for t, q in PORTS.items()]), cex)
@contract('url', 'str', bounded='URLs of at most 24 bytes')
def url_service(K):
    """UrlInfoExtractor: the service of a URL is the digits after the ':' of its authority (user info skipped), else its scheme, else "http"; a ':' or '@' of the path, query or fragment plays no part"""
    E = K.engine(); st = State(E); p, n, B = sv_arg(st, 'u'); r, none = first_sep(st, B, n); st.assume(z3.ULE(n, 24))
    this = empty_slot(st, 64, 'info')
    for i in (0, 32): st.mkbuf(this + i, 'string', 0, None, 1, 'field%d' % i)
    E.add_model(r'HX::net::UrlParse::extractDomainName\(.*\)', lambda c: c.st.mkbuf(c.args[0], 'string', 0, None, 1, 'host') and None)
    K.assume('extractDomainName (std::regex) is replaced by an arbitrary host: only the service is decided here')
    cex = lambda m: {'op': 'service', 'in': [mb(m, B, n)]}
    a = z3.If(none, BV(0), r + 3)
    end = z3.BitVec('auth_end', 64); at = z3.BitVec('at', 64); col = z3.BitVec('colon', 64); NP = BV(MASK(64))
    stop = lambda c: z3.Or(c == 47, c == 63, c == 35)
    st.assume(z3.And(z3.ULE(a, end), z3.ULE(end, n), z3.Or(end == n, stop(B.fn(end)))))
    st.fact(B, lambda k: z3.Implies(z3.And(z3.ULE(a, k), z3.ULT(k, end)), z3.Not(stop(B.fn(k)))))
    st.assume(z3.Or(at == NP, z3.And(z3.ULE(a, at), z3.ULT(at, end), B.fn(at) == 64)))
    st.fact(B, lambda k: z3.Implies(z3.And(z3.ULE(a, k), z3.ULT(k, end), z3.Or(at == NP, z3.ULT(k, at))), B.fn(k) != 64))
    h = z3.If(at == NP, a, at + 1)
    st.assume(z3.Or(col == NP, z3.And(z3.ULE(h, col), z3.ULT(col, end), B.fn(col) == 58)))
    st.fact(B, lambda k: z3.Implies(z3.And(z3.ULE(h, k), z3.ULT(k, end), z3.Or(col == NP, z3.ULT(k, col))), B.fn(k) != 58))
    K.ghost_finds(E, (r, end, at, col))
    digit = lambda c: z3.And(z3.UGE(c, BV(48, 8)), z3.ULE(c, BV(57, 8)))
    for o in K.call(E, st, K.fn(r'HX::net::UrlInfoExtractor::parseUrl\(.*\)'), [this, n, p]):
        s = o.st; ln, rd_ = str_result(s, this + 32); L = tobv(ln, 64); k = SKV('k')
        b = s.clone(); b.assume(col != NP)
        K.prove(E, b, 'port lies in the authority', z3.And(z3.ULT(col, n), z3.ULE(L, n), z3.ULE(col + 1 + L, end)), cex)
        K.prove(E, b, 'port ends at the first non-digit', z3.Or(col + 1 + L == n, z3.Not(digit(B.fn(col + 1 + L)))), cex)
        b.assume(z3.ULT(k, L)); K.prove(E, b, 'port text', z3.And(tobv(rd_(k), 8) == B.fn(col + 1 + k), digit(B.fn(col + 1 + k))), cex)
        b = s.clone(); b.assume(z3.And(col == NP, z3.Not(none)))
        K.prove(E, b, 'without a port: length of the scheme', L == r, cex)
        b.assume(z3.ULT(k, L)); K.prove(E, b, 'without a port: the scheme', tobv(rd_(k), 8) == B.fn(k), cex)
        b = s.clone(); b.assume(z3.And(col == NP, none))
        K.prove(E, b, 'without port and scheme: http', z3.And(L == 4, *[tobv(rd_(BV(i)), 8) == c for i, c in enumerate(b'http')]), cex)
