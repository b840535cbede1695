"""Contract registry and the specification vocabulary used by /verif/contracts/*.py"""
import re, z3, time, traceback
from .ir import Module
from .engine import *
from .engine import PathEnd
from . import models, loops

REG = {}
# property ids
ID = {'base64': 'C01', 'sha1': 'C02', 'wsenc': 'C03', 'wsdec': 'C04', 'num': 'C05', 'hdr': 'C06', 'httpreq': 'C07', 'httpres': 'C08', 'url': 'C09', 'str': 'C10',
      'json': 'C11', 'phash': 'C12', 'cont': 'C13', 'io': 'C14', 'file': 'C15', 'router': 'C16', 'token': 'C17', 'range': 'C18', 'socks': 'C19', 'task': 'C20', 'rc': 'C21', 'sse': 'C22'}
class Contract:
    def __init__(s, name, prop, tu, fn, timeout, bounded): s.name = name; s.prop = prop; s.tu = tu; s.run = fn; s.timeout = timeout; s.bounded = bounded; s.doc = (fn.__doc__ or '').strip()
def contract(prop, tu, timeout=400, bounded=None):
    def d(fn):
        props = [ID.get(x, x) for x in ([prop] if isinstance(prop, str) else prop)]
        REG[fn.__name__] = Contract(fn.__name__, props, tu, fn, timeout, bounded)
        return fn
    return d

def BV(v, w=64): return z3.BitVecVal(v, w)
def zext(v, w):
    if isinstance(v, int): return BV(v, w)
    return v if v.size() == w else z3.ZeroExt(w - v.size(), v)
def implies(a, b): return z3.Implies(tobool(a), tobool(b))

class Missing(Exception): pass

class K:
    """what a contract sees"""
    def __init__(self, mod, verbose=False, seed=1):
        self.m = mod; self.verbose = verbose; self.obligs = []; self.engines = []; self.notes = []; self.assumptions = []
        self.fns = {}; self.cexs = []
    def engine(self, **kw):
        E = Engine(self.m, verbose=self.verbose, **kw)
        models.install(E); E.K = self
        self.engines.append(E)
        return E
    def fn(self, rx, need_body=True):
        r = re.compile(rx)
        c = [f for f in self.m.fnlines if r.fullmatch(self.m.ndem[f])]
        # drop constructor/destructor base variants duplicates
        if not c: raise Missing('no function matches ' + rx)
        return c[0]
    def assume(self, text):
        if text not in self.assumptions: self.assumptions.append(text)
    def call(self, E, st, fname, args, allow=('ret',), name=''):
        """run a function under contract; outcomes of other kinds are violations"""
        outs = E.run_fn(st, fname, args)
        good = []
        for o in outs:
            if o.kind not in allow:
                ok = E.feasible(o.st, [z3.BoolVal(True)]) if False else True
                E.oblige(o.st, '%s: %s %s is impossible' % (name or short(self.m.ndem.get(fname, fname)), o.kind, o.exc.tname if o.exc else ''), False, where=short(self.m.ndem.get(fname, fname)))
                continue
            good.append(o)
        live = [o for o in good if E.feasible_sure(o.st)]
        self.cover(E, fname, len(live))
        return good
    def lemma(self, E, st, goals, tmo=20):
        """intermediate facts: each is proved on this path, then available to the following obligations"""
        for g in goals:
            if E.valid(st, g, tmo)[0] == 'proved': st.assume(g)
    def ghost_finds(self, E, ghosts):
        """every search result of the code is identified with one of the ghost positions where that can be proved; later obligations use the ghost"""
        def cb(st, r):
            for g in ghosts:
                if E.valid(st, r == g, 8)[0] == 'proved': return g
        E.on_find = cb
    def lemma_iter(self, E, st, terms):
        """terms that may equal a loop iteration count (or one more)"""
        for t in terms:
            for m in E.itervars:
                done = False
                for g in (t == m, t == m + 1):
                    if E.valid(st, g, 20)[0] == 'proved': st.assume(g); done = True; break
                if done: break
    def cover(self, E, what, n):
        E.obligs.append(Oblig('cover: %s has a feasible completed path' % short(self.m.ndem.get(what, str(what))), 'proved' if n else 'failed', '', 0.0))
    def prove(self, E, st, name, goal, cex=None, tmo=None):
        """postcondition obligation; cex(model) -> concrete input for the replay"""
        n0 = len(E.obligs)
        ok = E.oblige(st, name, goal, where='postcondition', tmo=tmo)
        if not ok and cex is not None and len(E.obligs) > n0:
            ob = E.obligs[-1]
            if ob.model:
                try: self.cexs.append(cex(ob.model[0]))
                except Exception as e: self.notes.append('cex extraction: %r' % (e,))
        return ok

# ---------------------------------------------------------------- spec helpers
def str_result(st, p):
    """(len, read) of the std::string / byte vector at p"""
    b = st.getbuf(p); o = st.obj(b.obj)
    if o.slots: return o.size, st.E.rseq(st, b.obj).read
    return o.size, (o.seq.read if o.seq is not None else (lambda k: 0))
def new_string(st, name, n=None, seq=None, at=None, kind='string'):
    """a symbolic std::string object; returns (Ptr, len, Base)"""
    p = at or Ptr(st.new_obj(BUFSIZE[kind], name + '.obj', 'alloca').id, 0)
    ln = n if n is not None else z3.BitVec(name + '_len', 64)
    if is_sym(ln): st.assume(z3.ULT(ln, BV(MAXLEN)))
    b = seq if seq is not None else Base(name)
    o = st.mkbuf(p, kind, ln, b, 1, name); o.kind = 'strbuf' if kind == 'string' else 'buf'
    return p, ln, b
def empty_slot(st, size, name='out'): return Ptr(st.new_obj(size, name, 'alloca').id, 0)

def buf_cells(ctx):
    for c in ctx.cells.values():
        if c.cls == 'seq' and c.kind == 'seq': yield c, (lambda c: lambda s: (s.obj(c.key).size, rd(s, c.key)))(c)
        elif c.cls == 'buf': yield c, (lambda c: lambda s: (s.obj(loops.read_cell(s.E, s, s.frames[-1], c).obj).size, rd(s, loops.read_cell(s.E, s, s.frames[-1], c).obj)))(c)
def rd(s, oid):
    o = s.obj(oid)
    if o.slots: return s.E.rseq(s, oid).read
    return o.seq.read if o.seq is not None else (lambda k: 0)
def in_scope(ctx, size, depth=2):
    """objects of the given size that the variables of the loop's function reach through at most `depth` pointers"""
    out = []; seen = set(); work = [(v, 0) for v in ctx.S0.frames[-1].regs.values() if isinstance(v, Ptr)]
    while work:
        p, d = work.pop()
        if p.obj is None or p.obj in seen: continue
        seen.add(p.obj)
        try: o = ctx.S0.obj(p.obj)
        except Unsupported: continue
        if o.size == size and o.kind == 'alloca' and o.alive: out.append(p.obj)
        if d < depth: work += [(v[1], d + 1) for v in o.slots.values() if isinstance(v[1], Ptr)]
    return sorted(out, key=str)
def trig(c): return [c.var[1]] if c.cls == 'buf' else [c.var]

def inv_pointwise(E, spec, rx=None, name='pointwise'):
    """candidate for every growing byte buffer: forall k < size: buf[k] == spec(k)"""
    def cb(ctx):
        out = []
        for i, (c, get) in enumerate(buf_cells(ctx)):
            def f(s, mm, k, get=get):
                n, r = get(s); return z3.Implies(z3.ULT(k, tobv(n, 64)), tobv(r(k), 8) == tobv(spec(k), 8))
            out.append(('%s[%d]' % (name, i), ('forall', (lambda c: lambda h: trig(c))(c), f)))
        return out
    E.invs.append((re.compile(rx) if rx else None, cb))
def write_progress(ctx):
    """first offset written in one iteration, per modified buffer (as a function of the iteration counter)"""
    return None
def inv_inplace(E, spec, rx=None, name='inplace', strides=(1, 4, 8)):
    """candidate for a buffer rewritten in place from low to high addresses:
    forall k: buf[k] == (k < progress ? spec(k) : entry[k]); the progress terms tried are the linear cells and stride*iterations"""
    def cb(ctx):
        out = []
        for i, (c, get) in enumerate(buf_cells(ctx)):
            if c.kind != 'seq': continue
            ent = c.entry
            progs = [('%d*m' % d, (lambda d: lambda s, mm: mm * d)(d)) for d in strides]
            for k2, c2 in ctx.cells.items():
                if c2.cls in ('linear',) and c2.w == 64:
                    e0 = c2.entry
                    progs.append((str(k2), (lambda c2: lambda s, mm: offv(loops.read_cell(s.E, s, s.frames[-1], c2)))(c2)))
            # starting points: a prefix already processed before this loop
            for pn, pf in progs:
                def f(s, mm, k, get=get, pf=pf, ent=ent):
                    n, r = get(s); P = pf(s, mm)
                    return tobv(r(k), 8) == z3.If(z3.ULT(k, tobv(P, 64)), tobv(spec(k), 8), tobv(ent.read(k), 8))
                out.append(('%s[%d]:%s' % (name, i, pn), ('forall', (lambda c: lambda h: trig(c))(c), f)))
        return out
    E.invs.append((re.compile(rx) if rx else None, cb))
def offv(v): return v.off if isinstance(v, Ptr) else v

def model_bytes(model, base, n):
    """concrete bytes of a Base in a solver model"""
    return bytes((model.eval(base.fn(BV(i)), model_completion=True).as_long()) for i in range(n))
def model_int(model, v):
    if isinstance(v, int): return v
    return model.eval(v, model_completion=True).as_long()

def table_read(tab, idx, w=8):
    return itetree(list(tab), idx, w)

def select(vals, idx, w=8):
    """vals[idx] for a short list of terms"""
    r = tobv(vals[-1], w)
    for i in range(len(vals) - 2, -1, -1): r = z3.If(idx == i, tobv(vals[i], w), r)
    return r
