"""Loop cutting: inductive invariants = linear cells over a ghost iteration counter, control cells with a
constant period, Houdini-filtered bound candidates, and candidates supplied by the contract."""
import re, sys, z3
from .engine import *
from .engine import PathEnd

class POISON_:
    def __repr__(s): return 'POISON'
POISON = POISON_()

class Cell:
    """a loop-modified location.  kind: 'slot' (obj,off,size) | 'size' (obj) | 'seq' (obj) | 'phi' (reg) | 'ghost' key"""
    __slots__ = ('kind', 'key', 'cls', 'entry', 'delta', 'var', 'w')
    def __init__(s, kind, key): s.kind = kind; s.key = key; s.cls = None; s.entry = None; s.delta = None; s.var = None; s.w = 64
    def __repr__(s): return 'Cell(%s,%s,%s,d=%s)' % (s.kind, s.key, s.cls, s.delta)

def read_cell(E, st, fr, c):
    if c.kind == 'phi': return fr.regs.get(c.key)
    if c.kind == 'ghost': return st.ghost.get(c.key)
    o = st.mem.get(c.key[0] if c.kind == 'slot' else c.key)
    if o is None: return None
    if c.kind == 'size': return o.size
    if c.kind == 'seq': return o.seq
    if c.kind == 'alive': return o.alive
    s = o.slots.get(c.key[1])
    if s is None or s[0] != c.key[2]: return None
    return s[1]
def write_cell(E, st, fr, c, v):
    if c.kind == 'phi': fr.regs[c.key] = v; return
    if c.kind == 'ghost': st.ghost[c.key] = v; return
    o = st.wobj(c.key[0] if c.kind == 'slot' else c.key)
    if c.kind == 'size': o.size = v
    elif c.kind == 'seq': o.seq = v
    elif c.kind == 'alive': o.alive = v
    else:
        E.kill_slots_hard(o, c.key[1], c.key[2])
        if v is not None: o.slots[c.key[1]] = (c.key[2], v)

def diff(E, S0, f0, S1, f1, skip):
    """cells of S0 (header state) whose value differs in S1 (state at a later visit)"""
    out = {}
    for id, o1 in S1.mem.items():
        o0 = S0.mem.get(id)
        if o0 is None:
            if isinstance(id, tuple): o0 = E.global_obj(id[1])
            else: continue
        if o0 is o1: continue
        if o0.alive != o1.alive: out[('alive', id)] = 1
        if not same(o0.size, o1.size): out[('size', id)] = 1
        if o0.seq is not o1.seq:
            out[('seq', id)] = 1
        for k in set(o0.slots) | set(o1.slots):
            a, b = o0.slots.get(k), o1.slots.get(k)
            if a is None or b is None or a[0] != b[0] or not same(a[1], b[1]):
                n = max(x[0] for x in (a, b) if x is not None)
                if a is not None and b is not None and a[0] != b[0]: out[('seq', id)] = 1
                out[('slot', (id, k, n))] = 1
    for r in phis(f0):
        if not same(f0.regs.get(r), f1.regs.get(r)): out[('phi', r)] = 1
    for k in set(S0.ghost) | set(S1.ghost):
        if isinstance(k, str) and k.startswith('g:'):
            if not same_ghost(S0.ghost.get(k), S1.ghost.get(k)): out[('ghost', k)] = 1
    return out
def same_ghost(a, b):
    if isinstance(a, Seq) or isinstance(b, Seq): return a is b
    return same(a, b)
def phis(fr): return [x.dst for x in fr.fn.blocks[fr.blk] if x.op == 'phi']

class LoopCtx: pass

def havoc_value(E, st, v, w, name):
    if w == 1: return z3.Bool(fresh_name(name))
    return FBV(name, w)

def cut_loop(E, st, fr, hdr, key):
    body = fr.fn.loops[hdr]; uid = fr.uid; depth = len(st.frames)
    E.loops_cut[key] = E.loops_cut.get(key, 0) + 1
    S0 = st
    m = FBV('iter')
    cells = {}          # (kind,key) -> Cell
    dem = fr.fn.dem
    opts = E.cut.get(key, {})
    def mkstop(prefix_n):
        def stop(s):
            f = s.frames[-1]
            if f.uid != uid: return None
            if len(s.frames) < depth: return 'exit'
            if f.blk == hdr and f.prev in body: return 'back'
            if f.blk not in body: return 'exit'
            return None
        return stop
    def header_state(ctl_free=False):
        """state at the loop header after m iterations, with the current classification"""
        h = S0.clone(); hf = h.frames[-1]
        for c in cells.values():
            e = c.entry
            if c.cls == 'linear':
                v = None
                w = c.w
                mm = m if w == 64 else (z3.Extract(w - 1, 0, m) if w < 64 else z3.ZeroExt(w - 64, m))
                if isinstance(e, Ptr): v = Ptr(e.obj, add64(e.off, simp(tobv(c.delta, 64) * m)))
                else: v = simp(tobv(e, w) + tobv(c.delta, w) * mm)
                write_cell(E, h, hf, c, v)
            elif c.cls == 'control': pass
            elif c.cls == 'fresh': write_cell(E, h, hf, c, Ptr(e.obj, c.var) if isinstance(e, Ptr) else c.var)
            elif c.cls == 'seq': write_cell(E, h, hf, c, c.var)
            elif c.cls == 'poison': write_cell(E, h, hf, c, POISON)
            elif c.cls == 'undef': write_cell(E, h, hf, c, None)
            elif c.cls == 'buf':
                o = h.new_obj(c.var[0], 'strbuf' if e.kind == 'string' else 'vecbuf', 'strbuf' if e.kind == 'string' else 'buf')
                if c.delta is None: c.delta = o.id
                else:
                    del h.mem[o.id]; o.id = c.delta; h.mem[o.id] = o
                o.seq = c.var[1]; write_cell(E, h, hf, c, Buf(e.kind, o.id, e.esz))
        h.frames[-1].newblk = False
        return h
    def add_cell(k):
        kind, kk = k
        c = Cell(kind, kk)
        c.entry = read_cell(E, S0, S0.frames[-1], c)
        if kind == 'slot':
            e = c.entry; c.w = 8 * kk[2]
        elif kind == 'phi':
            for x in S0.frames[-1].fn.blocks[hdr]:
                if x.op == 'phi' and x.dst == kk: c.w = x.a[0].w if x.a[0].k == 'int' else 64
        elif kind == 'ghost':
            e = c.entry
            if isinstance(e, z3.BitVecRef): c.w = e.size()
        cells[k] = c
        return c
    def classify(c, news):
        """news: values at back states"""
        e = c.entry
        if c.kind == 'seq' or (c.kind == 'ghost' and isinstance(e, Seq)):
            if all(v is None for v in news) and e is None: c.cls = 'undef'
            elif any(v is None for v in news) and c.kind == 'seq': c.cls = 'undef' if e is None else 'seq'
            else: c.cls = 'seq'
            c.var = Base(fresh_name('loopbuf')); return
        if c.kind == 'alive': raise Unsupported('loop frees an object allocated outside it (%s)' % dem)
        vals = [e] + list(news)
        if any(v is None for v in vals):
            c.cls = 'undef'; return
        if isinstance(e, Buf):
            if all(isinstance(v, Buf) for v in news): c.cls = 'buf'; L = FBV('buflen'); c.var = (L, Base(fresh_name('loopbuf'))); return
            raise Unsupported('buffer cell mixes kinds')
        if isinstance(e, Ptr) or any(isinstance(v, Ptr) for v in news):
            if isinstance(e, Ptr) and not isinstance(e, FnPtr) and all(isinstance(v, Ptr) and v.obj == e.obj for v in news) and e.obj is not None:
                c.cls = 'fresh'; c.w = 64; c.var = FBV('loopptr'); return
            c.cls = 'poison'; return
        if all(isinstance(v, (int, z3.ExprRef)) for v in vals):
            c.cls = 'fresh'; c.var = havoc_value(E, S0, e, c.w, 'loop'); return
        c.cls = 'poison'
    E_quiet = E.quiet; phase = ['']
    visits = {'n': 1}
    ctl = []
    def run_body(h, cands_assumed, quiet):
        """one super-iteration; returns (finals, backs, exits)"""
        old = E.quiet
        if E.verbose: print('   body %s@%s %s' % (short(dem)[-40:], hdr, phase[0])); sys.stdout.flush()
        if quiet: E.quiet += 1
        try:
            fin, bk, ex = [], [], []
            cur = [h]
            for v in range(8):
                f1, b1, e1 = E.explore(cur, mkstop(v))
                fin += f1; ex += e1
                nxt = []
                for b in b1:
                    if not ctl or all(same(read_cell(E, b, b.frames[-1], cells[k]), cells[k].entry) for k in ctl): bk.append(b)
                    else:
                        b.frames[-1].newblk = False
                        nxt.append(b)
                cur = nxt
                if not cur: break
            if cur: raise Unsupported('control cells do not return')
            return fin, bk, ex
        finally: E.quiet = old
    # ---------------- phase 1: which cells change
    phase[0] = '1'
    for rnd in range(30):
        h = header_state()
        fin, bk, ex = run_body(h, [], True)
        hf = h0 = header_state()
        newk = {}
        vals = {}
        for b in bk:
            for k in diff(E, h0, h0.frames[-1], b, b.frames[-1], cells):
                newk.setdefault(k, []).append(b)
        fresh_k = [k for k in newk if k not in cells]
        # drop seq/size cells of objects covered by a 'buf' cell
        if not fresh_k: break
        todo_ctl = []
        for k in fresh_k:
            c = add_cell(k)
            nv = [read_cell(E, b, b.frames[-1], c) for b in bk]
            if k[0] in ('slot', 'phi') and isinstance(c.entry, int) and all(isinstance(v, int) for v in nv) and c.w <= 64:
                todo_ctl.append(k)
            classify(c, nv)
        for k in todo_ctl:
            if opts.get('nocontrol') or any(rx.search(dem) for rx in E.nocontrol): break
            mk = (key, 'ctl', k[0], (E.objname(S0, k[1][0]), k[1][1:]) if k[0] == 'slot' else k[1])
            if mk in E.loop_memo: continue
            c = cells[k]; save = c.cls
            # does it return to its entry value within 8 visits?
            c.cls = 'control'
            ctl.append(k); phase[0] = 'control %r' % (k,)
            try:
                run_body(header_state(), [], True)
                visits['n'] = 0
            except Unsupported:
                ctl.remove(k); c.cls = save; E.loop_memo[mk] = set()
            except NeedCut:
                ctl.remove(k); c.cls = save
                raise
    else: raise Unsupported('loop frame does not stabilise (%s)' % dem)
    # ---------------- phase 2: linear cells
    phase[0] = '2'
    h = header_state()
    fin, bk, ex = run_body(h, [], True)
    h = header_state()
    if not bk:
        pass
    deltas = {}
    for k, c in cells.items():
        if c.cls != 'fresh' or c.w < 2: continue
        ds = []
        base = c.var
        ok = True
        for b in bk:
            v = read_cell(E, b, b.frames[-1], c)
            if isinstance(v, Ptr): v = v.off
            if not isinstance(v, (int, z3.BitVecRef)): ok = False; break
            d = simp(tobv(v, c.w) - base)
            ds.append(d)
        if not ok or not ds: continue
        d0 = ds[0]
        if isinstance(d0, int):
            if all(isinstance(d, int) and d == d0 for d in ds): deltas[k] = d0
            else:
                # maybe equal under the path condition
                pass
        elif all(is_sym(d) and d.eq(d0) for d in ds) and not depends_on(d0, [x.var for x in cells.values() if is_sym(x.var)]) and loop_invariant_term(E, S0, d0):
            deltas[k] = d0
    for k, d in deltas.items():
        c = cells[k]; c.cls = 'linear'; c.delta = d
        # soundness of the linear form is re-checked below on every back edge
    # ---------------- phase 3: candidate invariants
    def back_obligs_linear(b):
        """linear cells advance by delta"""
        gs = []
        for k, c in cells.items():
            if c.cls == 'linear':
                v = read_cell(E, b, b.frames[-1], c)
                e = c.entry; w = c.w
                if isinstance(v, Ptr): v = v.off; e = e.off
                mm = m + 1
                mm = mm if w == 64 else (z3.Extract(w - 1, 0, mm) if w < 64 else z3.ZeroExt(w - 64, mm))
                gs.append((k, tobv(v, w) == tobv(e, w) + tobv(c.delta, w) * mm))
        return gs
    while True:
        phase[0] = 'linear'
        h = header_state()
        fin, bk, ex = run_body(h, [], True)
        bad = None
        for b in bk:
            for k, g in back_obligs_linear(b):
                if E.valid_quiet(b, g) != 'proved': bad = k; break
            if bad: break
        if bad is None: break
        cells[bad].cls = 'fresh'; cells[bad].delta = None
    base_pc = len(S0.pc)
    cands = {}
    vars_fresh = {c.var.get_id(): c for c in cells.values() if c.cls == 'fresh' and is_sym(c.var)}
    # guards seen on the way to a back edge
    def atoms(e, out):
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
            for x in e.children(): atoms(x, out)
        else: out.append(e)
    S0ids = set(x.get_id() for x in S0.pc)
    mvar = m
    guard_terms = []
    for b in bk:
        for g in b.pc[base_pc:]:
            if g.get_id() in S0ids: continue
            ok = loop_invariant_term(E, S0, g, extra=[m])
            if ok:
                nm = 'g%d' % g.get_id()
                cands[nm] = ('formula', (lambda g: lambda mm, rd: z3.Or(mm == 0, z3.substitute(g, (m, mm - 1))))(g))
            al = []; atoms(g, al)
            for a in al:
                if z3.is_app(a) and a.num_args() == 2 and isinstance(a.arg(0), z3.BitVecRef): guard_terms.append((a.arg(0), a.arg(1)))
    for e in ex:
        for g in e.pc[base_pc:]:
            al = []; atoms(g, al)
            for a in al:
                if z3.is_app(a) and a.num_args() == 2 and isinstance(a.arg(0), z3.BitVecRef): guard_terms.append((a.arg(0), a.arg(1)))
    # bounds for fresh scalar cells and for linear ones
    def inv_terms():
        out = {}
        for x, y in guard_terms:
            for t in (x, y):
                if t.size() in (64, 32) and loop_invariant_term(E, S0, t): out[t.get_id()] = t
        return list(out.values())
    its = inv_terms()[:12]
    seen_t = set(t.get_id() for t in its)
    for c in cells.values():
        if c.cls == 'linear':
            e = c.entry.off if isinstance(c.entry, Ptr) else c.entry
            if is_sym(e) and e.size() in (64, 32) and e.get_id() not in seen_t: its.append(e); seen_t.add(e.get_id())
    for t in its:
        tt = t if t.size() == 64 else z3.ZeroExt(64 - t.size(), t)
        cands['m<=%d' % t.get_id()] = ('formula', (lambda t: lambda mm, rd: z3.ULE(mm, t))(tt))
    for k, c in cells.items():
        if c.cls not in ('fresh', 'linear') or c.w not in (64, 32): continue
        e = c.entry.off if isinstance(c.entry, Ptr) else c.entry
        rdv = (lambda c: lambda rd: rd(c))(c)
        for t in its:
            if t.size() != c.w: continue
            cands['%r<=%d' % (k, t.get_id())] = ('formula', (lambda t, rv: lambda mm, rd: z3.ULE(tobv(rv(rd), t.size()), t))(t, rdv))
            if c.cls == 'fresh':
                cands['%r<%d' % (k, t.get_id())] = ('formula', (lambda t, rv: lambda mm, rd: z3.ULT(tobv(rv(rd), t.size()), t))(t, rdv))
        cands['%r>=entry' % (k,)] = ('formula', (lambda e, w, rv: lambda mm, rd: z3.ULE(tobv(e, w), tobv(rv(rd), w)))(e, c.w, rdv))
        if c.cls == 'fresh':
            cands['%r<=entry' % (k,)] = ('formula', (lambda e, w, rv: lambda mm, rd: z3.UGE(tobv(e, w), tobv(rv(rd), w)))(e, c.w, rdv))
            if c.w == 32:
                cands['%r>=0' % (k,)] = ('formula', (lambda rv: lambda mm, rd: tobv(rv(rd), 32) >= 0)(rdv))
    # pairwise relations between fresh cells of the same width
    fc = [(k, c) for k, c in cells.items() if c.cls in ('fresh', 'linear') and c.w == 64][:8]
    for i, (k1, c1) in enumerate(fc):
        for k2, c2 in fc:
            if k1 == k2 or (c1.cls == 'linear' and c2.cls == 'linear'): continue
            cands['%r<=%r' % (k1, k2)] = ('formula', (lambda a, b: lambda mm, rd: z3.ULE(tobv(rd(a), 64), tobv(rd(b), 64)))(c1, c2))
    # buffers keep the size limit
    for k, c in cells.items():
        if c.kind == 'size' and c.cls in ('fresh', 'linear'):
            cands['%r<max' % (k,)] = ('formula', (lambda c: lambda mm, rd: z3.ULT(tobv(rd(c), 64), z3.BitVecVal(MAXLEN, 64)))(c))
        if c.cls == 'buf':
            cands['%r<max' % (k,)] = ('formula', (lambda c: lambda mm, rd: z3.ULT(tobv(rd(c), 64), z3.BitVecVal(MAXLEN, 64)))(c))
    if any(rx.search(dem) for rx in E.onlyinv): cands = {}      # the contract's own invariants are enough for this function
    # contract-supplied candidates
    ctx = LoopCtx(); ctx.E = E; ctx.S0 = S0; ctx.cells = cells; ctx.m = m; ctx.dem = dem; ctx.fr = fr; ctx.hdr = hdr; ctx.key = key
    ctx.read = lambda s, c: read_cell(E, s, s.frames[-1], c)
    for rx, cb in E.invs:
        if rx is None or rx.search(dem):
            h = header_state(); ctx.h = h
            for nm, cand in (cb(ctx) or []): cands['contract:' + nm] = cand
    # cand forms: ('formula', f(mm, rd)) ; ('state', f(state, mm)) -> formula ; ('forall', trigger(state)->decl/None, f(state, mm, k)->formula)
    def rd_in(s):
        def rd(c):
            if c.cls == 'buf':
                b = read_cell(E, s, s.frames[-1], c); return s.obj(b.obj).size
            v = read_cell(E, s, s.frames[-1], c)
            return v.off if isinstance(v, Ptr) else v
        return rd
    def inst(cand, s, mm, assume):
        kind = cand[0]
        if kind == 'formula': return cand[1](mm, rd_in(s))
        if kind == 'state': return cand[1](s, mm)
        if kind == 'forall':
            if assume: return None
            k0 = SKV('sk'); return cand[2](s, mm, k0)
    def assume_cands(h, names):
        for n in names:
            cand = cands[n]
            if cand[0] == 'forall':
                d = cand[1](h)
                if d is None: continue
                for dd in (d if isinstance(d, list) else [d]):
                    h.facts.append((dd.fn if isinstance(dd, Base) else dd, (lambda cand: lambda k: cand[2](h_ref[0], m, k))(cand)))
            else:
                f = inst(cand, h, m, True)
                if f is not None: h.assume(f)
    h_ref = [None]
    def hstate(names):
        h = header_state(); snap = h.clone(); h_ref[0] = snap
        # facts must be evaluated on the header snapshot
        hr = [snap]
        for n in names:
            cand = cands[n]
            if cand[0] == 'forall':
                d = cand[1](h)
                if d is None: continue
                for dd in (d if isinstance(d, list) else [d]):
                    h.facts.append((dd.fn if isinstance(dd, Base) else dd, (lambda cand: lambda *k: cand[2](snap, m, *k))(cand)))
            else:
                f = inst(cand, snap, m, True)
                if f is not None: h.assume(f)
                if n.startswith('m<=') and is_sym(f): mids[n] = f.get_id()
        return h
    mids = {}
    # a candidate that failed at an earlier cut of this loop from a like entry state is not tried again
    ren = {}
    def norm(n):
        def f(mo):
            d = mo.group(0)
            if int(d) < 16: return d
            return '#%d' % ren.setdefault(d, len(ren))
        return re.sub(r'\d+', f, n)
    nm = {n: norm(n) for n in cands}
    sig = (key, tuple((c.kind, c.cls, c.w, c.entry if isinstance(c.entry, int) else type(c.entry).__name__) for c in cells.values()), tuple(nm.values()))
    memo = E.loop_memo.setdefault(sig, set())
    cands = {n: c for n, c in cands.items() if nm[n] not in memo}
    alive = []
    zero = z3.BitVecVal(0, 64)
    for n, cand in cands.items():
        try: g = inst(cand, S0, zero, False)
        except Unsupported: continue
        except (AttributeError, TypeError, KeyError) as ex_:
            if E.verbose: print('   candidate', n, repr(ex_))
            continue
        if g is None: continue
        if E.valid_quiet(S0, g) == 'proved': alive.append(n)
        elif E.verbose and n.startswith('contract:'): print('   not established:', n)
    for rnd in range(12):
        phase[0] = 'houdini %d' % len(alive)
        h = hstate(alive)
        fin, bk, ex = run_body(h, alive, True)
        drop = set()
        for b in bk:
            for n in alive:
                if n in drop: continue
                try: g = inst(cands[n], b, m + 1, False)
                except Unsupported: drop.add(n); continue
                if g is None: continue
                bb = b
                if n in mids:              # a bound on the iteration count has to follow without the other such bounds
                    oth = set(v for k2, v in mids.items() if k2 != n) - {mids[n]}
                    bb = b.clone(); bb.pc = [x for x in b.pc if x.get_id() not in oth]
                vq = E.valid_quiet(bb, g)
                if vq != 'proved':
                    drop.add(n)
                    if E.dbg_hook and n.startswith('contract:'): E.dbg_hook(E, b, n, g)
                    if E.verbose and n.startswith('contract:'): print('     ', n, vq, str(simp(g))[:300] if len(str(g)) < 3000 else '')
        if not drop: break
        if E.verbose: print('   dropped invariants:', sorted(drop))
        alive = [n for n in alive if n not in drop]
        memo.update(nm[n] for n in drop)
    else: raise Unsupported('Houdini does not converge')
    E.loop_info.append((dem, hdr, len(cells), alive))
    if E.verbose:
        print('  loop in %s: cells=%s' % (short(dem), [(c.kind, c.key if c.kind != 'slot' else (S0.obj(c.key[0]).name, c.key[1]), c.cls, c.delta) for c in cells.values()]))
        print('    invariants:', alive)
    # ---------------- final pass (records obligations inside the body)
    h = hstate(alive); phase[0] = 'final'
    if not E.quiet: E.itervars.append(m)
    fin, bk, ex = run_body(h, alive, False)
    if not E.quiet:
        E.obligs.append(Oblig('loop invariant established and preserved (%d conjuncts)' % (len(alive) + sum(1 for c in cells.values() if c.cls == 'linear')), 'proved', short(dem), 0.0))
    out = []
    for o in fin:
        # function-level outcome reached inside the loop (frames gone): give back as finished state
        o.st.outcome = o
        out.append(o.st)
    for e in ex:
        e.frames[-1].newblk = e.frames[-1].newblk if len(e.frames) else False
        out.append(e)
    return out

def depends_on(e, vs):
    ids = set(v.get_id() for v in vs)
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        st.extend(x.children())
    return False
def loop_invariant_term(E, S0, e, extra=()):
    """all constants of e were created before the loop: decided by fresh-name counter"""
    lim = E.loop_epoch[-1] if E.loop_epoch else None
    ok = set(x.get_id() for x in extra)
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if '!' in nm:
                n = int(nm.rsplit('!', 1)[1])
                if n >= lim and x.get_id() not in ok: return False
        st.extend(x.children())
    return True
