"""Native replay: drives the real code (same harness translation unit, built with ASan+UBSan) and compares with a
Python reading of the property.  Used to replay solver counterexamples and, after an obligation has failed, to look
for a concrete failing input."""
import subprocess, os, time, random, select, tempfile, importlib, json
from .run import ROOT, build_native

class Driver:
    def __init__(s, exe): s.exe = exe; s.p = None; s.errf = None
    def start(s):
        s.stop()
        s.errf = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.errf, env=env, cwd=tempfile.gettempdir())
    def stop(s):
        if s.p is not None:
            try: s.p.kill()
            except Exception: pass
            s.p.wait(); s.p.stdin.close() if not s.p.stdin.closed else None; s.p.stdout.close(); s.p = None
        if s.errf is not None: s.errf.close(); s.errf = None
    def ask(s, op, args, tmo=10):
        """-> ('ok', bytes) | ('throw', bytes) | ('crash', text) | ('hang', '')"""
        if s.p is None or s.p.poll() is not None: s.start()
        line = op + ''.join(' ' + (bytes(a).hex() or '-') for a in args) + '\n'
        try:
            s.p.stdin.write(line.encode()); s.p.stdin.flush()
        except BrokenPipeError: return s.dead()
        end = time.time() + tmo; out = b''
        fd = s.p.stdout.fileno()
        while not out.endswith(b'\n'):
            left = end - time.time()
            if left <= 0: s.stop(); return 'hang', ''
            r, _, _ = select.select([fd], [], [], left)
            if r:
                c = os.read(fd, 1 << 20)
                if not c: return s.dead()
                out += c
        w = out.decode().strip().split(' ')
        return w[0], (bytes.fromhex(w[1]) if len(w) > 1 and w[1] != '-' else b'')
    def dead(s):
        s.p.wait(); s.errf.seek(0); t = s.errf.read().decode(errors='replace'); s.stop()
        ls = [l for l in t.splitlines() if 'ERROR:' in l or 'runtime error' in l or 'SUMMARY' in l or 'assert' in l.lower()]
        return 'crash', ' | '.join(ls[:4])[:600] or t[-300:]

ORACLES = {}
def oracle(prop):
    """register f(rng, ask) -> generator of (op, args, verdict(reply) -> None|text)"""
    def d(cls): ORACLES.setdefault(prop, []).append(cls); return cls
    return d
class Oracle:
    tu = None; tmo = 10
    def cases(s, rng): raise NotImplementedError      # infinite generator of (op, [bytes])
    def from_cex(s, cex): return []                    # -> list of (op, [bytes])
    def judge(s, op, args, reply): raise NotImplementedError   # None or text

def load():
    d = os.path.join(ROOT, 'oracles')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('oracles.' + f[:-3])
    return ORACLES

def generic_judge(o, op, args, rep):
    if rep[0] == 'crash': return 'the real code crashes: ' + str(rep[1])
    if rep[0] == 'hang': return 'the real code does not return'
    return o.judge(op, args, rep)

def search(prop, tmp, cexs, seed, budget, log, skip=()):
    """-> (violation dict or None, stats)"""
    load()
    stats = {'replayed': 0, 'searched': 0}
    exes = {}
    end = None
    found = None
    for cls in ORACLES.get(prop, []):
        o = cls()
        if o.tu not in exes:
            exe = os.path.join(tmp, 'native_' + o.tu)
            if not os.path.exists(exe):
                rc, err = build_native(o.tu, exe)
                if rc: log('native driver does not build: ' + err[-500:]); exes[o.tu] = None; continue
            exes[o.tu] = exe
    todo = [c for c in ORACLES.get(prop, []) if exes.get(c.tu)]
    for cls in todo:
        o = cls(); d = Driver(exes[o.tu]); rng = random.Random(seed)
        try:
            def run(op, args, src):
                rep = d.ask(op, args, o.tmo)
                why = generic_judge(o, op, args, rep)
                if why and (op, tuple(bytes(a) for a in args)) not in skip:
                    return {'tu': o.tu, 'oracle': cls.__name__, 'op': op, 'args': [bytes(a).hex() for a in args], 'why': why, 'reply': [rep[0], rep[1].hex() if isinstance(rep[1], bytes) else rep[1]], 'source': src}
            for cx in cexs:
                try: cs = o.from_cex(cx)
                except Exception: cs = []
                for op, args in cs:
                    stats['replayed'] += 1
                    v = run(op, args, 'solver counterexample')
                    if v: return v, stats
            end = time.time() + budget / max(1, len(todo))
            for op, args in o.cases(rng):
                if time.time() > end: break
                stats['searched'] += 1
                v = run(op, args, 'search')
                if v: return v, stats
        finally: d.stop()
    return None, stats
