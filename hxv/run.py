"""Runs the contracts of one property (or all) against /repo's current tree."""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, importlib, multiprocessing as mp, signal, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('HXV_REPO', '/repo')
CXX = 'clang++-20'
INC = ['-I%s/include' % REPO, '-I%s/lib/liburing/include' % REPO]
IRFLAGS = ['-std=c++20', '-O0', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-access-control', '-gline-tables-only', '-S', '-emit-llvm', '-w']

def build_ir(tu, out):
    src = '%s/harness/%s.cpp' % (ROOT, tu)
    r = subprocess.run([CXX] + IRFLAGS + INC + [src, '-o', out], capture_output=True, text=True)
    return r.returncode, r.stderr[-3000:]
def build_native(tu, out, san=True):
    src = '%s/harness/%s.cpp' % (ROOT, tu)
    fl = ['-std=c++20', '-O1', '-g1', '-w', '-fno-access-control', '-DHXV_NATIVE', '-I%s/harness' % ROOT, '-pthread']
    if san: fl += ['-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']
    r = subprocess.run([CXX] + fl + INC + [src, '-o', out], capture_output=True, text=True)
    return r.returncode, r.stderr[-3000:]

def load_contracts():
    from . import contract
    d = os.path.join(ROOT, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])
    return contract.REG

def run_contract(name, irpath, verbose, q):
    from . import contract
    res = {'name': name, 'obligs': [], 'error': None, 'fns': {}, 'models': [], 'notes': [], 'solver': 0.0, 'queries': 0, 'cexs': [], 'loops': [], 'assume': [], 'secs': 0, 'backends': {}}
    t = time.time(); k = None
    try:
        c = load_contracts()[name]
        mod = contract.Module(irpath)
        k = contract.K(mod, verbose=verbose)
        c.run(k)
    except contract.Missing as e: res['error'] = 'contract target missing: %s' % e
    except contract.NeedCut as e: res['error'] = 'loop not cut: %s' % (e.key,)
    except (contract.Unsupported, contract.Budget) as e: res['error'] = 'verifier limit: %s' % e
    except Exception as e: res['error'] = 'verifier limit (%s): %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    if k is not None:
        for E in k.engines:
            res['obligs'] += [(o.name, o.status, o.where, round(o.secs, 3)) for o in E.obligs]
            for fn in E.fns_used.values():
                f = mod.file_of_fn(fn.name) or ''
                res['fns'][fn.dem] = f
            res['models'] += list(E.used_models)
            
            for kk, nn in E.backends.items(): res['backends'][kk] = res['backends'].get(kk, 0) + nn
            res['solver'] += E.solver_time; res['queries'] += E.nqueries
            res['loops'] += ['%s@%s: %d loop-modified cells, %d Houdini/contract conjuncts' % (contract.short(a), b, c_, len(d)) for a, b, c_, d in E.loop_info]
        res['notes'] = k.notes; res['cexs'] = k.cexs; res['assume'] = k.assumptions
    res['secs'] = time.time() - t
    q.put(res)

EMPTY = {'obligs': [], 'fns': {}, 'models': [], 'notes': [], 'solver': 0, 'queries': 0, 'cexs': [], 'loops': [], 'assume': [], 'backends': {}}
def pool(jobs, limit=8, verbose=False, deadline=None, fails_deadline=None, probe=None, probe_at=None):
    """jobs: (contract name, ir path, timeout).  Once some contract has failed, the others get fails_deadline more seconds."""
    """probe: a search for a failing input on the real code, started at time probe_at while proofs are still open; a hit ends them"""
    out = []; running = []; failed_at = None; pp = pq = hit = None
    jobs = list(jobs)
    def fail(n, t0, why): return dict(EMPTY, name=n, error=why, secs=time.time() - t0)
    while jobs or running:
        if probe and probe_at and pp is None and time.time() > probe_at and failed_at is None:
            pq = mp.Queue(); pp = mp.Process(target=probe, args=(pq,)); pp.start()
        if pp is not None and hit is None:
            try: hit = pq.get(timeout=0.01)
            except Exception: pass
            if hit and hit[0]:
                failed_at = failed_at or time.time()
                for n, p, q, t0, tmo in running: killtree(p); out.append(fail(n, t0, 'stopped: not decided when a failing input was found on the real code'))
                for n, ir, tmo in jobs: out.append(fail(n, time.time(), 'stopped: not decided when a failing input was found on the real code'))
                break
        while jobs and len(running) < limit:
            n, ir, tmo = jobs.pop(0)
            q = mp.Queue(); p = mp.Process(target=run_contract, args=(n, ir, verbose, q)); p.start()
            running.append((n, p, q, time.time(), tmo))
        for r in list(running):
            n, p, q, t0, tmo = r
            res = None
            try: res = q.get(timeout=0.05)
            except Exception: pass
            if res is None and not p.is_alive():
                try: res = q.get(timeout=1)
                except Exception: res = fail(n, t0, 'verifier process died')
            if res is None and time.time() - t0 > tmo: killtree(p); res = fail(n, t0, 'verifier limit: no answer within %d s' % tmo)
            if res is None and deadline and time.time() > deadline: killtree(p); res = fail(n, t0, 'verifier limit: check budget used up')
            if res is None and failed_at and fails_deadline and time.time() > failed_at + fails_deadline: killtree(p); res = fail(n, t0, 'stopped after another obligation had failed')
            if res is not None:
                p.join(5); running.remove(r); out.append(res)
                if failed_at is None and (res['error'] or any(o[1] != 'proved' for o in res['obligs'])): failed_at = time.time()
    if pp is not None and pp.is_alive(): killtree(pp)
    return (out, hit) if probe else out
def killtree(p):
    import signal
    try: kids = subprocess.run(['pgrep', '-P', str(p.pid)], capture_output=True, text=True).stdout.split()
    except Exception: kids = []
    p.kill()
    for k in kids:
        try: os.kill(int(k), signal.SIGKILL)
        except Exception: pass

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--contract'); ap.add_argument('-v', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--ir'); ap.add_argument('--setup', action='store_true')
    a = ap.parse_args(argv)
    reg = load_contracts()
    if a.setup:
        for t in (CXX, 'z3', 'z3-new', 'cvc5'):
            print(t, shutil.which(t))
        print(len(reg), 'contracts'); return 0
    tmp = tempfile.mkdtemp(prefix='hxv.')
    try:
        if a.contract:
            c = reg[a.contract]
            ir = a.ir or os.path.join(tmp, c.tu + '.ll')
            if not a.ir:
                rc, err = build_ir(c.tu, ir)
                if rc: print(err); return 2
            class Q:
                def put(s, r):
                    for o in r['obligs']:
                        if o[1] != 'proved' or a.v: print(o)
                    print({k: (v if k!='cexs' else str(v)[:300]) for k, v in r.items() if k not in ('obligs', 'fns', 'models')})
                    print('obligations', len(r['obligs']), 'proved', sum(1 for o in r['obligs'] if o[1] == 'proved'))
            run_contract(a.contract, ir, a.v, Q())
            return 0
        from . import check
        return check.run_property(a.prop, a.tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
