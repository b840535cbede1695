"""Decides one property: discharges every obligation of its contracts on /repo's current source, writes the evidence file."""
import os, sys, json, time, re
from .run import ROOT, REPO, build_ir, build_native, load_contracts, pool
from . import oracle

TRUSTED = ['clang-20 front end (-O0, coroutine lowering off) as the semantics of the C++ source', 'hxv symbolic executor and loop rule (/verif/hxv)', 'z3 (API 5.x, 4.8.12), z3-new, cvc5: an unsat answer of any one is accepted']
ASSUME = ['object and string sizes are below 2^47 bytes', 'allocation does not fail', 'contracts of the standard library functions listed as models (hxv/models.py)',
          'iterator/reference invalidation by container growth is not modelled', 'distinct pointer parameters do not alias unless a contract says so']

# callees of the repository that are replaced at a call by a contract which is itself discharged on their bodies (here or in another property)
PROVED = r'^(void )?HX::net::(base64Encode|sha1::|SHA1Context::|TransparentCase|parseContentLength|parseChunkSize|WebSocket<.*-> _Z)|HX::container::ArrayBuf|^[a-z:<>_, ]*HX::utils::(StringUtil|NumericBaseConverter|strToNum|ByteUtils)'
def proved_model(m): return re.search(PROVED, m) is not None

def known():
    f = os.path.join(ROOT, 'known_findings.jsonl'); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'): out.append(json.loads(l))
    return out

def run_property(prop, tier, tmp, seed=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    reg = load_contracts(); oracle.load()
    cs = [c for c in reg.values() if prop in c.prop]
    if not cs: print('no contract for property', prop); return 1
    log = lambda *a: print(*a, flush=True)
    tus = sorted(set(c.tu for c in cs))
    from concurrent.futures import ThreadPoolExecutor
    irs = {tu: os.path.join(tmp, tu + '.ll') for tu in tus}
    with ThreadPoolExecutor(8) as ex: rcs = dict(zip(tus, ex.map(lambda tu: build_ir(tu, irs[tu]), tus)))
    kn = [k for k in known() if k.get('property') == prop]
    # known findings: replay each on the real code
    skip = set()
    for k in kn:
        if k.get('kind') != 'known': continue
        a = tuple(bytes.fromhex(x) for x in k['args']); skip.add((k['op'], a))
        exe = os.path.join(tmp, 'native_' + k['tu'])
        if not os.path.exists(exe): build_native(k['tu'], exe)
        for cls in oracle.ORACLES.get(prop, []):
            if cls.__name__ != k['oracle']: continue
            d = oracle.Driver(exe)
            try: why = oracle.generic_judge(cls(), k['op'], list(a), d.ask(k['op'], list(a)))
            finally: d.stop()
            if why: log('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    failures = []; results = []; t_ir = time.time() - t0
    for tu, (rc, err) in rcs.items():
        if rc: failures.append({'contract': '(all in %s)' % tu, 'obligation': 'the instantiation unit compiles against the current headers', 'where': tu, 'status': 'failed', 'detail': err[-1500:]})
    jobs = [(c.name, irs[c.tu], c.timeout * (2 if tier == 'thorough' else 1)) for c in sorted(cs, key=lambda c: -c.timeout) if rcs[c.tu][0] == 0]
    budget = 640 if tier != 'thorough' else 6000
    def probe(q):
        d = os.path.join(tmp, 'probe'); os.makedirs(d, exist_ok=True)
        q.put(oracle.search(prop, d, [], seed, 90, lambda *a: None, skip))
    results, hit = pool(jobs, 8, deadline=t0 + budget, fails_deadline=90 if tier != 'thorough' else None, probe=probe, probe_at=t0 + 240)
    cexs = []
    for r in results:
        cexs += r['cexs']
        if r['error']: failures.append({'contract': r['name'], 'obligation': 'verifier accepts the function', 'status': 'undecided', 'where': r['name'], 'detail': r['error']})
        for name, status, where, secs in r['obligs']:
            if status != 'proved': failures.append({'contract': r['name'], 'obligation': name, 'where': where, 'status': status, 'detail': ''})
        if not r['obligs'] and not r['error']: failures.append({'contract': r['name'], 'obligation': 'at least one obligation is generated', 'where': r['name'], 'status': 'failed', 'detail': 'vacuous'})
    viol = 0; stats = {'replayed': 0, 'searched': 0}; v = None
    if failures or tier == 'thorough':
        left = max(30, min(150, 860 - (time.time() - t0) - 40)) if tier != 'thorough' else 120
        v, stats = hit if hit and hit[0] else oracle.search(prop, tmp, cexs, seed, left, log, skip)
    if failures or v:
        viol = 1
        rp = os.path.join(ROOT, 'replay'); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, '%s.json' % prop)
        doc = {'property': prop, 'failed_obligations': failures[:60], 'failing_input': v, 'solver_counterexamples': [str(c)[:400] for c in cexs[:5]], 'search': stats,
               'replay_cmd': 'cd /verif && python3-vt -m hxv.replay %s' % path}
        json.dump(doc, open(path, 'w'), indent=1)
        for f in failures[:8]: log('failed obligation: [%s] %s (%s) at %s %s' % (f['contract'], f['obligation'], f['status'], f['where'], f['detail'][-300:].replace('\n', ' ')))
        if v:
            log('failing input (%s): %s %s -> %s' % (v['source'], v['op'], ' '.join(v['args'])[:400], v['why'][:400]))
            log('VIOLATION property=%s replay=%s' % (prop, path))
        else: log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    # ---------------------------------------------------------- evidence
    bounded = {c.name: c.bounded for c in cs if c.bounded}
    ob = [(r['name'], o) for r in results for o in r['obligs']]
    pr = [x for x in ob if x[0] not in bounded]; bd = [x for x in ob if x[0] in bounded]
    fns = {}
    for r in results:
        for d, f in r['fns'].items():
            if REPO in f or f.startswith('include/HXLibs'): fns[d] = f.replace(REPO + '/', '')
    be = {}
    for r in results:
        for k, n in (r.get('backends') or {}).items(): be[k] = be.get(k, 0) + n
    models = sorted(set(m for r in results for m in r['models']))
    cov = {'obligations': len(pr), 'discharged': sum(1 for _, o in pr if o[1] == 'proved'), 'checker_cmd': 'python3-vt -m hxv.run --prop %s --tier %s' % (prop, tier),
           'trusted_base': TRUSTED + ['assumed contract: ' + m[:160] for m in models if not proved_model(m)],
           'callees_by_contract': [m[:160] for m in models if proved_model(m)],
           'contracts': {r['name']: {'statement': reg[r['name']].doc, 'obligations': len(r['obligs']), 'discharged': sum(1 for o in r['obligs'] if o[1] == 'proved'), 'seconds': round(r['secs'], 1), 'solver_seconds': round(r['solver'], 1), 'queries': r['queries'], 'loops_cut': r['loops'], 'bounded': bounded.get(r['name']), 'error': r['error']} for r in results},
           'functions_of_repo_executed': dict(sorted(fns.items())), 'back_end_answers': be, 'solver_seconds': round(sum(r['solver'] for r in results), 1),
           'bounded_obligations': {'obligations': len(bd), 'discharged': sum(1 for _, o in bd if o[1] == 'proved'), 'bounds': bounded},
           'ir_seconds': round(t_ir, 1), 'native_replay': stats}
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME + sorted(set(a for r in results for a in r['assume'])), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s: %d contracts, %d obligations, %d discharged, %d bounded, %.1f s' % (prop, len(results), len(ob), sum(1 for _, o in ob if o[1] == 'proved'), len(bd), time.time() - t0))
    return 1 if viol else 0
