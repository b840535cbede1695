"""re-runs the failing input of a replay file on the real code"""
import sys, json, tempfile, os, shutil
from . import oracle
from .run import build_native
def main(path):
    d = json.load(open(path)); v = d.get('failing_input')
    for f in d['failed_obligations'][:10]: print('obligation', f['status'], ':', f['contract'], '-', f['obligation'], 'at', f['where'])
    if not v: print('no failing input was found'); return 1
    oracle.load(); tmp = tempfile.mkdtemp(prefix='hxv.')
    try:
        exe = os.path.join(tmp, 'n'); rc, err = build_native(v['tu'], exe)
        if rc: print(err); return 1
        o = [c for c in oracle.ORACLES[d['property']] if c.__name__ == v['oracle']][0]()
        dr = oracle.Driver(exe); args = [bytes.fromhex(a) for a in v['args']]
        rep = dr.ask(v['op'], args); dr.stop()
        print('input', v['op'], v['args']); print('reply', rep); print('verdict', oracle.generic_judge(o, v['op'], args, rep) or 'property holds on this input')
        return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
