"""races the installed SMT solvers on one query (SMT-LIB text); the first definite answer wins"""
import subprocess, tempfile, os, time, select, shutil
SOLVERS = [('z3-4.8', ['/usr/bin/z3', '-smt2']), ('z3-new', ['z3-new', '-smt2']), ('cvc5', ['cvc5', '--lang=smt2'])]
SOLVERS = [(n, c) for n, c in SOLVERS if shutil.which(c[0])]
def race(txt, tmo):
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='hxvq.')
    os.write(fd, ('(set-logic QF_UFBV)\n' + txt).encode()); os.close(fd)
    ps = []
    try:
        for n, c in SOLVERS:
            ps.append((n, subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
        end = time.time() + tmo
        live = dict((p.stdout, (n, p)) for n, p in ps)
        while live and time.time() < end:
            rd, _, _ = select.select(list(live), [], [], min(1.0, max(0.01, end - time.time())))
            for f in rd:
                n, p = live.pop(f)
                out = f.read().decode(errors='replace')
                ls = out.split()
                if ls and ls[0] in ('sat', 'unsat') and 'error' not in out: return ls[0], n
        return None, None
    finally:
        for n, p in ps:
            try: p.kill()
            except Exception: pass
            p.wait(); p.stdout.close()
        os.unlink(path)
