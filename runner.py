import sys, time, importlib
sys.path.insert(0, '/repo')
from pyvc import verify
def main():
    pid = sys.argv[1]
    flt = next((a for a in sys.argv[2:] if not a.startswith("-")), "")
    importlib.import_module('specs.' + pid)
    for u in verify.UNITS[pid]:
        if flt not in u.id: continue
        t=time.time()
        v = verify.Verifier(u)
        for k, f in u.opts.items(): setattr(v, k, f)
        v.run(u.fn)
        print(u.id, 'paths', v.paths, 'passes', v.passes, 'q', v.prover.queries, '%.1fs (solver %.1f)'%(time.time()-t, v.prover.solver_s), 'ends', v.feasible_ends)
        if v.unsupported: print('   UNSUPPORTED', sorted(set(v.unsupported)))
        for n,o in sorted(v.obls.items()):
            print('   ', 'ok ' if o['proved']==o['paths'] else 'FAIL', n, o['proved'], '/', o['paths'])
            for f in o['failed'][:2]:
                if '-v' in sys.argv: print('        ', f)
        if '-l' in sys.argv:
            for k,i in v.loops.items(): print('  loop', k[-2:], [x for x in k if x[0]=='fn'][-1:], sorted(i.heap), i.vars, 'dropped', sorted(i.dropped), 'T', list(i.templates))
main()
