import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, specs
from mir import Crate
ALLK={'C21-nan-alpha','C25-nan-alpha','C26-one-system','C26-zero-residual'}
def main():
    cr = {'elinor': Crate(sys.argv[1])}
    for p in sys.argv[2:]:
        t = time.time()
        v = check.V(cr, known=ALLK, deadline=time.time() + 120)
        try: specs.PROPS[p](v)
        except specs.Unsupported as e: print('UNSUPPORTED', e)
        bad = [r for r in v.results if r[2] not in ('discharged',)]
        print(p, len(v.results), 'obligations', len(bad), 'failed', f'{time.time()-t:.1f}s', v.prover.nq, 'queries', f'{v.prover.tq:.1f}s z3')
        for r in bad: print('  ', r[2].upper(), r[0], r[1]); print('     ', r[3][:2500])
main()
