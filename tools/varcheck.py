"""Locals named by contracts, and how they are found again when renamed: prints the ones whose recorded type is wrong or missing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cpp2verus as c, gen, glob
c.VARCHECK.add(('', '', '', ''))
p = gen.program()
for f in sorted(glob.glob(os.path.join(gen.CONTRACTS, '*.vc'))):
    n = os.path.basename(f)[:-3]
    try:
        gen.Module(p, [n], gen.roots_of([n]), [], own=[n])
    except Exception as e:
        print(n, str(e)[:200])
for k in sorted(c.VARCHECK, key=str):
    print(*k, sep=' | ')
