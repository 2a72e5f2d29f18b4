#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
def main():
    from vc import driver
    if sys.argv[1] == '--selftest':
        import z3, sympy
        from vc import front
        m = front.extract(); print('%d functions extracted' % len(m.functions)); return 0
    if sys.argv[1] == '--replay': return driver.replay(sys.argv[2])
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return driver.decide(sys.argv[1], tier, seed, lambda s: print(s, flush=True))
if __name__ == '__main__': sys.exit(main())
