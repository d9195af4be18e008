#!/usr/bin/env python3-vt
"""check.py ID: decide one property from /repo's current source"""
import sys, os, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'lib')); sys.path.insert(0,HERE)
sys.dont_write_bytecode = True
def main():
    pid = sys.argv[1]
    from harness import Inconclusive
    from build import BuildError
    from irsum import Undecided
    import checks
    try: mod,fn = checks.find(pid)
    except KeyError:
        print('no check for',pid); return 2
    try:
        c = fn()
        return c.finish()
    except (Inconclusive,BuildError) as ex:
        print('%s: no answer: %s' % (pid,ex)); return 2
    except Undecided as ex:
        print('%s: no answer: undecided: %s' % (pid,str(ex)[:600])); return 2
    except Exception:
        traceback.print_exc()
        print('%s: no answer: internal error' % pid); return 2
if __name__ == '__main__': sys.exit(main())
