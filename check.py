#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n]"""
import sys, os, threading, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import run
def main():
    p = sys.argv[1]
    import registry
    f, level = registry.CHECKS[p]
    c = run.Check(p, level)
    def late():
        # what was found counts also when something hangs; without a finding there is no answer
        print('%s: not finished in time' % p)
        try:
            if c.violations: c.finish()
        except SystemExit: sys.stdout.flush(); os._exit(1)
        sys.stdout.flush(); os._exit(3)
    t = threading.Timer(880, late); t.daemon = True; t.start()
    try: f(c)
    except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
        # answers which are not as they have to be
        traceback.print_exc(); w = traceback.extract_tb(e.__traceback__)[-1]
        if not c.violations: c.violation('%s: an answer that cannot be understood: %r in %s' % (p, e, w.name), dict(traceback=traceback.format_exc()))
    except Exception:
        traceback.print_exc()
        if not c.violations: sys.stdout.flush(); os._exit(2)
    t.cancel()
    c.finish()
main()
