#!/opt/venv/bin/python
"""check.py <property id>: decides one property (see DESIGN.md). Exit 0 held, 1 VIOLATION, 2 machinery failure."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
os.environ['PYTHONHASHSEED'] = '0'
import core

def main():
    pid = sys.argv[1]
    from registry import DRIVERS
    import logging
    logging.disable(logging.CRITICAL)
    c = core.Check(pid)
    try:
        mod, fn = DRIVERS[pid].split(':')
        getattr(importlib.import_module(mod), fn)(c)
        rc = c.finish()
    except Exception as ex:
        tb = ''.join(traceback.format_exception(ex))
        print(tb[-6000:])
        if not isinstance(ex, core.MachineryError) and os.path.join(core.REPO, 'pyforecaster') + os.sep in tb:
            # an operation that the specification always enables failed inside the code under test
            c.violation('the code under test raised %s: %s' % (type(ex).__name__, str(ex)[:200]), {'traceback': tb})
            rc = c.finish()
        else:
            import shutil
            shutil.rmtree(c.scratch, ignore_errors=True)
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

if __name__ == '__main__':
    main()
