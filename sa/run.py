"""python3 -m sa.run <property id>"""
import importlib
import sys
import threading


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('sa.checks.' + pid.lower())
    from .rule import Check
    c = Check(pid, mod.EXPLANATION)
    c.rules = dict(mod.RULES)
    try:
        c.engine()
        mod.run(c)
    except Exception as e:      # an internal failure decides nothing
        import traceback
        c.und('analysis', 'whole check', repr(e))
        c.notes.append(traceback.format_exc(limit=-8))
    return c.finish()


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 1)
