"""check.py PROPERTY quick|thorough"""
import sys, os, traceback, threading, ctypes
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import props, common

SECONDS = float(os.environ.get('ADV_SECONDS', 660))
def guard(ck):
    """raises Budget in the calling thread once the time is used up; reports what there is if that does not help"""
    done = threading.Event(); me = threading.get_ident()
    def watch():
        if done.wait(SECONDS + 10): return
        for _ in range(15):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(TM.Budget))
            if done.wait(4): return
        ck.undecided('the remaining obligations', '', 'analysis limit')
        rc = ck.finish(); sys.stdout.flush(); os._exit(rc)
    threading.Thread(target=watch, daemon=True).start()
    return done

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = Checker(prop, tier)
    TM.LIMIT[0] = time.time() + SECONDS   # whatever is open by then stays undecided
    done = guard(ck)
    try:
        props.PROPS[prop](ck)
        if debug_only():
            common.RELEASE = True; ck.suffix = ' (without debug assertions)'
            props.PROPS[prop](ck)
    except TM.Budget: ck.undecided('the remaining obligations', '', 'analysis limit')
    except Broken as e:
        print(e, file=sys.stderr); sys.exit(3)
    except BaseException:
        done.set(); raise
    while True:
        try: done.set(); rc = ck.finish(); break
        except TM.Budget: pass
    sys.exit(rc)

if __name__ == '__main__':
    if 'ADV_DUMP' in os.environ:
        import faulthandler; faulthandler.dump_traceback_later(int(os.environ['ADV_DUMP']), exit=False)
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]
    def t():
        try: main()
        except SystemExit as e: rc[0] = e.code or 0
        except BaseException: traceback.print_exc()
    th = threading.Thread(target=t); th.start(); th.join()
    sys.stdout.flush()
    os._exit(rc[0])
