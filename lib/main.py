"""Entry point of all the checks: main.py Cxx"""
import sys, os
HERE=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get('VERIF_REPO','/repo')
sys.path.insert(0,os.path.dirname(HERE))
sys.path.insert(0,HERE)
sys.path.insert(0,REPO)
import importlib, traceback, warnings
import common
def main():
    pid=sys.argv[1]
    ck=common.Check(pid)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    try:
        with common.quiet():
            import wiz
            if not os.path.abspath(wiz.__file__).startswith(os.path.abspath(REPO)+os.sep):
                raise Exception('wiz imported from %s and not %s'%(wiz.__file__,REPO))
            mod=importlib.import_module('checks.'+pid)
            mod.run(ck)
    except common.TooMany:
        pass
    except BaseException as e:
        ck.fail('exception',{'error':repr(e),'traceback':traceback.format_exc()})
    code=ck.finish()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
main()
