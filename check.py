#!/opt/venv/bin/python
"""check.py <property id> [quick|thorough]"""
import os, sys
H=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(H,'lib')); sys.path.insert(1,os.path.join(H,'checks'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode=True
for v in ('OMP_NUM_THREADS','OPENBLAS_NUM_THREADS'): os.environ.setdefault(v,'1')
import importlib, traceback
def main():
    pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    import report, build
    rep=report.Report(pid,tier)
    try:
        m=importlib.import_module(pid.lower())
        m.run(tier,rep)
    except build.BuildError as e:
        rep.errors.append('the harness does not compile against the current tree: '+str(e)[-1500:])
    except Exception:
        rep.errors.append(traceback.format_exc())
    return rep.finish()
sys.stdout.reconfigure(line_buffering=True)
sys.exit(main())
