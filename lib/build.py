"""Compile a harness against /repo's current tree: LLVM IR for symbolic execution, shared object for replay."""
import os, subprocess, sysconfig, tempfile, atexit, shutil, ctypes, time, hashlib
REPO=os.environ.get('VERIF_REPO','/repo')
HARNESS=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'harness')
COMMON=['-std=c++17','-fno-access-control','-w','-I'+REPO+'/include','-I'+HARNESS,
  '-I/opt/venv/lib/python3.12/site-packages/pybind11/include','-I'+sysconfig.get_paths()['include'],
  '-I'+REPO]
IRFLAGS=['-O1','-fno-vectorize','-fno-slp-vectorize','-ffp-contract=off','-fno-unroll-loops',
  '-fno-discard-value-names','-fno-math-errno','-S','-emit-llvm']
NATFLAGS=['-O1','-ffp-contract=off','-fPIC','-shared','-Wl,-z,lazy']
_tmp=None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='hv_'); pid=os.getpid()
        atexit.register(lambda: os.getpid()==pid and shutil.rmtree(_tmp,ignore_errors=True))
    return _tmp
class BuildError(Exception): pass
def start(name, defs=()):
    src=os.path.join(HARNESS,name+'.cpp'); d=tmpdir()
    tag=name+('_'+hashlib.md5(' '.join(defs).encode()).hexdigest()[:6] if defs else '')
    ll=os.path.join(d,tag+'.ll'); so=os.path.join(d,tag+'.so')
    inc=['-D'+x for x in defs]
    p1=subprocess.Popen(['clang++']+COMMON+inc+IRFLAGS+[src,'-o',ll],stderr=subprocess.PIPE)
    p2=subprocess.Popen(['clang++']+COMMON+inc+NATFLAGS+[src,'-o',so],stderr=subprocess.PIPE)
    return (p1,p2,ll,so)
def finish(h):
    p1,p2,ll,so=h
    for p in (p1,p2):
        e=p.communicate()[1]
        if p.returncode: raise BuildError(e.decode()[-4000:])
    return ll,so
def build(name,defs=()): return finish(start(name,defs))
_dl={}
def native(so):
    if so not in _dl: _dl[so]=ctypes.CDLL(so,mode=os.RTLD_LAZY)
    return _dl[so]
