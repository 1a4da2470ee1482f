"""records which functions of the package a symbolic run executed"""
import sys
class Trace:
    def __init__(self,out,on=True): self.out=out; self.on=on
    def _t(self,frame,ev,arg):
        if ev=='call':
            c=frame.f_code
            if '/repo/treecorr/' in c.co_filename: self.out.add(c.co_filename.rsplit('/',1)[1]+':'+c.co_qualname)
        return None
    def __enter__(self):
        if self.on: self.old=sys.getprofile(); sys.setprofile(self._t)
    def __exit__(self,*a):
        if self.on: sys.setprofile(self.old)
        return False
