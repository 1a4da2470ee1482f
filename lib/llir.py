"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the harnesses produce.

Function bodies are parsed lazily, the first time they are executed.
"""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      |
   "(?:[^"\\]|\\.)*"                        |
   [%@$!\#](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) |
   0x[KMLHR]?[0-9A-Fa-f]+                   |
   -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?     |
   -?[0-9]+                                 |
   \.\.\.                                   |
   [a-zA-Z_][a-zA-Z0-9_.]*                  |
   [][(){}<>,=*:|]                          |
   !
''', re.X)

def tokenize(s):
    return TOK.findall(s)

class ParseError(Exception): pass

I1=('i',1); I8=('i',8); I32=('i',32); I64=('i',64); F64=('f64',); F32=('f32',); PTR=('ptr',); VOID=('void',)

FLAGS=set('nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile tail musttail notail '
          'disjoint nneg samesign inrange'.split())
PARAM_ATTRS=set('noundef nonnull noalias nocapture readonly writeonly readnone zeroext signext returned immarg '
  'nofree nest inreg swiftself noreturn nounwind dead_on_unwind writable allocptr allocalign noinline'.split())
PAREN_ATTRS=set('dereferenceable dereferenceable_or_null sret byval align captures range initializes byref inalloca '
  'memory allocsize'.split())
LINKAGE=set('private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr '
  'external dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr fastcc ccc coldcc '
  'constant global externally_initialized thread_local comdat'.split())

class P:
    """token stream"""
    def __init__(self, toks): self.t=toks; self.i=0
    def peek(self,k=0):
        j=self.i+k
        return self.t[j] if j<len(self.t) else None
    def next(self):
        x=self.t[self.i]; self.i+=1; return x
    def accept(self,x):
        if self.peek()==x: self.i+=1; return True
        return False
    def expect(self,x):
        y=self.next()
        if y!=x: raise ParseError('expected %r got %r in %r'%(x,y,' '.join(self.t)))
    def skip_paren(self):
        self.expect('(')
        d=1
        while d:
            y=self.next()
            if y=='(': d+=1
            elif y==')': d-=1

def uq(name):
    # %"foo" -> %foo
    if len(name)>1 and name[1]=='"': return name[0]+name[2:-1]
    return name

class Module:
    def __init__(self, text):
        self.types={}; self.globals={}; self.funcs={}; self.decls=set(); self.aliases={}
        lines=text.split('\n')
        i=0;n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('define'):
                j=i+1
                while lines[j]!='}': j+=1
                self._define(l, lines[i+1:j])
                i=j+1; continue
            if l.startswith('%') and ' = type ' in l:
                name,rest=l.split(' = type ',1)
                self.types[uq(name)]=rest
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare'):
                m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',l)
                self.decls.add(uq('@'+m.group(1))[1:])
            i+=1
        self._tcache={}
    def _define(self,head,body):
        m=re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(',head)
        name=uq('@'+m.group(1))[1:]
        self.funcs[name]=Function(self,name,head,m.end()-1,body)
    def _global(self,l):
        name,rest=l.split(' = ',1)
        name=uq(name)[1:]
        self.globals[name]=rest
    # types
    def ptype(self,p):
        t=p.next()
        if t=='ptr': r=PTR
        elif t=='double': r=F64
        elif t=='float': r=F32
        elif t=='void': r=VOID
        elif t=='x86_fp80': r=('f80',)
        elif t=='label': r=('label',)
        elif t=='metadata': r=('metadata',)
        elif t=='token': r=('token',)
        elif t[0]=='i' and t[1:].isdigit(): r=('i',int(t[1:]))
        elif t=='[':
            k=int(p.next()); p.expect('x'); e=self.ptype(p); p.expect(']'); r=('arr',k,e)
        elif t=='{':
            r=('struct',tuple(self._tlist(p,'}')),False)
        elif t=='<':
            if p.peek()=='{':
                p.next(); r=('struct',tuple(self._tlist(p,'}')),True); p.expect('>')
            else:
                k=int(p.next()); p.expect('x'); e=self.ptype(p); p.expect('>'); r=('vec',k,e)
        elif t[0]=='%':
            r=('named',uq(t))
        elif t=='opaque': r=('opaque',)
        else: raise ParseError('type? %r in %r'%(t,' '.join(p.t)))
        while p.peek()=='(' and r!=('metadata',):
            # function type
            p.next(); va=False; args=[]
            while p.peek()!=')':
                if p.accept('...'): va=True
                else: args.append(self.ptype(p))
                p.accept(',')
            p.next()
            r=('fn',r,tuple(args),va)
        return r
    def _tlist(self,p,end):
        out=[]
        while p.peek()!=end:
            out.append(self.ptype(p)); p.accept(',')
        p.next()
        return out
    def resolve(self,t):
        while t[0]=='named':
            c=self._tcache.get(t)
            if c is None:
                c=self.ptype(P(tokenize(self.types[t[1]])))
                self._tcache[t]=c
            t=c
        return t
    def sizealign(self,t):
        k=('sa',t)
        r=self._tcache.get(k)
        if r is None:
            r=self._sizealign(t); self._tcache[k]=r
        return r
    def _sizealign(self,t):
        t=self.resolve(t)
        k=t[0]
        if k=='i':
            n=t[1]
            s=1
            while s*8<n: s*=2
            return s,min(s,16)
        if k in('f64','ptr'): return 8,8
        if k=='f32': return 4,4
        if k=='f80': return 16,16
        if k=='arr':
            s,a=self.sizealign(t[2]); return s*t[1],a
        if k=='vec':
            s,a=self.sizealign(t[2]); return s*t[1],s*t[1]
        if k=='struct':
            off=0;al=1
            for e in t[1]:
                s,a=self.sizealign(e)
                if t[2]: a=1
                off=(off+a-1)//a*a+s
                al=max(al,a)
            return (off+al-1)//al*al,al
        raise ParseError('size of %r'%(t,))
    def sizeof(self,t): return self.sizealign(t)[0]
    def offset(self,t,idx):
        """offset of field idx in struct type t, and its type"""
        t=self.resolve(t)
        if t[0] in('arr','vec'):
            return idx*self.sizeof(t[2]),t[2]
        off=0
        for j,e in enumerate(t[1]):
            s,a=self.sizealign(e)
            if t[2]: a=1
            off=(off+a-1)//a*a
            if j==idx: return off,e
            off+=s
        raise ParseError('field')
    # constants ---------------------------------------------------------
    def pconst(self,p,t):
        """parse an operand of type t"""
        x=p.next()
        c=x[0]
        if c=='%': return ('reg',uq(x))
        if c=='@': return ('glob',uq(x)[1:])
        if x in('undef','poison'): return ('undef',)
        if x=='null': return ('int',0)
        if x=='true': return ('int',1)
        if x=='false': return ('int',0)
        if x=='zeroinitializer': return ('zero',t)
        rt=self.resolve(t)
        if rt[0] in('f64','f32'): return ('fp',parse_fp(x,rt))
        if rt[0]=='f80': return ('fp',float('nan'))
        if x.lstrip('-').isdigit():
            return ('int', int(x) & ((1<<rt[1])-1))
        if x=='getelementptr':
            while p.peek() in FLAGS or p.peek()=='inrange':
                f=p.next()
                if p.peek()=='(' and f=='inrange': p.skip_paren()
            p.expect('(')
            bt=self.ptype(p); p.expect(',')
            pt=self.ptype(p); base=self.pconst(p,pt)
            idx=[]
            while p.accept(','):
                p.accept('inrange')
                it=self.ptype(p); idx.append(self.pconst(p,it))
            p.expect(')')
            return ('gep',bt,base,idx)
        if x in('inttoptr','ptrtoint','bitcast','trunc','addrspacecast'):
            p.expect('('); st=self.ptype(p); v=self.pconst(p,st); p.expect('to'); self.ptype(p); p.expect(')')
            return v
        if x in('sub','add'):
            while p.peek() in FLAGS: p.next()
            p.expect('('); st=self.ptype(p); a=self.pconst(p,st); p.expect(','); st=self.ptype(p); b=self.pconst(p,st); p.expect(')')
            return ('cbin',x,a,b)
        if c=='c':
            bs=[];s=x[2:-1];i=0
            while i<len(s):
                if s[i]=='\\':
                    if s[i+1]=='\\': bs.append(92); i+=2
                    else: bs.append(int(s[i+1:i+3],16)); i+=3
                else: bs.append(ord(s[i])); i+=1
            return ('bytes',bytes(bs))
        if x in('{','[','<'):
            close={'{':'}','[':']','<':'>'}[x]
            packed=False
            if x=='<' and p.peek()=='{': p.next(); close='}'; packed=True
            out=[]
            while p.peek()!=close:
                et=self.ptype(p); out.append((et,self.pconst(p,et))); p.accept(',')
            p.next()
            if packed: p.expect('>')
            return ('agg',out)
        raise ParseError('const %r in %r'%(x,' '.join(p.t[max(0,p.i-8):p.i+8])))

def parse_fp(x,t):
    if x.startswith('0x'):
        f=struct.unpack('>d',bytes.fromhex(x[2:].rjust(16,'0')))[0]
    else: f=float(x)
    if f!=f or f in(float('inf'),float('-inf')): return f
    return Fraction(f)

class Function:
    def __init__(self,mod,name,head,ppos,body):
        self.mod=mod; self.name=name; self.head=head; self.ppos=ppos; self.body=body
        self.parsed=False
    def parse(self):
        if self.parsed: return self
        p=P(tokenize(self.head[self.ppos:]))
        p.expect('(')
        self.params=[]; self.ptypes=[]; self.sret=None
        while p.peek()!=')':
            if p.accept('...'): continue
            t=self.mod.ptype(p)
            self._attrs(p)
            nm=None
            if p.peek() and p.peek()[0]=='%': nm=uq(p.next())
            self.params.append(nm); self.ptypes.append(t)
            p.accept(',')
        self.blocks={}
        cur=None; self.entry=None
        body=self.body
        i=0
        lab=re.compile(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):')
        while i<len(body):
            l=body[i]
            if not l or l.lstrip().startswith(';'): i+=1; continue
            if l[0]!=' ':
                m=lab.match(l)
                nm=m.group(1)
                if nm[0]=='"': nm=nm[1:-1]
                cur=[]; self.blocks['%'+nm]=cur
                if self.entry is None: self.entry='%'+nm
                i+=1; continue
            if cur is None:
                raise ParseError('unlabelled entry; compile with -fno-discard-value-names')
            s=l.strip()
            if s.startswith('switch'):
                while not s.rstrip().endswith(']') and '], !' not in s:
                    i+=1; s+=' '+body[i].strip()
            if ' = landingpad' in s or s.startswith('landingpad'):
                while i+1<len(body) and body[i+1].strip().split(' ')[0] in('catch','cleanup','filter'):
                    i+=1; s+=' '+body[i].strip()
            if (' = invoke ' in s or s.startswith('invoke ')) and ' unwind label' not in s:
                i+=1; s+=' '+body[i].strip()
            if not s.startswith('#dbg_'):
                cur.append(self._instr(s))
            i+=1
        # split phis out of blocks
        self.phis={}
        for b,ins in self.blocks.items():
            k=0
            while k<len(ins) and ins[k][0]=='phi': k+=1
            self.phis[b]=ins[:k]; self.blocks[b]=ins[k:]
        self.parsed=True
        self.body=None
        return self
    def _attrs(self,p):
        info={}
        while True:
            x=p.peek()
            if x is None: return info
            if x in PARAM_ATTRS: p.next(); continue
            if x in PAREN_ATTRS:
                p.next()
                if p.peek()=='(':
                    if x in('byval','sret'):
                        p.next(); info[x]=self.mod.ptype(p); p.expect(')')
                    else: p.skip_paren()
                elif x=='align': p.next()
                continue
            if x.startswith('"') : 
                p.next()
                if p.accept('='): p.next()
                continue
            return info
    def _instr(self,s):
        mod=self.mod
        # strip metadata
        k=s.find(', !')
        if k>=0: s=s[:k]
        p=P(tokenize(s))
        dst=None
        if p.peek()[0]=='%' and p.peek(1)=='=':
            dst=uq(p.next()); p.next()
        op=p.next()
        while op in('tail','musttail','notail'): op=p.next()
        T=lambda: mod.ptype(p)
        def val(t): return mod.pconst(p,t)
        def flags():
            while p.peek() in FLAGS: p.next()
        if op in('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor'):
            flags(); t=T(); a=val(t); p.expect(','); b=val(t)
            return ('bin',dst,op,t,a,b)
        if op in('fadd','fsub','fmul','fdiv','frem'):
            flags(); t=T(); a=val(t); p.expect(','); b=val(t)
            return ('fbin',dst,op,t,a,b)
        if op=='fneg':
            flags(); t=T(); return ('fneg',dst,t,val(t))
        if op in('icmp','fcmp'):
            flags(); pred=p.next(); t=T(); a=val(t); p.expect(','); b=val(t)
            return (op,dst,pred,t,a,b)
        if op=='alloca':
            p.accept('inalloca'); t=T(); cnt=None
            if p.accept(','):
                if p.peek()!='align':
                    ct=T(); cnt=val(ct)
            return ('alloca',dst,t,cnt)
        if op=='load':
            flags(); p.accept('atomic'); flags(); t=T(); p.expect(','); pt=T(); a=val(pt)
            return ('load',dst,t,a)
        if op=='store':
            flags(); p.accept('atomic'); flags(); t=T(); v=val(t); p.expect(','); pt=T(); a=val(pt)
            return ('store',None,t,v,a)
        if op=='getelementptr':
            flags(); bt=T(); p.expect(','); pt=T(); base=val(pt); idx=[]
            while p.accept(','):
                it=T(); idx.append((it,val(it)))
            return ('gep',dst,bt,base,idx)
        if op in('sext','zext','trunc','fptosi','fptoui','sitofp','uitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast','addrspacecast'):
            flags(); t=T(); v=val(t); p.expect('to'); t2=T()
            return ('cast',dst,op,t,v,t2)
        if op=='select':
            flags(); t=T(); c=val(t); p.expect(','); t1=T(); a=val(t1); p.expect(','); t2=T(); b=val(t2)
            return ('select',dst,t1,c,a,b)
        if op=='phi':
            flags(); t=T(); inc={}
            while True:
                p.expect('['); v=val(t); p.expect(','); l=uq(p.next()); p.expect(']')
                inc[l]=v
                if not p.accept(','): break
            return ('phi',dst,t,inc)
        if op=='br':
            if p.accept('label'): return ('br',None,uq(p.next()))
            t=T(); c=val(t); p.expect(','); p.expect('label'); a=uq(p.next()); p.expect(','); p.expect('label'); b=uq(p.next())
            return ('condbr',None,c,a,b)
        if op=='switch':
            t=T(); v=val(t); p.expect(','); p.expect('label'); d=uq(p.next()); p.expect('[')
            cases=[]
            while p.peek()!=']':
                t2=T(); cv=val(t2); p.expect(','); p.expect('label'); cases.append((cv[1],uq(p.next())))
            return ('switch',None,t,v,d,cases)
        if op=='ret':
            t=T()
            return ('ret',None,t,None if t==VOID else val(t))
        if op=='unreachable': return ('unreachable',None)
        if op=='resume': return ('resume',None)
        if op=='landingpad': return ('landingpad',dst)
        if op=='extractvalue':
            t=T(); v=val(t); idx=[]
            while p.accept(','): idx.append(int(p.next()))
            return ('extractvalue',dst,t,v,idx)
        if op=='insertvalue':
            t=T(); v=val(t); p.expect(','); t2=T(); e=val(t2); idx=[]
            while p.accept(','): idx.append(int(p.next()))
            return ('insertvalue',dst,t,v,e,idx)
        if op=='freeze':
            t=T(); return ('freeze',dst,t,val(t))
        if op=='extractelement':
            t=T(); v=val(t); p.expect(','); t2=T(); i=val(t2); return ('extractelement',dst,t,v,i)
        if op=='insertelement':
            t=T(); v=val(t); p.expect(','); t2=T(); e=val(t2); p.expect(','); t3=T(); i=val(t3)
            return ('insertelement',dst,t,v,e,i)
        if op=='shufflevector':
            t=T(); a=val(t); p.expect(','); t2=T(); b=val(t2); p.expect(','); t3=T(); m=val(t3)
            return ('shufflevector',dst,t,a,b,t3,m)
        if op in('atomicrmw',):
            flags(); k=p.next(); pt=T(); a=val(pt); p.expect(','); t=T(); v=val(t)
            return ('atomicrmw',dst,k,t,a,v)
        if op=='fence': return ('nop',None)
        if op in('call','invoke'):
            flags()
            while p.peek() in LINKAGE or p.peek() in PARAM_ATTRS or p.peek() in PAREN_ATTRS or p.peek() in FLAGS:
                x=p.next()
                if p.peek()=='(' : p.skip_paren()
                elif x=='align': p.next()
            rt=T()
            if rt[0]=='fn': rt=rt[1]
            if p.peek()=='asm': return ('asm',dst,s)
            callee=mod.pconst(p,PTR)
            p.expect('(')
            args=[]
            while p.peek()!=')':
                t=T()
                if t==('metadata',):
                    # skip
                    d=0
                    while not (d==0 and p.peek() in(',',')')):
                        x=p.next()
                        if x=='(':d+=1
                        elif x==')':d-=1
                    args.append((t,('undef',),{}))
                else:
                    at=self._attrs(p)
                    args.append((t,val(t),at))
                p.accept(',')
            p.next()
            normal=unwind=None
            if op=='invoke':
                while p.peek()!='to': p.next()
                p.next(); p.expect('label'); normal=uq(p.next()); p.expect('unwind'); p.expect('label'); unwind=uq(p.next())
            return ('call',dst,rt,callee,args,normal,unwind)
        raise ParseError('instr %r'%s)
