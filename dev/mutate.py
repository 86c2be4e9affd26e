"""AST mutants of spec tree; reports status per mutant. usage: mutate.py func-substring N seed"""
import ast, copy, os, random, shutil, sys, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000); sys.dont_write_bytecode = True
from sa.engine import *
pat, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
verbose = '-v' in sys.argv
rnd = random.Random(seed)
BASE='/verif/spec'
TMP='/tmp/mutate.%d'%os.getpid()
CM={ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE,ast.Lt],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
def sites(fn):
    out=[]
    skip=set()
    for n in ast.walk(fn):
        if isinstance(n,(ast.Raise,ast.arguments)): skip|={id(x) for x in ast.walk(n) if x is not n}
    for d in ([fn.returns] if fn.returns else [])+fn.decorator_list: skip|={id(x) for x in ast.walk(d)}
    for n in ast.walk(fn):
        if id(n) in skip: continue
        if isinstance(n,ast.Compare):
            for i,o in enumerate(n.ops):
                for r in CM.get(type(o),[]): out.append(('cmp',n,i,r))
        elif isinstance(n,ast.BoolOp):
            out.append(('bool',n))
            for i in range(len(n.values)): out.append(('dropop',n,i))
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): out.append(('not',n))
        elif isinstance(n,ast.Constant) and type(n.value) is int: out.append(('const',n,n.value+1)); out.append(('const',n,n.value-1))
        elif isinstance(n,ast.Constant) and type(n.value) is bool: out.append(('const',n,not n.value))
        elif isinstance(n,ast.BinOp):
            if isinstance(n.op,ast.Add): out.append(('bin',n,ast.Sub))
            elif isinstance(n.op,ast.Sub): out.append(('bin',n,ast.Add))
        elif isinstance(n,ast.Call):
            for i in range(len(n.keywords)): out.append(('dropkw',n,i))
            if len(n.args)>=2: out.append(('swapargs',n))
            if isinstance(n.func,ast.Attribute) and not n.args and not n.keywords: out.append(('unwrap',n))
        elif isinstance(n,ast.If):
            out.append(('iftrue',n)); out.append(('iffalse',n)); 
        elif isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            if n.slice.lower is not None: out.append(('slo',n))
            if n.slice.upper is not None: out.append(('shi',n))
        for fld in ('body','orelse'):
            b=getattr(n,fld,None)
            if isinstance(b,list):
                for i,s in enumerate(b):
                    if isinstance(s,(ast.Assign,ast.Expr,ast.AugAssign,ast.Return,ast.Raise,ast.Continue,ast.Delete)): out.append(('del',n,fld,i))
                    if i+1<len(b) and isinstance(s,(ast.Assign,ast.Expr,ast.AugAssign)) and isinstance(b[i+1],(ast.Assign,ast.Expr,ast.AugAssign)): out.append(('swapst',n,fld,i))
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load):
            out.append(('name',n))
    return out
def apply(m,fn):
    k=m[0]
    if k=='cmp': m[1].ops[m[2]]=m[3]()
    elif k=='bool': m[1].op=ast.Or() if isinstance(m[1].op,ast.And) else ast.And()
    elif k=='dropop': m[1].values.pop(m[2]); 
    elif k=='not': m[1].op=ast.Not(); m[1].operand=ast.UnaryOp(ast.Not(),m[1].operand)
    elif k=='const': m[1].value=m[2]
    elif k=='bin': m[1].op=m[2]()
    elif k=='dropkw': m[1].keywords.pop(m[2])
    elif k=='swapargs': m[1].args[0],m[1].args[1]=m[1].args[1],m[1].args[0]
    elif k=='unwrap': 
        v=m[1].func.value; m[1].func=ast.Name('__id__',ast.Load()); m[1].args=[v]; m[1]._unw=True
    elif k=='iftrue': m[1].test=ast.Constant(True)
    elif k=='iffalse': m[1].test=ast.Constant(False)
    elif k=='slo': m[1].slice.lower=None
    elif k=='shi': m[1].slice.upper=None
    elif k=='del': getattr(m[1],m[2])[m[3]]=ast.Pass()
    elif k=='swapst': b=getattr(m[1],m[2]); b[m[3]],b[m[3]+1]=b[m[3]+1],b[m[3]]
    elif k=='name':
        names=sorted({x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store) and x.lineno<m[1].lineno}|{x.arg for x in ast.walk(fn) if isinstance(x,ast.arg)})
        if m[1].id not in names: return False
        names=[x for x in names if x!=m[1].id and x[:1].islower()==m[1].id[:1].islower()]
        if not names: return False
        m[1].id=rnd.choice(names)
class Unw(ast.NodeTransformer):
    def visit_Call(self,n):
        self.generic_visit(n)
        return n.args[0] if getattr(n,'_unw',False) else n
    def visit_BoolOp(self,n):
        self.generic_visit(n)
        return n.values[0] if len(n.values)==1 else n
W=World(BASE)
quals=[q for q in W.funcs if any(p in q for p in pat.split(','))]
pool=[]
for q in quals:
    f=W.funcs[q]
    for i in range(len(sites(f.node))): pool.append((q,i))
rnd.shuffle(pool)
cache={}
stat=collections.Counter(); bykind=collections.Counter()
t0=time.time()
done=0
for q,i in pool:
    if done>=N: break
    W2=World(BASE)
    f=W2.funcs[q]; m=sites(f.node)[i]
    before=ast.unparse(f.node)
    if apply(m,f.node) is False: continue
    mod=f.module
    new=Unw().visit(mod.tree); ast.fix_missing_locations(new)
    src=ast.unparse(new); 
    after=None
    if os.path.exists(TMP): shutil.rmtree(TMP)
    shutil.copytree(BASE,TMP)
    open(os.path.join(TMP,mod.file),'w').write(src)
    try: W3=World(TMP)
    except SyntaxError: continue
    if q not in W3.funcs: continue
    after=ast.unparse(W3.funcs[q].node)
    if after==before: continue
    done+=1
    E=Engine(TMP); E.cache_s=cache
    t=time.time()
    try: rs=E.run(sorted(E.changed))
    except Exception as ex:
        import traceback; traceback.print_exc(limit=-4); print('CRASH',q,m[0]); stat['crash']+=1; continue
    st=[r.status for r in rs.values()]
    s='differs' if 'differs' in st else 'undecided' if 'undecided' in st else 'same'
    stat[s]+=1; bykind[m[0],s]+=1
    w=time.time()-t
    und='undef<' in ' '.join(x.text()[:4000] for r in rs.values() for x in r.diffs)
    if und: stat['undef']+=1
    if (s!='differs' and not und) or verbose or w>20:
        import difflib
        d=[l for l in difflib.unified_diff(before.splitlines(),after.splitlines(),lineterm='',n=0) if l[:1] in '+-' and l[:3] not in('+++','---')]
        print('##',s,q,m[0],round(w,1)); print('   ','\n    '.join(d))
        for r in rs.values():
            if r.note: print('     note',r.note[:300])
            for x in r.diffs[:3]: print('      ','DEF' if x.level==2 else 'und',x.text()[:700])
print(stat,round(time.time()-t0)); print(sorted(bykind.items()))
shutil.rmtree(TMP,ignore_errors=True)
