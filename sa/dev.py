import sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0,'/verif')
from sa.program import Program
from sa.interp import *
P=Program('/repo')
def show_m(q, name, types=None):
    c=P.cls(q) if ':' in q else None
    I=Interp(P)
    if c is None:
        k,node,m=P.resolve(q,name)
        args=[sym(a.arg) for a in node.args.args]
        S=I.analyse(node,m,None,args,kind='function')
    else:
        k,node,owner=P.lookup(c,name)
        s=sym('self'); I.types[s]=c
        args=[s]+[sym(a.arg) for a in node.args.args[1:]]
        if k=='classmethod': args[0]=I.cls_term(c)
        if k=='staticmethod': args=[sym(a.arg) for a in node.args.args]
        kw={a.arg: sym(a.arg) for a in node.args.kwonlyargs}
        if node.args.kwarg: kw['**']=sym('**'+node.args.kwarg.arg)
        S=I.analyse(node, owner.module, owner, args, kw)
    print('==',q,name); print(S.show())
    return S
if __name__=='__main__':
    for a in sys.argv[2:]: show_m(sys.argv[1],a)
