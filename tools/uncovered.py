import ast,os,sys
sys.path.insert(0,'/verif'); sys.path.append('/repo')
from spaverify import load_contracts
from spaverify.contract import REG
load_contracts()
t={c.target for c in REG.values() if c.target}
R='/repo/surface_potential_analysis'
for d,_,fs in sorted(os.walk(R)):
    for f in sorted(fs):
        if not f.endswith('.py') or 'plot' in f: continue
        p=os.path.join(d,f); mod=os.path.relpath(p,R)[:-3].replace('/','.')
        if mod.endswith('.__init__'): mod=mod[:-9]
        tree=ast.parse(open(p).read())
        names=[]
        for n in tree.body:
            if isinstance(n,ast.FunctionDef): names.append(n.name)
            if isinstance(n,ast.ClassDef):
                names+= [f"{n.name}.{m.name}" for m in n.body if isinstance(m,ast.FunctionDef)]
        miss=[n for n in names if f"{mod}:{n}" not in t]
        print(mod, f"{len(names)-len(miss)}/{len(names)}", ' '.join(miss) if len(sys.argv)>1 and sys.argv[1] in mod or len(sys.argv)==1 else '')
