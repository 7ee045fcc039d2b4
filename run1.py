import sys, tempfile, shutil, importlib, time
sys.dont_write_bytecode=True
sys.path.insert(0,'/verif')
from vf import stage
d=tempfile.mkdtemp(prefix='vfst')
try:
    p=stage.create(d); stage.activate(p)
    from vf import libs, unit
    mod=sys.argv[1]
    importlib.import_module('units.'+mod.lower())
    prop=mod.upper()
    sel=sys.argv[2] if len(sys.argv)>2 and sys.argv[2]!='-' else None
    bound=int(sys.argv[3]) if len(sys.argv)>3 else None
    m=libs.Registry(p)
    for u in unit.UNITS.get(prop,[]):
        if sel and sel not in u.name: continue
        r=unit.run_unit(u,m,bound=bound)
        print(u.name,r.status,r.reason,'obl',len(r.obligations),'paths',r.paths,'wall %.1f'%r.wall,'solver %.1f'%r.solver,r.covers, getattr(r, 'dead', ''))
        for o in r.failing()[:8]: print('   FAIL',o.label,o.status,o.where,str(o.model)[:1500])
        if hasattr(r,'tb'): print(r.tb[-1800:])
finally:
    shutil.rmtree(d)
