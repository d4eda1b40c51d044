import sys, time, os
sys.path.insert(0,'/verif/engine')
import mir, engine, rules, protocol
from terms import *
prog = mir.Program('/tmp/facts.json')
def entry(path, op):
    R = protocol.Protocol(prog)
    E = engine.Engine(prog, R)
    t=time.time()
    ex = R.entry(E, path, op)
    R.finish(prog.fn(path), ex)
    return R,E,ex,time.time()-t
import terms
if __name__=='__main__':
    terms.SHORT={}
    R,E,ex,t = entry(sys.argv[1], sys.argv[2])
    print('%.2fs'%t, E.stats, len(ex),'exits', E.unmodelled)
    for x in ex[:int(os.environ.get('NX','3'))]: print(x.kind, x.ret, {k:v for k,v in x.st.ghost.items()}, [('' if v else '!')+show(a) for a,v in x.st.facts.items()][:12])
    for k,v in sorted(R.ob.items()): (v[1] and print('FAIL', k[0],'|',k[1],'|',v[2][:150],'|',v[3]))
