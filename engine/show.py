import json,sys
d=json.load(open(sys.argv[1])); 
T=d['types']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.'+e[2]
        elif e[0]=='d': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm': return ('move ' if o[0]=='m' else '')+pl(o[1])
    if o[0]=='k':
        k=o[1]
        if 'fn' in k: return 'fn '+k['fn'].get('r',k['fn']['p'])+(' [virt]' if k['fn'].get('ik')=='virtual' else '')
        return 'const %s'%(k['v'],)
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='agg': return 'agg %s [%s]'%(r[1][:4],', '.join(op(x) for x in r[2]))
    if r[0]=='cast': return 'cast %s %s as %s'%(r[1],op(r[2]),T[r[3]]['s'])
    return str(r)
for b in d['bodies']:
    if sys.argv[2] in b['key']:
        print('==',b['key'],b['span'],'args',b['args'],b.get('g'))
        for i,(t,n) in enumerate(b['locals']): print('  _%d %s: %s'%(i,n,T[t]['s'][:100]))
        for i,bb in enumerate(b['bb']):
            if not bb: continue
            print(' bb%d'%i)
            for s in bb['s']:
                if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
                else: print('    ',s)
            t=bb['t']
            if t[0]=='call': print('    %s = CALL %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(x) for x in t[2]),t[4]))
            elif t[0]=='switch': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
            elif t[0]=='drop': print('    drop %s -> %s'%(pl(t[1]),t[2]))
            else: print('   ',t[:5])
