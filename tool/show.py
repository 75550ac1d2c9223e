import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+='@%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def con(c,T):
    c=dict(c); t=c.pop('ty',None)
    if 'fn' in c: return 'fn:'+cal(c['fn'])
    return 'k'+json.dumps(c)[:150]+':'+T[t]['s'][:40]
def cal(f):
    return '%s[%s%s]'%(f.get('path') or f['decl'],f['kind'],' K' if f.get('key') else '')
def op(o,T):
    if o[0] in('cp','mv'): return o[0]+' '+pl(o[1])
    if o[0]=='k': return con(o[1],T)
    return str(o)
def rv(r,T):
    k=r[0]
    if k=='use': return op(r[1],T)
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if k=='cast': return 'cast(%s) %s -> %s'%(r[1],op(r[2],T),T[r[3]]['s'])
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2],T),op(r[3],T))
    if k=='un': return '%s(%s)'%(r[1],op(r[2],T))
    if k=='discr': return 'discr '+pl(r[1])
    if k=='agg': return 'agg%s(%s)'%(r[1],', '.join(op(x,T) for x in r[2]))
    if k=='repeat': return 'repeat %s %s'%(op(r[1],T),r[2])
    return str(r)
def show(b,T):
    print('==',b['key'],b['path'],b['span'],'argc',b['argc'],b.get('spread'))
    for i,(t,n) in enumerate(b['locals']): print('  _%d: %s %s'%(i,T[t]['s'][:110],n or ''))
    for i,bb in enumerate(b['blocks']):
        if bb['c']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2],T))
            else: print('    ',s)
        t=bb['t']
        if t[0]=='call': print('    ',pl(t[3]),'= CALL',op(t[1],T),'(',', '.join(op(x,T) for x in t[2]),') ->',t[4])
        elif t[0]=='switch': print('     switch',op(t[1],T),t[2],'else',t[3])
        elif t[0]=='assert': print('     assert',op(t[1],T),t[2:])
        elif t[0]=='drop': print('     drop',pl(t[1]),'->',t[2])
        else: print('    ',t)
if __name__=='__main__':
    d=json.load(open('/verif/.build/out/%s.json'%sys.argv[1]))
    for b in d['bodies']:
        if sys.argv[2] in b['path']: show(b,d['types'])
