"""Pretty-print dumped MIR (debugging aid): pp.py DUMP.json [substring]"""
import json,sys
def place(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s+=' as %s'%e[2]; s='(%s)'%s
        else: s+=str(e)
    return s
def op(o,T):
    if o['o'] in('cp','mv'): return place(o['p'])
    if o['o']=='c':
        v=json.dumps(o['v']); 
        return 'const %s:%s'%(v[:120] if 'zst' not in o['v'] else T[o['v']['zst']]['s'], '' if 'zst' in o['v'] else T[o['t']]['s'])
    return str(o)
def rv(r,T):
    k=r['r']
    if k=='use': return op(r['a'],T)
    if k=='ref': return '&%s%s'%('mut ' if r['mut'] else '',place(r['p']))
    if k=='bin': return '%s(%s, %s)'%(r['op'],op(r['a'],T),op(r['b'],T))
    if k=='un': return '%s(%s)'%(r['op'],op(r['a'],T))
    if k=='cast': return '%s as %s (%s)'%(op(r['a'],T),T[r['t']]['s'],r['k'])
    if k=='discr': return 'discr(%s)'%place(r['p'])
    if k=='agg': return '%s(%s)'%({x:(T[y]['s'] if x=='t' else y) for x,y in r['k'].items()},', '.join(op(o,T) for o in r['ops']))
    return json.dumps(r)
def show(key,b,T,out=sys.stdout):
    print('fn',key,'argc',b['argc'],b['span'],'generic' if b['generic'] else '',file=out)
    for i,t in enumerate(b['locals']): print('   let _%d: %s; // %s'%(i,T[t]['s'],b['names'][i]),file=out)
    for i,bb in enumerate(b['blocks']):
        if bb is None: continue
        print('  bb%d:'%i,file=out)
        for s in bb['s']:
            if 'rv' in s: print('    %s = %s'%(place(s['p']),rv(s['rv'],T)),file=out)
            elif 'dead' in s: pass
            else: print('   ',s,file=out)
        t=bb['t']
        if t['t']=='call':
            print('    %s = call %s(%s) -> %s'%(place(t['dst']),op(t['f'],T),', '.join(op(a,T) for a in t['args']),t['to']),file=out)
        elif t['t']=='switch': print('    switch %s %s else %s'%(op(t['d'],T),t['vs'],t['else']),file=out)
        elif t['t']=='assert': print('    assert(%s==%s) %s -> %s'%(op(t['c'],T),t['exp'],t['msg'],t['to']),file=out)
        else: print('   ',{k:v for k,v in t.items() if k!='sp'},file=out)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for k,b in d['bodies'].items():
        if len(sys.argv)<3 or sys.argv[2] in k: show(k,b,d['types'])
