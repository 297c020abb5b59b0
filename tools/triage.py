import json,os,sys,glob,collections
for p in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/out/replay/%s_*.json'%sys.argv[1])):
    d=json.load(open(p)); print('==',d['message'])
    t=d['payload']['trace']; e=t['ev'][d['payload']['step']-1]
    for k in ('trs','tgts'):
        for tr in t.get(k,[]): print('  ',k,json.dumps(tr))
    e=json.loads(json.dumps(e))
    def cut(o,d=0):
        if isinstance(o,list): return [cut(x,d+1) for x in o[:14]]
        if isinstance(o,dict): return {k:cut(v,d+1) for k,v in o.items()}
        return o
    print('  ops',[x['op'] for x in t['ev']]);print('  ',json.dumps(cut(e))[:int(sys.argv[2]) if len(sys.argv)>2 else 1800])
