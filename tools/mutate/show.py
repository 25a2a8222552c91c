import json,collections,sys
m={x['id']:x for x in json.load(open('/tmp/mut/all2.json' if 0 else '/tmp/mut/q.json'))}
c=collections.Counter();sv=[]
for l in open(sys.argv[1] if len(sys.argv)>1 else '/tmp/mut/res.jsonl'):
    d=json.loads(l);c[d['r']]+=1
    if d['r'] in('SURVIVED','ODD','ERR'):sv.append(d)
print(c)
seen=set()
if len(sys.argv)>2:
    for d in sv:
        x=m[d['id']]
        print('%d %s:%d %s [%s] %r -> %r %s'%(d['id'],x['File'].replace('internal/',''),x['Line'],x['Func'],x['Op'],x['Old'][:110],x['New'][:60],d.get('odd') and str(d['odd'])[:200] or ''))
