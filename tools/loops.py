import re,subprocess,os,sys
S={'pkg/graph/memory/edge.go':[32,130],'pkg/graph/memory/wg.go':[40,76,110,144,166,194,302,325],'pkg/graph/memory/wug.go':[17],'pkg/graph/memory/wdg.go':[17],'pkg/graph/memory/node.go':[24,83],
'pkg/cache/memory/links.go':[32,143,158,181,202],'pkg/plan/simple/simple.go':[22],'pkg/attrs/attrs.go':[53],'pkg/attrs/memory/memory.go':[33],'pkg/attrs/memory/dot.go':[20],
'pkg/broker/ingester/simple/ingester.go':[20,32],'pkg/broker/digester/simple/digester.go':[19,41],'pkg/broker/memory/memory.go':[47,138,169],'pkg/broker/memory/subscriber.go':[58],
'pkg/store/memory/store.go':[30,70,107,137,154,175,198,213,228,241,254],'pkg/space/link/link.go':[22],'pkg/space/entity/object.go':[28],'pkg/space/entity/entity.go':[26],'pkg/space/entity/resource.go':[29],'runner.go':[17,33]}
rev={('pkg/graph/memory/edge.go',130),('pkg/graph/memory/wg.go',144),('pkg/graph/memory/wg.go',166),('pkg/graph/memory/wg.go',194),('pkg/graph/memory/wg.go',302),('pkg/graph/memory/wg.go',325),('pkg/graph/memory/node.go',83),('pkg/attrs/attrs.go',53),('pkg/attrs/memory/memory.go',33),('pkg/attrs/memory/dot.go',20),('pkg/cache/memory/links.go',158)}
def form(kind,ind,i,v,s):
    out=[]
    if kind=='pop':
        out.append(f'{ind}pend@ := {s}')
        out.append(f'{ind}for len(pend@) > 0 {{' if i in('','_') else f'{ind}for {i} := 0; len(pend@) > 0; {i}++ {{')
        out.append(f'{ind}\t{v} := pend@[0]'); out.append(f'{ind}\tpend@ = pend@[1:]')
    elif kind=='ne':
        j=i if i not in('','_') else 'i'
        out.append(f'{ind}list@ := {s}'); out.append(f'{ind}for {j} := 0; {j} != len(list@); {j}++ {{'); out.append(f'{ind}\t{v} := list@[{j}]')
    elif kind=='popne':
        out.append(f'{ind}for pend@ := {s}; len(pend@) != 0; pend@ = pend@[1:] {{'); out.append(f'{ind}\t{v} := pend@[0]')
    elif kind=='rev':
        j=i if i not in('','_') else 'i'
        out.append(f'{ind}list@ := {s}'); out.append(f'{ind}for {j} := len(list@) - 1; {j} >= 0; {j}-- {{'); out.append(f'{ind}\t{v} := list@[{j}]')
    elif kind=='rev1':
        out.append(f'{ind}list@ := {s}'); out.append(f'{ind}for n0 := len(list@); n0 > 0; n0-- {{'); out.append(f'{ind}\t{v} := list@[n0-1]')
        if i not in('','_'): out.append(f'{ind}\t{i} := n0 - 1')
    elif kind=='inf':
        j=i if i not in('','_') else 'i'
        out.append(f'{ind}list@ := {s}'); out.append(f'{ind}for {j} := 0; ; {j}++ {{'); out.append(f'{ind}\tif {j} >= len(list@) {{ break }}'); out.append(f'{ind}\t{v} := list@[{j}]')
    return out
blocks=[]
os.makedirs('/tmp/lp',exist_ok=True)
for kind in sys.argv[1:]:
  skip={('pkg/graph/memory/edge.go',130),('pkg/graph/memory/node.go',83),('pkg/attrs/memory/dot.go',20)} if kind in('ne','rev','inf') else set()
  src=[]
  for f,ls in S.items():
    L=open('/repo/'+f).read().split('\n')
    for ln in sorted(ls,reverse=True):
      if kind.startswith('rev') and (f,ln) not in rev: continue
      if (f,ln) in skip: continue
      m=re.match(r'(\t+)for (\w+), (\w+) := range (.*) \{$',L[ln-1])
      if kind=='popne' and m.group(2)!='_': continue
      L[ln-1:ln]=[x.replace('@',str(ln)) for x in form(kind,m.group(1),m.group(2),m.group(3),m.group(4))]
    p='/tmp/lp/%s_%s'%(kind,f.replace('/','_')); open(p,'w').write('\n'.join(L))
    src.append(f"open('{f}','w').write(open('{p}').read())\n")
  blocks.append(f"### good lpall_{kind}\n"+''.join(src))
open('/tmp/bt/loops.txt','w').write(''.join(blocks))
