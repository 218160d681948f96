import subprocess,sys,re
base=subprocess.check_output("git -C /repo log --format=%H --reverse | head -1",shell=True,text=True).strip()
fixes=None
for f in sys.argv[1:]:
    txt=open(f).read(); cur=None; res=[];ln=0
    for l in txt.splitlines():
        m=re.match(r'--- a/(.*)',l)
        if m: cur=m.group(1);continue
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1));continue
        if l.startswith('+'): continue
        if l.startswith('-') and cur:
            b=subprocess.check_output(["git","-C","/repo","blame","-l","-s",f"-L{ln},{ln}","HEAD","--",cur],text=True).split()[0].lstrip('^')
            res.append("o" if b[:38]==base[:38] else "F"); ln+=1
        elif l.startswith(' '): ln+=1
    print(f.split('/')[-1], ''.join(res))
