import subprocess,sys,re
# checks that removed lines of the diff are lines of the original repository
d=open(sys.argv[1]).read(); f=None
for l in d.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
    if l.startswith('-'):
        b=subprocess.run(['git','-C','/repo','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout
        print('orig' if b.startswith('^36760eb') else 'MINE',l)
        n+=1
    elif l.startswith('+'): pass
    else: n+=1
