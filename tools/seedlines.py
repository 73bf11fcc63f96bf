"""lists planted changes that touch no line of the original repository"""
import os,re,subprocess
for d in sorted(os.listdir('/verif/seeded')):
    f='/verif/seeded/%s/patch.diff'%d
    n=0; cur=None; old=0
    for l in open(f):
        if l.startswith('--- '): cur=l[6:].strip()
        elif l.startswith('+++ '): pass
        elif l.startswith('@@'):
            old=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L','%d,%d'%(old,old),'HEAD','--',cur],capture_output=True,text=True).stdout
            if b.startswith('^cf3c14f') and l[1:].strip() and not l[1:].strip().startswith('//'): n+=1
            old+=1
        elif l.startswith(' '): old+=1
    if n==0: print('no original line:',d)
