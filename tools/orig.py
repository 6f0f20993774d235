# dev helper: does a planted patch change lines of the original repository?
import subprocess,sys,re,os
for i in sys.argv[1:] or sorted(os.listdir('/verif/seeded')):
    f=None; bad=[]; good=0; n=0
    for l in open('/verif/seeded/%s/patch.diff'%i):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            b=subprocess.run(['git','-C','/repo','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout.split()[0]
            if b.startswith('^') or b.startswith('d11bc70'): good+=1
            elif l[1:].strip(): bad.append(n)
            n+=1
        elif l.startswith(' '): n+=1
    print(i,'original lines removed:',good,'own lines removed:',bad)
