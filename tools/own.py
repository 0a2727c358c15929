import os,subprocess,re,sys
S='/verif/seeded'
B={}
def blame(f):
    if f not in B:
        o=subprocess.run(['git','-C','/repo','blame','-s','--abbrev=8',f],stdout=subprocess.PIPE).stdout.decode('latin-1').split('\n')
        B[f]=[x.startswith('^') for x in o]
    return B[f]
for d in sorted(os.listdir(S)):
    p=S+'/'+d+'/patch.diff'
    if not os.path.exists(p): continue
    f=None;n=0;orig=0;mine=0;ins=0
    for l in open(p,encoding='latin-1',newline=''):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            if blame(f)[n-1]: orig+=1
            else: mine+=1
            n+=1
        elif l.startswith('+'): ins+=1
        elif l.startswith(' '): n+=1
    print(d,'orig',orig,'mine',mine,'ins',ins, '<<<<' if mine else '')
