import sys,subprocess
def fix(path, pairs, msg):
    p='/repo/'+path; s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
    subprocess.check_call(['git','-C','/repo','commit','-qam',msg])
