import sys,subprocess,os,shutil,tempfile
# usage: mut.py PROP file old new [file old new]...
prop=sys.argv[1]; a=sys.argv[2:]
d=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
subprocess.check_call(['cp','-a',os.environ.get('MUT_REPO','/repo'),d+'/r'])
for i in range(0,len(a),3):
    p=d+'/r/'+a[i]; s=open(p).read()
    if s.count(a[i+1])<1: print('NOT FOUND',a[i+1]); shutil.rmtree(d); sys.exit(9)
    s=s.replace(a[i+1],a[i+2],1); open(p,'w').write(s)
env=dict(os.environ,VERIF_REPO=d+'/r',VERIF_SEED='1',VERIF_TIER='quick')
r=subprocess.run([os.environ.get('VSNAP','/verif')+'/check.sh',prop],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
o=r.stdout.decode(errors='replace').splitlines()
v=[l[:200] for l in o if l.startswith('violation')][:2]
print(prop,'rc=%d'%r.returncode,'CAUGHT' if r.returncode==1 else 'MISSED', '|', a[2].strip()[:70].replace('\n',' '),'|',v or o[-3:])
shutil.rmtree(d)
