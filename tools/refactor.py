"""tools/refactor.py NAME EDITS.py: applies one behaviour-preserving edit of tools/refactors/*.py to a copy of /repo and prints what the proof makes of it"""
import sys, os, json, subprocess, shutil, importlib.util
name, edits_file = sys.argv[1], sys.argv[2]
ns={}; exec(open(edits_file).read(), ns)
edits=ns['R'][name]
d='/tmp/refactors/%s'%name
shutil.rmtree(d, ignore_errors=True); os.makedirs(d+'/verif/build')
shutil.copytree('/repo/src', d+'/repo/src'); 
for f in ('Cargo.toml','Cargo.lock'): 
    if os.path.exists('/repo/'+f): shutil.copy('/repo/'+f, d+'/repo/')
for f,a,b in edits:
    p=d+'/repo/src/'+f; s=open(p).read()
    assert a in s,(name,f,a)
    open(p,'w').write(s.replace(a,b) if len(a)<25 and s.count(a)>1 and '\n' not in a else s.replace(a,b,1))
env=dict(os.environ, CARGO_TARGET_DIR='/tmp/refactors/target', CARGO_NET_OFFLINE='true')
p=subprocess.run(['cargo','check','--offline'],cwd=d+'/repo',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
if p.returncode: print(name,'DOES NOT COMPILE',p.stdout[-1500:]); sys.exit()
for x in ('bin','contracts','verus','weave','engine','known-findings.txt'): os.symlink('/verif/'+x, d+'/verif/'+x)
os.environ['PARSEGEN_REPO']=d+'/repo'
sys.path.insert(0,'/verif/bin'); sys.path.insert(0,'/verif/engine')
import check
check.BUILD=d+'/verif/build'
out={}
check.run_l1(out, tuple(os.environ.get('WITH','').split()))
r=out['res']
print(name,'ok' if r['ok'] else 'NOTOK '+r['reason'][:300],'failed',sorted(r['failed']),'lemmas',sorted(r['lemmas_failed']),'demoted',sorted(r['demoted']),'errors',r['errors'],'lost',[(f['name'],f['lost'],f['notes']) for f in r['woven'] if f['lost'] or f['notes']], 'second',r.get('second_try'))
for k in sorted(r['demoted']):
    for m in r['messages'].get(k,[])[:2]: print('   D ',m[:500].replace('\n','\n    '))
for k in sorted(r['failed']):
    for m in r['messages'].get(k,[])[:1]: print('   ',m[:400].replace('\n','\n    '))
shutil.rmtree(d)
