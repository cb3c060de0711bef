"""Helper to write a planted bug: bug(id, prop, edits, pkg, demo, needs, breaks).
edits: [(file, old, new)]; demo: a Go test file of package pkg (TestDemo)."""
import json,os,subprocess,tempfile,shutil
DEMO='''#!/bin/bash
# fails when the planted bug is present; run in the repository after the build
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp)
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$o"
go test -vet=off -count=1 -overlay "$o" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def bug(id,prop,edits,pkg,demo,needs,breaks):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp()
    out=''
    done={}
    for f,old,new in edits:
        s=done.get(f) or open('/repo/'+f).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        done[f]=s.replace(old,new)
    for f,s in done.items():
        os.makedirs(os.path.dirname(t+'/a/'+f),exist_ok=True);os.makedirs(os.path.dirname(t+'/b/'+f),exist_ok=True)
        shutil.copy('/repo/'+f,t+'/a/'+f); open(t+'/b/'+f,'w').write(s)
        r=subprocess.run(['diff','-u','a/'+f,'b/'+f],cwd=t,capture_output=True,text=True)
        out+='diff --git a/%s b/%s\n'%(f,f)+'\n'.join(l.split('\t')[0] if l.startswith(('--- ','+++ ')) else l for l in r.stdout.split('\n'))
    shutil.rmtree(t)
    open(d+'/patch.diff','w').write(out)
    open(d+'/demo.sh','w').write(DEMO%{'pkg':pkg}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(demo.lstrip())
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
