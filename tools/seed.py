# Library used to plant a bug: seed(id, prop, edits, pkg, demo, needs, breaks).
# Works in a scratch worktree, confirms that the change builds, passes the stable tests and that the
# demonstration fails with it and passes without it, then writes seeded/<id>.
import subprocess,os,json,shutil
WS='/tmp/seedws'
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',CGO_ENABLED='1',TZ='UTC')
DEMO='''#!/bin/bash
# Runs the test beside this file inside the package %(pkg)s of the repository in the current directory.
. /opt/vp/env.sh 2>/dev/null
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_seed_demo_test.go\\":\\"$d/demo_test.go.txt\\"}}" > "$o"
timeout 250 go test -vet=off -count=1 -overlay "$o" -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(c,shell=True,cwd=WS,env=ENV,capture_output=True,text=True,**k)
def seed(id,prop,edits,pkg,demo,needs,breaks):
    if not os.path.isdir(WS): subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',WS,'HEAD'])
    sh('git checkout -q --detach $(git -C /repo rev-parse HEAD) && git checkout -q -- . && git clean -fdq')
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',id); os.makedirs(out,exist_ok=True)
    open(out+'/demo_test.go.txt','w').write(demo)
    d='' if pkg in('','.') else pkg+'/'
    open(out+'/demo.sh','w').write(DEMO%dict(pkg=pkg,dir=d)); os.chmod(out+'/demo.sh',0o755)
    r=sh('bash %s/demo.sh'%out)
    assert r.returncode==0,('demo fails on the clean tree',r.stdout,r.stderr)
    for f,l in edits.items():
        s=open(WS+'/'+f).read()
        for a,b in l:
            assert s.count(a)==1,(f,a,s.count(a)); s=s.replace(a,b)
        open(WS+'/'+f,'w').write(s)
    r=sh('go build ./... '); assert r.returncode==0,r.stderr
    diff=sh('git diff').stdout
    r=sh('go test -json -vet=off -count=1 -timeout 5m ./... 2>/dev/null > /tmp/seed.log; git checkout -q -- . ; git clean -fdq; true')
    passed=set()
    for line in open('/tmp/seed.log'):
        try: e=json.loads(line)
        except ValueError: continue
        if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Package']+'/'+e['Test'])
    miss=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-passed
    assert not miss,('existing tests notice',id,sorted(miss)[:5])
    open(out+'/patch.diff','w').write(diff)
    r=sh('git apply '+out+'/patch.diff'); assert r.returncode==0,r.stderr
    r=sh('bash %s/demo.sh'%out)
    assert r.returncode!=0,'demo passes with the change'
    assert 'build failed' not in r.stdout+r.stderr and 'setup failed' not in r.stdout+r.stderr,r.stdout+r.stderr
    tail=[x for x in (r.stdout).splitlines() if 'zz_seed' in x or 'panic' in x][:2]
    sh('git checkout -q -- . && git clean -fdq')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1,ensure_ascii=False)
    print('ok',id,prop,tail)
