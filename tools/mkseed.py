#!/usr/bin/env python3
"""mkseed.py SPECFILE...: create /verif/seeded/<id> from a python spec file and confirm it in a scratch copy.

A spec file defines: id, prop, needs, breaks, edits=[(file, old, new)], demo (Go test source, package gologix; function TestDemo),
optional pkgdir ('.'), optional extra (dict name->content)."""
import sys,os,subprocess,json,shutil,tempfile
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# exits 0 on the unchanged tree, non-zero with the change
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
tmp=$(mktemp -d)
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
timeout 120 go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%s
rc=$?
rm -f "$tmp/overlay.json"; rmdir "$tmp"
exit $rc
'''
def sh(cmd,cwd):
    return subprocess.run(cmd,cwd=cwd,env=env,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
# a client over a pipe whose peer answers every frame with answer(frame); nil ends the connection
HELP='''
func demoClient(answer func(req []byte) []byte) *Client {
	a, b := net.Pipe()
	c := NewClient("x"); c.conn = a; c.connStatus = connectionStatusConnected
	c.knownFirmware = 20
	c.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	go func() {
		defer b.Close()
		for {
			h := make([]byte, 24)
			if _, err := io.ReadFull(b, h); err != nil { return }
			p := make([]byte, int(h[2])|int(h[3])<<8)
			if _, err := io.ReadFull(b, p); err != nil { return }
			r := answer(append(h, p...))
			if r == nil { return }
			out := append([]byte{}, h...)
			out[2], out[3] = byte(len(r)), byte(len(r)>>8)
			if _, err := b.Write(append(out, r...)); err != nil { return }
		}
	}()
	return c
}
// the payload of a reply with connected data d
func demoReply(d ...byte) []byte {
	r := []byte{0, 0, 0, 0, 0, 0, 2, 0, 0xA1, 0, 4, 0, 0, 0, 0, 0, 0xB1, 0, byte(len(d)), byte(len(d) >> 8)}
	return append(r, d...)
}
'''
def one(path):
    g={'HELP':HELP}
    exec(open(path).read(),g)
    sid=g['id']; d='/verif/seeded/'+sid
    tmp=tempfile.mkdtemp(prefix='seed-')
    wt=tmp+'/repo'
    shutil.copytree('/repo',wt,symlinks=True)
    ok=True; msg=''
    for f,old,new in g['edits']:
        p=wt+'/'+f
        raw=open(p,newline='').read(); crlf='\r\n' in raw
        s=raw.replace('\r\n','\n')
        if s.count(old)!=1:
            print(sid,'FAIL: pattern matches',s.count(old),'times in',f); shutil.rmtree(tmp); return False
        s=s.replace(old,new)
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    diff=subprocess.run(['git','-C',wt,'diff','--binary'],stdout=subprocess.PIPE).stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','wb').write(diff)
    pk=g.get('pkgdir','.')
    open(d+'/demo_test.go.txt','w').write(g['demo'])
    open(d+'/demo.sh','w').write(DEMO%(pk,pk))
    json.dump({"property":g['prop'],"needs":g['needs'],"what_it_breaks":g['breaks']},open(d+'/meta.json','w'),indent=1)
    # confirm
    r=sh('bash %s/demo.sh'%d,'/repo')
    if r.returncode!=0: ok=False; msg+='demo fails on unchanged tree:\n'+r.stdout[-1500:]
    r=sh('go build ./...',wt)
    if r.returncode!=0: ok=False; msg+='build:\n'+r.stdout[-1500:]
    r=sh('bash %s/demo.sh'%d,wt)
    if r.returncode==0: ok=False; msg+='demo passes with the change\n'
    elif 'build failed' in r.stdout: ok=False; msg+='demo build failed\n'+r.stdout[-1500:]
    if ok:
        r=sh("go test -json -vet=off -count=1 -timeout 10m ./... > %s/log; python3 /opt/vp/results.py %s/out.json gojson:%s/log"%(tmp,tmp,tmp),wt)
        base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(tmp+'/out.json'))
        names=stable(base); passed=set(stable(out))
        miss=[n for n in names if n not in passed]
        if miss: ok=False; msg+='baseline tests fail: %s\n'%miss[:5]
    shutil.rmtree(tmp)
    print(sid,'ok' if ok else 'FAIL '+msg)
    return ok
def stable(j):
    if 'pass' in j: return j['pass']
    if 'passed' in j: return j['passed']
    for k in ('stable','tests'):
        if k in j:
            v=j[k]
            return [n for n in v if not isinstance(v,dict) or v[n] in ('pass','passed',True)]
    raise Exception(str(list(j)))
if __name__=='__main__':
    bad=0
    for f in sys.argv[1:]:
        if not one(f): bad+=1
    sys.exit(bad)
