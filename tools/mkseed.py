# usage: mkseed(id, prop, needs, breaks, edits=[(file, old, new)], demo, files={})
import os, json, subprocess, shutil, tempfile
def mkseed(id, prop, needs, breaks, edits, demo, files=None):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    t=tempfile.mkdtemp(dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C '+t, shell=True)
    subprocess.check_call('git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=t)
    for f,o,n in edits:
        p=os.path.join(t,f); s=open(p).read()
        assert s.count(o)==1, (id, f, s.count(o), o)
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','diff'],cwd=t).decode()
    assert diff
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for k,v in (files or {}).items(): open(d+'/'+k,'w').write(v)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    shutil.rmtree(t)
# demo that compiles a C++ file beside it with sources from the repository
def cxxdemo(src='t.cpp', extra='', flags='', comp='g++ -std=c++11'):
    return '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cd "$w" && %s -O1 -w %s -I"$repo" -I"$repo/cxx" -I"$repo/upwind/cxx" "$here/%s" %s -o t || exit 3
./t
''' % (comp, flags, src, ' '.join('"$repo/%s"' % e for e in extra.split()))
