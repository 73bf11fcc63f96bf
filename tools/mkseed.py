"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], PKG, TEST (go test source, in package) or DEMO (script)."""
import sys,os,subprocess,json
ns={}
exec(open(sys.argv[1]).read(),ns)
d="/verif/seeded/"+ns["ID"]
os.makedirs(d,exist_ok=True)
import tempfile,shutil
tmp=tempfile.mkdtemp()
try:
    # a clone, so that /repo stays as it is
    subprocess.check_call(["git","clone","-q","-s","/repo",tmp+"/r"])
    for f,o,n in ns["EDITS"]:
        p=tmp+"/r/"+f; s=open(p).read()
        assert s.count(o)==1,(f,o,s.count(o))
        open(p,"w").write(s.replace(o,n))
        if f.endswith(".go"): subprocess.check_call(["gofmt","-l",p]) if shutil.which("gofmt") else None
    open(d+"/patch.diff","wb").write(subprocess.check_output(["git","-C",tmp+"/r","diff"]))
finally:
    shutil.rmtree(tmp)
json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(d+"/meta.json","w"),indent=1)
if "TEST" in ns:
    open(d+"/demo_test.go","w").write(ns["TEST"])
    flags=ns.get("FLAGS","")
    if "ZK" in ns:
        import shutil,glob
        for f in glob.glob("/verif/tools/zzstub/*.txt"): shutil.copy(f,d)
        open(d+"/demo.sh","w").write(open("/verif/tools/zzstub/demo.sh").read().replace("@PKG@",ns["PKG"]).replace("@FLAGS@",flags))
        print(d); sys.exit()
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Runs demo_test.go inside package {ns["PKG"]} of the tree under test.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go" "$t/demo_test.go"
printf '{{"Replace":{{"/repo/{ns["PKG"]}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$t" > "$t/overlay.json"
cd /repo && timeout 280 go test -vet=off -count=1 {flags} -overlay "$t/overlay.json" -run 'TestZZDemo' ./{ns["PKG"]}
''')
else:
    open(d+"/demo.sh","w").write(ns["DEMO"])
    for k,v in ns.get("FILES",{}).items(): open(d+"/"+k,"w").write(v)
print(d)
