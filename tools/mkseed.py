"""mkseed.py ID PROP FILE NEEDS BREAKS < stdin: OLD\n====\nNEW  (writes seeded/ID/patch.diff, demo.sh, meta.json; demo.c by hand)"""
import sys,os,json,subprocess,difflib
ID,P,F,needs,brk=sys.argv[1:6]
old,new=sys.stdin.read().split('\n====\n'); new=new.rstrip('\n'); old=old.strip('\n'); new=new.strip('\n')
s=open('/repo/'+F).read()
nth=int(sys.argv[6]) if len(sys.argv)>6 else 1
cnt=s.count(old)
if cnt<1 or (cnt>1 and len(sys.argv)<=6): sys.exit('OLD occurs %d times'%cnt)
i=-1
for _ in range(nth): i=s.index(old,i+1)
t=s[:i]+new+s[i+len(old):]
d='/verif/seeded/'+ID; os.makedirs(d,exist_ok=True)
df=''.join(difflib.unified_diff(s.splitlines(1),t.splitlines(1),'a/'+F,'b/'+F))
open(d+'/patch.diff','a' if os.environ.get('APPEND') else 'w').write(df)
json.dump({"property":P,"needs":needs,"what_it_breaks":brk},open(d+'/meta.json','w'),indent=1)
open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = /repo after the build; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3
gcc -std=gnu99 -O1 -w -Iinclude -Iinclude/private -Iinclude/3rd_party/kiss_fft "$d/demo.c" -o "$t/demo" -Llib -lfnft -lm -Wl,-rpath,"$PWD/lib" || { rm -rf "$t"; exit 3; }
timeout 200 "$t/demo"; rc=$?
rm -rf "$t"
exit $rc
''')
os.chmod(d+'/demo.sh',0o755)
