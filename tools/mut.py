"""self-test: apply a textual change to a scratch copy of /repo and run checks on it.  mut.py P01[,P02] FILE OLD NEW [n-th occurrence]"""
import sys, os, shutil, subprocess, tempfile
pids, f, old, new = sys.argv[1:5]
k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
try:
    subprocess.run("cp -a /repo/include /repo/src /repo/CMakeLists.txt %s/" % d, shell=True, check=True)
    p = os.path.join(d, f); s = open(p).read()
    i = -1
    for _ in range(k + 1):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, 'w').write(s)
    for pid in pids.split(','):
        r = subprocess.run(["python3-vt", "fv/run.py", pid], cwd="/verif", env=dict(os.environ, FNFT_REPO=d, FV_EVID=d), capture_output=True, text=True)
        print(pid, 'rc', r.returncode, '|', '\n'.join(r.stdout.splitlines()[-7:])[-900:], r.stderr[-300:])
finally:
    shutil.rmtree(d)
