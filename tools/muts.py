"""muts.py PID < file: blocks 'FILE|OLD|NEW[|nth]' one per line (\\n escapes); runs each, prints one line"""
import sys, subprocess, concurrent.futures as cf
pid = sys.argv[1]
L = [l.split('|||') for l in __import__('re').split(r'\n(?=(?:src|include)/)', sys.stdin.read().strip('\n'))]
L = [[y.strip(" ") for y in x[:3]] + [z.strip() for z in x[3:]] for x in L]
def go(x):
    x = [y.replace('\\n', '\n') for y in x]
    r = subprocess.run(['python3', 'tools/mut.py', pid] + x, capture_output=True, text=True)
    o = r.stdout.strip().splitlines()
    return x[1][:60] + ' -> ' + x[2][:60], (o[0][:8] if o else 'ERR ' + r.stderr[-200:]), (o[-1][:160] if o else '')
with cf.ThreadPoolExecutor(3) as ex:
    for a, b, d in ex.map(go, L):
        print(('CAUGHT ' if ' rc 1' in b or 'VIOLATION' in d else 'MISSED ') + a + ' | ' + b + ' | ' + d)
