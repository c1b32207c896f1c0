#!/usr/bin/env python3
"""mutate.py FILE: for each mutation in FILE (blocks "# name PROP FILE", OLD, "====", NEW, "####"; more OLD/NEW pairs after a "----" line) judge a scratch copy.  Development tool."""
import sys, re, os, subprocess, concurrent.futures, queue, shutil
W = int(os.environ.get("W", "2"))
TAG = os.environ.get("TAG", "")
muts = []
for blk in open(sys.argv[1]).read().split("\n####\n"):
    blk = blk.strip("\n")
    if not blk: continue
    head, rest = blk.split("\n", 1); pairs = [re.split(r"\n====(?:\n|$)", x) for x in rest.split("\n----\n")]
    _, name, props, f = head.split(); muts.append((name, props.split(","), f, pairs))
q = queue.Queue()
for i in range(W): q.put(i)
def run(m):
    name, props, f, pairs = m; i = q.get(); out = ""
    try:
        d = "/tmp/s/mut%s%d" % (TAG, i); shutil.rmtree(d, ignore_errors=True); subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        t = open(d + "/" + f).read()
        for pair in pairs:
            if len(pair) != 2: return "%s: malformed pair" % name
            a, b = pair
            if t.count(a) != 1: return "%s: OLD occurs %d times" % (name, t.count(a))
            t = t.replace(a, b)
        open(d + "/" + f, "w").write(t)
        for p in props:
            r = subprocess.run(["python3", "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=d, VERIF_CACHE="/tmp/s/mcache%s%d" % (TAG, i)), capture_output=True, text=True)
            open("/tmp/s/mut.%s.%s.log" % (name, p), "w").write(r.stdout + r.stderr)
            u = [l for l in r.stdout.split("\n") if l.startswith("# unit") or l.startswith("# harness") or "UNDECIDED" in l.upper()[:40]]
            out += "%s %s rc=%d %s\n    %s\n" % (name, p, r.returncode, (re.findall(r"VIOLATION.*", r.stdout) or [""])[0][-60:], "\n    ".join(x[:160] for x in u))
    finally: q.put(i)
    return out.rstrip()
with concurrent.futures.ThreadPoolExecutor(W) as ex:
    for o in ex.map(run, muts): print(o, flush=True)
