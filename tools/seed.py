"""seed.py try ID [CHECK...]: against a scratch copy of /repo, checks that seeded/ID applies, its demo tells it apart, and which checks report it."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    i, checks = sys.argv[2], sys.argv[3:]
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    if not os.path.isdir(WT): sh("git -C /repo worktree prune; git clone -q /repo " + WT)
    sh("git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD && git -C %s clean -qfd" % (WT, WT, WT))
    a = sh("cp -r %s /tmp/seeddemo.%d && cd %s && bash /tmp/seeddemo.%d/demo.sh" % (d, os.getpid(), WT, os.getpid()))
    r = sh("git -C %s apply %s/patch.diff" % (WT, d))
    if r.returncode: print("patch does not apply", r.stdout); return 1
    b = sh("cd %s && bash /tmp/seeddemo.%d/demo.sh" % (WT, os.getpid()))
    shutil.rmtree("/tmp/seeddemo.%d" % os.getpid())
    print("%s demo: clean exit %d, patched exit %d%s" % (i, a.returncode, b.returncode, "" if a.returncode == 0 and b.returncode else "  <-- BAD\n" + a.stdout[-1500:] + b.stdout[-1500:]))
    env = dict(os.environ, SIM_REPO=WT, VERIF_SEED="1", VERIF_TIER="quick")
    for c in checks or [meta["property"]]:
        r = sh("cd %s && ./check %s quick" % (V, c), env=env)
        t = r.stdout.strip().splitlines()
        print("  %s exit %d: %s" % (c, r.returncode, " | ".join(x[:260] for x in t if "VIOL" in x or "class" in x or "ERROR" in x or "runs" in x)[:900]))
    sh("git -C %s reset -q --hard" % WT)
if __name__ == "__main__": sys.exit(main())
