"""mkseed.mk(id, prop, [(file, old, new)...], needs, breaks, t_c, ldflags=None, demo='demo_daemon.sh')"""
import json, os, shutil, subprocess, tempfile
def mk(sid, prop, edits, needs, breaks, t_c=None, ldflags=None, demo="demo_daemon.sh", extra=None):
    d = os.environ.get("FV_V", "/verif") + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call("git -C " + os.environ.get("FV_REPO", "/repo") + " archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (t, t), shell=True)
    base = open(d + "/../../tools/base").read().strip()
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p, encoding="latin-1").read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        o = subprocess.check_output(["git", "-C", os.environ.get("FV_REPO", "/repo"), "show", base + ":" + f]).decode("latin-1")
        if old not in o: print("WARNING", sid, f, "not the text of the original repository")
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t, "diff"]).decode("latin-1"))
    shutil.rmtree(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if t_c: open(d + "/t.c", "w").write(t_c)
    if ldflags: open(d + "/ldflags", "w").write(ldflags)
    if demo: shutil.copy(os.environ.get("FV_V", "/verif") + "/tools/" + demo, d + "/demo.sh")
    for k, v in (extra or {}).items(): open(d + "/" + k, "w").write(v)
