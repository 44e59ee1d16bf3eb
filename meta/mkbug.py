"""mkbug.py: make(ID, property, [(file, old, new)...], needs, breaks, demo) writes a seeded bug (used from scratch scripts)."""
import json, os, subprocess, shutil
R = "/tmp/mut/repo"
def make(id, prop, edits, needs, breaks, demo, drivers=()):
    subprocess.run(["git", "-C", R, "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.run(["/verif/meta/newbug.sh", id, prop, *drivers], check=True)
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff); open(d + "/demo.py", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    print(id)
