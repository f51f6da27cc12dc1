"""plant.py SPEC.py [ids...]: make seeded/<id>/ from a spec and try it out (apply to /repo, build, test, demo, check, undo).
SPEC.py defines BUGS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=csp text | demo_sh=..., files={})]
A csp demo must exit 0 when right."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0: right; cwd is /repo after a build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cp "$here"/*.csp "$w"/
cd "$w" || exit 3
HOME=$w timeout 60 "$repo/build/bin/cspc" build demo.csp -p "$repo/src/std" -o ./demo.exe --silent %s </dev/null >log 2>&1
[ -x demo.exe ] || { echo "demo does not compile"; tail -n 20 log; exit 2; }
HOME=$w timeout 20 ./demo.exe </dev/null >out 2>&1
rc=$?
[ $rc -eq 0 ] || { echo "demo failed: $rc"; head -c 600 out; exit 1; }
exit 0
'''
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    nocheck = "--nocheck" in only
    only = [x for x in only if not x.startswith("-")]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        files = dict(b.get("files", {}))
        if "demo" in b:
            files["demo.csp"] = b["demo"]
        files["demo.sh"] = b.get("demo_sh") or DEMO % b.get("flags", "")
        for n, t in files.items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        run = lambda: sh("bash %s/demo.sh" % d, cwd="/repo")
        msg = []
        try:
            sh("bash /opt/vp/build.sh")
            r = run()
            if r.returncode:
                msg.append("DEMO FAILS UNCHANGED: " + r.stdout.decode(errors="replace")[-300:])
            for f, old, new in b["edits"]:
                p = "/repo/" + f
                s = open(p).read()
                if s.count(old) != 1:
                    msg.append("EDIT %s matches %d times" % (f, s.count(old)))
                    break
                # a line this project's own commits added must not change
                open(p, "w").write(s.replace(old, new))
            else:
                diff = sh("git -C /repo diff").stdout
                open(d + "/patch.diff", "wb").write(diff)
                own = set()
                for l in sh("git -C /repo diff $(git -C /repo rev-list --max-parents=0 HEAD)..HEAD").stdout.decode(errors="replace").split("\n"):
                    if l.startswith("+"):
                        own.add(l[1:].strip())
                for l in diff.decode().split("\n"):
                    if l.startswith("-") and not l.startswith("---") and len(l) > 8 and l[1:].strip() in own:
                        msg.append("CHANGES OWN LINE " + l.strip())
                r = sh("bash /opt/vp/build.sh")
                if r.returncode:
                    msg.append("BUILD FAILS " + r.stdout.decode(errors="replace")[-400:])
                else:
                    r = sh("bash /opt/vp/test.sh /tmp/w/plant.json")
                    t = r.stdout.decode(errors="replace").strip().split("\n")[-1]
                    if " 0 failed" not in t:
                        msg.append("TESTS: " + t)
                    r = run()
                    msg.append("demo rc %d %s" % (r.returncode, r.stdout.decode(errors="replace")[-100:].strip()) if r.returncode else "DEMO PASSES")
                    if not nocheck:
                        r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s" % b["prop"], cwd=V)
                        o = r.stdout.decode(errors="replace")
                        msg.append("check rc %d (%s)" % (r.returncode, "CAUGHT" if "VIOLATION property=" + b["prop"] in o and r.returncode == 1 else "MISSED"))
                        msg.append(o.strip().split("\n")[-1][:150])
        finally:
            sh("git -C /repo checkout -- .")
        print(b["id"], b["prop"], "; ".join(msg), flush=True)
    sh("bash /opt/vp/build.sh")


main()
