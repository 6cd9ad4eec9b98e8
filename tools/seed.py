"""Plants a bug for trying the checks: python3 tools/seed.py <spec.py> ; the spec sets ID, PROP, NEEDS, BREAKS, EDITS, DEMO (shell) and FILES.
Applies the edits in /repo, confirms build, tests and demo, writes seeded/<ID>/, runs the property's check and restores /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    assert sh("git -C %s status --porcelain --untracked-files=no" % R).stdout == "", "repo not clean"
    open(os.path.join(d, "demo.sh"), "w").write(ns["DEMO"])
    for f, t in ns.get("FILES", {}).items():
        open(os.path.join(d, f), "w").write(t)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d, cwd=R)
    print("clean demo:", r0.returncode, r0.stdout[-300:])
    try:
        for f, a, b in ns["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        o = open("/tmp/seed_out.json").read() if os.path.exists("/tmp/seed_out.json") else ""
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
        print("build", b.returncode, "tests", t.stdout[-200:], o[:200] if '"failed": []' not in o else "all pass")
        print("patched demo:", r1.returncode, r1.stdout[-300:])
        for p in [] if os.environ.get("NOCHECK") else [ns["PROP"]] + ns.get("ALSO", []):
            c = sh("python3 sa/check.py %s" % p, cwd=V)
            print("check", p, "->", c.returncode, "\n".join(c.stdout.split("\n")[-4:]))
    finally:
        sh("git -C %s checkout -- ." % R)
        sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    for s in sys.argv[1:]:
        main(s)
