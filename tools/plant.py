"""plant.py ID: make /verif/seeded/ID from /verif/tools-less description on stdin (dev tool).
stdin: python dict literal(s): dict(property=, needs=, breaks=, edits=[(file, old, new)], demo="python code")
"""
import json, os, subprocess, sys
SRC = "/repo/src/PythonicDISORT/"
RUN = """#!/bin/bash
cd "${PWD}"
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def main():
    id = sys.argv[1]
    d = eval(sys.stdin.read())
    assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
    out = "/verif/seeded/" + id
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.sh", "w").write(RUN)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(d["demo"].lstrip("\n"))
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    print("demo unchanged:", r.returncode, r.stdout[-300:], r.stderr[-600:])
    ok = r.returncode == 0
    try:
        for f, old, new in d["edits"]:
            s = open(SRC + f, newline="").read()
            o = old.replace("\n", "\r\n")
            n = new.replace("\n", "\r\n")
            assert s.count(o) == 1, (f, s.count(o), old)
            open(SRC + f, "w", newline="").write(s.replace(o, n))
        diff = subprocess.run("git -C /repo diff --binary", shell=True, capture_output=True).stdout
        open(out + "/patch.diff", "wb").write(diff)
        r = sh("bash %s/demo.sh" % out, cwd="/repo")
        print("demo patched:", r.returncode, r.stdout[-300:], r.stderr[-300:])
        ok = ok and r.returncode != 0
        r = sh("bash /opt/vp/test.sh /tmp/t.json")
        t = json.load(open("/tmp/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        s = json.dumps(t)
        print("tests:", s[-200:] if len(s) < 4000 else {k: (len(v) if hasattr(v, "__len__") else v) for k, v in t.items()})
        if len(sys.argv) > 2:
            for p in sys.argv[2].split(","):
                r = sh("timeout 900 python3-vt -m vp.run %s" % p, cwd="/verif")
                print("check", p, r.returncode, "\n".join(l[:250] for l in r.stdout.splitlines()[-8:]), r.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    print("OK" if ok else "NOT OK")


main()
