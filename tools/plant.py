"""Makes /verif/seeded/<id>/ from tools/seeds/*.py, after confirming each change in a scratch copy:
the stable tests still pass and the demonstration fails with the change and passes without it.
usage: plant.py [id ...]   (default: those not made yet);   plant.py --try id ... runs the property's check against it"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            assert s["id"] not in out, s["id"]
            s["demo"] = ns.get("PRELUDE", "") + s["demo"]
            out[s["id"]] = s
    return out


def copy(tmp):
    d = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def edit(repo, s):
    for path, old, new in s["edits"]:
        p = os.path.join(repo, path)
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        t = t.replace("\r\n", "\n")
        if t.count(old) != 1:
            raise SystemExit(f"{s['id']}: {t.count(old)} occurrences of {old!r} in {path}")
        t = t.replace(old, new)
        open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)


def tests(repo):
    env = dict(os.environ, PYTHONPATH=f"{repo}:/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", OPENBLAS_NUM_THREADS="1")
    xml = os.path.join(repo, "..", "t.xml")
    subprocess.run(["/opt/venv/bin/pytest", "-q", "-c", "/dev/null", f"--rootdir={repo}", "-p", "no:cacheprovider",
                    "-p", "vp_testclass", "-p", "pytest_timeout", "--import-mode=importlib", "--timeout=30",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={xml}",
                    f"{repo}/ama_xiv_combat_sim"], cwd=f"{repo}/ama_xiv_combat_sim", env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=800)
    import xml.etree.ElementTree as ET
    bad = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if any(x.tag in ("failure", "error") for x in c):
            bad.add(c.get("classname", "") + "::" + c.get("name", ""))
    return {b for b in bad if "csv" not in b}


def demo(repo, d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout


DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def make(s):
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        repo = copy(tmp)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        rc, out = demo(repo, d)
        if rc != 0:
            return f"demo fails on the unchanged tree:\n{out}"
        edit(repo, s)
        diff = subprocess.run(["git", "-C", repo, "diff", "--binary"], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        rc, out = demo(repo, d)
        if rc == 0:
            return "demo passes with the change"
        bad = tests(repo)
        if bad:
            return f"tests fail: {sorted(bad)[:6]}"
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        to = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(to, ignore_errors=True)
        shutil.copytree(d, to)
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(s, props=None, tier="quick"):
    """runs the property's check against a scratch copy with the change"""
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        repo = copy(tmp)
        edit(repo, s)
        res = {}
        for p in props or [s["property"]]:
            r = subprocess.run([PY, os.path.join(ROOT, "check.py"), p, tier], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(tmp, "ev"),
                                        OPENBLAS_NUM_THREADS="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[p] = (r.returncode, r.stdout)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    all_ = seeds()
    if a and a[0] == "--try":
        for i in a[1:] or sorted(all_):
            for p, (rc, out) in attempt(all_[i]).items():
                lines = [x for x in out.splitlines() if "VIOLATION" not in x]
                print(f"{i} {p}: {'CAUGHT' if rc == 1 and 'VIOLATION property=' + p in out else 'MISSED' if rc == 0 else 'ERROR'}",
                      "|", " / ".join(lines[-4:])[:600], flush=True)
        return
    from concurrent.futures import ThreadPoolExecutor
    ids = a or [i for i in all_ if not os.path.exists(os.path.join(ROOT, "seeded", i, "meta.json"))]
    with ThreadPoolExecutor(4) as ex:
        for i, err in zip(ids, ex.map(lambda i: make(all_[i]), ids)):
            print(i, "REJECTED: " + err if err else "ok", flush=True)


if __name__ == "__main__":
    main()
