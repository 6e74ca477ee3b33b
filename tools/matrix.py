#!/usr/bin/env python3
"""Which check catches which planted bug: applies every seeded patch in turn to a scratch copy of
/repo, runs every registered check on it and writes /verif/matrix.json (read by gen.py).
Usage: tools/matrix.py [bug id ...]   (no arguments: all; the rows of the others are kept)."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "rules"))
IDS = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
SEEDED = os.path.join(HERE, "seeded")
OUT = os.path.join(HERE, "matrix.json")


def main():
    M = json.load(open(OUT)) if os.path.exists(OUT) else {}
    have = sorted(os.listdir(SEEDED))
    M = {k: v for k, v in M.items() if k in have}
    todo = sys.argv[1:] or have
    w = tempfile.mkdtemp(prefix="matrix-")
    repo, ver = os.path.join(w, "repo"), os.path.join(w, "verif")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["cp", "-a", HERE, ver], check=True)
        env = dict(os.environ, KN_REPO=repo)
        for b in todo:
            d = os.path.join(SEEDED, b)
            subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)

            def one(p):
                r = subprocess.run([sys.executable, os.path.join(ver, "check.py"), p], env=env, capture_output=True, text=True)
                return p, r.returncode
            first = one(IDS[0])  # builds the facts
            with ThreadPoolExecutor(7) as ex:
                rcs = [first] + list(ex.map(one, IDS[1:]))
            M[b] = {"property": json.load(open(os.path.join(d, "meta.json")))["property"],
                    "caught": [p for p, rc in rcs if rc == 1]}
            odd = [x for x in rcs if x[1] not in (0, 1)]
            print(b, M[b], odd or "", flush=True)
            subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
            json.dump(M, open(OUT, "w"), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(w)


main()
