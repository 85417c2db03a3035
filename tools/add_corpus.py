"""add_corpus.py REPLAY...: appends the cases of replay files to the corpus (without duplicates)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    d = json.load(open(p))
    if d.get("before"):
        print("skipped, depends on the cases before it:", p)
        continue
    path = os.path.join(V, "corpus", d["property"] + ".jsonl")
    line = json.dumps(dict(check=d["check"], case=d["case"]))
    if len(line) > 6000:
        print("skipped, long:", p)
        continue
    have = open(path).read().splitlines() if os.path.exists(path) else []
    if line not in have:
        with open(path, "a") as fh:
            fh.write(line + "\n")
