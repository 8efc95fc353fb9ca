"""Table of seeded changes for DESIGN.md: seed_table.py LOG (output of a run of every change against its check)"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    m = re.match(r"(c\d\d-[\w-]+) (C\d\d) rc=(\d) \S+ :: (?:C\d\d )?(\S+?):", line)
    if m:
        res[m[1]] = (m[2], m[3], m[4])
print("| change | needs | reported by |")
print("|---|---|---|")
for d in sorted(os.listdir(root + "/seeded")):
    meta = json.load(open(f"{root}/seeded/{d}/meta.json"))
    p, rc, test = res.get(d, (meta["property"], "?", "?"))
    by = f"{p} `{test}`" if rc == "1" else "**missed**" if rc == "0" else "?"
    print(f"| {d} | {meta['needs']} | {by} |")
