"""The table of planted bugs for DESIGN.md: bugtable.py <output of bugrun.py>"""
import json, os, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = {}
for line in open(sys.argv[1]) if len(sys.argv) > 1 else ():
    w = line.split()
    if len(w) > 3:
        m = re.search(r": (\d+) runs in", line)
        runs[w[0]] = (w[2], w[3], m and m[1])
print("| change | breaks | needs | caught by | after |\n|---|---|---|---|---|")
for b in sorted(os.listdir(VERIF + "/seeded")):
    m = json.load(open(f"{VERIF}/seeded/{b}/meta.json"))
    rc, t, n = runs.get(b, ("?", "?", "?"))
    print(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {m['property'] if rc == 'rc=1' else 'MISSED' if rc == 'rc=0' else '?'} | {n + ' runs, ' if n else ''}{t[:-1]} s |")
