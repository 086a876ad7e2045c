"""Worst recorded integers per class: python3 tools/dist.py <glob> <start fields,comma> <event fields,comma> (tuning aid)."""
import sys, json, glob, collections
fs = glob.glob(sys.argv[1]); sf = sys.argv[2].split(","); ef = sys.argv[3].split(",")
d = collections.defaultdict(lambda: [0] * len(ef)); s = {}
for f in fs:
    for l in open(f):
        e = json.loads(l)
        if e["ev"] == "Start":
            s = e
            continue
        k = (e["ev"],) + tuple(str(s.get(x, e.get(x, "-"))) for x in sf)
        for i, x in enumerate(ef):
            if x in e:
                d[k][i] = max(d[k][i], e[x])
for k in sorted(d):
    print(k, d[k])
