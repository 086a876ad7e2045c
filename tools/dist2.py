"""Distribution of recorded integers: python3 tools/dist2.py <glob> <event> <fields,comma> [field=value ...] (tuning aid)."""
import json, glob, collections, sys
v, cond = collections.defaultdict(list), [c.split("=") for c in sys.argv[4:]]
for f in glob.glob(sys.argv[1]):
    for l in open(f, errors="replace"):
        e = json.loads(l)
        if e["ev"] != sys.argv[2] or any(str(e.get(a)) != b for a, b in cond):
            continue
        for x in sys.argv[3].split(","):
            if x in e:
                v[x].append(e[x])
for x in v:
    s = sorted(v[x]); n = len(s)
    print(x, n, [s[int(n * q)] for q in (.5, .9, .99)], s[-8:])
