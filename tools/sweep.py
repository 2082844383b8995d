"""Development aid: run every check in one process against VERIF_REPO and list the violations."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analysis'); sys.path.insert(0, V + '/corpus')
sys.setrecursionlimit(20000)
import main, importlib, build, absint
from report import Reports
ids = sys.argv[1:] or sorted(main.REGISTRY)
tot = {}
try:
    for p in ids:
        R = Reports()
        absint.LIMIT[0] = time.time() + 600
        for mod, fn in main.REGISTRY[p]:
            getattr(importlib.import_module(mod), fn)(R, p, os.environ.get('VERIF_TIER', 'quick'))
        r = R[p]
        if r.viol:
            tot[p] = r.viol
        if r.und:
            print(p, 'undecided', sum(r.und.values()), sorted(r.und.items())[:2])
except build.BuildError as e:
    print('BUILD', str(e)[:1500])
for p, v in sorted(tot.items()):
    ks = sorted(v)
    print(p, len(ks), ks[0], '|', v[ks[0]][:220])
