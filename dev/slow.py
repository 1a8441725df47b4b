"python3 dev/slow.py Cxx N [from]: the slowest cases"
import sys, time, random, importlib
sys.path[:0] = ['/repo', '/verif', '/verif/rv/stubs']
from rv import core
m = importlib.import_module('rv.checks.' + sys.argv[1].lower())
w = m.Workload('quick', 0)
res = []
for i in range(int(sys.argv[3]) if len(sys.argv) > 3 else 0, int(sys.argv[2])):
    t = time.time()
    c = core.run_case(w, m.PROPERTY, 1, i)
    res.append((time.time() - t, i, c.data.get('kind'), c.data.get('how'), sum(map(len, c.data.get('files', {}).values()))))
res.sort(reverse=True)
for r in res[:12]: print(r)
