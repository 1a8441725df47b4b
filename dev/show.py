"""dev/show.py SEED: what the model and the code say of one difft case."""
import sys, random
sys.path[:0] = ['/repo', '/verif', '/verif/rv/stubs']
from rv import lint, model, gen
s = int(sys.argv[1])
rng = random.Random(s)
g = gen.Gen(rng, bad=rng.choice([0, .05, .15, .4]))
files = g.spread(g.dialplan_lines(), level=rng.choice([0, .3, 1, 2]))
for k, v in files.items():
    print('==', k)
    for n, l in enumerate(v.split(b'\n')):
        print(n+1, l)
o = lint.dialplan(files)
m = model.DialplanModel(files)
m.walk()
for x in o.messages:
    if x.code != 'H_PAT_NON_CANONICAL':
        print(' ' if x.msg in m.msgs else '!', x)
for x in m.msgs:
    if x not in o.msgs:
        print('MISSING', x)
