import sys, json
sys.path[:0] = ['/repo', '/verif', '/verif/rv/stubs']
from rv import core, lint, model
d = json.load(open(sys.argv[1]))
files = core.unjson(d['data'])['files']
print(d['key'], d['text'][0:300])
for k, v in files.items():
    print('==', k)
    for n, l in enumerate(v.split(b'\n')):
        print(n+1, l)
name = core.unjson(d['data']).get('name', 'extensions.conf')
if len(sys.argv) < 3:
    o = lint.dialplan(files, name)
    m = model.DialplanModel(files, name); m.walk()
    for x in o.messages:
        print(' ' if x.msg in m.msgs else '!', x)
    for x in m.msgs:
        if x not in o.msgs:
            print('MISSING', x)
