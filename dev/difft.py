"""Development aid: the reference model against the code. difft.py N BASE [-c]"""
import sys, random, collections, time, os
sys.path[:0] = ['/repo', '/verif', '/verif/rv/stubs']
from rv import lint, model, gen
import multiprocessing


def run(seed0, n):
    out = []
    cnt = collections.Counter()
    for s in range(seed0, seed0+n):
        rng = random.Random(s)
        g = gen.Gen(rng, bad=rng.choice([0, .05, .15, .4]))
        files = g.spread(g.dialplan_lines(), level=rng.choice([0, .3, 1, 2]))
        try:
            o = lint.dialplan(files)
        except Exception:
            import traceback
            out.append((s, 'CRASH', traceback.format_exc()[-600:]))
            continue
        m = model.DialplanModel(files)
        m.walk()
        got = collections.Counter(
            x for x in o.msgs if x.code != 'H_PAT_NON_CANONICAL')
        want = collections.Counter(m.msgs)
        for x in got:
            cnt[x.code] += got[x]
        if got != want:
            out.append((s, 'DIFF', dict(want-got), dict(got-want), [
                files[x[0]].split(b'\n')[x[1]-1]
                for x in list(got-want)+list(want-got)][:3]))
        if o.noise:
            out.append((s, 'NOISE', o.noise))
        a = [(x.name, x.where, [tuple(e) for e in x.extens], x.includes)
             for x in m.sections]
        b = lint.sections_of(o.dialplan)
        if a != b:
            out.append((s, 'STRUCT', [(x, y) for x, y in zip(a, b) if x != y][:1]))
        for rev in (0, 1):
            if o.dialplan.format_as_dialplan_show(reverse=rev) != m.show(rev):
                out.append((s, 'SHOW'))
    return out, cnt


if __name__ == '__main__':
    n = int(sys.argv[1])
    base = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    t = time.time()
    with multiprocessing.Pool(8) as p:
        res = p.starmap(run, [(base+i*50, 50) for i in range(n//50)], chunksize=1)
    cnt = collections.Counter()
    k = 0
    for out, c in res:
        cnt.update(c)
        for o in out:
            k += 1
            if k < 15:
                print(*o, sep='\n   ')
    print(k, time.time()-t)
    if '-c' in sys.argv:
        print(cnt)
