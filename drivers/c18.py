"""C18: schedules give the documented value at every epoch and update."""
from drivers import schedlib
TRACE_SPEC = 'SchedulesTrace'
CFG = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
       'CONSTANTS MaxC = %d Emit = TRUE\n'
       'INVARIANTS Range Ends OnlyAtIntervals EmitState\n')


def scenarios(ctx):
    rnd = ctx.rnd
    r = ctx.models([('SchedulesMC', CFG % ctx.pick(12, 40), {})])[0]
    out = []
    for m in sorted(r.lines, key=str):
        s = m['s']
        s.setdefault('steps', []) if s['k'] == 'multi' else None
        out.append(one(rnd, s, m['iv'], 'model', 14))
    for _ in range(ctx.pick(400, 4000)):
        s = schedlib.rand(rnd)
        if rnd.random() < .2:
            for k in ('a', 'b'):
                if k in s:
                    s[k] = -s[k]
            if s['k'] == 'exp':
                s['min'] = -400 * schedlib.S
                s['max'] = rnd.choice([400 * schedlib.S,
                                       -s['a'] * 2, s['a'] // 2])
        if s['k'] == 'exp' and rnd.random() < .3:
            # bounds of 0, also for factors that change the sign
            lim = 400 * schedlib.S
            s['f'] = rnd.choice([s['f'], -s['f']]) \
                if s['f'] <= schedlib.S else s['f']
            if rnd.random() < .5:
                s['min'], s['max'] = 0, lim
            else:
                s['min'], s['max'] = -lim, 0
        out.append(one(rnd, s, None, 'random', 20))
    return out


def one(rnd, s, iv, kind, top):
    qs = []
    for c in range(top):
        qs.append([c, rnd.randint(0, 3 * top), 'epoch'])
        qs.append([rnd.randint(0, top), c, 'update'])
    for _ in range(8):
        qs.append([rnd.randint(0, 40), rnd.randint(0, 60),
                   rnd.choice(['epoch', 'update'])])
    if s['k'] != 'exp':
        for _ in range(4):
            qs.append([rnd.randint(0, 10 ** 5), rnd.randint(0, 10 ** 6),
                       rnd.choice(['epoch', 'update'])])
    rnd.shuffle(qs)
    for q in qs:
        q.append(iv if iv is not None else rnd.randint(1, 6))
    if s['k'] == 'multi':
        for q in qs:
            q[3] = 1 if rnd.random() < .9 else q[3]
    # keep growing exponentials inside TLC's integers
    if s['k'] == 'exp' and s['f'] > schedlib.S:
        qs = [q for q in qs
              if (q[0] if q[2] == 'epoch' else q[1]) // q[3] <= 20]
    return {'kind': kind, 's': s, 'qs': qs}


def execute(sc):
    from vlib import enc
    obj = schedlib.make(sc['s'])
    out = []
    for e, u, ts, iv in sc['qs']:
        q = {'e': e, 'u': u, 'ts': ts, 'iv': iv, 'ok': True, 'v': 0}
        try:
            q['v'] = enc.fx(obj(e, u, ts, iv, None, None, {}))
        except Exception:
            q['ok'] = False
        out.append(q)
    return {'s': sc['s'], 'qs': out}
