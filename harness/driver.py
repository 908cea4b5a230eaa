"""Runs the real code. Usage:
   driver.py trace  SUBSYSTEM SEED TIER OUT.ndjson   record behaviours
   driver.py replay SUBSYSTEM EDGES.ndjson OUT.json  replay model transitions
"""

import importlib
import json
import random
import signal
import sys


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

OP_SECONDS = 20.0


class TooManyHangs(Exception):
    pass


class Guard(object):
    hangs = 0


def call(fn, *args, **kwargs):
    """fn(...) with a time limit; Hang if it does not come back."""
    signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
    try:
        return fn(*args, **kwargs)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def step(sys_, op):
    """Applies op to the real system: the recorded event."""
    bad = ''
    try:
        out = call(sys_.apply, op)
    except Hang:
        Guard.hangs += 1
        return {'op': op, 'out': {'r': 'hang'}, 'st': {}, 'bad': 'hang'}
    try:
        st = call(sys_.state)
    except Hang:
        Guard.hangs += 1
        return {'op': op, 'out': {'r': 'hang'}, 'st': {}, 'bad': 'hang'}
    except Unrepresentable as e:
        return {'op': op, 'out': out, 'st': {}, 'bad': str(e)}
    except RecursionError:
        return {'op': op, 'out': out, 'st': {}, 'bad': 'state recursion'}
    except Exception as e:
        return {'op': op, 'out': out, 'st': {},
                'bad': 'reading the state raised %s: %s'
                       % (type(e).__name__, str(e)[:200])}
    bad = getattr(sys_, 'bad', '') or ''
    sys_.bad = ''
    return {'op': op, 'out': out, 'st': st, 'bad': bad}


class Unrepresentable(Exception):
    """A value of the real code that no abstract value stands for."""


def opname(op):
    n = op.get('name', '?')
    return n + '.' + op['f'] if 'f' in op else n


def record(mod, cid, start, ops):
    """ops: iterable of operations, or a function (sys, rng) -> op/None."""
    s = mod.System(start)
    steps = []
    for op in ops:
        if callable(op):
            op = op(s)
        if op is None:
            continue
        ev = step(s, op)
        steps.append(ev)
        if ev['bad']:
            break
        if Guard.hangs >= 3:
            break
    return {'id': cid, 'start': start, 'steps': steps}


def main(argv):
    mode, name = argv[0], argv[1]
    mod = importlib.import_module('harness.' + name)
    if mode == 'trace':
        seed, tier, out = int(argv[2]), argv[3], argv[4]
        rng = random.Random('%s/%d' % (name, seed))
        stats = {}
        n = 0
        with open(out, 'w') as f:
            focus = argv[5] if len(argv) > 5 else ''
            gen = mod.behaviours(rng, tier, focus) if focus \
                else mod.behaviours(rng, tier)
            for cid, start, ops in gen:
                c = record(mod, cid, start, ops)
                for ev in c['steps']:
                    k = '%s:%s' % (opname(ev['op']),
                                   ev['out'].get('r', '?')
                                   if isinstance(ev['out'], dict) else '?')
                    stats[k] = stats.get(k, 0) + 1
                f.write(json.dumps(c) + '\n')
                n += 1
                if Guard.hangs >= 3:
                    break
        print(json.dumps({'cases': n, 'stats': stats}))
    elif mode == 'cases':
        with open(argv[2]) as f:
            cases = json.load(f)
        with open(argv[3], 'w') as f:
            for c in cases:
                f.write(json.dumps(record(mod, c['id'], c['start'], c['ops']))
                        + '\n')
        print(json.dumps({'cases': len(cases)}))
    elif mode == 'replay':
        replay(mod, argv[2], argv[3])


def key(x):
    return json.dumps(x, sort_keys=True)


def replay(mod, edges_file, out):
    """Replays every transition of the model in the real code: a path from
    the start to the source state, then the operation itself."""
    with open(edges_file) as f:
        edges = [json.loads(line) for line in f]
    paths = {}
    for e in edges:
        s0 = key(e['start'])
        paths.setdefault((s0, None), None)
    # breadth first: edges arrive in the order TLC explored them
    known = {}
    mism = []
    done = 0
    covered = {}
    init_of = {}
    for e in edges:
        s0 = key(e['start'])
        if s0 not in init_of:
            init_of[s0] = key(e['src'])
            known[(s0, key(e['src']))] = []
    pending = edges
    while pending:
        rest = []
        for e in pending:
            k = (key(e['start']), key(e['src']))
            if k not in known:
                rest.append(e)
                continue
            path = known[k]
            d = (k[0], key(e['dst']))
            if d not in known:
                known[d] = path + [e['op']]
            if Guard.hangs >= 3 or len(mism) >= 200:
                continue
            s = mod.System(e['start'])
            broken = False
            for op in path:
                ev = step(s, op)
                if ev['bad']:
                    broken = True
                    break
            if broken:
                continue     # reported where the path's own edge failed
            ev = step(s, e['op'])
            done += 1
            nm = '%s:%s' % (opname(e['op']), e['out'].get('r', '?'))
            covered[nm] = covered.get(nm, 0) + 1
            fields = []
            if ev['bad']:
                fields = ['unrepresentable:' + ev['bad']]
            else:
                if key(ev['out']) != key(e['out']):
                    fields.append('out')
                for fl in sorted(set(e['obs']) | set(ev['st'])):
                    if key(e['obs'].get(fl)) != key(ev['st'].get(fl)):
                        fields.append(fl)
            if fields:
                mism.append({
                    'id': 'model', 'start': e['start'], 'path': path,
                    'op': e['op'], 'fields': fields,
                    'want': {'out': e['out'],
                             'st': {x: e['obs'].get(x) for x in fields}},
                    'got': {'out': ev['out'],
                            'st': {x: ev['st'].get(x) for x in fields}}})
        if len(rest) == len(pending):
            break
        pending = rest
    with open(out, 'w') as f:
        json.dump({'mismatches': mism, 'replayed': done,
                   'unreached': len(pending), 'covered': covered}, f)
    print(json.dumps({'replayed': done}))


# `python -m harness.driver' makes this module __main__; subsystems import it
# by its package name, so share one set of classes.
sys.modules['harness.driver'] = sys.modules[__name__]

if __name__ == '__main__':
    main(sys.argv[1:])
