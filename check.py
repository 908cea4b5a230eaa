#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]

Decides one property of /repo's current working tree against the TLA+
specification in spec/. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: the check could not do its work."""

import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from harness import core, registry  # noqa: E402
from harness.core import (Ctx, MachineryError, VERIF, cfg_model,  # noqa: E402
                          cfg_trace)

EVIDENCE = os.path.join(VERIF, 'evidence')


def relevant(entry, rej):
    if any(f.startswith('unrepresentable:') for f in rej['fields']):
        return True
    return entry['owns'](rej)


def judge(ctx, entry, rej, source, cases=None):
    """Books one rejected step."""
    if not relevant(entry, rej):
        ctx.coverage['rejections_owned_by_other_properties'] = \
            ctx.coverage.get('rejections_owned_by_other_properties', 0) + 1
        return
    ctx.add_violation(
        '%s: step %s, op %s: clauses %s: specification %s, code %s' % (
            source, rej.get('step', ''), json.dumps(rej['op'])[:300],
            rej['fields'], json.dumps(rej['want'])[:400],
            json.dumps(rej['got'])[:400]), rej)


def corrupted(case):
    """A copy of a recorded behaviour with one recorded value changed."""
    c = json.loads(json.dumps(case))
    c['id'] = 'selftest'
    ev = c['steps'][-1]
    for k in sorted(ev['st']):
        v = mutate(ev['st'][k])
        if v is not None:
            ev['st'][k] = v
            return c
    if 'r' in ev['out'] and isinstance(ev['out']['r'], str):
        ev['out']['r'] += '~'
        return c
    for k in sorted(ev['out']):
        v = mutate(ev['out'][k])
        if v is not None:
            ev['out'][k] = v
            return c
    return None


def mutate(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return v + '~'
    if isinstance(v, list):
        for i, x in enumerate(v):
            m = mutate(x)
            if m is not None:
                return v[:i] + [m] + v[i + 1:]
        return None
    if isinstance(v, dict):
        for k in sorted(v):
            m = mutate(v[k])
            if m is not None:
                w = dict(v)
                w[k] = m
                return w
    return None


def driver(ctx, args, timeout):
    status, out = ctx.driver(args, timeout=timeout)
    if status == 'timeout':
        ctx.add_violation('the code did not finish the recorded behaviours '
                          'in %d s' % timeout, {'args': [str(a) for a in args]})
        return None
    if status == 'crash':
        ctx.add_violation('the code ended the process: ' + out[-1500:],
                          {'args': [str(a) for a in args]})
        return None
    return json.loads(out.strip().splitlines()[-1])


def chunks(lines, limit=40000000):
    """The recorded behaviours in portions that fit TLC comfortably."""
    part, size = [], 0
    for x in lines:
        if part and size + len(x) > limit:
            yield part
            part, size = [], 0
        part.append(x)
        size += len(x)
    if part:
        yield part


def run_traces(ctx, entry):
    """code -> specification: every recorded step must be one the
    specification allows."""
    tr = entry['trace']
    path = os.path.join(ctx.work, 'cases.ndjson')
    focus = entry.get('focus', '')
    info = driver(ctx, ['trace', entry['sub'], ctx.seed, ctx.tier, path,
                        focus],
                  entry.get('driver_timeout', 300 if ctx.quick else 600))
    if info is None:
        return
    with open(path) as f:
        lines = f.readlines()
    nsteps = 0
    sample = None
    bad = None
    for line in lines:
        c = json.loads(line)
        nsteps += len(c['steps'])
        if sample is None and c['steps']:
            sample = c
        if bad is None and c['steps'] and not c['steps'][-1]['bad']:
            bad = corrupted(c)
    if not nsteps:
        raise MachineryError('no recorded steps')
    if bad is not None:
        lines.append(json.dumps(bad) + '\n')
    rejects, completed, tail = [], True, ''
    for chunk in chunks(lines):
        with open(path, 'w') as f:
            f.writelines(chunk)
        r = ctx.tlc(tr['module'], cfg_trace(tr['start'], tr['step'],
                                            tr['obs']),
                    env={'CASES': path}, workers=6)
        ctx.states += r.distinct
        rejects += r.rejects
        if not r.completed:
            completed, tail = False, r.tail(60)
            break
    if bad is not None:
        lines.pop()
    ctx.transitions += nsteps
    ctx.traces += len(lines)
    ctx.coverage['recorded_behaviours'] = len(lines)
    ctx.coverage['recorded_steps'] = nsteps
    ctx.coverage['operations_and_outcomes'] = info['stats']
    ctx.samples.append({'recorded': {'id': sample['id'],
                                     'start': sample['start'],
                                     'ops': [[e['op'], e['out']]
                                             for e in sample['steps'][:8]]}})
    if not completed and not rejects:
        ctx.add_violation('the specification cannot interpret what the code '
                          'did:\n' + tail, {'tlc': tail})
        return
    if not completed:
        ctx.notes.append('TLC stopped early: ' + tail[-1500:])
    by_id = {}
    seen_self = False
    for rej in rejects:
        if rej['id'] == 'selftest':
            seen_self = True
            continue
        by_id.setdefault(rej['id'], rej)
    if bad is not None and not seen_self and completed:
        raise MachineryError('self-test: a corrupted behaviour was accepted')
    ctx.coverage['selftest_corruption_rejected'] = seen_self
    if by_id:
        cases = {}
        for line in lines:
            c = json.loads(line)
            if c['id'] in by_id:
                cases[c['id']] = c
        for cid, rej in by_id.items():
            c = cases.get(cid)
            if c is not None:
                rej['start'] = c['start']
                rej['ops'] = [e['op'] for e in c['steps'][:rej['step']]]
            rej['sub'] = entry['sub']
            judge(ctx, entry, rej, 'recorded behaviour ' + str(cid))


def run_model(ctx, entry, m):
    """specification -> code: every transition of the bounded model is
    replayed in the real code."""
    cfg = cfg_model(m['starts'], m['start'], m['ops'], m['step'], m['obs'],
                    m['depth'], m.get('inv', ()), m.get('prop', ()),
                    emit=m.get('replay', True))
    workers = 1 if m.get('replay', True) else 8
    r = ctx.tlc(m['module'], cfg, workers=workers,
                heap=m.get('heap', '6g'))
    if not r.completed:
        # nothing of the code took part in this run
        raise MachineryError('model %s: %s' % (m['module'], r.tail(40)))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    cov = {'module': m['module'], 'starts': m['starts'], 'depth': m['depth'],
           'invariants': list(m.get('inv', ())),
           'action_properties': list(m.get('prop', ())),
           'distinct_states': r.distinct, 'transitions': r.generated}
    if m.get('replay', True):
        if not r.edges:
            raise MachineryError('model %s explored nothing' % m['module'])
        f = os.path.join(ctx.work, 'edges.ndjson')
        o = os.path.join(ctx.work, 'replay.json')
        with open(f, 'w') as fh:
            for e in r.edges:
                fh.write(json.dumps(e) + '\n')
        if ctx.samples == [] or len(ctx.samples) < 3:
            e = r.edges[len(r.edges) // 2]
            ctx.samples.append({'model_transition': {
                'start': e['start'], 'src': e['src'], 'op': e['op'],
                'out': e['out'], 'obs': e['obs']}})
        info = driver(ctx, ['replay', entry['sub'], f, o],
                      entry.get('driver_timeout', 300 if ctx.quick else 600))
        if info is not None:
            with open(o) as fh:
                d = json.load(fh)
            if d['unreached'] and not d['mismatches']:
                raise MachineryError('%d transitions not reached in replay'
                                     % d['unreached'])
            cov['transitions_replayed_in_code'] = d['replayed']
            cov['operations_and_outcomes'] = d['covered']
            ctx.traces += d['replayed']
            for rej in d['mismatches']:
                rej['sub'] = entry['sub']
                judge(ctx, entry, rej, 'model transition')
        os.unlink(f)
    ctx.coverage.setdefault('models', []).append(cov)


def run_known(ctx, entry):
    """The listed findings: each is one behaviour that the code gets wrong."""
    if not ctx.known:
        return
    tr = entry['trace']
    src = os.path.join(ctx.work, 'known-in.json')
    path = os.path.join(ctx.work, 'known.ndjson')
    with open(src, 'w') as f:
        json.dump([{'id': k['case'], 'start': k['start'], 'ops': k['ops']}
                   for k in ctx.known], f)
    if driver(ctx, ['cases', entry['sub'], src, path], 300) is None:
        return
    r = ctx.tlc(tr['module'], cfg_trace(tr['start'], tr['step'], tr['obs']),
                env={'CASES': path}, workers=1)
    if not r.completed and not r.rejects:
        ctx.add_violation('the specification cannot interpret what the code '
                          'did:\n' + r.tail(30), {'tlc': r.tail(60)})
        return
    rej = {x['id']: x for x in r.rejects}
    for k in ctx.known:
        x = rej.get(k['case'])
        if x is None:
            ctx.notes.append('listed finding %s no longer fails' % k['case'])
            continue
        if x['step'] == k['step'] and x['got'] == k['got']:
            ctx.known_hits.append((k['case'], k['what']))
        else:
            x['start'] = k['start']
            x['ops'] = k['ops']
            x['sub'] = entry['sub']
            ctx.add_violation('known finding %s fails differently: %s'
                              % (k['case'], json.dumps(x)[:600]), x)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    entry = registry.PROPS[a.prop]
    ctx = Ctx(a.prop, tier, a.seed)
    rc = 2
    try:
        os.makedirs(EVIDENCE, exist_ok=True)
        for m in entry.get('models', {}).get(tier, []):
            run_model(ctx, entry, m)
        if 'trace' in entry:
            run_traces(ctx, entry)
            run_known(ctx, entry)
        rc = finish(ctx, entry, a.prop, tier)
    except MachineryError as e:
        if ctx.violations:
            rc = finish(ctx, entry, a.prop, tier)
        else:
            print('ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            rc = finish(ctx, entry, a.prop, tier)
    finally:
        ctx.close()
    return rc


def finish(ctx, entry, prop, tier):
    replay = ''
    if ctx.violations:
        replay = os.path.join(EVIDENCE, 'replay-%s.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'seed': ctx.seed, 'tier': tier,
                       'violations': ctx.violations[:50]}, f, indent=1)
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples}
    cov.update(ctx.coverage)
    if ctx.known:
        cov['known_findings_checked'] = [k['case'] for k in ctx.known]
    if ctx.notes:
        cov['notes'] = ctx.notes
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': ctx.seed,
                   'level': 'model_checking', 'coverage': cov,
                   'assumptions': entry.get('assumptions', []) +
                   registry.COMMON_ASSUMPTIONS,
                   'wall_s': round(time.time() - ctx.t0, 2),
                   'violations': len(ctx.violations)}, f, indent=1)
    for cid, what in ctx.known_hits:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, cid, what))
    for n in ctx.notes:
        print('note: ' + n[:500])
    if ctx.violations:
        for v in ctx.violations[:5]:
            print('  ' + v['what'][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    print('OK property=%s: %d states, %d transitions, %d behaviours and '
          'transitions bound to the code, %.1f s'
          % (prop, ctx.states, ctx.transitions, ctx.traces,
             time.time() - ctx.t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
