#!/usr/bin/env python3
"""Authoring tool: known.py PROP CASE START_JSON OPS_JSON WHAT
Runs one behaviour; if the specification rejects it, lists it (with what the
code did) in known_findings.json. Never used by a check."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, registry  # noqa: E402


def main(prop, case, start, ops, what):
    e = registry.PROPS[prop]
    ctx = core.Ctx(prop, 'quick', 1)
    src = os.path.join(ctx.work, 'i.json')
    out = os.path.join(ctx.work, 'o.ndjson')
    start, ops = json.loads(start), json.loads(ops)
    with open(src, 'w') as f:
        json.dump([{'id': case, 'start': start, 'ops': ops}], f)
    print(ctx.driver(['cases', e['sub'], src, out]))
    t = e['trace']
    r = ctx.tlc(t['module'], core.cfg_trace(t['start'], t['step'], t['obs']),
                env={'CASES': out}, workers=1)
    print(r.completed, json.dumps(r.rejects)[:1500])
    if not r.completed:
        print(r.tail(30))
    if r.rejects:
        x = r.rejects[0]
        d = {'findings': core.load_known()}
        d['findings'] = [k for k in d['findings']
                         if (k['property'], k['case']) != (prop, case)]
        d['findings'].append({'property': prop, 'case': case, 'what': what,
                              'start': start, 'ops': ops, 'step': x['step'],
                              'got': x['got']})
        if os.path.exists(core.KNOWN):
            with open(core.KNOWN) as f:
                old = json.load(f)
            d['fixed'] = old.get('fixed', [])
        with open(core.KNOWN, 'w') as f:
            json.dump(d, f, indent=1)
    ctx.close()


main(*sys.argv[1:])
