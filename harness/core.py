"""Machinery shared by every check: runs TLC, the drivers of the real code, and
turns their verdicts into exit codes, VIOLATION lines and evidence files."""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JAVA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict)."""


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)['findings']


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        self.rejects = []
        self.edges = []
        for line in out.splitlines():
            if line.startswith('<<"REJECT", '):
                self.rejects.append(_tla_payload(line, 'REJECT'))
            elif line.startswith('<<"EDGE", '):
                self.edges.append(_tla_payload(line, 'EDGE'))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found',
                      out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.completed = 'Model checking completed. No error' in out

    def tail(self, n=40):
        lines = [x for x in self.out.splitlines()
                 if not x.startswith(('<<"EDGE"', '<<"REJECT"'))]
        return '\n'.join(lines[-n:])


def _tla_payload(line, tag):
    text = line[len('<<"%s", ' % tag):-len('>>')]
    # a TLA+ string literal: same escapes as JSON strings
    return json.loads(json.loads(text, strict=False), strict=False)


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.violations = []     # dicts: what, replay
        self.known_hits = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.coverage = {}
        self.notes = []
        self.known = [k for k in load_known() if k['property'] == prop]

    quick = property(lambda self: self.tier == 'quick')

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=4, timeout=840,
            heap='6g', depth_first=False):
        """Runs TLC on spec/<module>.tla with the given configuration."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
               '-XX:ParallelGCThreads=4',
               '-DTLA-Library=' + SPEC,
               '-cp', JAVA_CP, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-config', cfg, os.path.join(SPEC, module + '.tla')]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC did not finish %s in %ds'
                                 % (module, timeout))
        out = p.stdout.decode('utf-8', 'replace')
        r = TLCResult(out, p.returncode, time.time() - t)
        shutil.rmtree(d, ignore_errors=True)
        return r

    # ------------------------------------------------------- driver process
    def driver(self, args, timeout=600, stdin_obj=None):
        """Runs harness.driver in a process of its own.

        Returns (finished, stdout)."""
        e = dict(os.environ)
        e['PYTHONPATH'] = REPO + os.pathsep + VERIF
        e['PYTHONDONTWRITEBYTECODE'] = '1'
        e['PYTHONHASHSEED'] = '0'
        e['OPENBLAS_NUM_THREADS'] = '1'
        e['LC_ALL'] = 'C.UTF-8'
        cmd = [PY, '-m', 'harness.driver'] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, cwd=self.work, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        if p.returncode != 0:
            return 'crash', p.stderr.decode('utf-8', 'replace')[-3000:]
        return 'ok', p.stdout.decode('utf-8', 'replace')

    # -------------------------------------------------------------- results
    def add_violation(self, what, case=None):
        self.violations.append({'what': what, 'case': case})

    def report_finding(self, case_id, what):
        """True if the rejected case is a listed known finding."""
        for k in self.known:
            if k['case'] == case_id:
                if case_id not in [c for c, _ in self.known_hits]:
                    self.known_hits.append((case_id, k['what']))
                return True
        return False


def cfg_trace(start_of, step_of, obs_of, extra=''):
    return ('INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS\n  StartOf <- %s\n  StepOf <- %s\n'
            '  ObsOf <- %s\n%s' % (start_of, step_of, obs_of, extra))


def cfg_model(starts, start_of, ops_of, step_of, obs_of, depth, invariants=(),
              properties=(), extra='', emit=True):
    s = ('INIT ModelInit\nNEXT ModelNext\nVIEW View\nCHECK_DEADLOCK FALSE\n'
         'CONSTANTS\n  Starts <- %s\n  StartOf <- %s\n  OpsOf <- %s\n'
         '  StepOf <- %s\n  ObsOf <- %s\n  Depth = %d\n  EmitOn = %s\n%s\n'
         % (starts, start_of, ops_of, step_of, obs_of, depth,
            'TRUE' if emit else 'FALSE', extra))
    if emit:
        s += 'ACTION_CONSTRAINT Emit\n'
    for i in invariants:
        s += 'INVARIANT %s\n' % i
    for p in properties:
        s += 'ACTION_CONSTRAINT %s\n' % p if p.startswith('AC') else \
            'PROPERTY %s\n' % p
    return s
