"""Bounded differential tester on the real crate: finds a concrete failing input for a failed
obligation, and stands in (labelled bounded) where the verifier cannot decide."""
import json, os, re, shutil, subprocess, threading, time
from common import *

class Build:
    """Builds the tester against /repo's current tree in a scratch target directory."""
    def __init__(self):
        self.dir = scratch('tester')
        self.ok = None
        self.err = ''
    def build(self, timeout=600, bins=None):
        cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'tester', 'Cargo.toml'),
               '--target-dir', os.path.join(self.dir, 't')]
        for b in bins or []:
            cmd += ['--bin', b]
        rc, out, err, sec = run(cmd, timeout, cwd=self.dir, env=env())
        self.ok = rc == 0
        self.err = '' if self.ok else ('timeout' if rc is None else err[-3000:])
        self.seconds = sec
        return self.ok
    def bin(self, n):
        return os.path.join(self.dir, 't', 'debug', n)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def parse(out, res, cfg):
    for l in out.splitlines():
        m = re.match(r'HISTORIES (\d+) OPS (\d+)', l)
        if m:
            res['histories'] += int(m.group(1)); res['ops'] += int(m.group(2))
        elif l.startswith('SAMPLE '):
            try: res['samples'].append(json.loads(l[7:])[:600])
            except ValueError: pass
        elif l.startswith('OTHER '):
            _, c, k = l.rsplit(' ', 2) if l.count(' ') > 2 else l.split(' ')
            res['other'][c] = res['other'].get(c, 0) + int(k)
        elif l.startswith('FOUND '):
            f = json.loads(l[6:]); f['binary'] = cfg
            if res['found'] is None or len(f['history']) < len(res['found']['history']):
                res['found'] = f

def run_tester(b, cats, seed, millis, steps=16, histories=10**9):
    res = dict(histories=0, ops=0, samples=[], other={}, found=None, crashed=[], cats=cats, millis=millis)
    def one(i):
        prog = os.path.join(b.dir, 'progress.%d' % i)
        rc, out, err, sec = run([b.bin('t%d' % i), cats, str(seed), str(histories), str(steps), str(millis)],
                                millis / 1000 + 60, cwd=b.dir, mem_gb=4, env=env(TESTER_PROGRESS=prog))
        parse(out, res, 't%d' % i)
        if rc not in (0, 1):
            # killed, aborted (memory exhausted or stack overflow) or no end: the history being replayed is on file
            p = open(prog).read().split(' ') if os.path.exists(prog) else []
            if len(p) >= 2:
                res['crashed'].append(dict(binary='t%d' % i, seed=p[0], steps=p[1], rc=rc, stderr=err[-400:]))
    th = [threading.Thread(target=one, args=(i,)) for i in range(8)]
    [t.start() for t in th]; [t.join() for t in th]
    wants_panic = any(c == '*' or c.endswith(':panic') or c.endswith(':*') or ':' not in c for c in cats.split(','))
    if res['crashed'] and res['found'] is None:
        c = res['crashed'][0]
        f = dict(cat='?:panic', binary=c['binary'], seed=int(c['seed']), steps=int(c['steps']), history=[],
                 message='the process is killed or aborts (exit %s) while replaying one history: %s' % (c['rc'], c['stderr']))
        if wants_panic:
            res['found'] = f
        else:
            res['other']['?:panic'] = res['other'].get('?:panic', 0) + len(res['crashed'])
    return res

def run_words(b, what, seed, n):
    rc, out, err, sec = run([b.bin('words'), what, str(seed), str(n)], 300, cwd=b.dir, env=env())
    res = dict(cases=0, found=None, crashed=rc not in (0, 1))
    for l in out.splitlines():
        if l.startswith('CASES '): res['cases'] = int(l[6:])
        if l.startswith('FOUND '): res['found'] = json.loads(l[6:]); res['found']['args'] = [what, str(seed), str(n)]
    return res
