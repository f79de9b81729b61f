"""Kani harnesses over the real primitives (src/traits.rs, src/flag.rs), in a scratch copy of /repo."""
import os, re, shutil
from common import *

def run_kani(filters, timeout):
    """-> dict(status='ok'|'fail'|'error', harnesses, verified, failed=[..], output, seconds, cmd, checks)"""
    d = scratch('kani')
    try:
        copy_repo(d)
        shutil.copy(os.path.join(VERIF, 'kani', 'harness.rs'), os.path.join(d, 'src', 'vp_harness.rs'))
        with open(os.path.join(d, 'src', 'lib.rs'), 'a') as f:
            f.write('\n#[cfg(kani)] mod vp_harness;\n')
        cmd = ['cargo', 'kani', '-j', '8', '--output-format', 'terse', '--target-dir', os.path.join(d, 'kt')]
        for f in filters:
            cmd += ['--harness', f]
        rc, out, err, sec = run(cmd, timeout, cwd=d, env=env())
        m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', out)
        res = dict(seconds=round(sec, 1), cmd=' '.join(cmd[:5] + cmd[7:]), output=(out + err)[-6000:], failed=[], playback=None)
        # checks (CBMC properties) discharged, and covers: a harness whose cover is unsatisfied is vacuous
        res['checks'] = sum(int(b) for a, b in re.findall(r'\*\* (\d+) of (\d+) failed', out))
        uncovered = [1 for a, b in re.findall(r'\*\* (\d+) of (\d+) cover properties satisfied', out) if a != b]
        if not m:
            res.update(status='error', why='timeout' if rc is None else 'cargo kani gave no summary')
            return res
        ok, bad, tot = map(int, m.groups())
        res.update(harnesses=tot, verified=ok)
        if tot == 0:
            res.update(status='error', why='no harness ran')
        elif bad == 0 and rc == 0 and not uncovered:
            res['status'] = 'ok'
        elif bad == 0:
            res.update(status='error', why='unsatisfied cover or nonzero exit')
        else:
            names = re.findall(r'Verification failed for - (\S+)', out)
            res['failed'] = names
            hard = [x for x in re.findall(r'Failed Checks: (.*)', out)]
            res['failed_checks'] = sorted(set(hard))[:20]
            # an unwinding assertion or an unsupported construct is a limit of the tool, not a violation
            if hard and all('unwinding' in x or 'not currently supported' in x or 'unsupported' in x for x in hard):
                res.update(status='error', why='tool limit: ' + '; '.join(sorted(set(hard))[:3]))
            else:
                res['status'] = 'fail'
                res['playback'] = playback(d, names[0])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def playback(d, harness):
    """Replays Kani's counterexample on the real code; returns a dict with what happened."""
    rc, out, err, _ = run(['cargo', 'kani', '--target-dir', os.path.join(d, 'kt'), '--harness', harness, '--exact',
                           '-Z', 'concrete-playback', '--concrete-playback=inplace'], 300, cwd=d, env=env())
    src = open(os.path.join(d, 'src', 'vp_harness.rs')).read()
    tests = re.findall(r'/// Check for `(\w+)`: "([^\n]*)"\s*#\[test\]\s*(fn kani_concrete_playback_\w+\(\) \{.*?\n\})', src, re.S)
    tests = [t for t in tests if t[0] != 'cover']
    if not tests:
        return dict(confirmed=False, note='Kani printed no concrete test', verifier=out[-3000:])
    mod = harness.rsplit('::', 1)[0]
    rc, out2, err2, _ = run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', 'kani_concrete_playback'], 400,
                            cwd=d, env=env(CARGO_TARGET_DIR=os.path.join(d, 'kt2')))
    name = [re.search(r'fn (\w+)', t[2]).group(1) for t in tests]
    failed = [n for n in name if re.search(r'test %s::%s \.\.\. FAILED' % (re.escape(mod), n), out2)]
    msg = [re.findall(r"panicked at [^\n]*\n([^\n]*)", out2[out2.find('---- %s::%s' % (mod, n)):])[:1] for n in failed]
    return dict(confirmed=bool(failed), harness=harness, test=[t[2] for t in tests], failing_check=[t[1] for t in tests],
                replayed=failed, message=msg)
