#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

Deciding step: the deductive verifier (Verus on the mechanically extracted source; Kani full-domain
harnesses on the bit-word primitives) accepts every obligation of the property.
A failed obligation -> exit 1 with VIOLATION; the bounded tester supplies the failing input.
A verifier that cannot decide (unsupported construct, lost anchor, resource limit) -> the bounded
tester stands in, labelled as such in the evidence.
"""
import json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from common import *
from props import PROPS
import kani_run, tester_run, verus_run

def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    thorough = TIER == 'thorough'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep_dir = os.path.join(VERIF, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    R = {}
    build = tester_run.Build()

    def guard(name, f):
        def g():
            try:
                R[name] = f()
            except Exception:
                R[name] = dict(status='error', why='internal: ' + traceback.format_exc()[-800:])
        return g
    jobs = []
    if P.get('kani'):
        jobs.append(guard('kani', lambda: kani_run.run_kani(P['kani_thorough'] if thorough and 'kani_thorough' in P else P['kani'], 700)))
    if P.get('verus'):
        jobs.append(guard('verus', lambda: verus_run.run_verus(pid, 800)))
    jobs.append(guard('build', lambda: build.build(bins=None if P.get('cats') else ['words'])))
    th = [threading.Thread(target=j) for j in jobs]
    [t.start() for t in th]
    [t.join() for t in th]

    def test(millis):
        """one bounded pass of the tester over this property's categories"""
        if not build.ok:
            return dict(status='error', why='the tester does not build: ' + build.err[-600:])
        out = {}
        if P.get('words'):
            for w in P['words']:
                r = tester_run.run_words(build, w, SEED, 20000 if not thorough else 400000)
                out['cases'] = out.get('cases', 0) + r['cases']
                if r['found']:
                    out['found'] = r['found']
        if P.get('cats'):
            r = tester_run.run_tester(build, P['cats'], SEED, millis)
            out.update(histories=r['histories'], ops=r['ops'], samples=r['samples'][:2], other=r['other'])
            if r['found']:
                out['found'] = r['found']
        return out

    verdict = {k: (R[k].get('status') if isinstance(R.get(k), dict) else None) for k in ('kani', 'verus') if k in R}
    failed = any(v == 'fail' for v in verdict.values())
    undecided = [k for k, v in verdict.items() if v not in ('ok', 'fail')]
    millis = P.get('millis', 8000) * (12 if thorough else 1)
    related = [f for k in verdict for f in (R[k].get('other_failures') or [])]
    if failed or undecided or related:
        millis *= 3
    T = test(millis)
    build.close()

    replay = None
    found = T.get('found')
    # a counterexample of the verifier that was replayed on the real code counts as an input
    kp = (R.get('kani') or {}).get('playback') if verdict.get('kani') == 'fail' else None
    if failed or found:
        replay = os.path.join('replay', pid + '.json')
        doc = dict(property=pid, failing_input=found,
                   how='failing_input comes from /verif/tester on the real crate: build it (cargo build --offline in /verif/tester) and run '
                       '<binary> "*:*" 0 1 <steps> 0 --one <seed>' if found and P.get('cats') else None,
                   failed_obligations={k: R[k].get('failed') for k in verdict if verdict[k] == 'fail'},
                   other_failed_obligations=related,
                   verifier_output={k: R[k].get('output') for k in verdict if verdict[k] == 'fail'},
                   kani_playback=kp)
        with open(os.path.join(VERIF, replay), 'w') as f:
            json.dump(doc, f, indent=1)

    trusted = list(P.get('trusted', []))
    for k in ('verus',):
        if isinstance(R.get(k), dict):
            trusted += R[k].get('trusted', [])
    obl = dis = 0
    cmds = []
    if verdict.get('kani') is not None:
        k = R['kani']; obl += k.get('harnesses', 0); dis += k.get('verified', 0); cmds.append(k.get('cmd', 'cargo kani'))
    if verdict.get('verus') is not None:
        v = R['verus']; obl += v.get('obligations', 0); dis += v.get('discharged', 0); cmds.append(v.get('cmd', 'verus'))
    level = P['level']
    cov = dict(obligations=obl, discharged=dis, checker_cmd=' ; '.join(cmds) or 'none', trusted_base=trusted,
               verdicts=verdict, undecided={k: R[k].get('why') for k in undecided},
               backends={k: {x: R[k][x] for x in ('seconds', 'harnesses', 'verified', 'checks', 'functions', 'functions_by_status', 'smt_seconds', 'obligations', 'discharged', 'dropped', 'vacuity', 'failed', 'contracts', 'stand_ins') if x in R[k]} for k in verdict},
               bounded_complement=dict(kind='bounded differential testing of the real crate, never counted as proved',
                                       stands_in_for_the_verifier=bool(undecided), **{k: v for k, v in T.items() if k != 'found'}))
    if P.get('evidence_note'):
        cov['note'] = P['evidence_note']
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 1))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in undecided:
        print('UNDECIDED by %s: %s (bounded tester stands in)' % (k, str(R[k].get('why'))[:500]))
    print('%s: %s; %d/%d obligations discharged; tester: %s; %.0f s' % (
        pid, verdict, dis, obl, {k: T[k] for k in ('cases', 'histories', 'ops', 'why') if k in T}, time.time() - t0))
    if failed:
        for k in verdict:
            if verdict[k] == 'fail':
                print('FAILED OBLIGATIONS (%s): %s' % (k, '; '.join(map(str, R[k].get('failed', [])))[:2000]))
    if related:
        print('FAILED OBLIGATIONS of other properties: %s' % '; '.join(related)[:1500])
    if found or (kp and kp.get('confirmed')):
        print('failing input: ' + json.dumps(found or kp)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    if failed:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        sys.exit(1)
    sys.exit(0)

main()
