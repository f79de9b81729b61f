"""Runs Verus on the mechanical extraction of /repo's source and attributes failed obligations to properties."""
import json, os, re, shutil, sys, time
from common import *
VDIR = os.path.join(VERIF, 'verus')
sys.path.insert(0, VDIR)

BASE = os.path.join(VDIR, 'baseline_fns.json')
TRUST = [
    'Verus, its encoding of Rust into SMT, and Z3',
    'the extraction /verif/verus/extract.py; what it drops or rewrites is listed under backends.verus.dropped',
    'stand-ins for core/alloc (prelude/base.rs): Clone returns an equal value, Arc::as_ptr equality implies equality, From<Box<T>> for Arc<T> keeps the value, user From/Into between key types keeps the equality class of the key',
    'the user\'s Eq on keys is an equivalence (kid) and the hash depends on its class only (traits.rs: ax_key_eq, HasherBv::hash); user closures are pure',
    'Flag and bit-word contracts (prelude/flag.rs, traits.rs) are assumed here and discharged bit-precisely by the Kani harnesses w* and f_* of C15 and C14 on the real code',
    'the outcome of a total pure closure call can be named (ax_call2, ax_call4); rayon::join and join! are both results in order; ptr_eq is false only on values that differ is not assumed, but an equal value is read as the same allocation (right for the clones it is used on)',
    'a visitor is modelled by the events its runs append to a log (any events)',
    'DynBia (prelude/bia.rs): the contracts of the array behind a cnode are assumed',
    'size arithmetic: maps are assumed to hold fewer than usize::MAX / 4 entries',
    'termination is not proved (exec_allows_no_decreases_clause); the bounded tester has a time limit',
]

def attribute(diags, src, X):
    """-> (failed: list of dict(fn, labels, what, line), resource: list of fn)"""
    fn, cur, lab = [None] * (len(src) + 1), None, [None] * (len(src) + 1)
    for i, l in enumerate(src):
        m = re.search(r'/\*@FN (\S+) @\*/', l)
        if m: cur = m.group(1)
        fn[i + 1] = cur
        m = re.search(r'//%L (\S+)', l)
        if m: lab[i + 1] = m.group(1).split(',')
        if '/*@END*/' in l: cur = None
    labels = {}
    for i in range(1, len(src) + 1):
        if fn[i] and lab[i]: labels.setdefault(fn[i], set()).update(lab[i])
    failed, resource = [], []
    for d in diags:
        if d.get('level') != 'error' or d['message'].startswith('aborting'): continue
        msg = d['message']
        spans = d.get('spans', [])
        prim = [s for s in spans if s.get('is_primary')] or spans
        lines = [s['line_start'] for s in prim] + [s['line_start'] for s in spans]
        f = next((fn[n] for n in lines if n <= len(src) and fn[n]), None)
        # the span of the function whose body fails is the one that is not the failed clause
        if 'precondition' in msg:
            site = [s['line_start'] for s in prim]
            f = next((fn[n] for n in site if fn[n]), f)
        if 'resource' in msg.lower() or 'rlimit' in msg.lower() or 'timed out' in msg.lower():
            resource.append(f or '?'); continue
        ls = None
        if 'postcondition' in msg or 'invariant' in msg:
            for s in spans:
                for n in range(s['line_start'], min(s['line_end'], s['line_start'] + 1) + 1):
                    if lab[n]: ls = set(lab[n]); break
                if ls: break
        if ls is None:
            ls = set(labels.get(f, set()))
            if 'overflow' in msg or 'precondition' in msg: ls.add('C14')
        n = lines[0] if lines else 0
        failed.append(dict(fn=f, labels=sorted(ls), what=msg, at=src[n - 1].strip()[:160] if n else ''))
    return failed, resource

def run_verus(prop, timeout):
    t0 = time.time()
    import extract
    try:
        out, X, unused = extract.generate(REPO, VDIR)
    except Exception as e:
        return dict(status='error', why='extraction: %s: %s' % (type(e).__name__, str(e)[:300]))
    unused = [u for u in unused]
    d = scratch('verus')
    try:
        p = os.path.join(d, 'x.rs')
        open(p, 'w').write(out)
        rc, so, se, sec = run(['verus', p, '--crate-type=lib', '--output-json', '--time-expanded', '--error-format=json',
                               '--multiple-errors', '20'], timeout, cwd=d, env=env())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc is None:
        return dict(status='error', why='verus: no answer in %d s' % timeout)
    try:
        J = json.loads(so[so.index('{'):])
    except ValueError:
        J = {}
    vr = J.get('verification-results', {})
    diags = []
    for l in se.splitlines():
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    src = out.split('\n')
    base = set(json.load(open(BASE))) if os.path.exists(BASE) else None
    new = sorted(set(X.nocontract) - base) if base is not None else []
    tm = J.get('times-ms', {})
    if 'verified' in vr: vr['verified'] -= out.count('proof fn vp_ref_')  # mentions of hidden definitions, not obligations
    res = dict(seconds=round(sec, 1), obligations=vr.get('verified', 0) + vr.get('errors', 0), discharged=vr.get('verified', 0),
               smt_seconds=round(tm.get('smt', {}).get('total', 0) / 1000, 1) if isinstance(tm.get('smt'), dict) else None,
               functions=dict(extracted=len(X.functions), under_contract=len(X.cs) - len(unused) - len(X.trusted),
                              with_clauses_for_this_property=sorted(c.path for c in X.cs.values() if any(prop in l for l, _ in c.ensures + c.requires) or prop in c.labels),
                              trusted=X.trusted, without_contract=len(X.nocontract)),
               contracts=dict(clauses=sum(len(c.requires) + len(c.ensures) + sum(len(L['inv']) for L in c.loops.values()) for c in X.cs.values())),
               dropped=extract.DROPS, trusted=TRUST + ['under a trusted contract (not verified): ' + x for x in X.trusted],
               cmd='verus x.rs --crate-type=lib (x.rs: python3 /verif/verus/extract.py /repo x.rs)')
    errs = [x for x in diags if x.get('level') == 'error' and not x['message'].startswith('aborting')]
    if not vr or vr.get('encountered-vir-error') or (vr.get('errors', 0) == 0 and errs) or (not errs and not vr.get('success')):
        res.update(status='error', why='not accepted by the verifier\'s front end: ' + '; '.join(x['message'] for x in errs)[:400] + se[-300:] * (not errs))
        return res
    if not res['functions']['with_clauses_for_this_property']:
        res.update(status='error', why='no clause carries this property')
        return res
    failed, resource = attribute(diags, src, X)
    mine = [f for f in failed if prop in f['labels'] or f['fn'] is None]
    lost = [u for u in unused if prop in X.cs[u].labels or any(prop in l for l, _ in X.cs[u].ensures)]
    has = lambda f: f not in X.cs or prop in X.cs[f].labels or any(prop in l for l, _ in X.cs[f].ensures)
    resource = [r for r in resource if has(r)]
    res['other_failures'] = ['%s: %s' % (f['fn'], f['what']) for f in failed if f not in mine][:10]
    if mine and not new:
        res.update(status='fail', failed=['%s: %s: %s' % (f['fn'], f['what'], f['at']) for f in mine][:12],
                   output='\n'.join(x.get('rendered') or x['message'] for x in errs)[:12000])
    elif mine or lost or resource:
        res.update(status='error', why='; '.join(
            (['obligations fail next to functions that have no contract: ' + ', '.join(new[:5])] if mine else []) +
            (['contract lost, no such function: ' + ', '.join(lost[:5])] if lost else []) +
            (['solver resource limit in ' + ', '.join(resource[:5])] if resource else [])))
    else:
        res['status'] = 'ok'
    return res
