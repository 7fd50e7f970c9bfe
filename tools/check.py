#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; any other exit: the check itself failed."""
import json, os, sys, time, re, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import search
def findings():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(C\d\d) input=(\{.*?\}) (.*)', l.strip())
        if m: out.append((m.group(1), m.group(2)[1:-1], m.group(3)))
    return out
def main():
    prop = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    man = json.load(open(os.path.join(V, 'MANIFEST.json')))
    ent = [c for c in man['checks'] if c['property'] == prop][0]
    # ---- the concrete search
    rc, out, binp = search.build()
    if rc:
        print(out[-3000:]); print('check error: /repo does not build'); return 2
    scale = 1.0 if tier == 'quick' else 20.0
    r = search.search(prop, seed, scale, binp)
    runs = [r]
    known = [(i, w) for p, i, w in findings() if p == prop]
    def fresh(r): return [f for f in r['fails'] if f['command'] not in [i for i, _ in known]]
    fails = fresh(r)
    # ---- the proof
    proof = None
    try:
        import prove
        proof = prove.prove(prop, tier, retry=not fails)
    except ImportError as e:
        if 'prove' not in str(e): raise
    failed = proof['failed'] if proof else []
    if failed and not fails:
        for k, sc in ((1, 3.0), (2, 6.0)):
            r = search.search(prop, seed + 1000 * k, sc, binp); runs.append(r); fails = fresh(r)
            if fails or time.time() - t0 > 500: break
    if tier == 'thorough' or prop == 'C25':
        # the unsafe kernels once more under AddressSanitizer
        if prop in ('C02', 'C25') and not fails:
            rc, out, ab = search.build('build/asan', asan=True)
            if rc == 0:
                ra = search.search(prop, seed, 1.0, ab); runs.append(ra); fails = fresh(ra)
            else: print('note: AddressSanitizer build unavailable: ' + out[-300:])
    for i, w in known: print('KNOWN-FINDING: property=%s %s' % (prop, w))
    viol = 0; rp = os.path.join(V, 'replays', prop + '.json')
    if os.path.exists(rp): os.remove(rp)
    if fails or failed:
        viol = 1
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        rep = {'property': prop, 'failing_inputs': fails, 'how_to_replay': 'echo "<command>" | %s' % binp,
               'failed_obligations': failed, 'verifier_output': proof['log'][-20000:] if proof and failed else None}
        json.dump(rep, open(rp, 'w'), indent=1)
    cov = {'evaluations': sum(x['ran'] for x in runs), 'distinct_nontrivial': sum(x['nontrivial'] for x in runs),
           'rule': 'seeded boundary-heavy inputs through the real crate, compared with Python integers; non-trivial: some operand has several words or at least four characters',
           'samples': runs[0]['samples']}
    ass = ['the driver, tools/search.py and Python integer arithmetic (oracle of the bounded part)', 'rustc, and the debug profile of /repo being representative']
    if proof:
        cov.update({'obligations': proof['obligations'], 'discharged': proof['discharged'], 'checker_cmd': proof['cmd'], 'trusted_base': proof['trusted'],
                    'functions_under_contract': proof['functions'], 'undecided_functions': proof['undecided'], 'bounded_stand_ins': proof['bounded'],
                    'failed_obligations': [f['what'] for f in failed], 'backend': proof['backend'], 'solver_time_s': proof['solver_s'], 'vacuity': proof.get('vacuity')})
        ass += proof['trusted']
        if ent['level'] == 'other': cov['explanation'] = ent['level_note']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': ent['level'], 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if proof:
        print('%s: %d obligations, %d discharged, %d functions under contract, %d undecided, %.1f s in the solver' % (prop, proof['obligations'], proof['discharged'], len(proof['functions']), len(proof['undecided']), proof['solver_s']))
        for u in proof['undecided']: print('  undecided: %s (%s)' % (u['fn'], u['why'][:200]))
        for f in failed: print('  failed obligation: %s' % f['what'])
    print('%s: %d concrete cases, %d failing' % (prop, cov['evaluations'], len(fails)))
    for f in fails: print('  %s -> %s | %s' % (f['command'][:200], f['output'][:200], f['why'][:200]))
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
        return 1
    return 0
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 3
    sys.exit(rc)
