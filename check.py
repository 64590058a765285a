#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property of /repo's current tree.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer."""
import json, os, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import kani_layer as K

ROOT = K.ROOT
KINDS = {'Full': 'full', 'Bounded': 'bounded', 'Slow': 'bounded', 'Native': 'native', 'Panics': 'full', 'NativePanics': 'native', 'Known': 'known'}

def known_findings():
    """(property, contract) pairs listed as findings"""
    out = {}
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('finding: '):
            f = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
            out[(f['property'], f['contract'])] = l.split(' ', 3)[3]
    return out

def unusable(prop, err):
    """What the library refuses at compile time although the property promises it: a declaration the derive macros must
    accept (C14), a maximum size that does not evaluate (C06, C14). The library itself must build for that."""
    blocks = [b for b in re.split(r'\n(?=error)', err) if b.startswith('error')]
    hits = []
    for b in blocks:
        where = re.search(r'--> (\S+?):(\d+)', b)
        if prop == 'C14' and ('proc-macro derive panicked' in b or 'originates in the derive macro' in b or where and where.group(1).endswith('src/shapes.rs')): hits.append(b)
        elif prop in ('C06', 'C14') and 'MAX_ENCODED_SIZE' in b and ('E0080' in b or 'evaluation of' in b): hits.append(b)
    if not hits: return None
    p = subprocess.run(['cargo', 'check', '--offline', '-q', '-p', 'oct', '--target-dir', os.path.join(ROOT, 'build', 'alone')], cwd='/repo', env=dict(os.environ, CARGO_NET_OFFLINE='true'), capture_output=True, text=True)
    if p.returncode: return None
    return 'a declaration that must be accepted does not compile: ' + ' '.join(hits[0].split())[:600]


def main():
    t0 = time.time()
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 780 if tier == 'quick' else 6 * 3600
    deadline = t0 + budget
    outdir = os.path.join(ROOT, 'replays', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    violations, undecided = [], []

    # the deductive verifier decides; the native executions look for failing inputs meanwhile
    import verus_layer as V
    worker = V.start(prop, tier)

    n = K.Native(prop, tier, seed, outdir)
    err = n.build()
    if err:
        d = V.finish(worker)
        refused = unusable(prop, err)
        if refused:
            p = os.path.join(outdir, 'compile.txt')
            open(p, 'w').write(refused + '\n\n' + err)
            print(f'{prop}: {refused[:300]}')
            print(f'VIOLATION property={prop} replay={p}')
            return 1
        if d.failed:
            p = os.path.join(outdir, 'obligations.txt')
            open(p, 'w').write('\n'.join(d.failed) + '\n\n' + d.log)
            print(f'{prop}: failed obligations: ' + '; '.join(d.failed)[:300])
            print(f'VIOLATION property={prop} replay={p} no-failing-input-found')
            return 1
        print(err[-3000:])
        print(f'ERROR: the contracts do not build against /repo for {prop}')
        return 2
    # known findings first
    listed = known_findings()
    for name, state, note in n.known():
        if (prop, name) in listed and state == 'fails': print(f'KNOWN-FINDING: property={prop} {listed[(prop, name)]}')
        elif state == 'fails':
            p = os.path.join(outdir, name + '.native.txt')
            open(p, 'w').write(f'contract {name}\nmessage {note}\n')
            violations.append((p, f'{name}: {note}', ''))
    iters, bud = (2000, 1500) if tier == 'quick' else (200000, 60000)
    fails, execs, discarded, per = n.execute(iters, bud)
    for f in fails: violations.append((f.replay, f'{f.contract}: {f.message}', ''))
    vac = [c for c, (a, b) in per.items() if a == 0]
    for c in vac: undecided.append(f'{c}: no native execution met its precondition')
    undecided += n.notes

    deductive = V.finish(worker)
    undecided += [f'verus: {u}' for u in deductive.undecided]
    if deductive.failed:
        obligations = os.path.join(outdir, 'obligations.txt')
        open(obligations, 'w').write('\n'.join(deductive.failed) + '\n\n' + deductive.log)
        print(f'{prop}: failed obligations: ' + '; '.join(deductive.failed)[:400])

    res, kerr, kout, kcmd = {}, None, '', ''
    if not violations:
        res, kerr, kout, kcmd = K.kani(prop, tier, deadline - 120)
        open(os.path.join(outdir, 'kani.log'), 'w').write(kout)
        expected = [c for c, (k, _) in n.contracts.items() if k in ('Full', 'Bounded', 'Panics') or (k == 'Slow' and tier == 'thorough')]
        if kerr: undecided.append(f'kani: {kerr}')
        unknown = [c for c in expected if c not in res or res[c].ok is None]
        for c in unknown: undecided.append(f'{c}: {res[c].why if c in res else "not proved"}')
        if unknown and not violations:
            # what the prover left open is executed at length instead
            f2, e2, d2, _ = n.execute(iters * 10, bud * 4)
            execs += e2
            for f in f2: violations.append((f.replay, f'{f.contract}: {f.message}', ''))
        for c in [c for c, h in res.items() if h.ok is False][:4]:
            left = deadline - time.time()
            if left < 60: undecided.append(f'{c}: no time left to replay the counterexample'); continue
            files, o = K.counterexamples(prop, tier, c, outdir, min(300, left - 30))
            hit = None
            for p, m in files:
                r = n.replay(c, p)
                if r: hit = (p, r); break
            if not hit:
                for p, m in files[:3]:
                    r = n.replay_miri(c, p)
                    if r: hit = (p, r); break
            if hit: violations.append((hit[0], f'{c}: {hit[1]}', ''))
            else: undecided.append(f'{c}: the prover objects ({res[c].why}) but its values do not fail on the compiled code')
    if deductive.failed and not violations:
        violations.append((obligations, 'failed obligations: ' + '; '.join(deductive.failed)[:300], ' no-failing-input-found'))

    proved = sorted(c for c, h in res.items() if h.ok)
    full = [c for c in proved if KINDS[n.contracts[c][0]] == 'full']
    bounded = [c for c in proved if c not in full]
    cov = {
        'obligations': deductive.obligations,
        'discharged': deductive.discharged,
        'checker_cmd': deductive.cmd,
        'trusted_base': deductive.trusted,
        'functions_under_contract': deductive.functions,
        'unreached_functions': deductive.unreached,
        'solver_seconds': round(deductive.seconds, 2),
        'instantiation_complete_contracts': [{'contract': c, 'scope': n.contracts[c][1] or 'every value of the instantiated types', 'checks': res[c].checks, 'seconds': res[c].time} for c in full],
        'bounded_contracts': [{'contract': c, 'bound': n.contracts[c][1], 'checks': res[c].checks, 'seconds': res[c].time} for c in bounded],
        'native_contracts': [{'contract': c, 'scope': n.contracts[c][1], 'executions': per.get(c, (0, 0))[0]} for c, (k, _) in n.contracts.items() if KINDS[k] == 'native'],
        'evaluations': execs, 'discarded': discarded,
        'undecided': undecided,
        'explanation': 'obligations/discharged count the deductive verifier only; contracts proved by CBMC for stated instantiations or bounds and contracts executed natively are listed apart and never counted as proved',
    }
    mf = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    level = next((c['level'] for c in mf['checks'] if c['property'] == prop), 'other')
    if level == 'proof' and not (deductive.discharged == deductive.obligations > 0): level = 'other'
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': deductive.assumptions + ['rustc, Kani/CBMC and the standard library are trusted; the harness is built for 64-bit little-endian Linux with oct\'s default features'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if not any(violations):
        shutil.rmtree(outdir, ignore_errors=True)
        print(f'{prop}: held; {cov["discharged"]}/{cov["obligations"]} obligations, {len(full)} complete and {len(bounded)} bounded contracts proved, {execs} native executions, {len(undecided)} undecided, {ev["wall_s"]} s')
        for u in undecided: print('  undecided:', u)
        return 0
    for p, m, tail in violations[:5]:
        print(f'{prop}: {m}')
        print(f'VIOLATION property={prop} replay={p}{tail}')
    return 1

if __name__ == '__main__':
    sys.exit(main())
