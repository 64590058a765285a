"""The deductive layer: contracts on the functions of /repo, discharged by Verus.

Every run expands /repo with rustc, extracts the functions under contract from the expansion
(/verif/extract), joins them with the contracts of /verif/verus and has Verus check each function
against its contract, twice: pass A takes the documented preconditions (room in the output, enough
input) and shows that no panic is reached, pass B takes none and shows that a call that returns
meets its contract (a panic may end it)."""
import glob, importlib, json, os, re, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'verus'))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import assemble

BUILD = os.path.join(ROOT, 'build')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR'): ENV.pop(k, None)
CONTROL = 'control'
FRONT = 12      # how often a function the front end refuses may be set aside


class Outcome:
    def __init__(self):
        self.undecided, self.failed, self.log = [], [], ''
        self.obligations = self.discharged = 0
        self.functions, self.unreached, self.trusted, self.assumptions = [], [], [], []
        self.seconds, self.cmd = 0.0, 'verus <file assembled from the expansion of /repo> --rlimit 60 (passes A and B)'
        self.names = []


def build_extractor():
    p = subprocess.run(['cargo', 'build', '--offline', '--release', '-q', '--target-dir', f'{BUILD}/extract'],
                       cwd=f'{ROOT}/extract', env=ENV, capture_output=True, text=True, timeout=600)
    return None if p.returncode == 0 else p.stderr[-800:]


def expand(manifest_dir, package, out):
    p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '-q', '-p', package, '--lib', '--profile', 'check',
                        '--target-dir', f'{BUILD}/expand', '--', '-Zunpretty=expanded'],
                       cwd=manifest_dir, env=ENV, capture_output=True, text=True, timeout=600)
    if p.returncode: return p.stderr[-800:]
    open(out, 'w').write(p.stdout)


def expand_shapes(derived, work):
    """what the macros make of the declarations in verus/derived.py"""
    d = f'{BUILD}/derived'
    os.makedirs(d + '/src', exist_ok=True)
    for name, text in (('src/lib.rs', derived.source()),
                       ('Cargo.toml', '[package]\nname = "octd"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\noct = { path = "/repo/oct" }\n[workspace]\n')):
        open(f'{d}/{name}', 'w').write(text)
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--target-dir', f'{BUILD}/expand'], cwd=d, env=ENV, capture_output=True, text=True, timeout=600)
    if p.returncode: return None, 'the expansion does not compile: ' + '; '.join(re.findall(r'^error.*', p.stderr, re.M)[:2])
    err = expand(d, 'octd', f'{work}/octd.rs')
    return (None, err) if err else extract(f'{work}/octd.rs')


def extract(source):
    p = subprocess.run([f'{BUILD}/extract/release/extract', source], capture_output=True, text=True, timeout=300)
    if p.returncode: return None, p.stderr[-800:]
    return json.loads(p.stdout), None


def preludes():
    return [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(f'{ROOT}/verus/*.rs'))]


class Run:
    """one invocation of the verifier"""
    def __init__(self, asm, path, seed=0, rlimit=60, threads=8, extra=(), timeout=1500):
        open(path, 'w').write(asm.text())
        t = time.time()
        p = subprocess.Popen(['verus', path, '--num-threads', str(threads), '--rlimit', str(rlimit), '--output-json', '--error-format=json', '--multiple-errors', '0',
                              '--smt-option', f'smt.random_seed={seed}', *extra], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             cwd=os.path.dirname(path), start_new_session=True)
        self.cut = False
        try:
            stdout, stderr = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            stdout, stderr = p.communicate()
            self.cut = True
        self.seconds = time.time() - t
        try:
            res = json.loads(stdout)['verification-results']
        except Exception:
            res = None
        self.ok_front = bool(res) and not res.get('encountered-vir-error', True) and 'verified' in res
        self.verified = res.get('verified', 0) if res else 0
        self.failed, self.hard, self.front, self.text = {}, {}, [], []
        # rustc's own errors carry a code; the verifier's do not
        if re.search(r'"code":\{"code":"E\d', stderr): self.ok_front = False
        for l in stderr.split('\n'):
            try:
                d = json.loads(l)
            except Exception:
                if l.strip(): self.text.append(l)
                continue
            if d.get('level') != 'error' or not d.get('spans'):
                if d.get('level') == 'error' and not d['message'].startswith('aborting due'): self.front.append((None, d['message']))
                continue
            spans = sorted(d['spans'], key=lambda s: s['is_primary'] == (d['message'].startswith('postcondition')))
            owners = [asm.owner.get(s['line_start']) for s in spans]
            owner = next((o for o in owners if o in asm.obl), None) or next((o for o in owners if o), None)
            if self.ok_front or self.cut:
                kind = self.hard if re.search('rlimit|[Rr]esource limit|time.?out', d['message']) else self.failed
                kind.setdefault(owner, []).append(d['rendered'])
            else:
                self.front.append((owner, d['message']))


def settle(items, contracts, mode, path, trust, drop):
    """Run a pass, setting aside functions the front end refuses."""
    for _ in range(FRONT):
        asm = assemble.Assembly(items, contracts, preludes(), mode, trust, drop)
        asm.put('verus!{ proof fn vf_control() ensures false {} }', owner=CONTROL)
        r = Run(asm, path)
        if r.ok_front: return asm, r
        more = set()
        for owner, msg in r.front:
            if owner in asm.obl and asm.obl[owner]['kind'] in ('fn', 'const') and owner not in trust: more.add(owner)
        if more:
            trust |= more
            continue
        for owner, msg in r.front:
            m = re.match(r'(?:impl|spec) (.*)$', owner or '')
            if m: more.add(m.group(1))
            elif owner and owner.startswith('lemma'): more.add(owner)
            elif owner in trust and '::' in owner: more.add(owner.rsplit('::', 1)[0])
        more -= drop
        if not more:
            break
        drop |= more
    return None, r


def verify(items, contracts, work, name='oct', second=150):
    """-> (assembly, runs, failed {obligation: texts}, undecided [(msg, props)])"""
    trust, drop = set(), set()
    asm, a = settle(items, contracts, 'A', f'{work}/{name}_A.rs', trust, drop)
    if asm is None:
        return None, [a], {}, [('the front end of the verifier refuses the assembled file: ' + '; '.join(m for _, m in a.front[:2]) + ' '.join(a.text[:2]), None)]
    bsm, b = settle(items, contracts, 'B', f'{work}/{name}_B.rs', trust, drop)
    if bsm is None:
        return None, [a, b], {}, [('the front end of the verifier refuses pass B: ' + '; '.join(m for _, m in b.front[:2]), None)]
    if len(bsm.obl) != len(asm.obl):
        asm, a = settle(items, contracts, 'A', f'{work}/{name}_A.rs', trust, drop)
    und = list(bsm.undecided)
    failed, runs = {}, [a, b]
    for m, sm, r in (('A', asm, a), ('B', bsm, b)):
        if CONTROL not in r.failed:
            return None, runs, {}, [(f'pass {m}: the negative control was not refused', None)]
        r.failed.pop(CONTROL)
        if r.failed or r.hard:
            # a second opinion on these alone, with another seed and more resources
            rest = {o for o, d in sm.obl.items() if d['kind'] in ('fn', 'const') and o not in r.failed and o not in r.hard}
            sm2 = assemble.Assembly(items, contracts, preludes(), m, trust | rest, drop)
            r2 = Run(sm2, f'{work}/{name}_{m}2.rs', seed=17, rlimit=120, timeout=second)
            runs.append(r2)
            for o, texts in list(r.failed.items()) + list(r.hard.items()):
                if o in r2.failed: failed.setdefault(o, []).extend(f'pass {m}: {t}' for t in r2.failed[o])
                elif o in r2.hard or not r2.ok_front: und.append((f'{o}: pass {m}: the solver gave up', sm.obl.get(o, {}).get('props')))
    for o in list(failed):
        if o not in asm.obl:
            und.append((f'{o}: not proved', None))
            del failed[o]
    return asm, runs, failed, und


# no value and no accepted input exist
UNINHABITED = {'Decode for Infallible::decode', 'From<Infallible> for GenericDecodeError::from', 'From<Infallible> for GenericEncodeError::from'}

def probe(items, contracts, work, trust=(), drop=()):
    """functions under contract at whose start `false` can be proved: preconditions or axioms that contradict each other"""
    asm = assemble.Assembly(items, contracts, preludes(), 'A', trust, drop, probe=True)
    r = Run(asm, f'{work}/probe.rs', rlimit=20)
    if not r.ok_front: return None, r.seconds
    fns = {o for o, d in asm.obl.items() if d['kind'] in ('fn', 'const')}
    return sorted(fns - set(r.failed) - set(r.hard)), r.seconds


TRUST = re.compile(r'assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(|#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:unsafe )?((?:proof )?fn \w+)|impl[^{;]*?(Vf\w+(?:<[^>]*>)?) for ([^{]+)\{|(?:pub )?(uninterp spec fn \w+)', re.S)

def trusted_base():
    out = []
    for _, t in preludes():
        for m in TRUST.finditer(t):
            s = next(g for g in m.groups() if g)
            if m.group(3): s = f'shim {m.group(3)} for {m.group(4).strip()}'
            elif m.group(1): s = 'assumed contract of ' + ' '.join(s.split())
            elif s.startswith('proof'): s = 'axiom ' + s[9:]
            elif s.startswith('fn'): s = 'shim ' + s[3:]
            out.append(s)
    return sorted(set(out))


def decide(prop, tier, outdir):
    out = Outcome()
    t = time.time()
    work = f'{BUILD}/verus'
    os.makedirs(work, exist_ok=True)
    err = build_extractor()
    if not err: err = expand('/repo', 'oct', f'{work}/oct.rs')
    items = None
    if not err: items, err = extract(f'{work}/oct.rs')
    if err:
        out.undecided.append('extraction: ' + err[-300:].replace('\n', ' '))
        return out
    import contracts
    spec, extra = contracts.C, []
    if prop == 'C14':
        import derived
        more, err = expand_shapes(derived, work)
        if err: extra.append((f'the derived implementations: {err}', None))
        else: spec, items, plain = derived.contracts(), items + derived.adapt(more), items
    asm, runs, failed, und = verify(items, spec, work, second=150 if tier == 'quick' else 1500)
    if asm is None and prop == 'C14' and spec is not contracts.C:
        extra += und
        asm, runs, failed, und = verify(plain, contracts.C, work)
    und = extra + und
    out.seconds = time.time() - t
    if tier == 'thorough' and asm is not None:
        empty, secs = probe(items, spec, work)
        if empty is None: und.append(('the vacuity probe gave no answer', None))
        for o in empty or []:
            if o not in UNINHABITED: und.append((f'{o}: its preconditions contradict each other', asm.obl[o]['props']))
    for m, props in und:
        if props is None or prop in props or not props: out.undecided.append(m)
    if asm is None: return out
    mine = {o for o, d in asm.obl.items() if prop in d['props']}
    out.names = sorted(mine)
    out.failed = sorted(o for o in failed if o in mine)
    out.log = '\n'.join('\n'.join(failed[o]) for o in out.failed)
    gone = {re.split(': (?:pass|its)', u)[0] for u in out.undecided}
    out.obligations = 2 * len(mine)
    out.discharged = 2 * len([o for o in mine if o not in failed and o not in gone])
    out.functions = sorted(o for o in mine if asm.obl[o]['kind'] in ('fn', 'const'))
    out.unreached = asm.unreached
    out.trusted = trusted_base()
    out.rules = {r: len(s) for r, s in asm.rules.items()}
    out.verified = [r.verified for r in runs[:2]]
    out.smt_seconds = sum(r.seconds for r in runs)
    return out


def start(prop, tier):
    return subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, tier, '--json'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)


def finish(p, timeout=660):
    out = Outcome()
    try:
        o, e = p.communicate(timeout=timeout)
        out.__dict__.update(json.loads(o.strip().split('\n')[-1]))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        out.undecided.append(f'no result within {timeout} s')
    except ValueError:
        out.undecided.append('no result: ' + e.strip()[-300:].replace('\n', ' '))
    return out


if __name__ == '__main__':
    o = decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick', '/tmp')
    if '--json' in sys.argv: print(json.dumps(o.__dict__))
    else: print(o.obligations, o.discharged, o.failed[:5], o.undecided[:5], round(o.seconds, 1), len(o.functions), len(o.trusted), getattr(o, 'verified', None))
