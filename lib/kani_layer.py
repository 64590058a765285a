"""Bounded and instantiation-complete contracts of the harness crate, on the compiled code of /repo.

Native execution of every contract, then one CBMC proof per contract through cargo kani.  A
counterexample counts only if the contract fails natively (or under Miri) on its values."""
import os, re, resource, signal, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(ROOT, 'harness')
BUILD = os.path.join(ROOT, 'build')

def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    e.pop('RUSTFLAGS', None)
    e.update(kw)
    return e

def run(cmd, timeout, cwd=CRATE, mem=None, **kw):
    """(exit status or None on timeout, output)"""
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out

def sweep_children():
    pass

class Failure:
    def __init__(self, contract, message, replay=None): self.contract, self.message, self.replay = contract, message, replay

class Native:
    def __init__(self, prop, tier, seed, outdir):
        self.prop, self.tier, self.seed, self.out = prop.lower(), tier, seed, outdir
        self.exe = None
        self.contracts = {}
        self.notes = []
    def build(self):
        t = os.path.join(BUILD, 'native-' + self.prop)
        rc, out = run(['cargo', 'build', '--offline', '--locked', '--features', self.prop, '--bin', 'drive', '--target-dir', t], 600)
        if rc != 0: return out
        self.exe = os.path.join(t, 'debug', 'drive')
        rc, out = run([self.exe, 'list'], 60)
        for l in out.splitlines():
            f = l.split('\t')
            if len(f) == 4: self.contracts[f[1]] = (f[2], f[3])
        return None
    def execute(self, iters, budget):
        """(failures, executions, discarded, per contract)"""
        rc, out = run([self.exe, 'run', str(iters), str(self.seed), self.out, str(budget)], 420, mem=12 << 30)
        fails, n, d, per = self._parse(out)
        if rc in (0, 1): return fails, n, d, per
        # the process died or did not return: find the contract, with a trace of the values drawn
        for c, (kind, _) in self.contracts.items():
            if kind == 'Known' or c in per: continue
            trace = os.path.join(self.out, c + '.trace.txt')
            rc, o = run([self.exe, 'run', str(iters), str(self.seed), self.out, str(budget), c], 120, mem=12 << 30, OCT_TRACE=trace)
            f, n1, d1, p1 = self._parse(o)
            fails += f; n += n1; d += d1; per.update(p1)
            if rc in (0, 1): continue
            what = 'does not return' if rc is None else f'the process was killed by signal {-rc}' if rc < 0 else f'the process ended with status {rc}'
            vals = open(trace).read() if os.path.exists(trace) else ''
            p = os.path.join(self.out, c + '.native.txt')
            open(p, 'w').write(f'contract {c}\nmessage {what}\n{vals}')
            again = self.replay(c, p)
            if again: fails.append(Failure(c, again, p))
            else: self.notes.append(f'{c}: {what}, which did not happen again on the same values')
        return fails, n, d, per
    def _parse(self, out):
        fails, n, d, per = [], 0, 0, {}
        for l in out.splitlines():
            f = l.split('\t')
            if f[0] == 'RUN' and len(f) == 5:
                per[f[1]] = (int(f[2]), int(f[3])); n += int(f[2]); d += int(f[3])
            elif f[0] == 'FAIL' and len(f) >= 4: fails.append(Failure(f[1], f[3], f[2]))
        return fails, n, d, per
    def replay(self, contract, path):
        """the message if the contract fails on the values in the file, else None"""
        rc, out = run([self.exe, 'replay', contract, path], 120, mem=12 << 30)
        if rc is None: return 'does not return'
        if rc < 0 or rc > 1: return f'the process ended abnormally ({rc})'
        m = re.search(r'REPLAY fails: (.*)', out)
        return m.group(1) if m else None
    def replay_miri(self, contract, path):
        rc, out = run(['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--features', self.prop, '--bin', 'drive', '--target-dir', os.path.join(BUILD, 'miri'), '--', 'replay', contract, path], 240,
                      MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows')
        m = re.search(r'error: (Undefined Behavior: .*)', out)
        return m.group(1) if m else None
    def known(self):
        rc, out = run([self.exe, 'known'], 60)
        return [tuple(l.split('\t')[1:4]) for l in out.splitlines() if l.startswith('KNOWN\t')]

class Harness:
    def __init__(self, name): self.name, self.ok, self.checks, self.failed, self.why, self.time = name, None, 0, 0, 'no result', 0.0

def kani(prop, tier, deadline):
    """{contract: Harness}, error text or None"""
    feats = prop.lower() + (',thorough' if tier == 'thorough' else '')
    t = os.path.join(BUILD, 'kani-' + prop.lower())
    per = 150 if tier == 'quick' else 900
    cmd = ['cargo', 'kani', '--features', feats, '-j', '8', '--output-format', 'terse', '--target-dir', t, '-Z', 'unstable-options', '--harness-timeout', f'{per}s']
    rc, out = run(cmd, max(60, deadline - time.time()))
    res, at, cur = {}, {}, None
    block = []
    def close():
        if cur is None or not block: return
        h = res.setdefault(cur, Harness(cur))
        text = '\n'.join(block)
        judge(h, text)
    for l in out.splitlines():
        m = re.match(r'Thread (\d+): Checking harness (\S+?)\.\.\.', l)
        if m:
            close(); block = []; cur = None
            at[m[1]] = m[2].split('::')[-1]
            res.setdefault(at[m[1]], Harness(at[m[1]]))
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            close(); block = []; cur = at.get(m[1]); continue
        if re.match(r'(Manual Harness Summary|Complete - )', l):
            close(); block = []; cur = None; continue
        if cur is not None: block.append(l)
    close()
    err = None
    if not res:
        err = 'internal compiler error' if 'internal compiler error' in out else ('timeout' if rc is None else (re.findall(r'^error.*', out, re.M) or ['no harness ran'])[0])
    return res, err, out, ' '.join(cmd)

def judge(h, text):
    m = re.search(r'Verification Time: ([\d.]+)', text)
    if m: h.time = float(m[1])
    m = re.search(r'\*\* (\d+) of (\d+) failed', text)
    if m: h.failed, h.checks = int(m[1]), int(m[2])
    fails = re.findall(r'Failed Checks: (.*)', text)
    c = re.search(r'\*\* (\d+) of (\d+) cover', text)
    if 'VERIFICATION:- SUCCESSFUL' in text:
        if c and c[1] != c[2]: h.ok, h.why = None, 'the end of the contract is unreachable'
        else: h.ok, h.why = True, ''
    elif not m or 'CBMC failed' in text or 'timed out' in text.lower(): h.ok, h.why = None, 'the solver gave no answer'
    elif any('unwinding assertion' in f for f in fails) or any('not currently supported' in f or 'is not supported' in f for f in fails): h.ok, h.why = None, 'a loop or construct beyond the stated bound'
    elif 'encountered no panics' in text: h.ok, h.why = False, 'a call that must panic never does'
    else: h.ok, h.why = False, '; '.join(dict.fromkeys(fails))[:300] or 'failed'

def counterexamples(prop, tier, contract, outdir, timeout):
    """replay files with the values of each failing check"""
    feats = prop.lower() + (',thorough' if tier == 'thorough' else '')
    cmd = ['cargo', 'kani', '--features', feats, '--harness', f'{prop.lower()}::proofs::{contract}', '--exact', '-Z', 'concrete-playback', '--concrete-playback=print', '--target-dir', os.path.join(BUILD, 'kani-' + prop.lower())]
    rc, out = run(cmd, timeout)
    files, seen = [], set()
    for m in re.finditer(r'/// Check for `([^`]*)`: "(.*?)"\s*\n(.*?)(?:kani::concrete_playback_run)', out, re.S):
        if m[1] == 'cover': continue
        vals = re.findall(r'vec!\[([\d, ]*)\]', m[3].split('= vec![', 1)[-1])
        lines = ['val ' + v.replace(',', ' ') for v in vals]
        key = '\n'.join(lines)
        if key in seen: continue
        seen.add(key)
        p = os.path.join(outdir, f'{contract}.kani{len(files)}.txt')
        open(p, 'w').write(f'contract {contract}\nmessage {m[2]}\n{key}\n')
        files.append((p, m[2]))
    return files, out
