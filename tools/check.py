#!/usr/bin/env python3
"""check.py PROPERTY: extracts the functions of /repo, verifies them against the contracts with Verus and
searches for failing inputs on the real code. See DESIGN.md."""
import json, os, re, subprocess, sys, time, glob, shutil, struct

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import assemble
from mkdict import mkdict

T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 4)
VERUS = 'verus'

FAILS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'assertion not satisfied',
         'invariant not satisfied', 'possible arithmetic', 'possible division', 'decreases not satisfied', 'possible bit shift',
         'loop ensures not satisfied', 'unable to prove', 'possible integer', 'could not prove termination', 'at this loop exit',
         'assert_by', 'requires not satisfied', 'constructed value may fail', 'unreachable', 'cannot prove', 'index out of bounds', 'ensures not satisfied')

PANICS = ('precondition not satisfied', 'possible arithmetic', 'possible division', 'possible bit shift', 'index out of bounds', 'decreases not satisfied', 'could not prove termination', 'unreachable')


def log(*a):
    print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace') + '\ntimed out'


def build_extractor():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'extract'), CARGO_NET_OFFLINE='true')
    r = run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(HERE, 'extract', 'Cargo.toml')], 600, env=env)
    exe = os.path.join(BUILD, 'extract', 'debug', 'vextract')
    return exe if r[0] == 0 and os.path.exists(exe) else None, r[2]


def build_harness():
    """builds the harness against the working tree, in a target directory of its own"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'harness'), CARGO_NET_OFFLINE='true')
    for d in ('debug',):
        base = os.path.join(BUILD, 'harness', d)
        for pat in ('.fingerprint/stacks-rs-*', '.fingerprint/stacks_rs-*', '.fingerprint/stacks_derive-*', '.fingerprint/vh-*', 'incremental'):
            for x in glob.glob(os.path.join(base, pat)):
                shutil.rmtree(x, ignore_errors=True)
        for x in (os.path.join(base, 'vh'),):
            if os.path.exists(x):
                os.remove(x)
    cwd = os.path.join(HERE, 'harness')
    if REPO != '/repo':  # development only
        cwd = os.path.join(BUILD, 'harness_src')
        shutil.rmtree(cwd, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, 'harness'), cwd)
        t = open(cwd + '/Cargo.toml').read().replace('/repo/', REPO + '/')
        open(cwd + '/Cargo.toml', 'w').write(t)
    r = run(['cargo', 'build', '--offline', '-q'], 800, env=env, cwd=cwd)
    exe = os.path.join(BUILD, 'harness', 'debug', 'vh')
    return exe if r[0] == 0 and os.path.exists(exe) else None, r[2]


def build_expansion(work):
    """what the derive macro of the working tree expands the sample structs of derive/ to"""
    base = os.path.join(BUILD, 'derive')
    env = dict(os.environ, CARGO_TARGET_DIR=base, CARGO_NET_OFFLINE='true', RUSTC_BOOTSTRAP='1')
    for pat in ('.fingerprint/stacks-rs-*', '.fingerprint/stacks_derive-*', '.fingerprint/samples-*', 'incremental'):
        for x in glob.glob(os.path.join(base, 'debug', pat)):
            shutil.rmtree(x, ignore_errors=True)
    cwd = os.path.join(HERE, 'derive')
    if REPO != '/repo':  # development only
        cwd = os.path.join(BUILD, 'derive_src')
        shutil.rmtree(cwd, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, 'derive'), cwd)
        t = open(cwd + '/Cargo.toml').read().replace('/repo/', REPO + '/').replace('../harness', HERE + '/harness')
        open(cwd + '/Cargo.toml', 'w').write(t)
    r = run(['cargo', 'rustc', '--offline', '--lib', '--profile=check', '-q', '--', '-Zunpretty=expanded'], 400, env=env, cwd=cwd)
    if r[0] != 0 or 'try_from' not in r[1]: return None, r[2]
    out = os.path.join(work, 'expansion.rs')
    open(out, 'w').write(r[1])
    return out, r[2]


def locked(name, build):
    """one build at a time in a target directory"""
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return build()


class Search:
    def __init__(self, prop, exe, work):
        self.prop, self.exe, self.work = prop, exe, work
        self.dict = os.path.join(work, 'dict')
        mkdict(REPO, self.dict)
        self.cases, self.fail, self.wall = 0, None, 0.0
        self.next = 0

    def run(self, secs, procs=NCPU):
        t = time.time()
        ps = []
        for k in range(procs):
            first = self.next + k * 10**9
            prog = os.path.join(self.work, f'prog{k}')
            out = open(os.path.join(self.work, f'out{k}'), 'wb')
            p = subprocess.Popen([self.exe, self.prop, str(SEED), str(first), str(10**9), str(secs), self.dict, prog], stdout=out, stderr=subprocess.DEVNULL)
            ps.append((p, prog, out.name, first))
        deadline = t + secs + 60
        for p, prog, out, first in ps:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = 'hang'
            text = open(out, errors='replace').read()
            try:
                case = struct.unpack('<Q', open(prog, 'rb').read(8))[0]
            except Exception:
                case = first
            if rc == 0:
                m = re.search(r'DONE cases=(\d+)', text)
                self.cases += int(m.group(1)) if m else 0
                continue
            if rc == 1 and 'FAIL' in text:
                self.cases += case - first + 1
                f = (case, text, first)
            elif rc == 'hang':
                f = (case, f'FAIL case={case}\nthe call does not terminate (stopped after {secs + 60:.0f} s)', first)
            else:
                f = (case, f'FAIL case={case}\nthe process ended with status {rc} (abort, stack overflow or out of memory)', first)
            if self.fail is None:
                self.fail = f
        self.next += procs * 10**9
        self.wall += time.time() - t
        if self.fail and not self.confirm():
            log('the failing case did not recur; set aside:', self.fail[1][:300])
            self.fail = None
        return self.fail

    def confirm(self):
        """a failing case must fail again when run alone, or after the same cases before it"""
        case, _, first = self.fail
        for self.start, limit in ((case, 60), (first, 200)):
            try:
                p = subprocess.run([self.exe, self.prop, str(SEED), str(self.start), str(case - self.start + 1), '600', self.dict, os.path.join(self.work, 'progc')], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
            except subprocess.TimeoutExpired:
                return self.start == case
            if p.returncode == 1 and f'FAIL case={case}\n' in p.stdout.decode(errors='replace') or p.returncode not in (0, 1): return True
        return False

    def replay_cmd(self):
        return f'{os.path.relpath(self.exe, HERE)} {self.prop} {SEED} {self.start} {self.fail[0] - self.start + 1} 600 {os.path.relpath(self.dict, HERE)} /dev/null'


class Verifier:
    def __init__(self, units, work):
        self.asm = assemble.Assembler(units)
        self.units, self.work = units, work
        self.time = 0.0
        self.solver_ms = 0
        self.n = 0

    def regions(self, text):
        out, cur = [], None
        for i, l in enumerate(text.split('\n'), 1):
            if l.startswith('//@@ end'):
                if cur: out.append((cur[0], cur[1], i))
                cur = None
            elif l.startswith('//@@ '):
                cur = (l[5:].strip(), i)
        return out

    def once(self, modules, keys, broken, extra=(), timeout=600, bare=(), evident=(), dropped={}):
        text, lost = self.asm.build(modules, keys, broken, bare, evident, dropped)
        self.n += 1
        path = os.path.join(self.work, f'gen.rs')
        open(path, 'w').write(text)
        regs = self.regions(text)
        lines = text.split('\n')
        hints, cur = {}, None  # line -> the piece of proof text it belongs to
        for i, l in enumerate(lines, 1):
            m = re.match(r'\s*/\*@h (\w+) (\d+) (\d+)\*/', l)
            cur = (m.group(1), int(m.group(2)), int(m.group(3))) if m else None if '/*@e*/' in l else cur
            if cur: hints[i] = cur
        t = time.time()
        cmd = [VERUS, path, '--crate-type=lib', '--num-threads', str(NCPU), '--multiple-errors', '3', '--triggers-mode', 'silent', '--output-json', '--time', *extra]
        rc, out, err = run(cmd, timeout, cwd=self.work)
        self.time += time.time() - t
        self.cmd = ' '.join(cmd)
        try:
            js = json.loads(out[out.index('{'):])
        except Exception:
            js = {}
        vr = js.get('verification-results', {})
        try:
            self.solver_ms += js['times-ms']['smt']['smt-run']
        except Exception:
            pass
        errs = []  # (key, kind, text)
        untrue = {}  # intermediate assertions of the proof text that do not hold in the function as it is now
        misfit = {}  # proof text that does not compile in the function as it is now
        for block in re.split(r'(?m)^(?=error)', err):
            m = re.match(r'error(\[\w+\])?: (.*)', block)
            if not m or m.group(2).startswith('aborting'):
                continue
            nums = [int(x) for x in re.findall(r'--> [^\n]*?gen\.rs:(\d+):', block)] + [int(x) for x in re.findall(r'(?m)^ *(\d+) +\|', block)]
            key = None
            hits = [k for n in nums for k, a, b in regs if a <= n <= b]
            # a failed clause of a trait is shown first; the function that breaks it follows
            key = next((k for k in hits if k in self.asm.cs), hits[0] if hits else None)
            msg = m.group(2)
            tags = None
            if nums and 'postcondition' in msg:
                tags = set(re.findall(r'#(C\d\d)', lines[nums[0] - 1])) or None
            elif key in self.asm.cs and 'C04' in self.asm.cs[key].props and any(x in msg for x in PANICS):
                tags = {'C04'}
            if 'resource limit' in msg.lower() or 'rlimit' in msg.lower():
                kind = 'rlimit'
            elif any(f in msg for f in FAILS):
                kind = 'fail'
            else:
                kind = 'compile'
            at = [int(x) for x in re.findall(r'--> [^\n]*?gen\.rs:(\d+):', block)][:1]
            if kind == 'compile' and at and at[0] in hints and any(k == key and a <= at[0] <= b for k, a, b in regs):
                misfit.setdefault(key, set()).add(hints[at[0]])
            if kind == 'fail' and at and at[0] in hints and 'assertion failed' in msg:
                untrue.setdefault(key, set()).add(hints[at[0]])
            errs.append((key, kind, block.strip()[:3000], tags))
        return dict(rc=rc, vr=vr, errs=errs, lost=lost, err=err, text=text, regs=regs, misfit=misfit, untrue=untrue)

    def verify(self, modules, keys, deadline):
        """-> dict with discharged, failed {key: text}, undecided {key: why}"""
        undecided = {}
        bare = {}  # verified against the specification alone: the proof text does not fit the function as it is now
        dropped = {}  # pieces of proof text left out for that reason
        partial, untrue = {}, {}
        asm = self.asm
        for k in sorted(keys):
            f, c = asm.fns.get(k), asm.cs[k]
            if f is None:
                undecided[k] = 'the function is not in the source under this name'
            elif not f['loops'] and (c.loops or c.nloops) and not c.trusted:
                partial[k] = 'the function has no loops, its contract is written for some'
                dropped[k] = {(*x, i) for x in c.at if x[0] not in ('start', 'tail') for i in range(200)}
            elif c.nloops is not None and len(f['loops']) != c.nloops:
                undecided[k] = f"the function has {len(f['loops'])} loops, its contract is written for {c.nloops}"
            elif c.nloops is None and c.loops and (max(c.loops) + 1) != len(f['loops']):
                undecided[k] = f"the function has {len(f['loops'])} loops, its contract is written for {max(c.loops) + 1}"
            elif c.nloops is None and not c.loops and f['loops'] and not c.trusted:
                undecided[k] = 'the function has a loop, its contract is written for none'
        # closed world: dynamic dispatch is modelled by one variant per implementor
        for m, t, _ in asm.raws:
            for x, vs in re.findall(r'pub enum Dyn(\w+) \{(.*?)\}', t, re.S):
                want, got = set(re.findall(r'(\w+)\(', vs)), set(self.units['impls'].get(x, [])) - set(' '.join(re.findall(r'excluded from the closed world: (.*)', t)).split())
                if want != got and m in modules:
                    for k in keys:
                        if k.split('::')[0] == m: undecided.setdefault(k, f'implementors of {x} changed: {sorted(want ^ got)}')
        for x in asm.underived:
            if x.split('::')[0] in modules:
                for k in keys: undecided.setdefault(k, f'no longer derived, and so not known to the verifier: {x}')
        failed = {}
        broken = set(undecided)
        res = None
        for attempt in range(12):
            left = deadline - time.time()
            if left < 20:
                for k in keys: undecided.setdefault(k, 'out of time')
                return dict(failed={}, undecided=undecided, res=None)
            res = self.once(modules, keys, broken, extra=['--rlimit', '30'], timeout=left, bare=bare, dropped=dropped)
            comp = [e for e in res['errs'] if e[1] == 'compile']
            for k, why, _ in res['lost']:
                if not asm.fns.get(k): undecided.setdefault(k, why)
                elif k not in bare: partial.setdefault(k, why)
            new = {e[0] for e in comp if e[0]} - broken
            if not comp:
                break
            fresh = {k: v - dropped.get(k, set()) for k, v in res['misfit'].items() if k in asm.cs and k not in bare}
            fresh = {k: v for k, v in fresh.items() if v}
            if fresh and attempt < 5:
                for k, v in fresh.items():
                    dropped.setdefault(k, set()).update(v)
                    partial.setdefault(k, "its proof text does not fit: " + next(e[2].split('\n')[0] for e in comp if e[0] == k))
                    log('left out of the proof text of', k + ':', ', '.join(f'{a} {b}.{i}' for a, b, i in sorted(v)))
                continue
            thin = {k for k in new if k in asm.cs and k not in bare and (asm.cs[k].at or asm.cs[k].loops) and not asm.fns[k]['loops']}
            for e in comp:
                if e[0] in thin: bare.setdefault(e[0], "outside the verifier's language: " + e[2].split('\n')[0])
            if thin:
                log('verified against the specification alone:', ', '.join(sorted(thin)))
                if not (new - thin): continue
                new -= thin
            for e in comp:
                if e[0] and e[0] not in thin:
                    undecided.setdefault(e[0], 'outside the verifier\'s language: ' + e[2].split('\n')[0])
            if new:
                broken |= new
                log('not accepted by the verifier, left to the bounded check:', ', '.join(sorted(new)))
                continue
            for k in keys: undecided.setdefault(k, 'the assembled crate does not compile: ' + comp[0][2][:500])
            return dict(failed={}, undecided=undecided, res=res)
        if res['rc'] == -9 or not res['vr']:
            for k in keys: undecided.setdefault(k, 'the verifier gave no result: ' + res['err'][-300:])
            return dict(failed={}, undecided=undecided, res=res)
        for k, kind, text, tags in res['errs']:
            if kind in ('fail', 'rlimit'):
                failed.setdefault(k or 'theory', []).append((kind, text, tags))
        # retry what failed, alone, with other solver seeds and a larger budget
        for k, v in res['untrue'].items(): untrue.setdefault(k, set()).update(v)
        for sd, rl in ((7, 40), (11, 60)):
            if not failed or time.time() > deadline - 30: break
            again = {k for k in failed if k in asm.cs}
            r2 = self.once(modules, again, broken, extra=['--rlimit', str(rl), '--smt-option', f'smt.random_seed={sd}'], timeout=min(300, deadline - time.time()), bare=bare if sd == 7 else set(bare) | {k for k in partial if not asm.fns[k]['loops']}, evident=again if sd == 7 else (),
                dropped=dropped if sd == 7 else {k: dropped.get(k, set()) | untrue.get(k, set()) for k in {*dropped, *untrue}})
            for k, v in r2['untrue'].items(): untrue.setdefault(k, set()).update(v)
            if not r2['vr'] or any(e[1] == 'compile' for e in r2['errs']): continue
            still = {}
            for k, kind, text, tags in r2['errs']:
                still.setdefault(k or 'theory', []).append((kind, text, tags))
            for k in list(failed):
                if k not in still:
                    log('discharged on a second attempt:', k)
                    del failed[k]
                elif k in still: failed[k] = still[k]
        for k, why in {**asm.relooped, **partial, **bare}.items():
            if k in failed:
                undecided[k] = why + '; the specification alone is not enough for the verifier'
                del failed[k]
        for k in list(failed):
            if asm.fns.get(k) and asm.fns[k].get('closures'):
                undecided[k] = 'the function passes a closure the verifier knows nothing about'
                del failed[k]
        for k in list(failed):
            # the theory does not depend on the code under check
            if k == 'theory' or all(e[0] == 'rlimit' for e in failed[k]):
                undecided[k] = 'solver resource limit'
                del failed[k]
        return dict(failed=failed, undecided=undecided, res=res)


def trusted_base(text, asm, verified):
    """mechanical scan of the assembled crate for everything assumed"""
    out = []
    lines = text.split('\n')
    reg = None
    # library contracts count where the code under check can reach them
    used = set(re.findall(r'(?:\.|::) ?(\w+) ?(?:\(|::)', '\n'.join(l for l in lines if 'assume_specification' not in l)))
    for i, l in enumerate(lines):
        if l.startswith('//@@ end'): reg = None
        elif l.startswith('//@@ '): reg = l[5:].strip()
        m = re.search(r'assume_specification.*?\[ (.*?) \]\(', l)
        if m:
            if re.findall(r'\w+', l[:m.end()])[-1] in used: out.append('library contract: ' + m.group(1).replace('  ', ' '))
            continue
        m = re.search(r'axiom fn (\w+)', l)
        if m: out.append('axiom: ' + m.group(1)); continue
        for m in re.finditer(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:fn (\w+)|struct (\w+))?', l):
            n = m.group(1) or (m.group(2) and 'type ' + m.group(2))
            if reg and reg in asm.cs:
                if reg not in verified: out.append(f'contract assumed here (verified by the check of its own property): {reg}')
                break
            if not n:
                m2 = re.search(r'(?:fn|struct) (\w+)', lines[i + 1] if i + 1 < len(lines) else '')
                n = m2.group(1) if m2 else '?'
            out.append('external: ' + n)
        if re.search(r'\b(assume|admit)\s*\(', l): out.append('assume: ' + l.strip()[:120])
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x); r.append(x)
    return r


def closure(asm, own):
    """functions under contract reachable from the property's own ones (by name, over-approximate)"""
    names = {}
    for k in asm.cs:
        f = asm.fns.get(k)
        if f: names.setdefault(f['name'], set()).add(k)
    seen, todo = set(own), list(own)
    while todo:
        f = asm.fns.get(todo.pop())
        if not f: continue
        for w in set(re.findall(r'\b[a-zA-Z_]\w*\b', f['body'])):
            for k in names.get(w, ()):
                if k not in seen and k.split('::')[0] in set(need_modules([f['module']])):
                    seen.add(k); todo.append(k)
    return seen


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d['property'] == prop and d['status'] == 'open': out.append(d)
    return out


def main():
    prop = sys.argv[1]
    work = os.path.join(BUILD, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', f'{prop}.replay')
    if os.path.exists(replay): os.remove(replay)
    thorough = TIER == 'thorough'
    deadline = T0 + (3000 if thorough else 700)
    proof_deadline = T0 + (1800 if thorough else 420)

    # the harness builds while the proof runs
    hb = {}
    import threading
    def harness():
        exe, err = build_harness()
        if exe: exe = shutil.copy(exe, os.path.join(work, 'vh'))
        return exe, err
    th = threading.Thread(target=lambda: hb.update(zip(('exe', 'err'), locked('harness', harness))))
    th.start()
    ex, exerr = locked('extract', build_extractor)
    cs, raws = assemble.parse_contracts(sorted(glob.glob(os.path.join(HERE, 'contracts', '*.vc'))))
    own = {k for k, c in cs.items() if prop in c.props}
    failed, undecided, res, verified, ver = {}, {}, None, set(), None
    keysf = os.path.join(work, 'keys.json')
    json.dump(sorted(cs), open(keysf, 'w'))
    units = None
    if ex is None:
        undecided = {k: 'the extractor does not build: ' + exerr[-300:] for k in own}
    elif own:
        args, exp = [ex, REPO, keysf], None
        if any(k.split('::')[0] in ('derive', 'uses') for k in own):
            exp, experr = locked('derive', lambda: build_expansion(work))
            if exp: args.append(exp)
            else: log('the sample structs are not expanded:', experr[-300:])
        rc, out, err = run(args, 60)
        if rc != 0:
            undecided = {k: 'the source is not extracted: ' + err[-300:] for k in own}
        else:
            units = json.loads(out)
            ver = Verifier(units, work)
            modules = ['hex', 'hash', 'b58', 'c32', 'clarity', 'transaction', 'wallet', 'rpc', 'derive', 'uses']
            have = {k.split('::')[0].lstrip('<') for k in cs}
            keys = closure(ver.asm, own)
            need = {k.split('::')[0] for k in keys}
            modules = need_modules(need)
            r = ver.verify(modules, keys, proof_deadline)
            failed, undecided, res = r['failed'], r['undecided'], r['res']
            verified = {k for k in keys if k not in failed and k not in undecided and not cs[k].trusted}
            log(f"proof: {len(own)} own functions, {len(keys)} with dependencies, {len(failed)} failed, {len(undecided)} undecided, {ver.time:.0f} s")
    th.join()
    exe = hb.get('exe')
    srch = None
    fail = None
    # theory failures and raw lemmas count as the property's own when it is listed there
    def mine(k):
        if k in own: return True
        if k == 'theory': return True
        if k.startswith('raw:'): return prop in k.split(':')[2].split(',')
        return False
    own_failed = {k: v for k, v in failed.items() if mine(k) and any(e[2] is None or prop in e[2] for e in v)}
    for k, v in failed.items():
        log('OBLIGATION FAILED' + ('' if k in own_failed else ' (of another property)' if mine(k) else ' (in a dependency)') + f' in {k}:', v[0][1].split('\n')[0])
    for k, v in undecided.items():
        if k in own: log(f'undecided: {k}: {v[:200]}')
    if exe:
        srch = Search(prop, exe, work)
        ok = not failed and not undecided
        secs = 300 if thorough else (20 if ok else 45)
        fail = srch.run(secs)
        if not fail and own_failed:
            fail = srch.run(max(20, min(600 if thorough else 150, deadline - time.time() - 70)))
        log(f'search: {srch.cases} cases, {srch.wall:.0f} s' + (', FAILING CASE FOUND' if fail else ''))
    else:
        log('the harness does not build against this tree:', hb.get('err', '')[-600:])

    kf = []
    if exe:
        for d in known_findings(prop):
            rc, out, err = run([exe] + d['reproduce'], 60)
            if rc not in (0,):
                kf.append(d); print(f"KNOWN-FINDING: property={prop} {d['what']}")
            else:
                log('known finding no longer fails:', d['what'])

    nobl = (res or {}).get('vr', {}).get('verified', 0) if res else 0
    nerr = len(failed)
    violations = 1 if (fail or own_failed) else 0
    own_ok = sorted(k for k in own if k in verified)
    complete = bool(own) and not failed and not undecided and nobl > 0
    asm = ver.asm if ver else None
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof' if own else 'exploration', violations=violations, wall_s=round(time.time() - T0, 1))
    tb = trusted_base(res['text'], asm, verified) if res and res.get('text') else []
    cov = dict(obligations=nobl + nerr + len([k for k in undecided if k in own]), discharged=nobl,
               checker_cmd=(ver.cmd.replace(HERE, '/verif') if ver and ver.n else ''), trusted_base=tb,
               backend='Verus 0.2026.09.13 (Z3)', solver_ms=ver.solver_ms if ver else 0, verifier_wall_s=round(ver.time, 1) if ver else 0,
               functions_under_contract=own_ok,
               dependencies_verified=sorted(k for k in verified if k not in own),
               failed_obligations={k: v[0][1][:600] for k, v in failed.items()},
               undecided={k: v[:300] for k, v in undecided.items()},
               proof_complete=complete,
               extraction=dict(functions=len(units['fns']) if units else 0,
                               lowerings=sorted({l for f in (units['fns'] if units else []) if f['key'] in verified for l in f['lowerings']}),
                               inlined=sorted({l for f in (units['fns'] if units else []) if f['key'] in verified for l in f['inlined']})),
               bounded_search=dict(cases=srch.cases if srch else 0, seconds=round(srch.wall, 1) if srch else 0, processes=NCPU,
                                   role='replay of failed obligations, and bounded stand-in for the undecided functions; not counted as proof'),
               known_findings=[d['what'] for d in kf])
    if not own:
        cov.update(evaluations=srch.cases if srch else 0, distinct_nontrivial=srch.cases if srch else 0, rule='generated cases compared with a reference implementation', samples=[])
    ev['coverage'] = cov
    ev['assumptions'] = ASSUMPTIONS
    ev['wall_s'] = round(time.time() - T0, 1)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)

    if fail or own_failed:
        with open(replay, 'w') as o:
            o.write(f'property {prop}\n')
            if fail:
                o.write(f'failing input on the real code (rerun in {HERE}: {srch.replay_cmd()})\n{fail[1]}\n')
                shutil.copy(srch.dict, os.path.join(HERE, 'evidence', f'{prop}.dict'))
            for k, v in failed.items():
                for kind, t, tags in v:
                    o.write(f'\nfailed obligation in {k}:\n{t}\n')
        if fail: print(fail[1][:1500])
        rel = os.path.relpath(replay, HERE)
        print(f'VIOLATION property={prop} replay={rel}' + ('' if fail else ' no-failing-input-found'), flush=True)
        return 1
    if not exe and not complete:
        log('neither the proof nor the bounded check gives an answer')
        return 2
    if own and complete: log(f'{prop}: every obligation discharged ({nobl})')
    else: log(f'{prop}: held on everything explored; undecided functions covered by the bounded check only')
    return 0


def need_modules(need):
    order = ['hex', 'hash', 'b58', 'c32', 'cv', 'clarity', 'transaction', 'wallet', 'rpc', 'derive', 'uses']
    deps = {'hex': [], 'hash': ['hex'], 'b58': ['hash'], 'c32': ['hash', 'hex'], 'cv': ['hash', 'c32'], 'clarity': ['hash', 'c32', 'hex', 'cv'], 'transaction': ['hash', 'c32', 'hex', 'clarity'], 'wallet': ['hash', 'c32', 'hex', 'transaction', 'clarity'], 'rpc': ['hash', 'c32', 'hex', 'transaction', 'clarity'], 'derive': ['hash', 'c32', 'hex', 'clarity'], 'uses': ['hash', 'c32', 'hex', 'transaction', 'clarity']}
    s = set()
    def add(m):
        if m in s: return
        s.add(m)
        for d in deps[m]: add(d)
    for m in need: add(m)
    return [m for m in order if m in s]


ASSUMPTIONS = [
    'the extraction keeps the meaning of the code (lowering rules listed in DESIGN.md and applied mechanically on every run)',
    'the contracts of external crates and library functions in trusted_base hold; cryptographic functions are uninterpreted',
    'usize is 64 bits; allocation succeeds',
    'Verus and Z3 are correct',
]

if __name__ == '__main__':
    sys.exit(main())
