"""What every check needs: building the harness against /repo's working tree,
running it under limits, running TLC, judging traces, writing evidence."""
import concurrent.futures, json, os, random, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
HOST = 'x86_64-unknown-linux-gnu'


class ToolError(Exception):
    pass


def toolchain_env():
    """The environment /opt/vp/env.sh sets up for building /repo."""
    env = dict(os.environ)
    if os.path.exists('/opt/vp/env.sh'):
        out = subprocess.run(['bash', '-c', 'cd /repo; . /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                env[k.decode('utf8', 'replace')] = v.decode('utf8', 'replace')
    env['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'PWD', 'OLDPWD'):
        env.pop(k, None)
    return env


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rnd = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.work = os.path.join(VERIF, 'work', pid)
        self.evdir = os.path.join(VERIF, 'evidence')
        self.replays = os.path.join(self.evdir, 'replay-' + pid)
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(self.evdir, exist_ok=True)
        self.env = toolchain_env()
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.samples = []
        self.runs = []
        self.canaries = [0, 0]
        self.assumptions = []
        self.level = 'model_checking'
        self.extra = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        known = os.path.join(VERIF, 'known_findings.txt')
        self.known = []
        if os.path.exists(known):
            for l in open(known):
                l = l.strip()
                if l.startswith('finding: property=' + pid + ' '):
                    self.known.append(l.split(' ', 2)[2])
        self.known_seen = set()

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ violations
    def violation(self, what, detail):
        """detail: a dict that lets a reader replay the failure."""
        for k in self.known:
            if k in json.dumps(detail, ensure_ascii=False) or k == what:
                if k not in self.known_seen:
                    self.known_seen.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k), flush=True)
                return
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, '%d.json' % (len(self.violations) + 1))
        d = {'property': self.pid, 'what': what}
        d.update(detail)
        with open(p, 'w') as f:
            json.dump(d, f, indent=1, ensure_ascii=False)
        self.violations.append((what, p))
        if len(self.violations) <= 20:
            self.log('violation:', what, '->', p)

    # ----------------------------------------------------------------- build
    def build(self, bins, target='target', features=None, asan=False, nightly=False, release=False, fatal=True):
        """Build harness binaries; returns the directory they are in."""
        tdir = os.path.join(VERIF, target)
        env = dict(self.env)
        env['CARGO_TARGET_DIR'] = tdir
        env['RUSTFLAGS'] = '-Awarnings'
        cmd = ['cargo', '+nightly'] if (asan or nightly) else ['cargo']
        cmd += ['build', '--offline', '--quiet']
        sub = 'debug'
        if features is not None:
            cmd += ['--no-default-features'] + (['--features', features] if features else [])
        if release:
            cmd += ['--release']
            sub = 'release'
        if asan:
            env['RUSTFLAGS'] = '-Awarnings -Zsanitizer=address'
            cmd += ['--target', HOST]
            sub = os.path.join(HOST, sub)
        for b in bins:
            cmd += ['--bin', b]
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        log = r.stdout.decode('utf8', 'replace')
        if r.returncode != 0:
            # does the crate under test still build by itself?
            env2 = dict(self.env)
            env2['CARGO_TARGET_DIR'] = tdir
            lib = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', REPO + '/Cargo.toml']
            if features is not None and 'std' not in features:
                lib += ['--no-default-features']
            r2 = subprocess.run(lib, cwd=VERIF, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r2.returncode == 0 and re.search(r'^error', log, re.M):
                if not fatal:
                    return None, log
                self.violation('a program that uses the documented interface no longer compiles', {'bins': bins, 'log': log[-6000:], 'replay_cmd': ' '.join(cmd)})
                raise Stop()
            raise ToolError('building %s failed:\n%s\n%s' % (bins, log[-3000:], r2.stdout.decode('utf8', 'replace')[-2000:]))
        d = os.path.join(tdir, sub)
        return d if fatal else (d, log)

    # ---------------------------------------------------------------- record
    def run(self, cmd, out, timeout=300, mem_gb=12, env=None, describe=None, stack_kb=None):
        """Run a recorder that writes `out`.  A crash or hang of the code under
        test is a violation; returns False then."""
        def limits():
            if mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if stack_kb:
                resource.setrlimit(resource.RLIMIT_STACK, (stack_kb << 10, stack_kb << 10))
        e = dict(self.env)
        e['RUST_BACKTRACE'] = '0'
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=limits, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            rc = 'timeout'
        so, se = so.decode('utf8', 'replace'), se.decode('utf8', 'replace')
        if rc == 0:
            self.log('recorded', ' '.join(os.path.basename(c) if '/' in c else c for c in cmd[:8]), '|', so.strip().replace('\n', ' ; ')[:200])
            return so
        cur = []
        for k in range(64):
            f = '%s.cur%d' % (out, k)
            if os.path.exists(f):
                b = open(f, 'rb').read()
                if len(b) >= 8:
                    n = int.from_bytes(b[:8], 'little')
                    cur.append(b[8:8 + n][:100000])
        if rc == 97 or rc == 'timeout':
            slot = None
            if os.path.exists(out + '.hang'):
                slot = int(open(out + '.hang').read())
            which = cur[slot] if slot is not None and slot < len(cur) else (cur[0] if cur else b'')
            self.violation('the call does not return', {'input': which.decode('utf8', 'replace'), 'input_bytes': list(which[:2000]), 'cmd': cmd})
        elif rc == 96:
            raise ToolError('recorder refused: ' + se[-2000:])
        elif isinstance(rc, int) and (rc < 0 or rc >= 128 or 'AddressSanitizer' in se or 'overflowed its stack' in se or 'memory allocation' in se):
            self.violation('the process died (%s)' % rc, {'inputs_in_progress': [c.decode('utf8', 'replace')[:4000] for c in cur[:8]], 'stderr': se[-4000:], 'cmd': cmd})
        else:
            raise ToolError('recorder failed with %s: %s\n%s' % (rc, ' '.join(cmd), se[-3000:]))
        return False

    # ------------------------------------------------------------------- TLC
    def tlc_once(self, module, cfg, env, workers, heap, timeout, go_on=True):
        md = os.path.join(self.work, 'tlc-%d-%d' % (os.getpid(), random.getrandbits(40)))
        os.makedirs(md)
        cmd = ['java', '-Xss64m', '-Xmx%dm' % heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(1, min(4, workers)),
               '-cp', JAR, 'tlc2.TLC', '-metadir', md, '-workers', str(workers)] + (['-continue'] if go_on else []) + ['-config', cfg, module + '.tla']
        e = dict(os.environ)
        e.update(env)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s %s' % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout.decode('utf8', 'replace')
        res = {'out': out, 'rc': r.returncode}
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            res['gen'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        res['depth'] = int(m.group(1)) if m else None
        res['bad'] = sorted(set(int(x) for x in re.findall(r'<<"BAD", (\d+)', out)))
        res['violated'] = sorted(set(re.findall(r'Invariant (\w+) is violated', out) + re.findall(r'(?:Action|Temporal) propert(?:y|ies) (\w*)', out)))
        res['inits'] = 0
        m = re.search(r'Finished computing initial states: (\d+) distinct', out)
        if m:
            res['inits'] = int(m.group(1))
        res['complete'] = 'Model checking completed' in out
        err = [l for l in out.split('\n') if l.startswith('Error:')]
        res['errors'] = [l for l in err if 'is violated' not in l and 'behavior up to' not in l and 'The error trace' not in l and 'behavior up to this point' not in l]
        if 'OutOfMemoryError' in out or 'Java heap space' in out:
            raise ToolError('TLC ran out of memory on %s' % module)
        return res

    def tlc(self, module, cfg=None, env=None, workers=8, heap=8000, timeout=800, count=True, go_on=False):
        cfg = cfg or module + '.cfg'
        t = time.time()
        r = self.tlc_once(module, cfg, env or {}, workers, heap, timeout, go_on)
        if count and 'distinct' in r:
            self.states += r['distinct']
            self.transitions += max(0, r['gen'] - r['inits'])
        r['wall'] = round(time.time() - t, 1)
        return r

    def model(self, name, module, cfg=None, env=None, workers=8, heap=8000, timeout=800, describe=''):
        """Bounded exploration of the specification.  Its invariants must hold;
        those that compare with recorded behaviour are named Conforms*."""
        r = self.tlc(module, cfg, env, workers, heap, timeout)
        self.log('model', name, r.get('distinct'), 'states', r.get('gen'), 'generated, depth', r.get('depth'), '%ss' % r['wall'])
        self.runs.append({'model': name, 'module': module, 'distinct_states': r.get('distinct'), 'generated': r.get('gen'), 'depth': r.get('depth'), 'what': describe})
        bad = [v for v in r['violated']]
        conf = [v for v in bad if v.startswith('Conforms')]
        if conf:
            i = r['out'].find('is violated')
            self.violation('the implementation refuses a behaviour the specification allows (%s)' % ', '.join(conf), {'model': name, 'tlc': r['out'][i - 200:i + 6000], 'env': env})
            return r
        if [v for v in bad if not v.startswith('Conforms')]:
            i = r['out'].find('is violated')
            raise ToolError('the specification violates its own invariants %s\n%s' % (bad, r['out'][max(0, i - 200):i + 3000]))
        if r['errors'] or not r['complete']:
            raise ToolError('TLC failed on %s: %s\n%s' % (module, r['errors'][:3], r['out'][-3000:]))
        return r

    def behaviours(self, name, module, cfg, env, tag, simulate=None, timeout=600, describe=''):
        """Let TLC print complete behaviours (lines "<<tag, ...>>" as strings
        of numbers): all of them, or `simulate` random ones."""
        md = os.path.join(self.work, 'tlc-b-%d' % random.getrandbits(40))
        os.makedirs(md)
        cmd = ['java', '-Xss64m', '-Xmx6g', '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-metadir', md, '-workers', '1' if simulate else '8']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', '4000', '-seed', str(self.seed)]
        cmd += ['-config', cfg, module + '.tla']
        e = dict(os.environ)
        e.update(env)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout.decode('utf8', 'replace')
        if 'is violated' in out or 'Error:' in out:
            raise ToolError('TLC failed on %s:\n%s' % (module, out[-3000:]))
        got, seen = [], set()
        for l in out.split('\n'):
            if l.startswith('"<<') and tag in l and l not in seen:
                seen.add(l)
                got.append([int(x) for x in re.findall(r'-?\d+', l)])
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out) or [(x, x) for x in re.findall(r'The number of states generated: (\d+)', out)]
        if m:
            self.states += int(m[-1][1])
            self.transitions += int(m[-1][0])
        self.log('behaviours', name, len(got))
        self.runs.append({'behaviours_generated': name, 'module': module, 'count': len(got), 'simulated': bool(simulate), 'what': describe})
        if not got:
            raise ToolError('TLC printed no behaviour of ' + module)
        return got

    def validate(self, name, module, cfg, trace, env=None, canary=None, show=None, shard_bytes=1500000, max_shards=8, timeout=800, describe=''):
        """Validate every recorded trace of a file against the specification.
        canary(record) -> corrupted record or None: some corrupted copies ride
        along and must be rejected."""
        lines = open(trace, encoding='utf8').read().split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        if not lines:
            raise ToolError('no traces recorded for ' + name)
        n = len(lines)
        can = []
        if canary:
            idx = list(range(n))
            self.rnd.shuffle(idx)
            for k in idx[:400]:
                if len(lines[k]) > 20000:
                    continue
                c = canary(json.loads(lines[k]), len(can))
                if c is not None:
                    can.append(json.dumps(c, separators=(',', ':'), ensure_ascii=False))
                if len(can) >= 8:
                    break
        items = [(k, l) for k, l in enumerate(lines)] + [(-1 - k, l) for k, l in enumerate(can)]
        size = sum(len(l) for l in lines)
        shards = max(1, min(max_shards, size // shard_bytes + 1, len(items)))
        parts = [items[k::shards] for k in range(shards)]
        # balance by size: longest first round robin would reorder; strides are fine
        workers = max(1, 8 // shards)
        jobs = []
        for k, part in enumerate(parts):
            p = '%s.shard%d' % (trace, k)
            with open(p, 'w', encoding='utf8') as f:
                f.write('\n'.join(l for _, l in part) + '\n')
            e = dict(env or {})
            e['TRACE'] = p
            jobs.append(self.pool.submit(self.tlc_once, module, cfg, e, workers if shards > 1 else 8, max(2500, 20000 // shards), timeout))
        t = time.time()
        badrec, canbad = [], set()
        gen = distinct = 0
        for part, j in zip(parts, jobs):
            r = j.result()
            bad = set(r['bad'])
            if r['errors'] or not r['complete']:
                # an evaluation error: the specification has no account of a trace at all
                if re.search(r'Error: (Evaluating|The |Attempted|In |TLC threw|Applying|A non|First argument)', r['out']) and 'StackOverflow' not in r['out']:
                    m = re.findall(r'\bi = (\d+)', r['out'])
                    if m:
                        bad.add(int(m[-1]))
                    else:
                        bad.update(self.bisect(module, cfg, env, part, timeout))
                else:
                    raise ToolError('TLC failed on %s: %s\n%s' % (module, r['errors'][:3], r['out'][-3000:]))
            gen += r.get('gen', 0)
            distinct += r.get('distinct', 0)
            for b in sorted(bad):
                k = part[b - 1][0]
                if k < 0:
                    canbad.add(k)
                else:
                    badrec.append(k)
        self.states += distinct
        self.transitions += gen
        self.traces += n
        self.canaries[0] += len(can)
        self.canaries[1] += len(canbad)
        self.log('validated', name, n, 'traces', '%.1f MB' % (size / 1e6), shards, 'shards', '%.1fs' % (time.time() - t), 'bad', len(badrec), 'canaries %d/%d' % (len(canbad), len(can)))
        self.runs.append({'traces': name, 'module': module, 'cfg': cfg, 'validated': n, 'rejected': len(badrec), 'corrupted_copies': len(can), 'corrupted_rejected': len(canbad), 'what': describe})
        for k in self.rnd.sample(range(n), min(3, n)):
            rec = lines[k]
            if len(rec) < 3000 and len(self.samples) < 12:
                self.samples.append({'trace': name, 'record': show(json.loads(rec)) if show else json.loads(rec)})
        for k in sorted(badrec)[:20]:
            rec = json.loads(lines[k])
            d = {'trace': name, 'spec': module + ' ' + cfg, 'record': rec if len(lines[k]) < 200000 else '(long)'}
            if show:
                d['shown'] = show(rec)
            self.violation('a recorded trace is no behaviour of the specification', d)
        if len(can) > len(canbad) and not badrec:
            missed = [can[-1 - k] for k in range(-len(can), 0) if k not in canbad]
            raise ToolError('a corrupted trace was accepted: %s' % missed[0][:1500])
        return n

    def bisect(self, module, cfg, env, part, timeout):
        """Indices (1-based, in part) of traces TLC cannot evaluate."""
        lo, hi = 0, len(part)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            p = self.path('bisect.ndjson')
            with open(p, 'w', encoding='utf8') as f:
                f.write('\n'.join(l for _, l in part[lo:mid]) + '\n')
            e = dict(env or {})
            e['TRACE'] = p
            r = self.tlc_once(module, cfg, e, 4, 4000, timeout)
            if r['errors'] or not r['complete'] or r['bad']:
                hi = mid
            else:
                lo = mid
        return [lo + 1]

    # -------------------------------------------------------------- evidence
    def finish(self):
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples[:12],
            'runs': self.runs,
            'corrupted_traces_offered': self.canaries[0],
            'corrupted_traces_rejected': self.canaries[1],
        }
        if self.executions:
            cov['evaluations'] = self.executions
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        shutil.rmtree(self.work, ignore_errors=True)


class Stop(Exception):
    pass


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print('usage: check.py PROPERTY')
        sys.exit(2)
    pid = sys.argv[1]
    c = Check(pid)
    code = 0
    try:
        try:
            table[pid](c)
        except Stop:
            pass
        c.finish()
    except ToolError as e:
        print('ERROR', pid, e, flush=True)
        if not c.violations:
            sys.exit(2)
        c.finish()
    if c.violations:
        print('VIOLATION property=%s replay=%s' % (pid, c.violations[0][1]), flush=True)
        code = 1
    else:
        print('OK property=%s states=%d traces=%d canaries=%d/%d wall=%.1fs' % (pid, c.states, c.traces, c.canaries[1], c.canaries[0], time.time() - c.t0))
    sys.stdout.flush()
    os._exit(code)
