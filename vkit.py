"""Machinery shared by all checks: builds the conformance drivers against /repo,
runs TLC on the specifications and on recorded traces, reports, writes evidence."""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUDGET = 600  # seconds of a thorough run, about
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOENV = {'GOTOOLCHAIN': 'local', 'GOFLAGS': '-mod=mod', 'GOPROXY': 'off', 'GOWORK': 'off',
         'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build'}
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not decide: neither held nor broken."""


def env(extra=None):
    e = dict(os.environ)
    e.update(GOENV)
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rounds = []
        out = os.path.join(VERIF, 'out')
        os.makedirs(out, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='%s-' % pid, dir=out)
        self.keep = os.path.join(out, 'replay')
        os.makedirs(self.keep, exist_ok=True)
        self.states = self.trans = self.traces = self.events = 0
        self.models, self.samples, self.kinds = [], [], collections.Counter()
        self.violations, self.known = [], []
        self.notes = []
        self.bins = {}
        self.known_list = load_known(pid)

    # ---------------------------------------------------------------- build
    def build(self, race=False):
        key = 'drv-race' if race else 'drv'
        if key not in self.bins:
            dst = os.path.join(self.dir, key)
            cmd = ['go', 'build', '-o', dst] + (['-race'] if race else []) + ['.']
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=env(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0:
                raise CheckError('driver does not build:\n' + p.stdout)
            self.bins[key] = dst
        return self.bins[key]

    def build_cli(self):
        if 'cli' not in self.bins:
            dst = os.path.join(self.dir, 'recast-cli')
            p = subprocess.run(['go', 'build', '-o', dst, './cmd/recast'], cwd=REPO, env=env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode != 0:
                raise CheckError('command line tool does not build:\n' + p.stdout)
            self.bins['cli'] = dst
        return self.bins['cli']

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, extra=(), envx=None, timeout=700, heap='3g', spec=None):
        md = tempfile.mkdtemp(prefix='md-', dir=self.dir)
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        cmd = ['java', gc, '-Djava.io.tmpdir=' + md, '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-metadir', md, '-workers', str(workers),
               '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=spec or SPEC, env=env(envx), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout

    def cfg(self, base, consts=None, drop=(), add=''):
        """A copy of a configuration with constants replaced."""
        s = open(os.path.join(SPEC, base)).read()
        for k, v in (consts or {}).items():
            s, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % re.escape(k), lambda m: m.group(1) + str(v), s)
            if n != 1:
                raise CheckError('no constant %s in %s' % (k, base))
        for d in drop:
            s = re.sub(r'(?m)^\s*%s\b.*$' % re.escape(d), '', s)
        fd, fn = tempfile.mkstemp(suffix='.cfg', dir=self.dir)
        with os.fdopen(fd, 'w') as f:
            f.write(s + '\n' + add)
        return fn

    def model_check(self, module, cfg, consts=None, workers=NCPU, timeout=700, extra=(), add=''):
        """Check a design model; it does not depend on the code, so a failure is an error of the check."""
        rc, out = self.tlc(module, self.cfg(cfg, consts, add=add), workers=workers, timeout=timeout, heap='8g', extra=extra)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or 'No error has been found' not in out or not m:
            raise CheckError('model %s/%s does not hold:\n%s' % (module, cfg, out[-3000:]))
        self.trans += int(m.group(1))
        self.states += int(m.group(2))
        self.models.append({'model': module, 'config': cfg, 'constants': {k: str(v) for k, v in (consts or {}).items()},
                            'states': int(m.group(2)), 'transitions': int(m.group(1))})
        return out

    def schedules(self, module, cfg, name, consts=None, tag='EDGE', limit=None, workers=1, extra=(), add='', stride=None, mustcheck=True):
        """Operation sequences printed by a model, as a file with one JSON list per line."""
        rc, out = self.tlc(module, self.cfg(cfg, consts, add=add), workers=workers, heap='8g', extra=extra)
        if mustcheck and (rc != 0 or 'No error has been found' not in out):
            raise CheckError('generation from %s failed:\n%s' % (module, out[-3000:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.trans += int(m.group(1))
            self.states += int(m.group(2))
        seen, lines = set(), []
        # long values are printed over several lines
        for m in re.finditer(r'"%s (.*?)"\n' % tag, out, re.S):
            j = tla2json(m.group(1))
            if j not in seen:
                seen.add(j)
                lines.append(j)
        total = len(lines)
        if not lines:
            raise CheckError('no schedules from %s:\n%s' % (module, out[-2000:]))
        if limit and total > limit:
            import random
            rnd = random.Random(self.seed)
            lines = rnd.sample(lines, limit)
        fn = os.path.join(self.dir, name + '.sched')
        with open(fn, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        self.models.append({'model': module, 'config': cfg, 'schedules': total, 'schedules_replayed': len(lines)})
        return fn

    # --------------------------------------------------------------- driver
    def drive(self, cmd, n, shard, shards, sched=None, race=False, opt=None, timeout=600, seed=None):
        bin_ = self.build(race)
        out = os.path.join(self.dir, '%s-%s-%d.ndjson' % (cmd, opt or '', shard))
        scratch = tempfile.mkdtemp(prefix='scr-', dir=self.dir)
        args = [bin_, cmd, '-out', out, '-seed', str(self.seed if seed is None else seed), '-n', str(n),
                '-shard', str(shard), '-shards', str(shards), '-tier', self.tier, '-dir', scratch]
        if sched:
            args += ['-sched', sched]
        if opt:
            args += ['-opt', opt]
        ex = {'CLI': self.bins['cli']} if 'cli' in self.bins else {}
        for attempt in (1, 2):
            try:
                p = subprocess.run(args, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=timeout, errors='replace', cwd=scratch)
            except subprocess.TimeoutExpired:
                raise CheckError('driver %s timed out' % cmd)
            if p.returncode == 0:
                shutil.rmtree(scratch, ignore_errors=True)
                return out
            last = p
        shutil.rmtree(scratch, ignore_errors=True)
        o = last.stdout
        if last.returncode == 3 or 'go-detour/' not in o:
            raise CheckError('driver %s failed (%d):\n%s' % (cmd, last.returncode, o[-3000:]))
        # the code under test ended the process, twice in the same run
        rp = self.save('crash', json.dumps({'args': args, 'output': o[-20000:]}))
        self.violations.append((rp, 'the driver was ended by the code under test: ' + first_line(o)))
        return None

    def save(self, what, text):
        i = 0
        while True:
            fn = os.path.join(self.keep, '%s-%s-%s-%d.json' % (self.pid, what, self.seed, i))
            if not os.path.exists(fn):
                break
            i += 1
        with open(fn, 'w') as f:
            f.write(text)
        return fn

    # ----------------------------------------------------------- validation
    def validate(self, trace, spec, aspect='all', consts=None, cfg='trace.cfg', timeout=800, heap='3g'):
        c = self.cfg(cfg, consts) if consts else os.path.join(SPEC, cfg)
        rc, out = self.tlc(spec, c, workers=1, envx={'TRACE': trace, 'ASPECT': aspect}, timeout=timeout, heap=heap)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        if not m or m.group(1) != m.group(2) or 'No error has been found' not in out:
            raise CheckError('trace validation against %s failed to run (%s):\n%s' % (spec, trace, out[-3500:]))
        st = re.search(r'(\d+) states generated, (\d+) distinct', out)
        rej = []
        why = []
        for m in re.finditer(r'^<<\s*"(WHY|REJECT)",\s*(.*?)\s*>>\n(?=<<|[A-Z]|\n|$)', out, re.S | re.M):
            if m.group(1) == 'WHY':
                why.append(re.sub(r'\s+', ' ', m.group(2))[:600])
            else:
                r = re.match(r'(\d+),\s*"(.*)"$', m.group(2))
                rej.append((int(r.group(1)), r.group(2), why[-3:]))
                why = []
        if len(rej) != len(re.findall(r'"REJECT"', out)):
            raise CheckError('cannot read the verdicts of TLC:\n' + out[-3000:])
        return int(st.group(1)), int(st.group(2)), rej

    def conform(self, cmd, spec, n, sched=None, seed=None, **kw):
        """Drive the code and validate what it did.  Thorough runs go in rounds of
        other seeds, or other parts of the schedules, as many as there is time for."""
        if self.tier != 'thorough':
            return self.conform1(cmd, spec, n, sched=sched, seed=seed, **kw)
        t0, rounds = time.time(), 16
        budget = max(60, (BUDGET - (t0 - self.t0)) / 2)
        parts = []
        if sched:
            lines = open(sched).read().splitlines()
            for i in range(rounds):
                part = lines[i::rounds]
                if part:
                    parts.append('%s.%d' % (sched, i))
                    open(parts[-1], 'w').write('\n'.join(part) + '\n')
            jobs = [dict(n=n, sched=f, seed=seed) for f in parts]
        else:
            base = self.seed if seed is None else seed
            k = -(-n // rounds)
            jobs = [dict(n=min(k, n - i), seed=base + 1000003 * (i // k)) for i in range(0, n, k)]
        done = last = 0
        for j in jobs:
            if done and time.time() - t0 + last > budget:
                break
            t = time.time()
            self.conform1(cmd, spec, **j, **kw)
            last = time.time() - t
            done += 1
        self.rounds.append('%s%s: %d of %d rounds' % (cmd, ' ' + kw['opt'] if kw.get('opt') else '', done, len(jobs)))

    def conform1(self, cmd, spec, n, aspect='all', shards=NCPU, sched=None, race=False, opt=None, consts=None,
                 seed=None, heap='3g', keep_samples=2, cfg='trace.cfg'):
        self.build(race)

        def one(i):
            tr = self.drive(cmd, n, i, shards, sched=sched, race=race, opt=opt, seed=seed)
            if tr is None:
                return None
            return tr, self.validate(tr, spec, aspect, consts, heap=heap, cfg=cfg)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(shards)))
        for i, r in enumerate(res):
            if r is None:
                continue
            tr, (gen, dist, rej) = r
            lines = open(tr).read().splitlines()
            if not lines:
                raise CheckError('empty trace from %s' % cmd)
            self.trans += gen
            self.states += dist
            begins = [k for k, s in enumerate(lines) if '"ev":"Begin"' in s]
            self.traces += len(begins)
            self.events += len(lines)
            for s in lines:
                m = re.search(r'"ev":"(\w+)"', s)
                self.kinds[cmd + ':' + m.group(1)] += 1
            if i == 0 and begins:
                for k in begins[:keep_samples]:
                    self.samples.append({'driver': cmd, 'spec': spec, 'events': [clipj(s) for s in lines[k:k + 3]]})
            for (ln, ev, why) in rej:
                b = max([k for k in begins if k <= ln - 1] or [0])
                evt = json.loads(lines[ln - 1])
                kf = self.is_known(spec, json.loads(lines[b]), evt)
                what = '%s: event %s not allowed by %s%s' % (cmd, ev, spec, (': ' + '; '.join(why)) if why else '')
                if ev in ('Panic', 'Hang'):
                    what = '%s: %s in %s %s' % (cmd, ev, evt.get('op'), evt.get('msg', ''))
                if kf:
                    self.known.append(kf)
                    continue
                if len(self.violations) >= 12:
                    self.violations.append((self.violations[0][0], what))
                    continue
                rp = self.save(cmd, json.dumps({'property': self.pid, 'what': what, 'why': why,
                               'spec': spec, 'driver': cmd, 'seed': self.seed if seed is None else seed, 'shard': i, 'shards': shards, 'n': n, 'opt': opt,
                               'trace': [json.loads(s) for s in lines[b:ln]][-400:]}))
                self.violations.append((rp, what))
            os.unlink(tr)

    def is_known(self, spec, begin, evt):
        case = evt.get('case') or begin.get('case')
        for k in self.known_list:
            if k['kind'] == 'known' and case is not None and k.get('case') == case:
                return k
        return None

    # ------------------------------------------------------------ reporting
    def finish(self, level='model_checking', assumptions=()):
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'event_kinds': dict(self.kinds), 'models': self.models,
               'samples': self.samples[:8] or [{'note': 'none'}]}
        if self.rounds:
            cov['rounds'] = self.rounds
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        done = set()
        for k in self.known:
            if k['text'] not in done:
                done.add(k['text'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        for rp, what in self.violations[:12]:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  ' + what)
        if not self.violations:
            print('%s held: %d traces, %d events, %d states, %.1fs' % (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return 1 if self.violations else 0


def clipj(s):
    return json.loads(s) if len(s) < 1500 else s[:1500] + '...'


def first_line(o):
    for ln in o.splitlines():
        if ln.startswith(('panic', 'fatal', 'SIG', 'WARNING: DATA RACE')):
            return ln[:200]
    return o[:200].replace('\n', ' ')


def tla2json(s):
    s = s.replace('\\"', '"').replace('\n', ' ').replace('<<', '[').replace('>>', ']')
    s = s.replace('TRUE', 'true').replace('FALSE', 'false')
    return json.dumps(json.loads(s), separators=(',', ':'))


def load_known(pid):
    """known-findings.txt: 'known: property=ID case=NAME text' and 'fixed: property=ID COMMIT text' lines."""
    fn = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)$', ln)
            if m and m.group(1) == pid:
                res.append({'kind': 'known', 'case': m.group(2), 'text': m.group(3).strip()})
    return res
