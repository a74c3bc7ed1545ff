#!/usr/bin/env python3
"""Decide one property:  run.py ID

Builds the recording harness against /repo's working tree, records what the
real code does (in several processes), has TLC judge the records against the
specification in spec/, replays anything rejected on the real code, and also
model-checks the part of the specification that belongs to the property.
Exit 0: held.  1: VIOLATION.  Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = 8
# Kinds of records that involve waiting, and are only believed if they recur.
TIMED = {'total', 'leak', 'cli', 'clifail', 'clidir', 'cliconf', 'cliflags'}

sys.path.insert(0, HERE)


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


class Run:
    def __init__(self, pid, tier, seed, deadline):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        os.chmod(self.work, 0o755)  # cljfmt is run as another user
        self.states = self.transitions = self.validated = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.violations, self.known = [], []
        self.bins = {}
        self.lock = threading.Lock()
        self.notes = []
        f = os.path.join(HERE, 'known-findings.json')
        self.findings = json.load(open(f)).get('findings', []) if os.path.exists(f) else []

    def left(self):
        return self.deadline - time.time()

    def env(self, **kw):
        e = dict(os.environ)
        e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local',
                 GOCOVERDIR=self.work, TMPDIR=self.work, HOME=os.environ.get('HOME') or '/root')
        e.update(kw)
        return e

    # -- building ---------------------------------------------------------
    def harness(self, variant='cover'):
        if variant in self.bins:
            return self.bins[variant]
        src = os.path.join(self.work, 'src-' + variant)
        shutil.copytree(os.path.join(HERE, 'harness'), src)
        mod = open(os.path.join(src, 'go.mod')).read().replace('=> /repo', '=> ' + REPO)
        open(os.path.join(src, 'go.mod'), 'w').write(mod)
        out = os.path.join(self.work, 'harness-' + variant)
        cmd = ['go', 'build', '-o', out]
        if variant == 'cover':
            cmd += ['-cover', '-covermode=atomic',
                    '-coverpkg=verif/harness,github.com/cespare/goclj,github.com/cespare/goclj/parse,github.com/cespare/goclj/format']
        elif variant == 'race':
            cmd += ['-race']
        r = subprocess.run(cmd + ['.'], cwd=src, env=self.env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('building the harness failed:\n' + r.stderr[-3000:])
        self.bins[variant] = out
        return out

    def cljfmt(self):
        if 'cljfmt' in self.bins:
            return self.bins['cljfmt']
        out = os.path.join(self.work, 'cljfmt-bin')
        r = subprocess.run(['go', 'build', '-o', out, './cljfmt'], cwd=REPO,
                           env=self.env(GOFLAGS=''), capture_output=True, text=True)
        if r.returncode != 0:
            # the build must not touch go.mod
            raise CheckError('building cljfmt failed:\n' + r.stderr[-3000:])
        self.bins['cljfmt'] = out
        return out

    # -- recording --------------------------------------------------------
    def record_shard(self, part, shard, shards, n):
        """Records one shard; returns (file, crashes)."""
        kind = part['kind']
        base = os.path.join(self.work, '%s-%d' % (kind, shard))
        out, cur, skip = base + '.json', base + '.cur', base + '.skip'
        skips, crashes = [], []
        for attempt in range(6):
            json.dump(skips, open(skip, 'w'))
            cmd = [self.harness(part.get('variant', 'cover')), 'record', '-kind', kind, '-seed', str(self.seed),
                   '-shard', str(shard), '-shards', str(shards), '-n', str(n), '-tier', self.tier,
                   '-o', out, '-current', cur, '-skip', skip]
            cmd += part.get('args', [])
            if part.get('cljfmt'):
                cmd += ['-cljfmt', self.cljfmt(), '-scratch', base + '.d']
            try:
                r = subprocess.run(cmd, env=self.env(**part.get('env', {})), capture_output=True,
                                   timeout=max(30, min(self.left(), part.get('timeout', 600))))
            except subprocess.TimeoutExpired:
                raise CheckError('recording %s (shard %d) took too long' % (kind, shard))
            if r.returncode == 0:
                return out, crashes
            err = r.stderr.decode('utf-8', 'replace')
            if r.returncode == 3 or not os.path.exists(cur):
                raise CheckError('recording %s failed: %s' % (kind, err[-2000:]))
            text = open(cur, 'rb').read()
            crashes.append((text, err[:3000]))
            skips.append(text.decode('utf-8', 'surrogateescape'))
            skips = [s.encode('utf-8', 'surrogateescape').decode('utf-8', 'replace') for s in skips]
            if part.get('crash_is') == self.pid:
                # No point in going on.
                return None, crashes
        if all(code_crash(e) for _, e in crashes):
            # No outcome at all where the property promises one.
            return None, crashes
        raise CheckError('recording %s: the process kept crashing: %s' % (kind, crashes[-1][1][-2000:]))

    # -- judging ----------------------------------------------------------
    def tlc(self, module, cfg, trace=None, workers=1, timeout=None, args=(), heap='3g', **env):
        meta = tempfile.mkdtemp(dir=self.work, prefix='meta')
        e = self.env(**env)
        if trace:
            e['TRACE'] = trace
        cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(1, min(workers, 4)),
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', cfg] + list(args) + [module + '.tla']
        if workers == 1 and not args:
            cmd.insert(1, '-XX:TieredStopAtLevel=1') if os.environ.get('VERIF_C1') else None
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                               timeout=max(20, min(self.left(), timeout or 1e9)))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s took too long' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r

    def cfg(self, verdict):
        p = os.path.join(self.work, verdict + '.cfg')
        with self.lock:
            if not os.path.exists(p):
                with open(p + '.new', 'w') as f:
                    f.write('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Verdict <- %s\n' % verdict)
                os.replace(p + '.new', p)
        return p

    def judge(self, part, trace, count=True):
        """Returns the set of ids of the records that are rejected."""
        r = self.tlc(part['module'], self.cfg(part['verdict']), trace)
        m = re.search(r'^(\d+) states generated, (\d+) distinct', r.stdout, re.M)
        if r.returncode != 0 or not m:
            raise CheckError('TLC failed on %s: %s' % (part['module'], (r.stdout + r.stderr)[-3000:]))
        n = sum(1 for _ in open(trace))
        if int(m.group(2)) != n + 64:
            raise CheckError('TLC judged %s of %d records' % (m.group(2), n))
        if count:
            self.states += int(m.group(2))
            self.transitions += int(m.group(1)) - 64
        return {int(x) for x in re.findall(r'<<"BAD", (\d+), \{', r.stdout)}

    def shard(self, part, shard, shards, n):
        out, crashes = self.record_shard(part, shard, shards, n)
        bad, count = [], 0
        if out:
            count = sum(1 for _ in open(out))
            ids = self.judge(part, out)
            sample = None
            for i, l in enumerate(open(out)):
                if i == min(count - 1, 40 + shard):
                    sample = l
                if ids:
                    c = json.loads(l)
                    if c['id'] in ids:
                        bad.append(c)
            if sample and len(sample) > 4000:
                sample = None
        return dict(crashes=crashes, bad=bad, n=count, sample=sample and json.loads(sample), file=out)

    def confirm(self, part, cases):
        """Those of the cases that are rejected when they are run again."""
        good = []
        for batch in (cases[:40],):
            src = os.path.join(self.work, 'again.json')
            with open(src, 'w') as f:
                for i, c in enumerate(batch):
                    c = dict(c, id=i)
                    f.write(json.dumps(c) + '\n')
            out = os.path.join(self.work, 'again.out')
            cmd = [self.harness(part.get('variant', 'cover')), 'replay', '-kind', part['kind'], '-i', src, '-o', out,
                   '-n', str(part.get('repeat', 12))]
            if part.get('cljfmt'):
                cmd += ['-cljfmt', self.cljfmt(), '-scratch', os.path.join(self.work, 'again.d')]
            r = subprocess.run(cmd, env=self.env(**part.get('env', {})), capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('replay failed: ' + r.stderr[-2000:])
            ids = self.judge(part, out, count=False)
            outs = {}
            for l in open(out):
                c = json.loads(l)
                outs.setdefault(c['id'], c)
            good += [outs.get(i, batch[i]) for i in sorted(ids)]
        return good

    def is_known(self, part, c):
        for f in self.findings:
            if f.get('property') == self.pid and f.get('kind') == part['kind'] and \
               all(c.get(k) == v for k, v in f.get('match', {}).items()):
                return f
        return None

    def violation(self, part, what, data):
        d = os.path.join(HERE, 'replay', self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d-%d.json' % (part['kind'], self.tier, self.seed, len(self.violations)))
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, part={k: v for k, v in part.items() if isinstance(v, (str, int, float, list))},
                           what=what, case=data), f, indent=1)
        self.violations.append(p)
        say('VIOLATION property=%s replay=%s' % (self.pid, p))
        say('  ' + what[:1500])

    def traces(self, part):
        n = part['thorough' if self.tier == 'thorough' else 'quick']
        shards = part.get('shards', SHARDS)
        per = max(1, n // shards)
        self.harness(part.get('variant', 'cover'))
        if part.get('cljfmt'):
            self.cljfmt()
        with ThreadPoolExecutor(max_workers=part.get('parallel', shards)) as ex:
            res = list(ex.map(lambda s: self.shard(part, s, shards, per), range(shards)))
        total = sum(r['n'] for r in res)
        self.validated += total
        self.parts.append(dict(kind=part['kind'], records=total, judged_by='%s!%s' % (part['module'], part['verdict']),
                               crashes=sum(len(r['crashes']) for r in res)))
        for r in res:
            if r['sample'] and len(self.samples) < 6:
                self.samples.append(dict(kind=part['kind'], case=pretty(r['sample'])))
        if part.get('crash_is') == self.pid or any(r['file'] is None for r in res):
            for r in res:
                for text, err in r['crashes'][:1]:
                    if len(self.violations) < 3:
                        self.violation(part, 'the process crashed on %r: %s' % (text[:300], err.strip()[:600]),
                                       dict(text=text.decode('utf-8', 'replace'), err=err))
        bad = [c for r in res for c in r['bad']]
        if bad:
            bad.sort(key=lambda c: len(json.dumps(c)))
            conf = self.confirm(part, bad)
            if not conf and part['kind'] not in TIMED:
                # The outcome depends on what the process did before (or on
                # chance); it was wrong all the same.
                conf = [c for c in bad if 'hang' not in json.dumps(untext(c))][:3]
            if not conf:
                raise CheckError('%d rejected records of %s were accepted when run again, e.g. %s'
                                 % (len(bad), part['kind'], json.dumps(pretty(bad[0]))[:1500]))
            shown = 0
            for c in conf:
                f = self.is_known(part, c)
                if f:
                    if f['what'] not in self.known:
                        self.known.append(f['what'])
                        say('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
                elif shown < 3:
                    shown += 1
                    self.violation(part, describe(c), c)

    def model(self, m):
        """Model-check a configuration of the specification itself."""
        cfg = m['cfg_thorough'] if self.tier == 'thorough' and 'cfg_thorough' in m else m.get('cfg')
        if 'frames' in m:
            cfg = os.path.join(self.work, m['module'] + '.cfg')
            with open(cfg, 'w') as f:
                f.write('INIT Init\nNEXT Next\nCONSTANTS\n  FrameSet = {%s}\n  Extra = %d\nINVARIANT %s\n'
                        'CHECK_DEADLOCK FALSE\n' % (', '.join('"%s"' % x for x in m['frames']),
                                                    m.get('extra', 1) if self.tier == 'thorough' else m.get('less', 0), m.get('invariant', 'AllGood')))
        r = self.tlc(m['module'], cfg, workers=m.get('workers', 8), heap='12g', args=m.get('args', ()))
        g = re.search(r'^(\d+) states generated, (\d+) distinct', r.stdout, re.M)
        if r.returncode != 0 or not g:
            raise CheckError('the specification fails its own check %s: %s' % (cfg, (r.stdout + r.stderr)[-4000:]))
        self.states += int(g.group(2))
        self.transitions += int(g.group(1))
        self.parts.append(dict(model=m['module'], config=os.path.basename(cfg), frames=m.get('frames', []), states=int(g.group(2)), transitions=int(g.group(1))))

    def finish(self, checked):
        level = checked.get('level', 'model_checking')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples or ['none'],
                   parts=self.parts, technique=checked['technique'])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=checked.get('assumptions', []), wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def code_crash(err):
    """Did the code under test take the process down (by a panic of a goroutine
    of its own, or by recursing without end)?"""
    m = re.search(r'^(panic:|fatal error: (stack overflow|all goroutines|concurrent map))', err, re.M)
    return bool(m) and 'github.com/cespare/goclj' in err


def untext(v):
    if isinstance(v, list) and v and all(isinstance(x, str) for x in v) and any(len(x) == 1 for x in v):
        return ''.join(v)
    if isinstance(v, list):
        return [untext(x) for x in v]
    if isinstance(v, dict):
        return {k: untext(x) for k, x in v.items()}
    return v


def pretty(c):
    d = untext(c)
    if isinstance(d, dict):
        d = {k: v for k, v in d.items() if k not in ('p',) and v not in ([], '')}
        if isinstance(c.get('on'), list):
            d['on'] = c['on']
    return d


def describe(c):
    return json.dumps(pretty(c), ensure_ascii=True)


def main():
    from checks import CHECKS
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        say('usage: run.py ID')
        return 2
    pid = sys.argv[1]
    check = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    run = Run(pid, tier, seed, 800 if tier == 'quick' else 7200)
    try:
        for m in check.get('models', []):
            if not m.get('thorough_only') or tier == 'thorough':
                run.model(m)
        for p in check['parts']:
            run.traces(p)
        run.finish(check)
        say('%s: %d records judged, %d states, %.1f s, violations: %d'
            % (pid, run.validated, run.states, time.time() - run.t0, len(run.violations)))
        return 1 if run.violations else 0
    except CheckError as e:
        if run.violations:
            run.finish(check)
            return 1
        say('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
