"""Shared machinery of the checks: building the prover, running cases in parallel, counting, replay files, known
findings and evidence."""
import argparse, contextlib, fcntl, hashlib, importlib, json, multiprocessing as mp, os, random, shutil, signal, subprocess, sys
import tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.environ.get('VF_BUILD') or os.path.join(VERIF, 'build')
NPROC = int(os.environ.get('VF_JOBS', '8'))


class Broken(Exception):
    """The check itself cannot give an answer (build failure, missing tool...): exit 2."""


def goenv(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in ('GOFLAGS', 'TPTP')}
    e['PATH'] = '/opt/vp/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e['GOTOOLCHAIN'] = 'local'
    e['GOPROXY'] = 'off'
    e['GOSUMDB'] = 'off'
    e['GONOSUMDB'] = '*'
    e['GOPATH'] = '/root/go'
    e['GOMODCACHE'] = '/root/go/pkg/mod'
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    if extra:
        e.update(extra)
    return e


@contextlib.contextmanager
def build_lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def gen_parser():
    """goyacc output goes to /verif/build; an overlay puts it in the place the Makefile would."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'tptp_parse.go')
    r = sh(['goyacc', '-l', '-v', '', '-p', 'TPTP', '-o', out, './Parser/tptp_parse.y'], cwd=SRC, env=goenv())
    if r.returncode != 0:
        raise Broken('goyacc failed:\n' + r.stdout)
    return out


def overlay(extra=None, name='overlay.json'):
    rep = {os.path.join(SRC, 'Parser', 'tptp_parse.go'): gen_parser()}
    rep.update(extra or {})
    p = os.path.join(BUILD, name)
    with open(p, 'w') as f:
        json.dump({'Replace': rep}, f)
    return p


def build_goeland(race=False):
    with build_lock():
        ov = overlay()
        out = os.path.join(BUILD, 'goeland' + ('-race' if race else ''))
        r = sh(['go', 'build', '-overlay', ov, '-o', out] + (['-race'] if race else []) + ['.'], cwd=SRC,
               env=goenv({'CGO_ENABLED': '1'} if race else None))
        if r.returncode != 0:
            raise Broken('go build failed:\n' + r.stdout[-4000:])
        return out


def build_gotest(pkgname, files, race=False, inside=None):
    """Compile a Go test binary made of the given /verif/go files as a package of the module (through an overlay).
    inside=(directory, package name) puts the files in that package instead, in place of its own tests."""
    with build_lock():
        where = os.path.join(SRC, 'zzverif', pkgname)
        ex = {}
        if inside:
            where = os.path.join(SRC, inside[0])
            for f in os.listdir(where):
                if f.endswith('_test.go'):
                    ex[os.path.join(where, f)] = ''
            d = os.path.join(BUILD, 'gosrc-' + pkgname)
            os.makedirs(d, exist_ok=True)
            copies = []
            for f in files:
                t = open(f).read()
                assert t.count('\npackage vft\n') + t.startswith('package vft\n') == 1, f
                t = t.replace('package vft\n', 'package %s\n' % inside[1], 1)
                c = os.path.join(d, os.path.basename(f))
                with open(c, 'w') as g:
                    g.write(t)
                copies.append(c)
            files = copies
        for f in files:
            ex[os.path.join(where, 'zz_' + os.path.basename(f))] = f
        ov = overlay(ex, 'overlay-%s.json' % pkgname)
        out = os.path.join(BUILD, 'gt-' + pkgname + ('-race' if race else ''))
        r = sh(['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', out] + (['-race'] if race else []) +
               ['./' + os.path.relpath(where, SRC)], cwd=SRC, env=goenv({'CGO_ENABLED': '1'} if race else None))
        if r.returncode != 0:
            raise Broken('go test -c failed:\n' + r.stdout[-6000:])
        return out


class Ctx:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.replay_path = replay
        self.evals = 0
        self.nontriv = set()
        self.samples = []
        self.classes = {}
        self.violations = []
        self.known_hits = []
        self.rule = ''
        self.level = 'exploration'
        self.assumptions = []
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir='/tmp')
        self.inconclusive = 0

    @property
    def quick(self):
        return self.tier != 'thorough'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, *k):
        return random.Random(hashlib.sha256(repr((self.seed,) + k).encode()).hexdigest())

    def cls(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    def record(self, key, nontrivial, sample=None, cls=None, n=1):
        self.evals += n
        if cls:
            self.cls(cls, n)
        if nontrivial:
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
            new = h not in self.nontriv
            self.nontriv.add(h)
            if new and sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def write_replay(self, what, replay):
        d = os.path.join(BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        body = json.dumps({'property': self.pid, 'what': what, 'seed': self.seed, 'replay': replay}, indent=1, default=str)
        p = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(p, 'w').write(body)
        return p

    def evidence(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.nontriv), 'rule': self.rule, 'samples': self.samples,
               'classes': dict(sorted(self.classes.items())), 'inconclusive': self.inconclusive}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations)}
        p = os.path.join(d, self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)

    # ---- parallel execution
    def pmap(self, fn, items, cap_s=None, init=None, jobs=None, stop_on=None):
        """Yield fn(item) results (unordered) using forked workers. Stops feeding after cap_s seconds."""
        jobs = jobs or NPROC
        t0 = time.time()
        it = iter(items)
        cap = cap_s or 1e9
        ctxm = mp.get_context('fork')
        q_in, q_out = ctxm.SimpleQueue(), ctxm.SimpleQueue()
        ws = [ctxm.Process(target=_worker, args=(fn, q_in, q_out), daemon=True) for _ in range(jobs)]
        for w in ws:
            w.start()
        inflight = 0
        done = False

        def feed():
            nonlocal inflight, done
            while not done and inflight < jobs * 2:
                if time.time() - t0 > cap:
                    done = True
                    break
                try:
                    x = next(it)
                except StopIteration:
                    done = True
                    break
                q_in.put((0, x))
                inflight += 1
        try:
            feed()
            while inflight:
                if not q_out._reader.poll(300):
                    raise Broken('no result from the workers for 300 s')
                ok, r = q_out.get()
                inflight -= 1
                if not ok:
                    raise Broken('worker failed:\n' + r)
                yield r
                if stop_on and stop_on():
                    done = True
                feed()
        finally:
            for w in ws:
                w.terminate()
            for w in ws:
                w.join(5)


def _worker(fn, q_in, q_out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        _, x = q_in.get()
        try:
            r = (True, fn(x))
        except BaseException:
            r = (False, 'item %r\n%s' % (x, traceback.format_exc()))
        q_out.put(r)


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <text>' of known-findings.txt, as {key: text}."""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.strip().split(' ', 2)[2]
                k, _, t = rest.partition(' ')
                out[k.split('=', 1)[1]] = t
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    ctx = Ctx(a.pid, a.tier, a.seed, a.replay)
    rc = 2
    try:
        m = importlib.import_module('vf.checks.' + a.pid)
        if a.replay:
            rep = json.load(open(a.replay))
            bad = m.replay(ctx, rep['replay'])
            print('REPRODUCED: %s' % bad if bad else 'not reproduced')
            rc = 1 if bad else 0
        else:
            m.run(ctx)
            known = known_findings(a.pid)
            for k in ctx.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (a.pid, known.get(k, k)))
            ctx.evidence()
            if ctx.violations:
                for what, rep in ctx.violations[:5]:
                    p = ctx.write_replay(what, rep)
                    print(what)
                    print('VIOLATION property=%s replay=%s' % (a.pid, p))
                rc = 1
            else:
                print('OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d inconclusive=%d wall=%.1fs' % (
                    a.pid, a.tier, a.seed, ctx.evals, len(ctx.nontriv), ctx.inconclusive, ctx.elapsed()))
                rc = 0
    except Broken as e:
        print('ERROR of the check %s: %s' % (a.pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
