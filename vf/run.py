import os, re, subprocess, tempfile, time, signal, resource

RES = re.compile(r'% RES : (VALID|NOT VALID)\s*$', re.M)
SZS = re.compile(r'^% SZS status (\S+) for (.*)$', re.M)


class Result:
    __slots__ = ('res', 'szs', 'out', 'err', 'rc', 'timeout', 'wall', 'hang')

    def __repr__(self):
        return 'res=%s szs=%s rc=%s timeout=%s' % (self.res, self.szs, self.rc, self.timeout)


def cpu_ticks(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rsplit(')', 1)[1].split()
        return int(v[11]) + int(v[12])
    except OSError:
        return 0


def goeland(binary, path, opts=(), timeout=5, env=None, procs='3', cwd=None, input=None, hangcheck=False):
    e = {k: v for k, v in os.environ.items() if k not in ('TPTP', 'GOFLAGS')}
    e['GOMAXPROCS'] = procs
    e['GOMEMLIMIT'] = '1500MiB'
    if env:
        e.update(env)
    r = Result()
    t0 = time.time()
    r.timeout = r.hang = False
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([binary, *opts, path], stdout=fo, stderr=fe, stdin=subprocess.DEVNULL if input is None else subprocess.PIPE,
                             env=e, cwd=cwd, start_new_session=True, preexec_fn=pre)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            if hangcheck:      # no processor time at all for three seconds: nothing is searching any more
                c0 = cpu_ticks(p.pid)
                time.sleep(.4)
                if p.poll() is None and cpu_ticks(p.pid) - c0 <= 1:
                    time.sleep(3)
                    r.hang = p.poll() is None and cpu_ticks(p.pid) - c0 <= 1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        fo.seek(0)
        fe.seek(0)
        r.out = fo.read(64 << 20).decode('utf-8', 'replace')
        r.err = fe.read(4 << 20).decode('utf-8', 'replace')
    r.rc = p.returncode
    r.wall = time.time() - t0
    m = RES.findall(r.out)
    r.res = m[0] if len(set(m)) == 1 else (None if not m else 'BOTH')
    s = [x[0] for x in SZS.findall(r.out)]
    r.szs = s[0] if len(set(s)) == 1 else (None if not s else 'MULTI')
    return r
