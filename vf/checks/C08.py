"""The verdict lines, the proof block and the exit code tell one and the same story."""
from ..driver import *
from ..verdict import *


def story(r, pr, opts, name, want_proof):
    """None, or what is wrong."""
    if r.timeout:
        return 'timeout'
    n_res, n_szs = len(re.findall(r'% RES : ', r.out)), len(re.findall(r'^% SZS status ', r.out, re.M))
    quiet = '-quiet' in opts or '-silent' in opts
    if n_res != (0 if quiet else 1) or n_szs != 1:
        return '%d RES lines and %d SZS status lines' % (n_res, n_szs)
    if r.rc != 0:
        return 'a verdict but exit code %d' % r.rc
    valid = claims(r) if quiet else r.res == 'VALID'
    want = {(True, True): 'Theorem', (True, False): 'Unsatisfiable', (False, True): 'CounterSatisfiable', (False, False): 'Satisfiable'}[valid, pr.conj is not None]
    if r.szs != want:
        return 'RES says %s, %s a conjecture, but the SZS status is %s' % (r.res, 'with' if pr.conj is not None else 'without', r.szs)
    f = SZS.search(r.out).group(2).strip()
    if f != name:
        return 'the SZS status is about %r rather than %r' % (f, name)
    st = [m.start() for m in re.finditer(r'^% SZS output start', r.out, re.M)]
    en = [m.start() for m in re.finditer(r'^% SZS output end', r.out, re.M)]
    if want_proof and valid:
        if len(st) != 1 or len(en) != 1 or not st[0] < en[0]:
            return 'a proof was asked for: %d start and %d end markers' % (len(st), len(en))
        if not r.out[st[0]:en[0]].split('\n', 1)[1].strip():
            return 'an empty proof between the markers'
        if SZS.search(r.out).start() > st[0]:
            return 'the proof comes before the status'
    elif st or en:
        return 'proof markers although %s' % ('no proof was asked for' if valid else 'the verdict is negative')
    return None


PROOF = [['-proof'], ['-otptp'], ['-osctptp'], ['-orocq'], ['-orocq', '-context'], ['-proof', '-pretty'], ['-proof', '-print-id']]


def run(ctx):
    ctx.rule = ('generated problem (any family, with or without equality, conjecture present or not, random file name) run under random search '
                'and output options with a bounded search; non-trivial = a verdict was printed; distinct by problem text, name and options')
    goe = Runner(build_goeland(), ctx.tmp)

    def case(i):
        rng = ctx.rng('c08', i)
        eq = rng.random() < .3
        fam, pr = pick(rng, eq)
        if rng.random() < .15:
            pr = Problem(pr.all_forms(), None) if rng.random() < .5 else Problem([], pr.all_forms()[0])
        opts = rng.choice(EQMODES if eq else MODES[:12])
        if '-dmt' in opts:
            opts = [o for o in opts if not o.startswith('-dmt')]
        opts = opts + ['-l', str(rng.choice([1, 2, 3])), '-one_step']
        want = rng.random() < .4
        if want:
            if '-inner' in opts or '-preinner' in opts:
                opts = opts + ['-proof']
            else:
                opts = opts + rng.choice(PROOF)
        elif rng.random() < .3:
            opts = opts + rng.choice([['-quiet'], ['-chrono'], ['-quiet', '-chrono']])
        name = rng.choice(['w.p', 'w.q.p', 'w', 'W-1+2.p', 'with space.p', 'w_%d.p']) + str(os.getpid())
        r = goe(pr.text(), opts, timeout=4, name=name)
        out = dict(cls=fam, key=(pr.text(), name, opts), sample={'options': opts, 'file': name, 'problem': pr.text(), 'verdict': r.szs}, inc=r.szs is None)
        if r.timeout or (r.szs is None and '[error' in re.sub(r'\x1b\[\d*m', '', r.out)) or 'Anomaly' in r.out:
            out['inc'] = True      # no verdict at all: judged by other checks
            return out
        b = story(r, pr, opts, name, want)
        if b:
            out['bad'] = ('%s (options %s, file %s)\n%s' % (b, opts, name, pr.text()), dict(problem=pr.text(), conj=pr.conj is not None, name=name, options=opts, want=want))
        return out

    drive(ctx, case, (7000, 200000), (35, 600))


class _P:
    def __init__(self, c):
        self.conj = c


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    r = goe(rep['problem'], rep['options'], timeout=20, name=rep['name'])
    return story(r, _P(True if rep['conj'] else None), rep['options'], rep['name'], rep['want'])
