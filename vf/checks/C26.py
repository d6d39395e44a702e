"""An accepted problem ends in a verdict or keeps searching: no panic, no internal anomaly, no deadlock."""
import glob
from ..driver import *
from ..verdict import *

SEARCH = [[], [], ['-inner'], ['-preinner'], ['-flatten'], ['-completeness'], ['-core_limit', '1'], ['-core_limit', '2', '-inner'], ['-flatten', '-preinner'],
          ['-completeness', '-inner'], ['-dmt'], ['-dmt', '-preinner'], ['-noeq']]
EQ = SEARCH + [['-sateq'], ['-eagereq'], ['-sateq', '-inner'], ['-eagereq', '-flatten'], ['-dmt', '-dmt_before_eq'], ['-increq'], ['-sateq', '-increq']]
PROOF = [['-proof'], ['-orocq'], ['-orocq', '-context'], ['-otptp'], ['-osctptp'], ['-proof', '-pretty'], ['-proof', '-print-id'], ['-otptp', '-context'],
         ['-osctptp', '-quoted_pred']]     # -olp: see the finding export-lambdapi
MISC = [[], [], [], ['-quiet'], ['-silent'], ['-chrono'], ['-print-id'], ['-no-type-check'], ['-quoted_pred']]
LIMIT = [['-l', '1', '-one_step'], ['-l', '2', '-one_step'], ['-l', '3', '-one_step'], ['-l', '4', '-one_step'], ['-l', '2', '-one_step'], ['-l', '3', '-one_step'],
         ['-one_step'], ['-l', '2'], []]


def crash(r):
    """The first line that tells of a crash, or None."""
    t = re.sub(r'\x1b\[[0-9;]*m|\[[0-9.]+s\]', '', r.out + '\n' + r.err)
    m = re.search(r'^(panic: .*|fatal error: .*|SIG[A-Z]+: .*|WARNING: DATA RACE)', t, re.M)
    if m:
        at = re.search(r'^github.com/GoelandProver/Goeland/([^\n(]*(?:\([^)\n]*\))?[^\n(]*)\(', t[m.start():], re.M)
        return m.group(1)[:160] + (' at ' + at.group(1) if at else '')
    m = re.search(r'^\[error\].*$', t, re.M) if r.rc not in (0, None) and not r.timeout else None
    if m:
        return m.group(0)[:4000]
    if r.hang:
        return 'hang: no verdict and no processor time used any more'
    if not r.timeout and r.rc != 0:
        return 'exit code %s without a message' % r.rc
    if not r.timeout and r.res is None and r.szs is None:
        return 'exit without a verdict'
    return None


# Crashes of the unchanged tree that are listed in known-findings.txt: key -> (options that it needs, message).
KNOWN = {
    'export-gs3-inner': (lambda o: ('-inner' in o or '-preinner' in o) and any(x in o for x in ('-orocq', '-otptp', '-osctptp', '-olp')),
                         r'In rocq: Index of|In TPTP: Formula .* not found'),
    'export-dmt': (lambda o: '-dmt' in o and any(x in o for x in ('-orocq', '-otptp', '-osctptp', '-olp', '-proof')),
                   r'missing hypothesis|rewrite step|rewriteStep|index out of range .* at Mods/tptp\.'),
    'export-lambdapi': (lambda o: '-olp' in o, r' at Mods/lambdapi\.| at Glob\.Basic\.Equals|exit code 1 without a message'),
    'dmt-empty': (lambda o: '-dmt' in o, r'Problem not found'),
    'sateq-merge': (lambda o: '-sateq' in o, r'MergeSubstitutions returns failure'),
}


LISTED = known_findings('C26')


def known(opts, msg):
    for k, (need, pat) in KNOWN.items():
        if k not in LISTED:
            continue
        if need(opts) and re.search(pat, msg):
            return k
    return None


def judge(goe, text, opts, times=1, timeout=3, procs='3'):
    for _ in range(times):
        r = goe(text, opts, timeout=timeout, hangcheck=True, procs=procs)
        c = crash(r)
        if c and c.startswith('exit code') and ('-silent' in opts or '-quiet' in opts):     # these hide the message
            for _ in range(8):
                d = crash(goe(text, [o for o in opts if o not in ('-silent', '-quiet')], timeout=timeout, procs=procs))
                if d:
                    c = d
                    break
        if c:
            return r, c
    return r, None


def run(ctx):
    ctx.rule = ('generated untyped problem, with and without equality, run under a random combination of search, equality, proof-output, printing and '
                'limit options with 1 to 8 processors; a case fails when the process panics, stops with an internal anomaly or an error, ends without a verdict, or uses '
                'no processor time for 3 s before a verdict; non-trivial = at least one quantifier, two options or more; distinct by problem and options')
    goe = Runner(build_goeland(), ctx.tmp)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known', 'C26')
    for f in sorted(glob.glob(here + '/*.p')):
        text = open(f).read()
        key, opts = re.search(r'^% key: (\S+)', text, re.M).group(1), re.search(r'^% options: (.*)', text, re.M).group(1).split()
        _, c = judge(goe, text, opts, times=20)
        if c and known(opts, c) == key:
            key in ctx.known_hits or ctx.known_hits.append(key)
        elif c:
            ctx.violation('%s under %s on\n%s' % (c[:300], opts, text), dict(problem=text, options=opts))

    def case(i):
        rng = ctx.rng('c26', i)
        eq = rng.random() < .45
        fam, pr = pick(rng, eq)
        opts = list(rng.choice(EQ if eq else SEARCH))
        if rng.random() < .5:
            opts += rng.choice(PROOF)
        opts += rng.choice(MISC)
        lim = rng.choice(LIMIT if '-completeness' not in opts else LIMIT[:4])
        opts += lim
        if rng.random() < .08:
            opts += ['-proof_file', os.path.join(ctx.tmp, 'pf%d' % os.getpid())]
        opts = list(dict.fromkeys(opts)) if '-core_limit' not in opts and '-l' not in opts else opts
        r, c = judge(goe, pr.text(), opts, timeout=1.5 if '-one_step' in lim and '-l' in lim else .5, procs=str(rng.choice([1, 2, 3, 8])))
        out = dict(cls=('eq' if eq else 'fo') + (' proof' if any(o in opts for p in PROOF for o in p) else ''), key=(pr.text(), opts),
                   nontriv=len(opts) >= 2 and any(nquant(f) for f in pr.all_forms()), sample={'options': opts, 'problem': pr.text(), 'verdict': r.szs})
        if c:
            k = known(opts, c)
            if k:
                out['known'] = k
            else:
                out['bad'] = ('%s under %s' % (c[:300], opts), dict(problem=pr.text(), options=opts))
                out['prob'], out['opts'], out['msg'] = pr, opts, c
        return out

    def shr(o):
        cl = re.sub(r'[^A-Za-z ]', '', o['msg'])[:25]

        def isbad(p):
            c = judge(goe, p.text(), o['opts'], times=3)[1]
            return c is not None and re.sub(r'[^A-Za-z ]', '', c)[:25] == cl
        p = shrink(o['prob'], isbad, deadline=time.time() + 40)
        return ('%s; smallest:\n%s' % (o['bad'][0], p.text()), dict(problem=p.text(), options=o['opts'], original=o['prob'].text()))
    drive(ctx, case, (8000, 300000), (45, 1200), shr)


def replay(ctx, rep):
    goe = Runner(build_goeland(), ctx.tmp)
    for t in (rep['problem'], rep.get('original', rep['problem'])):
        opts = rep['options']
        if '-proof_file' in opts:
            i = opts.index('-proof_file')
            opts = opts[:i] + opts[i + 2:]
        _, c = judge(goe, t, opts, times=20)
        if c and not known(opts, c):
            return '%s under %s on\n%s' % (c, opts, t)
    return None
