"""Reproductions of the known findings: vf/known/<property>/*.p, with the options and what tells the failure in comments of the file."""
import glob, os, re
from .driver import known_findings
from .verdict import Runner


def run_repros(ctx, binary, times=3, timeout=6):
    goe = Runner(binary, ctx.tmp)
    listed = known_findings(ctx.pid)
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known', ctx.pid)
    for f in sorted(glob.glob(here + '/*.p')):
        text = open(f).read()
        key, opts, pat = [re.search(r'^%% %s: ?(.*)' % k, text, re.M).group(1) for k in ('key', 'options', 'fails')]
        for _ in range(times):
            r = goe(text, opts.split(), timeout=timeout)
            m = re.search(pat, r.out + r.err)
            if m:
                if key in listed:
                    key in ctx.known_hits or ctx.known_hits.append(key)
                else:
                    ctx.violation('%s on\n%s' % (m.group(0), text), dict(repro=os.path.basename(f), text=text, opts=opts.split(), pat=pat))
                break


def replay_repro(ctx, binary, rep):
    r = Runner(binary, ctx.tmp)(rep['text'], rep['opts'], timeout=10)
    m = re.search(rep['pat'], r.out + r.err)
    return m and '%s on\n%s' % (m.group(0), rep['text'])
