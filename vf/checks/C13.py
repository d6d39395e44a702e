"""Malformed input is rejected, never half-read."""
from ..driver import *
from ..verdict import *
from .. import recog

SEEDS = [
    "tff(nat_t, type, nat: $tType).\ntff(z_t, type, z: nat).\ntff(s_t, type, s: (nat > nat)).\ntff(le_t, type, le: (nat * nat) > $o).\n"
    "tff(a1, axiom, ! [X: nat] : le(z, X)).\ntff(a2, axiom, ! [X: nat, Y: nat] : (le(X, Y) => le(s(X), s(Y)))).\ntff(c, conjecture, le(s(z), s(s(z)))).\n",
    "tff(li, type, list: $tType > $tType).\ntff(nil, type, nil: !>[A: $tType]: list(A)).\ntff(cons, type, cons: !>[A: $tType]: ((A * list(A)) > list(A))).\n"
    "tff(p, type, p: !>[A: $tType]: (list(A) > $o)).\ntff(ax, axiom, ![A: $tType]: p(A, nil(A))).\ntff(c, conjecture, p($int, nil($int))).\n",
    "tff(f, type, f: ($i * $i * $i) > $i).\ntff(p, type, (p: $i > $o)).\ntff(q, type, q: $o).\ntff(c, conjecture, (q => ? [X] : (p(f(X, X, X)) | ~ (X != X)))).\n",
    "fof(a1, axiom, ! [X, Y] : (q(X, f(Y)) <~> ~ p(X)), file('Axioms/x.ax', a1)).\nfof(a2, hypothesis, 'Odd name'(a, \"dist\", 3, -2, 1/3, 2.5E-3), inference(r, [status(thm)], [a1, b:c])).\n"
    "% comment\nfof(3, conjecture, (a != b & b = c & ($true | $false)) ~| (p(a) ~& q(a, a)), unknown, [x(y), Z]).\n",
    "fof(a, axiom, p & q & r & ~ ~ (s | t)).\n/* block * comment */ fof(c, conjecture, ! [X] : ? [Y] : ~ r(X, Y) <= p).\n",
    "fof(a, axiom, 'it\\'s'('back\\\\slash', '')).\nfof(a2, axiom, p(f(g(a, h(b)), X)) | $less(1, 2)).\n",
]
FRAG = ['(', ')', '[', ']', ',', '.', ':', '!', '?', '~', '&', '|', '=>', '<=', '<=>', '<~>', '~|', '~&', '=', '!=', '!>', '*', '>', '<', '$true', '$false', '$i', '$o', '$tType',
        'X', 'Y', 'p', 'a', 'f(a)', "'q'", '"d"', '3', '-1', '1/2', '0.5', '1/0', '$', '$$x', '@', '#', '\\', '^', '"', "'", '/*', '*/', '%', '/', '-', '+', '_', 'fof(', 'fof', 'axiom', '{', '}', ';',
        '<<', '--', '\x00', '\x01', '! [X] :', '? [Y] :', 'fof(x, axiom, p).', '`', ':=', ': $i', 'X: $i', ': nat', '> nat', '* nat', '&&', '==', '->', '<->', '1.', '.5', '1e', '2E+', '007', '+', '&=>']


def base(rng):
    if rng.random() < .35:
        return rng.choice(SEEDS)
    return pick(rng, rng.random() < .3)[1].text()


def spans(text):
    out, i = [], 0
    while i < len(text):
        m = recog.TOK.match(text, i)
        if not m or m.end() == i:
            i += 1
            continue
        if m.lastgroup != 'ws':
            out.append((m.start(), m.end()))
        i = m.end()
    return out


def mutate_text(rng, text):
    sp = spans(text)
    if not sp:
        return text
    k = rng.random()
    a, b = rng.choice(sp)
    if k < .18:
        return text[:a] + text[b:]
    if k < .28:
        return text[:b] + ' ' + text[a:b] + text[b:]
    if k < .4:
        c, d = rng.choice(sp)
        a, b, c, d = (a, b, c, d) if a <= c else (c, d, a, b)
        return text if b > c else text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]
    if k < .58:
        return text[:a] + rng.choice(FRAG) + text[b:]
    if k < .75:
        p = rng.choice([a, b])
        g = rng.choice(['', ' '])
        return text[:p] + g + rng.choice(FRAG) + g + text[p:]
    if k < .8:
        return text[:rng.randrange(len(text) + 1)]
    if k < .85:
        return text + rng.choice(FRAG) + rng.choice(['', '\n'])
    if k < .88:
        return rng.choice(FRAG) + rng.choice(['', '\n']) + text
    p = rng.randrange(len(text))
    if k < .94:
        return text[:p] + text[p + 1:]
    return text[:p] + rng.choice('()[],.:!?~&|=<>$\'"%/*\\abXY019 _@#-+') + text[p + rng.randint(0, 1):]


def judge(text, r):
    """What is wrong with the run on a text that is not well-formed."""
    if r.timeout:
        return 'is not rejected'
    if r.res or r.szs:
        return 'gets the verdict %s %s' % (r.res, r.szs)
    if r.rc == 0:
        return 'ends with exit code 0'
    if 'rror' not in r.out + r.err and 'atal' not in r.out + r.err:
        return 'is rejected without a message'
    return None


OPTS = [[], [], ['-flatten'], ['-dmt'], ['-proof'], ['-preinner'], ['-no-type-check'], ['-pretty']]


def run(ctx):
    ctx.rule = ('generated FOF problems and a few TFF problems broken at one to three places (tokens deleted, doubled, exchanged, replaced, inserted; characters deleted, inserted; truncation; appended text), '
                'kept when an independent recogniser of the accepted language refuses the text; a case fails when the prover does not stop with an error and without a verdict; '
                'non-trivial = the text is refused by the recogniser; distinct by the text')
    goe = Runner(build_goeland(), ctx.tmp)

    def case(i):
        rng = ctx.rng('c13', i)
        text = base(rng)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            text = mutate_text(rng, text)
        ok, why = recog.wellformed(text)
        if ok:
            return dict(cls='still well-formed')
        o = ['-l', '1', '-one_step'] + list(rng.choice(OPTS))
        bad = judge(text, goe(text, o, timeout=3))
        if bad:
            bad = judge(text, goe(text, o, timeout=10))
        out = dict(cls='malformed', key=text, sample=text[:600])
        if bad:
            out['bad'] = ('a text that is not well-formed (%s) %s:\n%s' % (why, bad, text), dict(text=text, opts=o))
        return out

    def shrinker(o):
        text, opts = o['bad'][1]['text'], o['bad'][1]['opts']

        def fails(t):
            return not recog.wellformed(t)[0] and judge(t, goe(t, opts, timeout=3))
        cur, t0 = text, time.time()
        step = max(1, len(cur) // 2)
        while step and time.time() - t0 < 20:
            i = 0
            while i < len(cur) and time.time() - t0 < 20:
                c = cur[:i] + cur[i + step:]
                if fails(c):
                    cur = c
                else:
                    i += step
            step //= 2
        return 'a text that is not well-formed (%s) %s:\n%s' % (recog.wellformed(cur)[1], judge(cur, goe(cur, opts, timeout=3)), cur), dict(text=cur, opts=opts)
    drive(ctx, case, (30000, 600000), (30, 900), shrinker, maxbad=6, stop=8)


def replay(ctx, rep):
    return judge(rep['text'], Runner(build_goeland(), ctx.tmp)(rep['text'], rep['opts'], timeout=10))
