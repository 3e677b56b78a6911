"""Generators and aspects of every property decided by trace validation."""
import itertools
import copy
import re
from decimal import Decimal

from gen import *

FLOW = ['rc']
VALS = ['rc', 'set', 'val', 'cnt']


def scale(tier, q, t):
    return q if tier == 'quick' else t


def simple_case(g, ti, av, env=(), extra=(), r=None, limit=40):
    sc = g.schemas[ti]
    g.case(ti, [P(av, env)] + chain_queries(sc, r or g.r, limit) + [O(x) for x in extra])


# ---- C01 ----
# ---- tables with very many entries ----
STEMS = ['job', 'name', 'out', 'net-port', 'x', 'level', 'file', 'opt']
SIZES = [60, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]


def crowd(r, n, types, env=0.):
    """n options named after a few stems and a number, the first ones with letters too"""
    shorts = r.sample('abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789', 61)
    os = [opt(r.choice(types), '', '%s%d' % (r.choice(STEMS), i)) for i in range(n)]
    for o, s in zip(r.sample(os, min(n, 50)), shorts):
        o['s'] = s
    for i, o in enumerate(os):
        if r.random() < env:
            o['env'] = 'CR_%d' % i
    return os


def ends(r, q, k):
    """k of q, the last ones and the first ones always among them"""
    n = len(q)
    ix = list(dict.fromkeys([n - 1, 0, n - 2] + r.sample(range(n), min(k, n))))
    return [q[i] for i in r.sample(ix, min(k, len(ix)))]


def crowds(g, tier, what):
    r = g.r
    for size in r.sample(SIZES[:-3], scale(tier, 2, 6)) + r.sample(SIZES[-3:], scale(tier, 1, 3)):
        deep = r.random() < .4
        at = 2 if deep else 1

        def table(body, other=()):
            body = [help_opt()] + body
            return g.table(schema([body] + list(other) if not deep else [[help_opt(), opt('flag', '', 'top'), sub('go', 2)]] + [[dict(o, sub=o['sub'] + 1 if o['sub'] else 0) for o in b] for b in [body] + list(other)]))
        pre = ['go'] if deep else []
        dot = 'go.' if deep else ''
        if what == 'options':
            os = crowd(r, size, ALL_TYPES)
            ti = table(os)
            for _ in range(scale(tier, 8, 30)):
                some = ends(r, os, r.choice([1, 2, 3, 5, 9]))
                av = sum((spell(r, o, None if o['vt'] == 'flag' else value(r, o, r.random() < .98)) for o in some), [])
                g.case(ti, [P(pre + av)] + [Q(dot + o['name']) for o in some + r.sample(os, 6)] + [O('free')])
            for _ in range(4):
                o = r.choice(os)
                g.case(ti, [P(pre + ['--' + o['l'] + r.choice(['0', '-', 'x']), 'v'])])
        elif what == 'env':
            os = crowd(r, size, ['flag', 'int', 'str', 'float', 'ai', 'as', 'ms', 'bool'], env=.8)
            for o in os:
                if o['env'] and r.random() < .3:
                    o['flags'] = ['ENV_OVERRIDE']
                elif o['vt'] in SCALAR_DEF and r.random() < .3:
                    o['def'] = SCALAR_DEF[o['vt']](r)
            ti = table(os)
            named = [o for o in os if o['env']]
            for _ in range(scale(tier, 6, 20)):
                some = ends(r, named, r.choice([3, 5, 12, 40]))
                both = r.sample(some, 2)
                av = sum((spell(r, o, None if o['vt'] == 'flag' else value(r, o, True)) for o in both), [])
                g.case(ti, [P(pre + av, [(o['env'], value(r, o, True)) for o in some])] + [Q(dot + o['name']) for o in some[:8] + both + r.sample(os, 8)])
        elif what == 'rules':
            os = crowd(r, size, ['flag'])
            ns = [o['name'] for o in os]
            for o in ends(r, os, 12):
                o[r.choice(['req', 'con'])] = [x for x in r.sample(ns, r.choice([1, 2, 5])) if x != o['name']]
            must = r.choice([o for o in os[size // 2:] if not o['req'] and not o['con']])
            must['flags'] = ['REQUIRED']
            lone = [o for o in os if not o['req'] and not o['con'] and o is not must]
            big = lone[:len(lone) // 2]
            rest = [o for o in os if o not in big]
            ti = table(rest[:5] + [grp('Choose', ['EXCLUSIVE'])] + big + [gend()] + rest[5:])
            by = {o['name']: o for o in os}

            def closed(seed):
                """everything these need, and what that needs"""
                got, todo = {}, list(seed)
                while todo:
                    o = todo.pop()
                    if o['name'] not in got:
                        got[o['name']] = o
                        todo += [by[n] for n in o['req']]
                return got
            for x in [o for o in os if o['req'] or o['con']]:
                all_ = closed([x, must])
                for drop in [None] + x['req'][:1] + x['req'][-1:]:
                    g.case(ti, [P(pre + ['--' + n for n in all_ if n != drop])])
                for n in x['con'][:1] + x['con'][-1:]:
                    g.case(ti, [P(pre + ['--' + n for n in list(all_) + [n]])])
            for _ in range(scale(tier, 14, 40)):
                some = [must] if r.random() < .9 else []
                k = r.random()
                x = r.choice([o for o in os if o['req'] or o['con']])
                if k < .6:
                    some.append(x)
                    near = x['req'] if r.random() < .8 else x['req'][:-1]
                    some += [o for o in os if o['name'] in near]
                    if r.random() < .5:
                        some += [o for o in os if o['name'] in x['con'][-1:]]
                if k > .4:
                    some += r.sample(big, r.choice([1, 1, 2]))
                if r.random() < .3:
                    some += [big[0], big[-1]][:r.choice([1, 2])]
                g.case(ti, [P(pre + ['--' + o['l'] for o in r.sample(some, len(some))])])
            g.case(ti, [P(pre + ['--' + must['l']] + ['--' + o['l'] for o in os if not o['con'] and o not in big and not any(o['name'] in x['con'] for x in os) and all(y not in [b['name'] for b in big] for y in o['req'])])])
        elif what == 'words':
            ps = [pos(r.choice(['str', 'int']), 'p%d' % i, required=i < size // 2) for i in range(size)]
            if r.random() < .5:
                ps = ps[:size // 2] + [pos('vs', 'tail')]
            ti = table([opt('flag', 'f', 'ff'), opt('str', 's', 'ss')] + ps)
            for n in {0, 1, size // 2 - 1, size // 2, size // 2 + 1, size - 1, size, size + 1, r.randrange(size)}:
                av = [str(i * 3 + 1) for i in range(n)]
                for _ in range(r.choice([0, 1, 2])):
                    av.insert(r.randint(0, len(av)), r.choice(['-f', '-sv', '--ss=7']))
                g.case(ti, [P(pre + av)] + [Q(dot + ps[i]['name']) for i in {0, len(ps) - 1, len(ps) - 2, r.randrange(len(ps)), min(n, len(ps) - 1), max(0, min(n, len(ps)) - 1)}])
        elif what == 'commands':
            cs = [sub('%s%d' % (r.choice(STEMS), i), 0, act=r.choice(['a', 'b', '']), arc=r.choice([0, 3])) for i in range(size)]
            lvs = [[help_opt(), opt('str', 'v', 'value')], [help_opt(), opt('int', 'v', 'value'), opt('flag', 'w', 'ww')]]
            for i, c in enumerate(cs):
                c['sub'] = 2 + i % 2
            ti = table(cs, lvs)
            for _ in range(scale(tier, 14, 40)):
                c = r.choice([cs[-1], cs[0], cs[-2], r.choice(cs), r.choice(cs), r.choice(cs)])
                w = c['name']
                if r.random() < .3:
                    w = w[:r.randint(1, len(w))]
                g.case(ti, [P(pre + [w] + r.choice([[], ['-v', '7'], ['--value=12']]))] + [O('hascmd'), O('exec')] + [Q(dot + x['name'] + '.value') for x in {c['name']: c, 'z': cs[r.randrange(size)]}.values()])


def c01(g, tier):
    r = g.r
    crowds(g, tier, 'options')
    for _ in range(scale(tier, 28, 160)):
        types = r.choice([['flag', 'str', 'int'], ['flag', 'flag', 'str'], ALL_TYPES, ['flag', 'str', 'as', 'int', 'float']])
        lv = [help_opt()] + rand_opts(r, types, r.randint(3, 7))
        if r.random() < .5:
            lv.append(pos(r.choice(['vs', 'vs', 'str']), 'rest', required=False))
        levels = [lv]
        if r.random() < .3:
            levels.append([help_opt()] + rand_opts(r, types, r.randint(2, 4)))
            lv[:] = [o for o in lv if o['k'] != 'pos'] + [sub('run', 2)]
        ti = g.table(schema(levels))
        a = Argv(r, g.schemas[ti], n=6, bad=.03, term=.03, optlike=.5, badval=.01)
        for _ in range(scale(tier, 22, 60)):
            simple_case(g, ti, a.make())
        # names that are near to existing ones
        ls = [o for o in lv if o['k'] == 'opt' and o['l']]
        for o in ls:
            n = o['l']
            for m in (n[:-1], n + 'x', n.upper(), n + '-', n[0], n + '=', n + ' '):
                if r.random() < .5:
                    simple_case(g, ti, ['--' + m] + (['7'] if r.random() < .6 else []))
        for o in opts_of(lv):
            if o['vt'] != 'flag':      # missing values, after other things
                f = [x for x in lv if x['k'] == 'opt' and x['vt'] == 'flag' and x['s'] and plain(x)]
                simple_case(g, ti, (['-' + f[0]['s']] if f else []) + ['--' + o['l'] if o['l'] else '-' + o['s']])
                if f and o['s']:
                    simple_case(g, ti, ['-' + f[0]['s'] + o['s']])


    # every short text over the characters that mean something, in every spelling
    b = [help_opt()] + [opt('str', s, l) for s, l in (('a', 'aa'), ('b', 'bb'), ('c', 'cc'), ('d', 'dd'), ('n', 'num'))] + [opt('flag', 'v', 'verbose')]
    ti = g.table(schema([b + [sub('go', 2)], b + [pos('vs', 'rest', required=False)]]))
    some = [''] + list(words_over('=-,a', 1, 2)) + r.sample(list(words_over('=-,a ', 3, 3)), scale(tier, 40, 125)) + ['-a', '-num', '--num', '--aa=x', '-v', 'go', '==x', '=x=', '-=', 'num=5']
    for i, x in enumerate(dict.fromkeys(some)):
        av = ['--aa=' + x, '--bb', x, '-c', x] + (['-d' + x, '-vn' + x] if x else ['-vn', x])
        simple_case(g, ti, ['go'] * (i % 2) + av)


# ---- C02 ----
def c02(g, tier):
    r = g.r
    crowds(g, tier, 'words')
    for _ in range(scale(tier, 30, 160)):
        n = r.randint(0, 3)
        ps = []
        req = r.random() < .6
        for i in range(n):
            ps.append(pos(r.choice(['str', 'int', 'float', 'str', 'bool']), ['first', 'second', 'third'][i], required=req if i else True))
        if r.random() < .6 or not n:
            ps.append(pos(r.choice(['vs', 'vi', 'vf']), 'rest', required=r.random() < .3))
        lv = [help_opt()] + rand_opts(r, ['flag', 'str', 'int'], r.randint(1, 3))
        if r.random() < .5:
            lv.append(opt('flag', r.choice('5937'), ''))
        if r.random() < .3:
            lv.append(opt('str', r.choice('124'), 'digit'))
        levels = [lv + ps]
        if r.random() < .3:
            levels = [[help_opt(), opt('flag', 'q', 'quiet'), sub('go', 2), sub('gone', 2)], lv + ps]
        ti = g.table(schema(levels))
        a = Argv(r, g.schemas[ti], n=7, bad=.05, term=.12, optlike=.1, badval=.02, posprob=.6, fill=.85, cmd=.95)
        for _ in range(scale(tier, 24, 60)):
            av = a.make()
            # negative numbers, bare dashes, terminators, command words anywhere
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                av.insert(r.randint(0, len(av)), r.choice(['-5', '-.5', '-1.5', '-', '--', '-3x', '-0', '-12', '-.', '-.x', '-.e1', '-.', '-.-', '-e1', '-a5', '-f', 'go', '-7', '--', '-5', '-1e3']))
            simple_case(g, ti, av)
    # every short word that begins like an option or a number, as an argument
    for digit in (False, True):
        lv = [help_opt(), opt('flag', 'e', 'ee'), opt('str', 'x', 'xx')] + ([opt('flag', '5', 'five'), opt('flag', '.', 'dot')] if digit else [])
        for ps in ([pos('str', 'first', required=False), pos('vs', 'rest', required=False)], [pos('float', 'first', required=False), pos('int', 'second', required=False), pos('str', 'third', required=False)]):
            ti = g.table(schema([lv + ps]))
            ws = list(words_over('-.5e', 1, 3))
            for w in [x for x in ws if len(x) < 3] + r.sample([x for x in ws if len(x) == 3], scale(tier, 20, 64)):
                av = r.choice([[w], [w], ['5', w], ['-x', 'v', w], [w, '5'], ['5', w, '-e']])
                simple_case(g, ti, av)


# ---- C03 ----
def c03(g, tier):
    r = g.r
    ti = g.table(schema([[help_opt(), opt('flag', 'f', 'flag'), opt('bool', 'b', 'bool'), opt('str', 's', 'str'),
                          opt('int', 'i', 'int'), opt('float', 'd', 'double'), pos('vs', 'rest', required=False)]]))
    tp = g.table(schema([[help_opt(), pos('int', 'pi'), pos('float', 'pf', required=False), pos('bool', 'pb', required=False), pos('str', 'ps', required=False)]]))
    qs = [Q(p) for p in ('flag', 'bool', 'str', 'int', 'double')]
    qp = [Q(p) for p in ('pi', 'pf', 'pb', 'ps')]
    L = {'int': ('i', 'int'), 'double': ('d', 'float'), 'bool': ('b', 'bool'), 'str': ('s', 'str')}

    def one(l, v):
        s = L[l][0]
        f = [['--' + l, v], ['--%s=%s' % (l, v)], ['-' + s, v]] + ([['-' + s + v]] if v else [])
        return r.choice(f)
    for l, good, bad in (('int', INT_GOOD, INT_BAD), ('double', FLT_GOOD, FLT_BAD), ('bool', BOOL_TRUE + BOOL_FALSE, BOOL_BAD),
                         ('str', STRS + STR_OPTLIKE, [])):
        for v in good + bad:
            g.case(ti, [P(one(l, v))] + qs)
    for a in INT_GOOD:
        g.case(tp, [P([a] if not a.startswith(' ') else ['--', a])] + qp)
    fn = {'int': (int_text, int_bad), 'double': (lambda r: flt_mid(r) if r.random() < .3 else flt_text(r), flt_bad), 'bool': (lambda r: r.choice(BOOL_TRUE + BOOL_FALSE), lambda r: r.choice(BOOL_BAD)),
          'str': (lambda r: r.choice(STRS + STR_OPTLIKE), lambda r: word(r))}
    for _ in range(scale(tier, 900, 9000)):
        av = []
        for _ in range(r.randint(1, 5)):
            l = r.choice(list(fn))
            v = fn[l][0](r) if r.random() < .93 else fn[l][1](r)
            if l == 'bool' and r.random() < .5:
                v = ''.join(r.choice([c.lower(), c.upper()]) for c in v)
            av += one(l, v)
            if r.random() < .2:
                av += [r.choice(['-f', '--flag'])]
        g.case(ti, [P(av)] + qs)
    for _ in range(scale(tier, 300, 3000)):
        k = r.random()
        av = ['--'] * (r.random() < .5) + [int_text(r) if k > .1 else int_bad(r), flt_text(r) if k < .9 else flt_bad(r), r.choice(BOOL_TRUE + BOOL_FALSE), word(r)][:r.randint(1, 4)]
        g.case(tp, [P(av)] + qp)
    batches(g, ti, 'double', [x + h for x in ('', '-', '+') for h in ('0x0', '0x1', '0X1f', '0xG', '0x', 'x1', '0xABCDE', '0x1 ', '00x1', '0b1', '0b0', '0xfg', '0x7x')])
    batches(g, ti, 'double', FLT_ENDS + ['%s%de%d' % (r.choice(['', '-']), r.randint(1, 99999), r.choice([-1, 1]) * r.randint(290, 340)) for _ in range(60)])
    batches(g, ti, 'double', [flt_mid(r) for _ in range(scale(tier, 240, 3000))])
    # random texts over the alphabet of numbers
    for _ in range(scale(tier, 500, 6000)):
        l = r.choice(['int', 'double'])
        v = ''.join(r.choice('0123456789+-.eE x' if l == 'double' else '0123456789+-  x') for _ in range(r.randint(1, 6)))
        if l == 'double' and ('x' in v and '0x' in v.lower().replace('00', '0') or re.search(r'[eE][+-]?\d{3,}', v)):
            continue
        g.case(ti, [P(['--%s=%s' % (l, v)])] + qs)
    c03_enum(g, tier)


def words_over(alpha, lo, hi):
    """every text of lo..hi characters over an alphabet"""
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n):
            yield ''.join(t)


def batches(g, ti, o, texts, size=60, via='long', env=''):
    texts = list(dict.fromkeys(texts))
    for k in range(0, len(texts), size):
        g.case(ti, [B(o, texts[k:k + size], via, env)])
    return len(texts)


PRINT = ''.join(chr(c) for c in range(32, 127))


def edited(bases, chars, every=1):
    """each text as it is, and with every character before it, after it, and within it"""
    out = list(bases)
    for b in bases:
        for c in chars:
            out += [c + b, b + c]
            if len(b) > 1:
                out.append(b[:len(b) // 2] + c + b[len(b) // 2:])
    return out[:len(bases)] + out[len(bases)::every]


def plain_float(t):
    """floats without the hexadecimal, infinite and not-a-number forms, or far exponents"""
    return all(not re.match(r'\s*[+-]?(0[xX]|[iI][nN]|[nN][aA])', x) and not re.search(r'[eE][+-]?\d{3,}', x) for x in re.split('[,=]', t))


NUMS = {'str': ['x', 'a b'], 'int': ['7', '-12', '+305'], 'float': ['2.5', '-13', '1e2'], 'bool': ['1', 'yes', 'off'], 'flag': ['1', 'no'],
        'ai': ['7', '1-3', '-2:1,5'], 'af': ['2.5', '-1,7.25'], 'as': ['x,yz'], 'vi': ['7', '-12'], 'vf': ['2.5', '-13'], 'vs': ['xy'],
        'mi': ['k=7', 'a=-1,b=20'], 'mf': ['k=2.5', 'a=-13,b=.5'], 'mb': ['k=1', 'a=yes,b=off'], 'ms': ['k=v,a=b']}


def edited_values(g, tier, types, via):
    """no kind of value takes a text with one character too many, given as an option, a positional or by the environment"""
    r = g.r
    for t in types:
        env = ''
        o = pos(t, 'val') if via == 'pos' else opt(t, 'v', 'val')
        if via == 'env':
            o['env'] = env = 'VAL_' + t.upper()
        ti = g.table(schema([[help_opt(), o]]))
        bases = NUMS[t] if tier != 'quick' else [r.choice(NUMS[t])]
        texts = [x for x in edited(bases, PRINT) if t not in ('float', 'af', 'vf', 'mf') or plain_float(x)]
        batches(g, ti, 'val', [x for x in texts if not (t[0] in 'am' and not x.strip(','))], via=via, env=env)


def bool_words(r, n, case=False):
    """the words of both values and everything one edit away from them"""
    w = set()
    for x in ['1', 'true', 'yes', 'y', 'on', '0x1', '0b1', '0', 'false', 'no', 'n', 'off', '0x0', '0b0']:
        for m in range(1 << len(x)) if case else [0, 1, (1 << len(x)) - 1]:
            w.add(''.join(c.upper() if m >> i & 1 else c for i, c in enumerate(x)))
        for k in range(len(x) + 1):
            w.update([x[:k], x[k:], x[:k] + x[k + 1:]])
            w.update(x[:k] + c + x[k:] for c in r.sample('0123456789abcdefghijklmnopqrstuvwxyz .-', n))
            w.update(x[:k] + c + x[k + 1:] for c in r.sample('0123456789abcdefghijklmnopqrstuvwxyz .-', n))
    w.update(words_over('01xbyno', 1, 3 if case else 2))
    return w


def c03_enum(g, tier):
    """every short text over the characters that matter"""
    r = g.r
    edited_values(g, tier, ['int', 'float', 'bool'], 'long')
    edited_values(g, tier, ['int', 'float', 'bool'], 'pos')
    ti = g.table(schema([[help_opt(), opt('bool', 'b', 'bool'), opt('str', 's', 'str'), opt('int', 'i', 'int'), opt('float', 'd', 'double')]]))
    n = scale(tier, 4, 5)
    al = ['01+- x', '09-+ e', '17.-', '2-x5+'] if tier != 'quick' else [r.choice(['01+- x', '09-+ e', '08-+.x'])]
    for a in al:
        batches(g, ti, 'int', words_over(a, 1, n))
    al = ['01.-e', '05.+E', '9-. x', '2e+-.'] if tier != 'quick' else [r.choice(['01.-e', '05.+E', '2e+-.'])]
    for a in al:
        batches(g, ti, 'double', (t for t in words_over(a, 1, n + 1 if tier != 'quick' else n) if not re.search(r'[eE][+-]?\d{3,}', t)))
    bounds = [2**k + d for k in (0, 7, 8, 15, 16, 31, 32, 33, 53, 62, 63, 64, 65, 127) for d in (-2, -1, 0, 1, 2)] + [10**k + d for k in range(0, 25) for d in (-1, 0, 1)]
    batches(g, ti, 'int', ['%s%s%d' % (sp, sg, b) for b in bounds for sg in ('', '-', '+') for sp in ('', '0', ' ')])
    batches(g, ti, 'double', ['%s%d%s' % (sg, b, f) for b in bounds if b < 10**15 for sg in ('', '-') for f in ('', '.0', '.5', 'e0', 'e3')])
    w = bool_words(r, scale(tier, 8, 39), True)
    batches(g, ti, 'bool', sorted(w))
    batches(g, ti, 'str', list(words_over('-=a ,', 1, 4)) + ['x' * n for n in (31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 4000)])


def many(g, tier, vts):
    """collections with very many elements"""
    r = g.r
    cap = scale(tier, 1, 3)
    for vt in vts:
        m, positional = vt[0] == 'm', vt[0] == 'v'
        for fl in (MFLAGS if m else AFLAGS):
            if vt == 'mb' and {'SORTED_VALUE', 'UNIQUE_VALUE'} & set(fl):
                continue
            o = pos(vt, 'much', required=False, flags=list(fl)) if positional else opt(vt, 'm', 'much', flags=list(fl), env='BG_MUCH')
            ti = g.table(schema([[help_opt(), o]]))
            vias = ['args'] if positional else ['long', 'env', 'each']
            for via in vias:
                for n in [1, 2, 3, 5, 8, 9]:
                    g.case(ti, [MUCH(r, 'much', n, r.choice([1, 2, 3]), via, 'BG_MUCH')])
                slow = bool(fl) and via in ('each', 'args')
                for n, rep in [(r.choice([15, 16, 17, 31, 32, 33]), 2), (r.choice([127, 128, 129]), 2), (r.choice([255, 256, 257]), 1), (r.choice([300, 513, 1025]), 1 if slow else 2)]:
                    g.case(ti, [MUCH(r, 'much', n, rep, via, 'BG_MUCH')])
                if not slow:
                    g.case(ti, [MUCH(r, 'much', r.choice([2049, 4097]) if m or fl else r.choice([33000, 66000]) * cap, 1, via, 'BG_MUCH')])
            if vt == 'ai':
                for n, rep in [(66000 if not fl else 2500, 1), (300, 3), (1000, 2), (40, 5), (2, 9)]:
                    g.case(ti, [MUCH(r, 'much', n, rep, 'range')])


def c04_enum(g, tier):
    r = g.r
    many(g, tier, ['ai', 'af', 'as', 'vi', 'vf', 'vs'])
    c04_far(g, tier)
    edited_values(g, tier, ['ai', 'af', 'as'], 'long')
    edited_values(g, tier, ['vi', 'vf', 'vs'], 'pos')
    ti = g.table(schema([[help_opt(), opt('ai', 'i', 'ints'), pos('vi', 'rest', required=False)]]))
    batches(g, ti, 'ints', BIGINT + NOINT + ['%s,%s' % (a, b) for a in BIGINT[:4] + ['5'] for b in BIGINT[:3] + NOINT[:4]] + ['%s-%s' % (b, b) for b in BIGINT])
    batches(g, ti, 'rest', BIGINT + NOINT, via='pos')
    # blanks and signs before numbers and before the bounds of ranges
    one = [a + b + c for a in ('', ' ', '  ') for b in ('', '-', '+') for c in ('5', '05', '')]
    batches(g, ti, 'ints', [x for x in one if x] + [x + ',3' for x in one if x] + ['%s%s%s' % (a, c, b) for a in one for b in one for c in '-:' if r.random() < scale(tier, .15, 1)], 60)
    batches(g, ti, 'rest', [x for x in one if x], via='pos')
    for a, b in itertools.product(['7'] + BIGINT[:3], BIGINT[:3] + NOINT[:5]):
        g.case(ti, [P(['--', a, b]), Q('rest')])
    for fl in (AFLAGS if tier != 'quick' else [[], r.choice(AFLAGS[1:])]):
        ti = g.table(schema([[help_opt(), opt('as', 's', 'strs', flags=fl), opt('ai', 'i', 'ints', flags=fl), opt('af', 'f', 'floats', flags=fl)]]))
        n = scale(tier, 4, 5)
        batches(g, ti, 'ints', words_over('02-:,x' if not fl else '12-,', 1, n))
        batches(g, ti, 'ints', ['%d%s%d' % (a, s, b) for a in range(-6, 7) for b in range(-6, 7) for s in '-:'])
        batches(g, ti, 'strs', words_over('ab, ', 1, n))
        batches(g, ti, 'floats', (t for t in words_over('1.-,', 1, n)))
        if fl:
            batches(g, ti, 'ints', [','.join(t) for t in itertools.product(['3', '-1', '3', '0', '-1', '10', '9'], repeat=4)][::scale(tier, 9, 1)], 40)
            batches(g, ti, 'floats', [','.join(t) for t in itertools.product(['3.5', '-1', '.5', '-1.0', '10', '9e0'], repeat=4)][::scale(tier, 9, 1)], 40)


FAMILY = [1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256]


def family(r, n, free=''):
    """texts that agree in their first n characters"""
    w = ''.join(r.choice('abcdefgh' + free) for _ in range(n))
    return [w + t for t in ('', 'a', 'b', 'aa', 'ab', 'B', '1', w[:5])] + ([w[:-1] + 'z', w[:-1]] if n > 1 else [])


def c04_far(g, tier):
    """elements that differ late, and long ones"""
    r = g.r
    for fl in AFLAGS:
        ti = g.table(schema([[help_opt(), opt('as', 's', 'strs', flags=fl), pos('vs', 'rest', required=False, flags=list(fl))]]))
        ts = []
        for n in FAMILY + [500, 501, 1000, 1023, 1024]:
            for _ in range(scale(tier, 1, 4)):
                f = family(r, n, ' .:')
                t = [r.choice(f) for _ in range(r.choice([2, 3, 4]) if n < 300 else 2)] if not (n > 300 and fl) else [f[0]]
                ts.append(','.join(t + ['y']))
        batches(g, ti, 'strs', ts, 8)
        for n in FAMILY:
            f = family(r, n)
            g.case(ti, [P(r.sample(f, 2) + [r.choice(f) for _ in range(r.choice([1, 3]))]), Q('rest')])


def c05_far(g, tier):
    """keys and texts that differ late"""
    r = g.r
    for fl in MFLAGS:
        ti = g.table(schema([[help_opt(), opt('ms', 's', 'strs', flags=fl), opt('mi', 'i', 'ints', flags=fl), opt('mf', 'f', 'floats', flags=fl), opt('mb', 'b', 'bools', flags=fl)]]))
        for o in ('strs', 'ints', 'floats', 'bools'):
            if o == 'bools' and 'SORTED_VALUE' in fl:
                continue
            ts = []
            for n in FAMILY:
                f = family(r, n, '.-')
                k = [r.choice(f) for _ in range(r.choice([3, 4, 5]))]
                vs = {'strs': family(r, r.choice(FAMILY)) if n < 64 else ['u', 'v', 'ww', 'w', 'x'], 'ints': ['1', '4294967297', '-7', '0', '65537', '12'], 'floats': ['1.5', '2', '-3.25', '1e40', '0', '0.5'], 'bools': ['yes', 'no']}[o]
                v = r.sample(list(dict.fromkeys(vs)), len(k)) if o != 'bools' else [r.choice(vs) for _ in k]
                ts.append(','.join('%s=%s' % x for x in zip(k, v)))
            batches(g, ti, o, ts, 6)


def c05_enum(g, tier):
    r = g.r
    many(g, tier, ['mi', 'mf', 'mb', 'ms'])
    c05_far(g, tier)
    edited_values(g, tier, ['mi', 'mf', 'mb', 'ms'], 'long')
    ti = g.table(schema([[help_opt(), opt('mi', 'i', 'ints')]]))
    batches(g, ti, 'ints', ['k=' + x for x in ['%s%s%d' % (sp, sg, b + d) for b in r.sample([2**k for k in (7, 8, 15, 16, 31, 32, 53, 63, 64)] + [10**k for k in range(0, 24)], scale(tier, 6, 33)) for d in (-1, 0, 1)
                                          for sg in ('', '-', '+') for sp in ('', '0', ' ')] if x])
    ti = g.table(schema([[help_opt(), opt('mb', 'b', 'bools'), opt('mi', 'i', 'ints'), opt('mf', 'f', 'floats')]]))
    for fl in (['UNIQUE_VALUE'], ['UNIQUE_VALUE', 'SORTED_KEY']):
        tn = g.table(schema([[help_opt(), opt('mf', 'f', 'floats', flags=fl)]]))
        batches(g, tn, 'floats', [','.join('k%d=%s' % (i, near_float(r)) for i in range(r.choice([2, 5, 12]))) for _ in range(scale(tier, 40, 300))], 20)
    batches(g, ti, 'bools', ['k=' + x for x in sorted(bool_words(r, scale(tier, 2, 20)))])
    batches(g, ti, 'floats', ['k=' + x for a in ([r.choice(['01.-e', '05.+E', '2e+-.', '9-. x'])] if tier == 'quick' else ['01.-e', '05.+E', '9-. x', '2e+-.']) for x in words_over(a, 1, scale(tier, 3, 4)) if not re.search(r'[eE][+-]?\d{3,}', x)])
    batches(g, ti, 'ints', ['k=' + x for x in BIGINT + NOINT] + ['k=%s,%s=%s' % (a, k, b) for a in BIGINT[:3] for k in ('k', 'l', '') for b in BIGINT[:3] + NOINT[:3]])
    for fl in (MFLAGS if tier != 'quick' else [[], r.choice(MFLAGS[1:3]), r.choice(MFLAGS[3:])]):
        ti = g.table(schema([[help_opt(), opt('ms', 's', 'strs', flags=fl), opt('mi', 'i', 'ints', flags=fl), opt('mf', 'f', 'floats', flags=fl), opt('mb', 'b', 'bools', flags=fl)]]))
        n = scale(tier, 5, 6)
        tie = fl and 'SORTED_VALUE' in fl
        pairs = ['b=1', 'a=1', 'a=0', 'b=0', 'ab=1', 'c=1', 'a=2']
        if tie:     # entries of equal value have no order of their own
            pairs = ['b=3', 'a=3', 'ab=1', 'c=2', 'a=0', 'd=4']
        else:
            batches(g, ti, 'strs', words_over('ab=,', 1, n))
        seqs = [','.join(t) for m in (1, 2, 3, 4) for t in itertools.product(pairs, repeat=m)]
        if tie:
            def distinct(t):
                d = dict(x.split('=') for x in t.split(','))
                return len(set(d.values())) == len(d) or 'UNIQUE_VALUE' in fl
            seqs = [t for t in seqs if distinct(t)]
        for o in ('strs', 'ints', 'floats'):
            batches(g, ti, o, seqs[g.r.randrange(3)::scale(tier, 11, 2)], 40)
        if not tie:
            batches(g, ti, 'bools', [t.replace('2', 'yes') for t in seqs[::scale(tier, 11, 2)]], 40)
            batches(g, ti, 'ints', words_over('a=1,-', 1, n - 1))
            batches(g, ti, 'bools', words_over('k=1n,', 1, n - 1))


# ---- C04 ----
AFLAGS = [[], ['SORTED'], ['UNIQUE'], ['SORTED', 'UNIQUE']]


def c04(g, tier):
    r = g.r
    for fl in AFLAGS:
        for mode in range(3):
            lv = [help_opt(), opt('as', 's', 'strs', flags=fl), opt('ai', 'i', 'ints', flags=fl), opt('af', 'f', 'floats', flags=fl), opt('flag', 'v', 'verb'),
                  pos(['vs', 'vi', 'vf'][mode], 'rest', required=False, flags=list(fl))]
            ti = g.table(schema([lv]))
            o = {x['name']: x for x in lv}
            qs = [Q(p) for p in ('strs', 'ints', 'floats', 'rest')]
            for k in range(scale(tier, 75, 800)):
                av = []
                bad = r.random() < .08
                for _ in range(r.choice([1, 2, 3, 5, 8])):
                    t = r.choice(['strs', 'ints', 'floats', 'rest', 'rest', 'v'])
                    if t == 'v':
                        av.append('-v')
                    elif t == 'rest':
                        for _ in range(r.choice([1, 1, 3])):
                            v = elem(r, o['rest']['vt'], True)
                            if v.startswith('-') and mode == 0 or v == '':
                                v = 'w' + v
                            av.append(v)
                    else:
                        av += spell(r, o[t], value(r, o[t], True))
                if bad:
                    t = r.choice(['ints', 'floats', 'rest'])
                    if t == 'rest' and mode:
                        b = elem(r, o['rest']['vt'], False)
                        av += ['--', b]
                    elif t != 'rest':
                        av += ['--%s=%s' % (t, value(r, o[t], False))]
                g.case(ti, [P(av)] + qs)
            # growth over the initial capacity
            for n in (7, 8, 9, 10, 16, 17, 18, 40):
                one = ['--strs', ','.join('e%d' % ((i * 7) % (n if n % 2 else 5)) for i in range(n))]
                many = [x for i in range(n) for x in ('-i', str((i * 13) % 11 - 5))]
                rng = ['--ints', '1-%d' % n, '--ints=%d:-3' % (n - 8)]
                var = [{0: 'p%d', 1: '%d', 2: '%d.5'}[mode] % ((i * 3) % 17) for i in range(n)]
                fl2 = ['-f' + ','.join('%d.25' % (n - i) for i in range(n))]
                g.case(ti, [P(one + many)] + qs)
                g.case(ti, [P(rng + var)] + qs)
                g.case(ti, [P(fl2 + one + var + ['--strs=tail'])] + qs)
    ti = g.table(schema([[help_opt(), opt('ai', 'i', 'ints')]]))
    for v in ELEM_BAD + ['9223372036854775808:9223372036854775806', '9223372036854775809-9223372036854775807', '-9223372036854775809:-9223372036854775807', '-9223372036854775808:-9223372036854775810', '9223372036854775806:18446744073709551616',
                         '99999999999999999999-9223372036854775805', '9223372036854775805-99999999999999999999', '1-3', '3-1', '-3-2', '-5--2', '-2--5', '1:3', '-1:1', '1:-1', '2-2', '-2--2', '0-0', '1,2,,3', ',1', '1,', ',', ',,', '2147483646-2147483648', '9223372036854775806-9223372036854775807', '-9223372036854775808--9223372036854775807',
                         '4294967297', '-4294967297', '+3', '1-+3', '+1-3', '007-9', '1-3,5,7-9', '9223372036854775808', '-9223372036854775809', '1 -3', ' 1', '5-x', '1-3-5', '1:3:5', '1:3-5']:
        for sp in (['--ints', v], ['-i' + v]):
            g.case(ti, [P(sp), Q('ints')])
    kf04(g)
    for _ in range(scale(tier, 250, 3000)):
        v = ''.join(r.choice('0123456789--:, ') for _ in range(r.randint(1, 6)))
        if any(len(x) > 3 for x in v.replace(':', '-').replace(',', '-').replace(' ', '-').split('-')):
            continue
        if v.strip('-') == '' and r.random() < .9:
            continue
        g.case(ti, [P(['--ints=' + v]), Q('ints')])
    c04_enum(g, tier)


def kf04(g):
    for n, fl, v in (('kf-sorted64', ['SORTED'], '4294967297,2'), ('kf-unique64', ['UNIQUE'], '1,4294967297')):
        ti = g.table(schema([[help_opt(), opt('ai', 'i', 'ints', flags=fl)]]))
        g.case(ti, [P(['--ints=' + v]), Q('ints')], kf=n)


# ---- C05 ----
MFLAGS = [[], ['SORTED_KEY'], ['SORTED_VALUE'], ['UNIQUE_VALUE'], ['UNIQUE_VALUE', 'SORTED_KEY'], ['UNIQUE_VALUE', 'SORTED_VALUE']]


def c05(g, tier):
    r = g.r
    for fl in MFLAGS:
        lv = [help_opt(), opt('ms', 's', 'strs', flags=fl), opt('mi', 'i', 'ints', flags=fl), opt('mf', 'f', 'floats', flags=fl), opt('mb', 'b', 'bools', flags=fl)]
        ti = g.table(schema([lv]))
        o = {x['name']: x for x in lv}
        qs = [Q(p) for p in ('strs', 'ints', 'floats', 'bools')]
        for k in range(scale(tier, 130, 1500)):
            av = []
            for _ in range(r.choice([1, 1, 2, 3, 6])):
                t = r.choice(['strs', 'ints', 'floats', 'bools'])
                av += spell(r, o[t], value(r, o[t], r.random() > .04))
            g.case(ti, [P(av)] + qs)
        for n in (7, 8, 9, 16, 17, 33):
            ks = ['k%02d' % ((i * 7) % 41) for i in range(n)]
            r.shuffle(ks)
            g.case(ti, [P(['--strs', ','.join('%s=%s' % (k, r.choice('abcdef')) for k in ks)])] + qs)
            g.case(ti, [P([x for k in ks for x in ('-i', '%s=%d' % (k, r.randint(-4, 4)))] + ['--ints', '%s=99' % ks[0]])] + qs)
            g.case(ti, [P(['-f' + ','.join('%s=%d.5' % (k, i % 5) for i, k in enumerate(ks)), '-b' + ','.join('%s=%s' % (k, r.choice(['yes', 'no'])) for k in ks), '-f', '%s=7' % ks[-1]])] + qs)
        for v in ['k=v', 'k=', '=v', '=', 'k', '', ',', 'k=v=w', 'k=v,k=w', 'k=v,,j=w', ',k=v', 'k=v,', 'k=v,j', 'j,k=v', 'k==', 'K=1,k=2', 'k=1,ke=2,key=3', 'key=1,ke=2,k=3', 'a=1,b=1,a=2,c=1', 'k=1,k=1']:
            g.case(ti, [P(['--strs=' + v])] + qs)
            if '=' in v and 'v' not in v and 'w' not in v:
                g.case(ti, [P(['--ints=' + v])] + qs)
                g.case(ti, [P(['--floats', v])] + qs)
                g.case(ti, [P(['--bools', v])] + qs)
    c05_enum(g, tier)


def some_visible(lv):
    """a level whose commands are all hidden has no list"""
    for b in lv:
        ss = [o for o in b if o['k'] == 'sub']
        if ss and all('HIDDEN' in o['flags'] for o in ss):
            ss[0]['flags'] = []


# ---- C06 ----
SHADOW = [('n', 'name', 'str'), ('v', 'verbose', 'flag'), ('o', 'output', 'str'), ('c', 'count', 'int'), ('', 'tags', 'as'), ('q', '', 'flag')]


def shadow_level(types=None, posp=.4, subpos=.0):
    def mk(r, n):
        out = [help_opt()]
        for s, l, t in r.sample(SHADOW, r.randint(1, 4)):
            out.append(opt(t, s, l))
        for t in [x[1] for x in SHADOW]:       # the title of a group may be the name of an option elsewhere
            if r.random() < .1 and t not in [o['name'] for o in out]:
                out.insert(r.randint(1, len(out)), grp(t))
        own = 'only%d' % n
        out.append(opt(r.choice(['flag', 'str']), r.choice('ABCDEFG'), own))
        if r.random() < posp:
            out.append(pos(r.choice(['str', 'int', 'vs']), 'arg%d' % n, required=r.random() < .5))
        return out
    return mk


def deep_table(n):
    """a chain of n nested commands"""
    lv = []
    for i in range(n + 1):
        b = [help_opt(), opt('flag', 'v', 'verbose'), opt('str', 'n', 'name')]
        if i < n:
            b.append(sub('c%d' % (i + 1), i + 2, act='do%d' % (i + 1), arc=i))
            b.append(sub('cx%d' % (i + 1), i + 2, act='dox%d' % (i + 1), arc=i + 100))
        else:
            b.append(pos('vs', 'rest', required=False))
        lv.append(b)
    return schema(lv)


def all_cmd_words(sc):
    return [o['name'] for lv in sc['levels'] for o in lv if o['k'] == 'sub']


def c06(g, tier):
    r = g.r
    crowds(g, tier, 'commands')
    for _ in range(scale(tier, 26, 180)):
        lv = tree(r, r.choice([1, 2, 2, 3]), shadow_level(), act=.7, hidden=r.choice([0, .2, .4]))
        some_visible(lv)
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=3, bad=.03, term=.05, optlike=.05, badval=.01, posprob=.2, cmd=.93)
        words = all_cmd_words(sc)
        owns = [o for l in lv for o in l if o['k'] == 'opt' and o['name'].startswith('only')]
        for _ in range(scale(tier, 20, 50)):
            av = a.make()
            k = r.random()
            if k < .2 and words:
                w = r.choice(words)
                av.insert(r.randint(0, len(av)), r.choice([w, w[:1], w + 'x', w[:-1] or w, w.upper(), w[:2]]))
            elif k < .35:
                o = r.choice(owns)
                av.insert(r.randint(0, len(av)), '--' + o['l'] if o['vt'] == 'flag' else '--%s=z' % o['l'])
            g.case(ti, [P(av)] + chain_queries(sc, r, 14) + [O('hascmd'), O('exec')])
        # every prefix of every command of the root
        for w in {o['name'] for o in lv[0] if o['k'] == 'sub'}:
            for k in range(1, len(w) + 1):
                if r.random() < .6:
                    g.case(ti, [P([w[:k]]), O('hascmd'), O('exec')] + chain_queries(sc, r, 6))
    for n in (7, 8, 9, 10):
        ti = g.table(deep_table(n))
        for _ in range(scale(tier, 6, 30)):
            m = r.randint(max(1, n - 2), n)
            av = []
            for i in range(m):
                av += r.choice([[], ['-v'], ['--name=l%d' % i]]) + [r.choice(['c%d', 'cx%d', 'cx']) % (i + 1) if False else r.choice(['c%d', 'cx%d']) % (i + 1)]
            av += r.choice([[], ['-v'], ['--name=last'], ['--no'], ['word']])
            q = ['name', 'verbose', '.name', '.'.join('c%d' % (i + 1) for i in range(m)) + '.name'] + ['.'.join(x for x in av if x.startswith('c')) + '.verbose']
            g.case(ti, [P(av), O('hascmd'), O('exec')] + [Q(p) for p in q])


# ---- C07 ----
def c07_deep(g, tier):
    """chains of every depth: their paths, cut off, going on, or wrong at one component"""
    r = g.r
    ti = g.table(deep_table(8))
    for m in list(range(2, 9)) * scale(tier, 2, 8):
        ch = [r.choice(['c%d', 'cx%d']) % (i + 1) for i in range(m)]
        av = []
        for w in ch + [None]:
            av += r.choice([[], ['-v'], ['--name=l%d' % len(av), '-v'], ['-nx%d' % len(av)]]) + ([w] if w else [])
        ps = ['name', 'verbose', '.name', '.' + ch[0]]
        for k in range(1, m + 1):
            ps += ['.'.join(ch[:k]) + r.choice(['.name', '.verbose']), '.'.join(ch[:k])]
            bad = list(ch[:k])
            j = r.randrange(k)
            bad[j] = r.choice(['cx%d' % (j + 1) if bad[j][1] != 'x' else 'c%d' % (j + 1), bad[j][:-1], bad[j] + '1', ''])
            ps.append('.'.join(bad) + '.name')
        ps += ['.'.join(ch + ch[-1:]) + '.name', '.'.join(ch[1:]) + '.name', '.'.join(ch) + '..name', '.'.join(ch) + '.name.name', '.'.join(ch) + '.']
        g.case(ti, [P(av)] + [Q(p) for p in dict.fromkeys(ps)])


def c07(g, tier):
    r = g.r
    c07_near(g, tier)
    c07_deep(g, tier)
    for _ in range(scale(tier, 24, 160)):
        lv = tree(r, r.choice([1, 2, 3, 3]), shadow_level(posp=.3))
        for b in lv:        # a command named like an option of another level
            for o in b:
                if o['k'] == 'sub' and r.random() < .35:
                    n = r.choice(SHADOW)[1]
                    if n and n not in [x['name'] for x in b]:
                        o['name'] = n
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=4, bad=0, term=.02, optlike=.0, badval=0, posprob=.15, cmd=.97)
        subs = set(all_cmd_words(sc))
        optn = sorted({o['name'] for l in lv for o in l if o['k'] in ('opt', 'pos')})
        for _ in range(scale(tier, 16, 50)):
            av = a.make()
            full = [x for x in av if x in subs]       # usually the chain
            paths = []
            for _ in range(16):
                n = r.choice(optn)
                k = r.random()
                ch = full[:r.randint(0, len(full))]
                if k < .3:
                    p = ch + [n]
                elif k < .5 and ch:
                    j = r.randrange(len(ch))
                    w = ch[j]
                    ch[j] = r.choice([w[:-1], w + 'x', w[0], w.upper(), w + w, '', r.choice(sorted(subs))])
                    p = ch + [n]
                elif k < .6:
                    p = ['', n]
                elif k < .7:
                    p = ch + [n] if r.random() < .5 else ch[::-1] + [n]
                elif k < .8:
                    p = ch + [r.choice([n + 'x', n[:-1], n.upper(), 'nope', ''])]
                elif k < .87:
                    p = [''] + ch + [n]
                elif k < .93:
                    p = ch + [n, '']
                else:
                    p = ch + ch + [n]
                paths.append('.'.join(p))
            paths = [p for p in dict.fromkeys(paths + optn[:6] + ['', '.', 'nope'])]
            # whether a command is selected: by its name, by its path, by the paths of others
            for _ in range(3):
                ch = full[:r.randint(0, len(full))]
                paths.append(r.choice(['.'.join(ch) or '.x', r.choice(sorted(subs) or ['nope']), '.'.join(ch + [r.choice(sorted(subs) or ['nope'])]), '.' + (ch or ['nope'])[0], '.'.join(ch + ch)]))
            paths = list(dict.fromkeys(paths))
            g.case(ti, [P(av)] + [Q(p) for p in paths])


def c07_near(g, tier):
    """commands and options with names of every length: a path has to spell each of them exactly"""
    r = g.r
    for n in [1, 2, 3, 8] + (r.sample([4, 7, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65], 6) if tier == 'quick' else [4, 7, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128]):
        def mk(k):
            w = ''.join(r.choice('abcdefgh-') if 0 < i < k - 1 else r.choice('abcdefgh') for i in range(k))
            return [w, w[:-1] + 'x', 'y' + w[1:], w + 'z', w + '0'][:5 if k > 1 else 3]
        cs, os_ = mk(n), mk(r.choice([1, n, n + 1]))
        cs2 = mk(r.choice([n, n + 2]))
        os_ = [o + '_' for o in os_]

        def body():
            return [help_opt()] + [opt('int', '', o) for o in r.sample(os_, r.randint(2, len(os_)))]
        lv = [body() + [sub(c, 2 if i == 0 else 3) for i, c in enumerate(cs)], body() + [sub(c, 4) for c in cs2], body(), body()]
        ti = g.table(schema(lv))
        for _ in range(scale(tier, 3, 8)):
            ch = [cs[0], r.choice(cs2)] if r.random() < .7 else [r.choice(cs)]
            av, lev = [], 1
            for w in ch + [None]:
                for o in r.sample(opts_of(lv[lev - 1])[1:], r.randint(0, 2)):
                    av += ['--' + o['name'], str(r.randint(1, 99))]
                if w:
                    av.append(w)
                    lev = next(o['sub'] for o in lv[lev - 1] if o['k'] == 'sub' and o['name'] == w)
            qs = []
            for o in r.sample(os_, min(3, len(os_))):
                for p in ([], ['']):
                    qs.append(p + [o])
                for c in cs:
                    qs.append([c, o])
                for c in r.sample(cs2, 3):
                    qs += [[ch[0], c, o], [r.choice(cs), c, o]]
                qs.append([ch[0], o[:-1]])
                qs.append([ch[0][:-1], o])
            g.case(ti, [P(av)] + [Q(p) for p in dict.fromkeys('.'.join(q) for q in qs) if p.split('.')[-1] not in cs + cs2])


# ---- C08 ----
PREFIXES = ['', '', 'APP', 'APP_', 'MY_APP', 'A', 'app']


def env_opts(r, types, n, prefix, defaults=True, posn=0):
    out = []
    for s, l in names(r, n):
        t = r.choice(types)
        if l and r.random() < .06:      # characters a variable's name seldom has
            l += r.choice(['++', '_y', ':z', '@1', '/b', '%d', '%s', '!', '.5', '~'])
        o = opt(t, s, l)
        env_of(r, o, prefix, defaults)
        out.append(o)
    return out


def env_of(r, o, prefix, defaults=True):
    k = r.random()
    if k < .45:
        up = o['name'].upper().replace('-', '_')
        if r.random() < .1:     # names that differ late
            up = r.choice([x for x in FARS if len(x) < 90]).upper().replace('-', '_')
        if prefix and r.random() < .25:     # names that start almost like the prefix
            o['env'] = r.choice([prefix.swapcase() + '_' + up, prefix[:-1] + up if len(prefix) > 1 else 'x' + up, prefix[:-1] + '_' + up, prefix[0].swapcase() + prefix[1:] + '_' + up, '_' + prefix + up])
        else:
            o['env'] = r.choice([up, up + '_VAR', 'X_' + up, up.lower(), (prefix or 'APP') + '_' + up, (prefix or 'P') + up, (prefix + '_' if prefix else '') + up])
    elif k < .75:
        o['flags'] = o['flags'] + ['AUTO_ENV']
    if r.random() < .25:
        o['flags'] = o['flags'] + ['NO_ENV_PREFIX']
    if r.random() < .25:
        o['flags'] = o['flags'] + ['ENV_OVERRIDE']
    if defaults and o['vt'] in ('str', 'int', 'float', 'bool') and r.random() < .5:
        o['def'] = {'str': lambda: 's:' + r.choice(['dflt', 'def ault', 'x']), 'int': lambda: 'i:%d' % r.choice([0, 5, -3, 2**40, 100]),
                    'float': lambda: canon(r.choice(['1.5', '-2.25', '0.5', '1000.0'])), 'bool': lambda: r.choice(['b:0', 'b:1'])}[o['vt']]()


def env_name(sc, o):
    """python twin of EnvNameOf, used only to aim the environment"""
    p = sc['prefix']
    def wp(n):
        return p + ('_' if p and not p.endswith('_') else '') + n
    if o['env']:
        if 'NO_ENV_PREFIX' in o['flags'] or p and o['env'].startswith(p):
            return o['env']
        return wp(o['env'])
    if 'AUTO_ENV' in o['flags']:
        n = o['name'] if 'NO_ENV_PREFIX' in o['flags'] else wp(o['name'])
        return n.upper().replace('-', '_')
    return ''


def rand_env(r, sc, prob=.5, bad=.04, decoy=.15):
    env = {}
    for lv in sc['levels']:
        for o in lv:
            if o['k'] not in ('opt', 'pos') or o['h'] in ('help', 'version'):
                continue
            n = env_name(sc, o)
            if not n:
                n = o['name'].upper().replace('-', '_')
                if r.random() > decoy:
                    continue
            elif r.random() > prob:
                if r.random() < decoy:      # near misses
                    up = o['name'].upper()
                    for m in (up, up.replace('-', '_'), o['env'], sc['prefix'] + up, sc['prefix'] + '_' + up, n.lower(), n + '_'):
                        if m and r.random() < .3:
                            env.setdefault(m, value(r, o, True) or 'v')
                continue
            v = value(r, o, r.random() >= bad)
            if v == '' and o['vt'] in COLL:
                v = 'k=1' if o['vt'] in MAPS else '1'
            env[n] = v
    return [(k, v) for k, v in env.items() if k and '=' not in k]


def c08_deep(g, tier):
    """the same option below one to five commands, from every source"""
    r = g.r
    for d in (1, 2, 3, 4, 5):
        for fl in ([], ['ENV_OVERRIDE']):
            t = r.choice(['int', 'str', 'ai', 'mi', 'float', 'bool', 'flag', 'as'])
            lv = []
            for k in range(d + 1):
                o = opt(t, 'o', 'opt%d' % k if r.random() < .5 else 'opt', flags=list(fl))
                if r.random() < .7:
                    o['env'] = 'VAR%d' % k if r.random() < .7 else 'VAR'
                else:
                    o['flags'] += ['AUTO_ENV']
                if t in ('str', 'int', 'float', 'bool') and r.random() < .4:
                    o['def'] = {'str': 's:d', 'int': 'i:7', 'float': canon('2.5'), 'bool': 'b:1'}[t]
                lv.append([help_opt(), o] + ([sub('go%d' % k, k + 2)] if k < d else []))
            ti = g.table(schema(lv, prefix=r.choice(['', 'PFX', 'PFX_'])))
            sc = g.schemas[ti]
            for _ in range(scale(tier, 9, 40)):
                av, env = [], {}
                n = d if r.random() < .8 else r.randint(0, d)
                for k in range(d + 1):
                    o = lv[k][1]
                    if k <= n and r.random() < .4:
                        av += spell(r, o, None if t == 'flag' else value(r, o))
                    if r.random() < .5:
                        env[env_name(sc, o)] = value(r, o) or '1'
                    if k < n:
                        av.append('go%d' % k)
                simple_case(g, ti, av, list(env.items()))


def c08(g, tier):
    r = g.r
    crowds(g, tier, 'env')
    c08_deep(g, tier)
    for _ in range(scale(tier, 34, 220)):
        prefix = r.choice(PREFIXES)
        types = r.choice([ALL_TYPES, ['str', 'int', 'float', 'bool', 'flag', 'own'], ['as', 'ai', 'ms', 'mi', 'str']])
        def mk(r, n):
            b = [help_opt()] + env_opts(r, types, r.randint(2, 5), prefix)
            if r.random() < .4:
                p = pos(r.choice(['str', 'int', 'vs', 'vi', 'float']), 'arg%d' % n, required=r.random() < .4)
                env_of(r, p, prefix, defaults=False)
                b.append(p)
            if r.random() < .2:
                o = r.choice(opts_of(b)[1:])
                o['flags'] = o['flags'] + ['REQUIRED']
            return b
        lv = [mk(r, 1)] if r.random() < .6 else tree(r, r.choice([1, 2]), mk, maxlev=5, wide=3)
        ti = g.table(schema(lv, prefix=prefix))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=3, bad=.01, term=.02, optlike=.05, badval=.01, posprob=.3, cmd=.9)
        for _ in range(scale(tier, 22, 50)):
            env = rand_env(r, sc, prob=r.choice([.3, .6, .9]))
            simple_case(g, ti, a.make(), env)
        for _ in range(3):
            simple_case(g, ti, a.make())
    # an integer literal as default of a float option
    o = opt('float', 'r', 'ratio', raw=['DEFAULT(3)'])
    o['def'] = 'f:3e1'
    o['raw_def'] = True
    ti = g.table(schema([[help_opt(), o]]))
    g.case(ti, [P([]), Q('ratio')], kf='kf-float-intdefault')
    # long names (put together from a prefix they are cut at 127 bytes: kf-env-name-128)
    for n in (100, 125, 127, 128, 129, 200):
        ti = g.table(schema([[help_opt()] + ([opt('int', 'n', 'num', env='V' * n)] if n < 126 else []) + [opt('int', 'm', 'mum', env='V' * n, flags=['NO_ENV_PREFIX'])]], prefix='P' if n < 126 else ''))
        nm = ('P_' if n < 126 else '') + 'V' * n
        simple_case(g, ti, [], [(nm, '7'), ('V' * n, '8')][:1 if n >= 126 else 2])
    ti = g.table(schema([[help_opt(), opt('int', 'n', 'num', env='V' * 150)]], prefix='P'))
    g.case(ti, [P([], [('P_' + 'V' * 150, '7')]), Q('num')], kf='kf-env-name-128')
    edited_values(g, tier, ALL_OPT if tier != 'quick' else r.sample(ALL_OPT, 5), 'env')
    # every source combination for every type, once
    for t in ALL_TYPES:
        for ovr in (False, True):
            for dflt in (False, True):
                if dflt and t not in ('str', 'int', 'float', 'bool'):
                    continue
                o = opt(t, 'o', 'opt', env='VAR', flags=['ENV_OVERRIDE'] if ovr else [])
                if dflt:
                    o['def'] = {'str': 's:d', 'int': 'i:7', 'float': canon('2.5'), 'bool': 'b:1'}[t]
                ti = g.table(schema([[help_opt(), o]], prefix=r.choice(['', 'PFX'])))
                sc = g.schemas[ti]
                for cli in (False, True):
                    for env in (0, 1, 2, 3):
                        if env == 3 and (t in COLL or t == 'own'):
                            continue
                        av = spell(r, o, None if t == 'flag' else value(r, o)) if cli else []
                        e = [(env_name(sc, o), '' if env == 3 else value(r, o, env == 1) or '1')] if env else []
                        simple_case(g, ti, av, e)


# ---- C09 ----
def near(r, x):
    return str(int(x) + r.choice([-1, 0, 1, 0, 2**32, -2**32]))


def clampi(x):
    return str(max(-2**63, min(2**63 - 1, int(x))))


def rand_range(r):
    k = r.random()
    if k < .1:
        a = r.choice([0, 0, -1, 1, -7]); b = a + r.choice([0, 0, 1])
    elif k < .5:
        a = r.randint(-50, 50); b = a + r.randint(0, 60)
    elif k < .8:
        a = r.choice([-2**31, 2**31 - 1, 2**32, -2**32, 0, -1, 2**33]); b = a + r.choice([0, 1, 10, 2**31, 2**32])
    else:
        a, b = r.choice([(-2**63, 2**63 - 1), (-2**63, 0), (0, 2**63 - 1), (2**62, 2**63 - 1), (5, 5), (10, 3)])
    return a, min(b, 2**63 - 1)


def small_bounds(r):
    if r.random() < .3:
        return r.choice([(0, 0), (0, 0), (0, 1), (1, 1), (2, 2), (0, 255), (0, 256), (1, 300)])
    lo = r.randint(0, 4)
    return lo, lo + r.randint(0, 5)


def text_of(r, n):
    """a text of n characters, often with blanks or punctuation at its ends"""
    if not n or r.random() < .5:
        return 'x' * n
    a = r.choice([0, 0, 1, n - 1, r.randint(0, n)])
    b = r.randint(0, n - a)
    return r.choice([' ', ' ', '0', '.', '"', '=']) * b + 'x' * (n - a - b) + r.choice([' ', ' ', '0', '.', '"', ',']) * a


def hair(r, x):
    """a number a little beside x, exact in fifteen digits"""
    x = Decimal(x)
    room = 15 - len(str(abs(int(x))))
    t = format(x + r.choice([-1, 1]) * r.choice([1, 1, 2, 9]) * Decimal(10) ** -r.randint(1, max(1, room - 1)), 'f')
    return t


def vopt(r, i):
    """an option with validators and a function making interesting values"""
    t = r.choice(['int', 'int', 'int', 'float', 'float', 'str', 'str', 'cint', 'cflt', 'cfar', 'coll', 'coll', 're', 'strre', 'intre'])
    s, l = 'abcdefgij'[i], ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota'][i]
    if t == 'int':
        a, b = rand_range(r)
        vs = [v_range(a, b)]
        if r.random() < .3:
            a2, b2 = rand_range(r)
            vs.append(v_range(a2, b2))
        if r.random() < .2:
            vs.append(v_choice_int(*[int(clampi(near(r, a))) for _ in range(2)]))
        return opt('int', s, l, vals=vs), lambda: clampi(near(r, r.choice([a, b, (a + b) // 2, a, b])))
    if t == 'float':
        a = r.randint(-20, 20); b = a + r.randint(0, 30)
        if r.random() < .2:
            a, b = r.choice([(0, 0), (-1, 0), (0, 1), (-3, -3), (2**31, 2**33), (-2**40, 2**40), (2**24 + 1, 2**33 + 1), (-2**24 - 1, 123456789), (-987654321, -2**25 - 3), (2**33 + 1, 2**40 + 1)])
        o = opt('float', s, l, vals=[v_range(a, b)])
        return o, lambda: r.choice(['%d' % a, '%d.0' % b, '%d.5' % b, '%d.25' % a, '%d.75' % (a - 1), '-%d.5' % abs(a), '%s' % (b + 0.001), '%s' % (a - 0.001), '%de0' % b, '0.5', '-0.5', '1e9', '%d.999' % (b - 1) if b > 0 else '0', hair(r, a), hair(r, b), hair(r, r.choice([a, b]))])
    if t == 'str':
        lo, hi = small_bounds(r)
        vs = [v_length(lo, hi)]
        if r.random() < .3:
            vs.append(v_choice_str(*r.sample(['red', 'green', 'blue', 're', 'reddish', '', 'a b'], 3)))
            return opt('str', s, l, vals=vs), lambda: r.choice(['red', 'green', 'blue', 're', 'reddish', 'Red', '', 'a b', 'blu'])
        return opt('str', s, l, vals=vs), lambda: text_of(r, max(0, r.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 200, 256 + lo])))
    if t == 'cfar':
        f = family(r, r.choice([4, 8, 16, 31, 32, 64, 128, 255]), ' .,')
        cs_ = r.sample(f, r.randint(1, 3))
        return opt('str', s, l, vals=[v_choice_str(*cs_)]), lambda: r.choice([r.choice(cs_), r.choice(cs_).swapcase(), r.choice(f), r.choice(f) + ' ', ' ' + r.choice(cs_)])
    if t == 'cint':
        cs_ = r.sample([0, 1, -1, 5, 10, 2**32, 2**32 + 5, -2**63, 2**63 - 1, 42, 100], r.randint(1, 4))
        return opt('int', s, l, vals=[v_choice_int(*cs_)]), lambda: clampi(near(r, r.choice(cs_)))
    if t == 'cflt':
        cs_ = r.sample(['1.5', '2.5', '0.25', '-1.0', '10.0'], r.randint(1, 3))
        return opt('float', s, l, vals=[v_choice_float(*cs_)]), lambda: r.choice(['1.5', '2.5', '0.25', '-1', '10', '1.51', '15e-1', '1', '2', '0.2500', '10.5', '-1.5', hair(r, cs_[0]), hair(r, cs_[-1])])
    if t == 'coll':
        vt = r.choice(['as', 'ai', 'af', 'ms', 'mi', 'as', 'ai'])
        lo, hi = small_bounds(r)
        hi = min(hi, 20)
        if vt == 'ai' and r.random() < .12:
            lo, hi = r.choice([(1, 3), (0, 10), (250, 256), (256, 300), (0, 257), (1, 255)])
            if r.random() < .5:
                return opt(vt, s, l, vals=[v_count(lo, hi)]), lambda: '1-%d' % max(1, r.choice([lo - 1, lo, lo + 1, hi, hi + 1, 255, 256, 257, 258, 256 + hi]))
        o = opt(vt, s, l, vals=[v_count(lo, hi)], flags=r.choice([[], ['UNIQUE'], ['SORTED']]) if vt[0] == 'a' else [])
        def mk():
            n = max(0, r.choice([lo - 1, lo, lo + 1, hi, hi + 1]))
            if not n:
                return ','
            if vt in MAPS:
                return ','.join('k%d=%d' % (j if r.random() < .9 else 0, j) for j in range(n))
            if vt == 'ai' and r.random() < .5:
                return '1-%d' % n
            return ','.join('%d' % (j if r.random() < .8 else 0) for j in range(n))
        return o, mk
    if t == 're' and r.random() < .4 or t == 'strre' and r.random() < .3:
        p = r.choice(['issue', 'switch', 'capital', 'has-x'])
        good = {'issue': ['fix #12', 'a #1', 'bug #' + '7' * r.choice([1, 240, 260, 300]), 'x' * r.choice([9, 250, 300]) + ' #3'], 'switch': ['on', 'off', '12', '123', '1234'], 'capital': ['A', 'Abc', 'Z' + 'z' * r.choice([1, 100, 254, 255, 256, 400])],
                'has-x': ['x1', 'ax2b', 'xx3', 'a' * r.choice([3, 200, 253, 254, 255, 300]) + 'x5']}[p]

        def mk():
            v = r.choice(good)
            k = r.random()
            if k < .4:
                return v
            i = r.choice([0, len(v) - 1, len(v), r.randrange(len(v))])
            return v[:i] + r.choice(['', ' ', 'x', 'B', '7', '#']) + v[i + r.choice([0, 1, 1]):]
        vs = [v_regex(p)]
        if r.random() < .2:
            vs.append(v_length(0, r.choice([3, 5, 255, 256])))
        return opt('str', s, l, vals=vs), mk
    if t == 'strre':
        o = opt('str', s, l, vals=[v_regex(r.choice(['digits', 'abc3', 'kv', 'opt-a-b'])), v_length(0, r.randint(1, 4))])
        return o, lambda: r.choice(['123', '12345', 'abc', 'abcd', 'ab', 'a=1', 'abc=12', 'a', 'b', '', '12a', 'xabc', 'ABC', 'a1', '1', 'k=v', 'ba', 'a=1x', '=1'])
    if t == 'intre':
        o = opt(r.choice(['int', 'ai', 'as', 'float']), s, l, vals=[v_regex('digits')])
        return o, lambda: r.choice(['1', '12', '+1', '-1', ' 1', '1.0', '007', '1,2', '12x', '0'])
    o = opt('str', s, l, vals=[v_regex(r.choice(['digits', 'abc3', 'kv', 'opt-a-b']))])
    return o, lambda: r.choice(['123', '12345', 'abc', 'abcd', 'ab', 'a=1', 'abc=12', 'a', 'b', 'aa', '', '12a', 'xabc', 'ABC', 'zz9', 'a=b', 'abc ', ' abc', 'aabc', 'b=22', '9'])


def c09_lists(g, tier):
    """lists of up to seven validators in any order: each must count, whatever its place"""
    r = g.r
    for t in ('int', 'float', 'str', 'coll'):
        for _ in range(scale(tier, 4, 30)):
            n, vs, texts, env = r.randint(2, 7), [], [], ''
            if t in ('int', 'float'):
                for k in r.sample(range(1, 9), n):
                    lo, hi = r.choice([(-10 * k, 100), (-100, 10 * k), (-10 * k - 1, 10 * k), (0, 10 * k), (-100, 100)])
                    v = v_range(lo, hi)
                    x = r.random()
                    if x < .12:
                        v = v_regex('digits')
                    elif x < .25 and t == 'int':
                        v = v_choice_int(*r.sample(range(-5, 100), 70))
                    vs.append(v)
                    texts += [str(y) for b in (lo, hi) for y in (b - 1, b, b + 1)]
                texts += ['0', '5', '-5', '50', '101']
                if t == 'float':
                    texts += [x + f for x in texts for f in ('.0', '.5')]
            elif t == 'str':
                vs = [v_length(*r.choice([(k, 9), (1, k), (0, k + 3), (k // 2, k)])) for k in r.sample(range(1, 9), n)]
                for _ in range(r.choice([0, 1, 1, 2])):
                    vs[r.randrange(n)] = r.choice([v_regex('digits'), v_regex('opt-a-b'), v_regex('kv'), v_choice_str('1', '12', '1234', '12345', '1234567', 'a', 'ab', 'a=1', '')])
                texts = ['1234567890'[:k] for k in range(11)] + ['a' * k for k in range(11)] + ['a=' + '1' * k for k in range(9)] + ['ab', 'b', '']
            else:
                vs = [v_count(*r.choice([(k, 9), (1, k), (0, k + 3), (k // 2, k)])) for k in r.sample(range(1, 9), n)]
                if r.random() < .3:
                    vs[r.randrange(n)] = v_regex('digits')
                texts = [','.join(str(j) for j in range(k)) for k in range(1, 11)] + ['%d' % (j ** 9) for j in range(5)]
            via = r.choice(['long', 'long', 'pos', 'env'])
            vt = t if t != 'coll' else r.choice(['ai', 'as'] if via != 'pos' else ['vi', 'vs'])
            if via == 'pos' and t == 'coll':
                texts = ['1', '12', '-3']
            o = pos(vt, 'val', vals=vs) if via == 'pos' else opt(vt, 'v', 'val', vals=vs)
            if via == 'env':
                o['env'] = env = 'VAL_ENV'
            ti = g.table(schema([[help_opt(), o]]))
            batches(g, ti, 'val', texts, via=via, env=env)
            for x in r.sample(texts, min(4, len(texts))):
                g.case(ti, [P(['--', x] if via == 'pos' else ['--val', x] if via == 'long' else [], [(env, x)] if env else []), Q('val')])


def c09_much(g, tier):
    """long lists of choices and of validators; bounds on large counts and lengths"""
    r = g.r
    for n in r.sample([16, 17, 32, 33, 64, 65, 100, 128], 2) + r.sample([129, 255, 256, 257, 300], 1):
        words = ['%s%d' % (r.choice(STEMS), i) for i in range(n)]
        nums = [(i * 37 + 5) % 1009 - 300 for i in range(n)]
        vs = {'str': v_choice_str(*words), 'int': v_choice_int(*nums), 'float': v_choice_float(*['%d.5' % x for x in nums])}
        for t, texts in (('str', [words[-1], words[0], words[-2], words[n // 2], words[-1] + '0', words[n // 2][:-1], 'job%d' % n] + r.sample(words, 6)),
                         ('int', [str(x) for x in [nums[-1], nums[0], nums[-2], nums[n // 2], nums[-1] + 1, 5000, n] + r.sample(nums, 6)]),
                         ('float', ['%d.5' % x for x in [nums[-1], nums[0], nums[-2], nums[n // 2], 5000, n] + r.sample(nums, 6)] + ['%d' % nums[0]])):
            ti = g.table(schema([[help_opt(), opt(t, 'v', 'val', vals=[vs[t]]), pos(t, 'arg', required=False, vals=[vs[t]])]]))
            batches(g, ti, 'val', texts, 8)
            batches(g, ti, 'arg', [x for x in texts if x[0] != '-'], 8, via='pos')
    for n in (12, 20, 40):
        for bad in sorted({0, n - 1, r.randrange(n)}):
            vs = [v_range(-1000 - i, 1000 + i) for i in range(n)]
            vs[bad] = v_range(0, 10)
            ti = g.table(schema([[help_opt(), opt('int', 'v', 'val', vals=vs)]]))
            batches(g, ti, 'val', ['5', '10', '11', '-1', '0', '999', '1001', '-1000', '-1001'])
            vs = [v_length(0, 100 + i) for i in range(n)]
            vs[bad] = r.choice([v_length(3, 4), v_regex('abc3')])
            ti = g.table(schema([[help_opt(), opt('str', 'v', 'val', vals=vs)]]))
            batches(g, ti, 'val', ['abc', 'abcd', 'ab', 'a' * 100, 'a' * 101, '123'])
    for n in r.sample([127, 128, 129, 200], 1) + r.sample([255, 256, 257, 300], scale(tier, 1, 3)):
        for vt in ('ai', 'as', 'mi', 'vs'):
            lo, hi = r.choice([(n, n), (1, n), (n, n + 50), (0, n - 1), (n + 1, n + 100)])
            o = pos(vt, 'args', required=False, vals=[v_count(lo, hi)]) if vt == 'vs' else opt(vt, 'l', 'list', vals=[v_count(lo, hi)])
            ti = g.table(schema([[help_opt(), o]]))
            for k in (n - 1, n, n + 1, n % 128, n % 256, 1):
                ws = {'ai': [str(i) for i in range(k)], 'mi': ['k%d=%d' % (i, i) for i in range(k)]}.get(vt, ['w%d' % i for i in range(k)])
                if not k:
                    continue
                g.case(ti, [P(['--'] + ws if vt == 'vs' else ['--list=' + ','.join(ws[:k // 2]), '-l', ','.join(ws[k // 2:])] if k > 1 else ['--list=' + ws[0]])])
        ti = g.table(schema([[help_opt(), opt('str', 's', 'str', vals=[v_length(*r.choice([(n, n), (0, n), (n, n + 100)]))])]]))
        batches(g, ti, 'str', ['q' * k for k in (n - 1, n, n + 1, n % 256, n % 128, n + 256, n + 128) if k > 0])
    # exact bounds of every size, and what lies a hair beside them
    bs = [0, 1, -1, 7, 255, 2**15, 2**16 + 1, 2**24 + 1, -2**24 - 1, 123456789, 2**31 - 1, 2**31, -2**31 - 1, 2**32 + 1, 2**33 + 1, -2**40 - 1, 10**12 + 1]
    for _ in range(scale(tier, 6, 30)):
        lo, hi = sorted(r.sample(bs, 2))
        ti = g.table(schema([[help_opt(), opt('float', 'd', 'dbl', vals=[v_range(lo, hi)]), opt('int', 'i', 'int', vals=[v_range(lo, hi)]), pos('float', 'arg', required=False, vals=[v_range(lo, hi)])]]))
        fs = [t for b in (lo, hi) for t in [str(b), '%d.0' % b, str(b - 1), str(b + 1)] + [hair(r, b) for _ in range(5)]]
        batches(g, ti, 'dbl', fs)
        batches(g, ti, 'arg', fs, via='pos')
        batches(g, ti, 'int', [str(b + d) for b in (lo, hi) for d in (-1, 0, 1, 2**8, -2**8, 2**16, -2**16, 2**32, -2**32)])
    for n in r.sample([32767, 32768, 33000], 1) + r.sample([65535, 65536, 65537, 66000], 1):
        for vt in r.sample(['ai', 'as', 'af', 'vs', 'vi'], 2):
            for lo, hi in [(n, n), (0, n - 1), (n + 1, n + 9)] + r.sample([(1, n), (0, n % 32768 + 9), (n - 1, n + 1), (0, 32767), (0, 65535)], 2):
                o = pos(vt, 'much', required=False, vals=[v_count(lo, hi)]) if vt[0] == 'v' else opt(vt, 'm', 'much', vals=[v_count(lo, hi)])
                g.case(g.table(schema([[help_opt(), o]])), [MUCH(r, 'much', n, 1, 'args' if vt[0] == 'v' else 'long')])
        for lo, hi in [(n, n), (0, n - 1), (n + 1, n + 9), r.choice([(0, n % 32768 + 9), (1, n), (0, 32767), (0, 65535)])]:
            ti = g.table(schema([[help_opt(), opt('str', 's', 'str', vals=[v_length(lo, hi)])]]))
            g.case(ti, [P(['--str', 'q' * n])])


def c09_deep(g, tier):
    """chains of two to five commands with one validated option each; one invalid value at a time"""
    r = g.r
    for d in (1, 2, 3, 4):
        for _ in range(scale(tier, 2, 8)):
            lv, fs = [], []
            for k in range(d + 1):
                o, f = vopt(r, k)
                if r.random() < .5:
                    o, f = opt('int', 'abcdef'[k], 'opt%d' % k, vals=[v_range(0, 10)]), lambda: r.choice(['5', '11', '-1', '10'])
                if r.random() < .3:
                    o['env'] = 'VAR%d' % k
                fs.append(f)
                lv.append([help_opt(), o] + ([sub('go%d' % k, k + 2)] if k < d else []))
            ti = g.table(schema(lv))
            for _ in range(scale(tier, 12, 30)):
                av, env = [], []
                n = d if r.random() < .8 else r.randint(0, d)
                only = r.randint(0, n) if r.random() < .7 else None
                for k in range(n + 1):
                    if k == only or only is None and r.random() < .4:
                        v = fs[k]()
                        if lv[k][1]['env'] and r.random() < .4:
                            env.append((lv[k][1]['env'], v or '1'))
                        else:
                            av += spell(r, lv[k][1], v)
                    if k < n:
                        av.append('go%d' % k)
                g.case(ti, [P(av, env)])


def c09(g, tier):
    r = g.r
    c09_much(g, tier)
    c09_deep(g, tier)
    c09_lists(g, tier)
    for _ in range(scale(tier, 60, 420)):
        def mk(r, n):
            b = [help_opt()]
            for i in range(r.randint(1, 4)):
                o, f = vopt(r, i)
                o['_f'] = f
                if r.random() < .35:
                    o['env'] = 'V%d_%d' % (n, i)
                if r.random() < .2 and o['vt'] == 'int':
                    o['def'] = 'i:%d' % r.choice([0, 1, 5, -3, 2**32, 100])
                if r.random() < .2 and o['vt'] == 'str':
                    o['def'] = 's:' + (f() or 'q')
                b.append(o)
            if r.random() < .3:
                o, f = vopt(r, 8)
                if o['vt'] in ('int', 'float', 'str'):
                    p = pos(o['vt'], 'arg', required=r.random() < .5, vals=o['vals'])
                    p['_f'] = f
                    b.append(p)
            elif r.random() < .4:
                lo = r.randint(0, 3)
                p = pos(r.choice(['vs', 'vi']), 'args', required=False, vals=[v_count(lo, lo + r.randint(0, 2))])
                p['_f'] = None
                b.append(p)
            return b
        lv = [mk(r, 1)] if r.random() < .6 else tree(r, r.choice([1, 2, 3, 4]), mk, maxlev=5, wide=r.choice([1, 1, 2]))
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        for _ in range(scale(tier, 20, 45)):
            av, env, lev = [], [], 1
            dens = r.choice([.15, .3, .6])
            while lev:
                b = lv[lev - 1]
                dd = False
                for o in r.sample(b, len(b)):
                    if o['k'] == 'opt' and '_f' in o:
                        k = r.random()
                        if k < dens:
                            av += spell(r, o, o['_f']())
                            if k < dens / 7:
                                av += spell(r, o, o['_f']())
                        if o['env'] and r.random() < dens:
                            env.append((o['env'], o['_f']() or '1'))
                for o in b:
                    if o['k'] == 'pos' and r.random() < .7:
                        if not dd:
                            av.append('--')
                            dd = True
                        av += [o['_f']()] if o['_f'] else ['%d' % j for j in range(r.randint(0, 5))]
                subs = [o for o in b if o['k'] == 'sub']
                lev = 0
                if subs and r.random() < .85 and not dd:
                    o = r.choice(subs)
                    av.append(o['name'])
                    lev = o['sub']
            g.case(ti, [P(av, env)])


# ---- C10 ----
def c10_level(r, n):
    m = r.choice([3, 4, 5, 6, 7, 9])
    nm = [('abcdefgij'[i], ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota'][i]) for i in range(m)]
    if r.random() < .15:        # names that differ late
        nm = list(zip('abcdefgij', r.sample(FARS, m)))
    os_ = []
    for s, l in nm:
        t = r.choice(['flag', 'flag', 'str', 'int', 'as', 'bool'])
        o = opt(t, s, l)
        if r.random() < .12:
            o = opt(t, s, '')
        os_.append(o)
    alln = [o['name'] for o in os_]
    for o in os_:
        others = [x for x in alln if x != o['name']]
        k = r.random()
        if k < .22:
            o['req'] = r.sample(others, r.randint(1, min(r.choice([2, 2, 4]), len(others))))
        elif k < .45:
            o['con'] = r.sample(others, r.randint(1, min(r.choice([2, 2, 4]), len(others))))
        elif k < .52:
            a = r.sample(others, 2)
            o['req'], o['con'] = [a[0]], [a[1]]
        if r.random() < .12:
            o['flags'] = ['REQUIRED']
        if r.random() < .15:
            o['env'] = 'E%d_%s' % (n, o['name'].upper())
    out = [help_opt()]
    i = 0
    while i < len(os_):
        if r.random() < .4:
            k = r.randint(1, 3)
            out.append(grp('Group %d' % i, ['EXCLUSIVE'] if r.random() < .65 else []))
            out += os_[i:i + k]
            i += k
            if r.random() < .6:
                out.append(gend())
            elif r.random() < .5 and i < len(os_):
                out.append(grp('Other %d' % i, ['EXCLUSIVE'] if r.random() < .3 else []))
        else:
            if out[-1]['k'] == 'opt' and any(x['k'] == 'grp' for x in out) and r.random() < .5:
                out.append(gend())
            out.append(os_[i])
            i += 1
    if any(x['k'] == 'grp' for x in out) and out[-1]['k'] != 'end':
        out.append(gend())
    k = r.random()
    if k < .5:
        out.append(pos('str', 'arg%d' % n, required=r.random() < .6))
        if r.random() < .3:
            out.append(pos('int', 'num%d' % n, required=r.random() < .4))
        if r.random() < .3:
            out.append(pos('vs', 'rest%d' % n, required=r.random() < .4))
    return out


def c10_argv(r, sc, dens):
    av, env, lev = [], [], 1
    while lev:
        b = sc['levels'][lev - 1]
        for o in r.sample(b, len(b)):
            if o['k'] == 'opt' and o['h'] != 'help':
                if r.random() < dens:
                    av += spell(r, o, None if o['vt'] == 'flag' else {'int': r.choice(['3', '0']), 'str': r.choice(['v', 'v', '']), 'as': r.choice(['x,y', 'x,y', ',']), 'bool': r.choice(['no', 'yes'])}[o['vt']])
                if o['env'] and r.random() < dens:
                    env.append((o['env'], {'int': '3', 'str': 'v', 'as': 'x,y', 'bool': 'no', 'flag': r.choice(['1', '0'])}[o['vt']]))
            elif o['k'] == 'opt':
                pass
        for o in [o for o in b if o['k'] == 'pos']:
            if r.random() < .85:
                av += ['7'] * (r.randint(1, 3) if o['vt'] == 'vs' else 1)
            else:
                break
        subs = [o for o in b if o['k'] == 'sub']
        lev = 0
        if subs and r.random() < .8:
            o = r.choice(subs)
            av.append(o['name'])
            lev = o['sub']
    return av, env


def c10(g, tier):
    r = g.r
    crowds(g, tier, 'rules')
    c10_long(g, tier)
    c10_deep(g, tier)
    for _ in range(scale(tier, 50, 360)):
        lv = [c10_level(r, 1)] if r.random() < .6 else tree(r, r.choice([1, 1, 2]), c10_level, maxlev=4, wide=2)
        if r.random() < .4:
            for b in lv:       # a satisfiable world: no required options
                for o in b:
                    if o['k'] == 'opt' and o['h'] != 'help':
                        o['flags'] = []
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        for _ in range(scale(tier, 26, 60)):
            av, env = c10_argv(r, sc, r.choice([.1, .2, .3, .5, .8]))
            g.case(ti, [P(av, env)])
    # all subsets of a small table
    for _ in range(scale(tier, 4, 25)):
        b = c10_level(r, 1)
        b = [o for o in b if o['k'] != 'pos']
        os_ = [o for o in b if o['k'] == 'opt' and o['h'] != 'help'][:6]
        b = [o for o in b if o['k'] != 'opt' or o['h'] == 'help' or o in os_]
        keep = {o['name'] for o in os_}
        for o in os_:
            o['req'] = [x for x in o['req'] if x in keep]
            o['con'] = [x for x in o['con'] if x in keep]
            o['env'] = ''
        ti = g.table(schema([b]))
        for m in range(1 << len(os_)):
            av = []
            for i, o in enumerate(os_):
                if m >> i & 1:
                    av += spell(r, o, None if o['vt'] == 'flag' else {'int': '3', 'str': 'v', 'as': 'x', 'bool': '1'}[o['vt']])
            g.case(ti, [P(av)])


def c10_deep(g, tier):
    """chains of two to five commands with one constraint at each of them"""
    r = g.r
    for d in (1, 2, 3, 4):
        for _ in range(scale(tier, 3, 12)):
            lv, kinds = [], []
            for k in range(d + 1):
                t = r.choice(['req', 'con', 'grp', 'must', 'pos', 'none'])
                a, b, c = opt('flag', 'a', 'aa'), opt(r.choice(['flag', 'flag', 'str']), 'b', 'bb'), opt('flag', 'c', 'cc')
                body = [help_opt(), a, b, c]
                if t == 'req':
                    r.choice([a, c])['req'] = ['bb']
                elif t == 'con':
                    r.choice([a, c])['con'] = ['bb']
                elif t == 'grp':
                    body = [help_opt(), c, grp('One', ['EXCLUSIVE']), a, b] + ([gend()] if r.random() < .5 else [])
                elif t == 'must':
                    b['flags'] = ['REQUIRED']
                elif t == 'pos':
                    body.append(pos('str', 'file', required=True))
                if k < d:
                    at = len(body) if t != 'grp' else 1
                    body.insert(at, sub('go%d' % k, k + 2))
                lv.append(body)
                kinds.append(t)
            ti = g.table(schema(lv))
            for _ in range(scale(tier, 14, 40)):
                av = []
                n = d if r.random() < .8 else r.randint(0, d)
                for k in range(n + 1):
                    for o in r.sample('abc', 3):
                        if r.random() < (.75 if o == 'b' and kinds[k] in ('must', 'req') else .3):
                            av += ['-' + o] + (['v'] if o == 'b' and [x for x in lv[k] if x['name'] == 'bb'][0]['vt'] == 'str' else [])
                    if kinds[k] == 'pos' and r.random() < .8:
                        av.append('file')
                    if k < n:
                        av.append('go%d' % k)
                g.case(ti, [P(av)])


def c10_long(g, tier):
    """lists of requirements and conflicts and groups of three to forty members, one member at a time"""
    r = g.r
    for k in [3, 4, 5, 6, 8, 9, 16, 17] + ([33] if tier == 'quick' else [31, 32, 33, 64, 65]):
        nm = ['m%d' % i for i in range(k)]

        def gv(i, vt='flag'):
            return ['--' + nm[i]]
        for kind in ('req', 'con', 'grp', 'must'):
            ms = [opt('flag', '', n) for n in nm]
            x = opt(r.choice(['flag', 'str']), 'x', 'xx')
            xv = ['-x'] if x['vt'] == 'flag' else ['-x', 'v']
            if kind == 'req':
                x['req'] = r.sample(nm, k)
            elif kind == 'con':
                x['con'] = r.sample(nm, k)
            elif kind == 'must':
                for m in ms:
                    m['flags'] = ['REQUIRED']
            body = ([grp('One of', ['EXCLUSIVE'])] + ms + [gend(), x]) if kind == 'grp' else r.choice([ms + [x], [x] + ms, ms[:k // 2] + [x] + ms[k // 2:]])
            deep = r.random() < .4
            lv = [[help_opt(), opt('flag', '', 'top'), sub('go', 2)], [help_opt()] + body] if deep else [[help_opt()] + body]
            ti = g.table(schema(lv))
            pre = ['go'] if deep else []
            every = list(range(k)) if k < 10 or tier != 'quick' else sorted({0, 1, k - 1, k - 2, 7, 8, 9, r.randrange(k)})
            lines = [[], xv, sum((gv(i) for i in range(k)), []), sum((gv(i) for i in range(k)), xv)]
            for i in every:
                lines += [gv(i), gv(i) + xv]
                lines.append(sum((gv(j) for j in r.sample(range(k), k) if j != i), xv if kind == 'req' else []))
                if kind in ('grp', 'con'):
                    lines.append(gv(i) + gv(r.choice([j for j in range(k) if j != i])))
            for av in lines:
                g.case(ti, [P(pre + av)])


def bad_cluster(r, level):
    """flags in one token, then an unknown letter or an option without its value"""
    f = [o['s'] for o in level if o['k'] == 'opt' and o['vt'] == 'flag' and o['s'] and plain(o)]
    v = [o['s'] for o in level if o['k'] == 'opt' and o['vt'] != 'flag' and o['s'] and plain(o)]
    if not f:
        return []
    head = ''.join(r.choice(f) for _ in range(r.randint(1, 4)))
    if v and r.random() < .6:
        return ['-' + head + r.choice(v)]
    return ['-' + head + r.choice('#Z?y%') + r.choice(['', r.choice(f), '='])]


# ---- C11 ----
def mixed_level(r, n, exits=False, cbs=False, posp=.5):
    """options with every kind of reason to fail"""
    b = [help_opt()] + ([version_opt()] if exits or r.random() < .2 else [])
    i = 0
    for s, l in names(r, r.randint(2, 5)):
        t = r.choice(['flag', 'str', 'int', 'float', 'bool', 'as', 'ai', 'mi', 'ms'])
        o = opt(t, s, l)
        k = r.random()
        if k < .25 and t == 'int':
            o['vals'] = [v_range(0, 50)]
        elif k < .25 and t == 'str':
            o['vals'] = [r.choice([v_length(1, 4), v_choice_str('abc', 'x'), v_regex('abc3')])]
        elif k < .35 and t in ('as', 'ai', 'mi', 'ms'):
            o['vals'] = [v_count(1, 3)]
        if cbs or r.random() < .1:
            if r.random() < .4 and t != 'flag':
                o['vals'] = [v_pre('p%d' % i, r.choice(['', 'x', 'abc', '*']), r.choice([40, 12, 55]))] + o['vals']
            if r.random() < .4:
                o['vals'] = o['vals'] + [v_post('q%d' % i, r.choice(['', 'abc', '*']) if t == 'str' else r.choice(['', '', '*']), r.choice([41, 29]))]
        if r.random() < .1:
            o['flags'] = ['REQUIRED']
        if r.random() < .25 and not o['flags']:
            o['env'] = 'L%d_V%d' % (n, i)
        i += 1
        b.append(o)
    os_ = [o for o in b if o['k'] == 'opt' and plain(o)]
    for o in os_:
        if r.random() < .15 and len(os_) > 1:
            o[r.choice(['req', 'con'])] = [r.choice([x['name'] for x in os_ if x is not o])]
    if r.random() < posp:
        b.append(pos(r.choice(['str', 'int']), 'arg%d' % n, required=r.random() < .7, vals=[]))
        if r.random() < .3:
            b.append(pos(r.choice(['vs', 'vi']), 'more%d' % n, required=False))
    return b


def c11(g, tier):
    r = g.r
    crowds(g, tier, 'commands')
    for _ in range(scale(tier, 40, 240)):
        mk = lambda r, n: mixed_level(r, n)
        lv = [mk(r, 1)] if r.random() < .45 else tree(r, r.choice([1, 2, 2]), mk, maxlev=6, wide=3)
        ti = g.table(schema(lv, prog=r.choice(['prog', 'my-tool', 'a'])))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=4, bad=.08, term=.04, optlike=.1, badval=.1, posprob=.3, fill=.7)
        for _ in range(scale(tier, 28, 60)):
            g.case(ti, [P(a.make(), rand_env(r, sc, prob=.4, bad=.2, decoy=0))])
        for _ in range(scale(tier, 2, 5)):
            g.case(ti, [P((a.make() if r.random() < .4 and len(lv) == 1 else []) + bad_cluster(r, lv[0]))])
    for n in (8, 9):
        ti = g.table(deep_table(n))
        g.case(ti, [P(['c%d' % (i + 1) for i in range(n)] + ['--bad'])])
        g.case(ti, [P(['c%d' % (i + 1) for i in range(n)])])


# ---- C12 ----
def c12_level(r, n):
    b = mixed_level(r, n, exits=True, cbs=r.random() < .3)
    if r.random() < .5:
        k = r.random()
        if k < .6:
            b.append(opt('flag', 'X', 'xtra', flags=['EXIT'], h='log'))
        else:
            b.append(opt('str', 'X', 'xtra', flags=['EXIT'], h='log', hbad=r.choice(['', 'bad']), hrc=44))
    b.sort(key=lambda o: {'opt': 0, 'pos': 1}.get(o['k'], 2))
    return b


def c12_deep(g, tier):
    """an exit option of every shape below one to eight commands"""
    r = g.r
    for d in range(1, 9):
        lv = []
        for k in range(d + 1):
            h, v = r.choice([('h', 'help'), ('', 'help'), ('h', '')]), r.choice([('V', 'version'), ('', 'version'), ('V', '')])
            x = opt('flag', h[0], h[1], flags=['EXIT'], h='help')
            y = opt('flag', v[0], v[1], flags=['EXIT'], h='version')
            z = opt('flag', *r.choice([('X', 'xtra'), ('', 'xtra'), ('X', '')]), flags=['EXIT'], h='log')
            b = [x, y, z, opt('flag', 'f', 'flag'), opt('int', 'n', 'num')]
            lv.append(b + [sub('go%d' % k, k + 2)] * (k < d))
        ti = g.table(schema(lv))
        for k in range(d + 1):
            for o in lv[k][:3]:
                av = ['go%d' % i for i in range(k)]
                n = r.choice([x for x in ('-' + o['s'] if o['s'] else '', '--' + o['l'] if o['l'] else '') if x])
                if o['s'] and r.random() < .3:
                    n = '-f' + o['s'] + r.choice(['', 'f', 'Z'])
                if r.random() < .2:
                    av.insert(r.randint(0, len(av)), '-f')
                g.case(ti, [P(av + [n] + r.choice([[], ['go%d' % k], ['--no'], ['-n', 'x']]))])


def c12(g, tier):
    r = g.r
    c12_deep(g, tier)
    for _ in range(scale(tier, 40, 240)):
        lv = [c12_level(r, 1)] if r.random() < .45 else tree(r, r.choice([1, 2]), c12_level, maxlev=6, wide=3)
        ti = g.table(schema(lv, ver=r.choice(['1.2', '', '0.0.1-rc']), desc=r.choice(['A test program', '', 'Many words  in a line'])))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=4, bad=.05, exit=.0, term=.05, optlike=.25, badval=.04, posprob=.25, fill=.5)
        xopts = [['--help'], ['-h'], ['--version'], ['-V'], ['-X', 'z'], ['--xtra'], ['--xtra=bad'], ['-Xbad'], ['-h'], ['--help']]
        for _ in range(scale(tier, 28, 60)):
            av = a.make()
            x = r.choice(xopts)
            k = r.randint(0, len(av))
            av[k:k] = x
            if r.random() < .2:    # inside a cluster
                f = [o['s'] for o in lv[0] if o['k'] == 'opt' and o['vt'] == 'flag' and o['s'] and plain(o)]
                if f:
                    av.insert(0, '-' + ''.join(r.choice(f) for _ in range(r.randint(1, 2))) + r.choice('hV') + ''.join(r.choice(f + ['Z']) for _ in range(r.randint(0, 2))))
            g.case(ti, [P(av, rand_env(r, sc, prob=.3, bad=.3, decoy=0) if r.random() < .4 else ())])


# ---- C22 ----
SOURCES = dict(C11=(14, 24), C10=(14, 22), C09=(24, 14), C03=(8, 12), C04=(10, 12), C05=(10, 12), C06=(8, 14), C08=(8, 12), C20=(6, 12), C02=(5, 10))


def c22_choices(g, tier):
    """lists of choices of every length and width, named by the message"""
    r = g.r
    for n in (1, 2, 3, 5, 9, 17, 33, 64, 65):
        ti = g.table(schema([[help_opt(), opt('int', 'i', 'int', vals=[v_choice_int(*r.sample(range(10**k, 9 * 10**k), min(n, 8 * 10**k)))]),
                              opt('int', 'j', 'wide', vals=[v_choice_int(*[r.choice([-1, 1]) * r.randint(10**17, 2**63 - 1) for _ in range(n)])]),
                              opt('str', 's', 'str', vals=[v_choice_str(*['w%d' % i + 'x' * r.choice([0, 1, 7, 30]) for i in range(n)])]),
                              opt('float', 'd', 'dbl', vals=[v_choice_float(*['%d.5' % r.randint(-9999, 99999) for _ in range(n)])])] for k in [r.choice([1, 2, 5, 10, 15, 17])]]))
        for a, v in (('--int', '5'), ('--wide', '7'), ('--str', 'no'), ('--str', ''), ('--dbl', '0.25'), ('--dbl', '1')):
            g.case(ti, [P([a, v])])


def c22_far(g, tier):
    """messages about long names and long values, and about names and values with odd characters"""
    r = g.r
    for n in r.sample(FAMILY[4:10], 2) + r.sample(FAMILY[10:], 2) + [0, 0]:
        odd = ['a%d', 'b%s', 'c%n', 'd%%', 'e"f', "g'h", 'i\\n', 'j{}', 'k$x', 'l#', 'm&', 'o++', 'p:q', 't*']
        r.shuffle(odd)
        w = (lambda: ''.join(r.choice('abcdefghij') for _ in range(n + r.choice([0, 1, 2])))) if n else odd.pop
        L = ['%s%s' % (x, w()) for x in 'abcdefgh']
        t = [help_opt(), opt('int', 'i', L[0], vals=[v_range(0, 10**18)]), opt('str', 's', L[1], vals=[v_choice_str(w(), w() or 'z')]), opt('ms', 'm', L[2]),
             opt('flag', 'f', L[3], req=[L[2]]), opt('flag', 'g', L[4], con=[L[1]]), opt('float', 'd', L[5]), opt('bool', 'b', L[6]), opt('str', 'r', L[7], vals=[v_regex('digits')])]
        cmds = [w() + 'xa', w() + 'xb']
        pre = w() + 'q' if n else 'q%d'
        two = [grp('One', ['EXCLUSIVE']), opt('flag', 'x', 'x' + w()), opt('flag', 'y', 'y' + (w() if n else 'z')), gend()]
        lv = [t + [sub(c, 2) for c in cmds + [pre + 'a', pre + 'b']], [help_opt()] + two + [pos('int', 'pos' + (w() if n else '%d'))]]
        ti = g.table(schema(lv, prog='prog'))
        big = w() if n else '%s%d%n'
        c = cmds[0]
        avs = [['--' + big], ['--' + L[0]], ['-i'], ['-' + 'Z' + big], [big], ['-i', big], ['-i', '1' * min(n + 3, 300)], ['-i', '7' + big], ['-i', '5' * 19], ['-s', big], ['-m', big], ['-m', 'k=1,' + big], ['-f'], ['-g', '-s', t[2]['vals'][0]['ct'][0]],
               ['-d', big], ['-d', '1' * (n or 3) + 'x'], ['-b', big], ['-r', big], ['-r', '1' + big], ['--%s=%s' % (L[0], big)], ['--%s=%s' % (L[6], big)], [c, '-xy'], [c], [c, '7', big], [c, big], [pre], [c, '--' + big], [c, '--', '1', big]]
        for av in avs:
            g.case(ti, [P(av)])


def c22(g, tier):
    c22_far(g, tier)
    c22_choices(g, tier)
    crowds(g, tier, 'rules')
    crowds(g, tier, 'commands')
    """failures of every kind: command lines of the other checks, on some of their tables"""
    r = g.r
    for k, (nt, nc) in sorted(SOURCES.items()):
        h = G(r.random(), k)
        PROPS[k]['gen'](h, 'quick')
        by = {}
        for c in h.cases:
            if 'kf' not in c and not any(op['op'] == 'use' for op in c['script']):
                by.setdefault(c['sc'], []).append(c)
        for t in r.sample(sorted(by), min(len(by), scale(tier, nt, nt * 3))):
            ti = g.table(h.schemas[t])
            for c in r.sample(by[t], min(len(by[t]), scale(tier, nc, nc * 2))):
                ops = [op for op in c['script'] if op['op'] in ('parse', 'batch', 'free')]
                if ops:
                    g.case(ti, ops)
            lv = h.schemas[t]['levels'][0]
            cl = bad_cluster(r, lv)
            if cl:
                g.case(ti, [P(cl)])


def c13_level(r, n):
    b = [help_opt()]
    for s, l in names(r, r.randint(2, 6)):
        b.append(opt(r.choice(['as', 'ai', 'af', 'ms', 'mi', 'mf', 'mb', 'str', 'int', 'flag', 'as', 'ms', 'own']), s, l))
        if b[-1]['vt'] == 'own':
            b[-1]['hbad'], b[-1]['hrc'] = r.choice(['', 'x', 'bad']), r.choice([43, 12])
    for o in b[1:]:
        if o['vt'] in LISTS and r.random() < .4:
            o['flags'] = r.choice([['SORTED'], ['UNIQUE'], ['SORTED', 'UNIQUE']])
        if o['vt'] in MAPS and r.random() < .4:
            o['flags'] = r.choice([['SORTED_KEY'], ['SORTED_VALUE'], ['UNIQUE_VALUE'], ['UNIQUE_VALUE', 'SORTED_KEY']])
    if r.random() < .5:
        b.append(pos(r.choice(['vs', 'vi', 'vf']), 'rest%d' % n, required=False, flags=r.choice([[], ['UNIQUE'], ['SORTED']])) if r.random() < .8 else pos('own', 'own%d' % n, required=False))
    return b


def c13_refused(g, tier):
    """values that validators of every kind accept and refuse leave nothing behind"""
    r = g.r
    for _ in range(scale(tier, 40, 240)):
        o, f = vopt(r, 0)
        via = r.choice(['long', 'long', 'env'])
        if via == 'env':
            o['env'] = 'VAL_ENV'
        ti = g.table(schema([[help_opt(), o, opt('as', 'w', 'words')]]))
        texts = [f() for _ in range(40)]
        batches(g, ti, o['name'], [x for x in texts if x or o['vt'] == 'str'], via=via, env=o['env'] or '')
        for _ in range(3):
            scr = []
            for _ in range(r.choice([1, 2, 3])):
                scr += [P(['--words', 'some,words', '--%s=%s' % (o['name'], f())] + r.choice([[], ['-w', 'more']])), Q('words'), O('free')] + [O('init')] * (r.random() < .5)
            g.case(ti, scr)


def c13(g, tier):
    r = g.r
    c13_refused(g, tier)
    crowds(g, tier, 'options')
    for _ in range(scale(tier, 36, 240)):
        lv = [c13_level(r, 1)] if r.random() < .5 else tree(r, r.choice([1, 2, 2]), c13_level, maxlev=6, wide=3)
        cons = r.random() < .4
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        if cons:
            for b in lv:
                for o in b:
                    if o['k'] == 'opt' and plain(o):
                        k = r.random()
                        if k < .2:
                            o['env'] = 'E_' + o['name'].upper().replace('-', '_')
                            if r.random() < .5:
                                o['flags'] = o['flags'] + ['ENV_OVERRIDE']
                        elif k < .4 and o['vt'] in COLL:
                            o['vals'] = [v_count(0, 2)]
                        elif k < .5:
                            o['vals'] = [v_pre('p', r.choice(['abc', '']), 40)]
                        elif k < .6:
                            o['con'] = [r.choice([x['name'] for x in b if x['k'] == 'opt' and plain(x)])]
        good = Argv(r, sc, n=6, bad=0, term=.03, optlike=.05, badval=.0, posprob=.3)
        evil = Argv(r, sc, n=7, bad=.05, term=.03, optlike=.05, badval=.12, posprob=.3)
        for _ in range(scale(tier, 16, 40)):
            scr = []
            for k in range(r.choice([1, 1, 2, 3, 4])):
                av = (good if r.random() < .65 else evil).make()
                if r.random() < .06:
                    av.insert(r.randint(0, len(av)), '--help')
                scr.append(P(av, rand_env(r, sc, prob=.4, bad=.1, decoy=0) if cons else ()))
                if r.random() < .8:
                    scr += chain_queries(sc, r, 8)
                for x in ('exec', 'help', 'hascmd', 'usage', 'version'):
                    if r.random() < .2:
                        scr.append(O(x))
                z = r.random()
                if z < .8:
                    scr.append(O('free'))
                    if r.random() < .25:
                        scr.append(O('free'))
                    if r.random() < .25:
                        scr += chain_queries(sc, r, 4)
                    if r.random() < .1:
                        scr += [O(r.choice(['exec', 'help', 'usage', 'hascmd']))]
                    if r.random() < .5:
                        scr.append(O('init'))
            scr.append(O('free'))
            g.case(ti, scr)
    long_history(g, tier, c13_level)


# ---- C14 ----
def c14(g, tier):
    r = g.r
    many(g, tier, ['ai', 'as', 'vf', 'mi', 'ms'] if tier != 'quick' else [r.choice(['ai', 'as', 'af', 'vs', 'vi', 'vf']), r.choice(['ms', 'mi', 'mf', 'mb'])])
    plain_keys = KEYS[:]
    for _ in range(scale(tier, 30, 160)):
        def mk(r, n):
            b = [help_opt()]
            for i, t in enumerate(r.sample(ALL_TYPES, r.randint(4, 9))):
                b.append(opt(t, 'abcdefgij'[i], ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota'][i]))
                if t[0] == 'a':
                    b[-1]['flags'] = r.choice([[], [], ['SORTED'], ['UNIQUE']])
                if t[0] == 'm':
                    b[-1]['flags'] = r.choice([[], [], ['SORTED_KEY'], ['UNIQUE_VALUE'], ['SORTED_VALUE']])
            if r.random() < .7:
                b.append(pos(r.choice(['vs', 'vi', 'vf', 'str']), 'rest', required=False))
            return b
        lv = [mk(r, 1)] if r.random() < .6 else tree(r, r.choice([1, 2]), mk, maxlev=4, wide=2)
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        subs = set(all_cmd_words(sc))
        a = Argv(r, sc, n=8, bad=0, term=.02, optlike=.1, badval=0, posprob=.3)
        for _ in range(scale(tier, 22, 60)):
            if r.random() < .15:
                KEYS[:] = family(r, r.choice([7, 15, 16, 31, 32, 63, 64, 127, 128])) + ['k']
            qs = chain_queries(sc, r, 24) + [Q(p) for p in ('nope', 'alph', 'alphaa', '', 'x.y')]
            r.shuffle(qs)
            g.case(ti, [P(a.make())] + [q for q in qs if q['p'].split('.')[-1] not in subs])
            KEYS[:] = plain_keys


# ---- C15 ----
def c15(g, tier):
    r = g.r
    crowds(g, tier, 'commands')
    for _ in range(scale(tier, 46, 260)):
        mk = lambda r, n: [help_opt(), opt('str', 'n', 'name'), opt('flag', 'v', 'verbose')] + ([pos('vs', 'rest', required=False)] if r.random() < .3 else [])
        lv = tree(r, r.choice([1, 2, 3]), mk, maxlev=9, wide=4, hidden=.15, act=r.choice([.3, .6, .9, 1]))
        some_visible(lv)
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=2, bad=.01, term=.03, optlike=0, badval=0, posprob=.2, cmd=.85)
        for _ in range(scale(tier, 22, 60)):
            scr = [P(a.make()), O('hascmd'), O('exec')]
            if r.random() < .3:
                scr += [O('exec'), O('hascmd')]
            if r.random() < .2:
                scr += [O('free')] + r.choice([[O('init'), O('hascmd'), O('exec')], []]) + [P(a.make()), O('hascmd'), O('exec')]
            elif r.random() < .1:
                scr = [O('hascmd'), O('exec')] + scr
            g.case(ti, scr)


# ---- C17 ----
HWORDS = ['the', 'quick', 'brown', 'fox', 'jumps', 'over', 'a', 'lazy', 'dog', 'value', 'of', 'option', 'configuration-file', 'verbose', 'x', 'output', 'directory/path', '(default)', '100%', '"quoted"']


def longword(r):
    """a word no line can hold"""
    n = r.choice([25, 45, 51, 52, 78, 79, 80, 95, 130, 200])
    return r.choice([lambda: ''.join(r.choice('abcdefghij') for _ in range(n)),
                     lambda: '/'.join(''.join(r.choice('klmnop') for _ in range(r.randint(1, 9))) for _ in range(n // 5)),
                     lambda: '-'.join(''.join(r.choice('qrstuv') for _ in range(r.randint(1, 9))) for _ in range(n // 5)),
                     lambda: ''.join(r.choice('a-b.c_d,e(f)') for _ in range(n))])()


def htext(r, n=None, long=False):
    ws = [longword(r) if long and r.random() < .15 else r.choice(HWORDS) for _ in range(n or r.choice([1, 2, 4, 8, 15, 30, 60]))]
    if r.random() < .1:
        return ''.join(w + r.choice([' ', ' ', ' ', '\n']) for w in ws[:-1]) + ws[-1]
    return ' '.join(ws)


def valtext(v):
    """a validator as the help shows it (lengths only)"""
    t = v['t']
    return v['lo'] + '-' + v['hi'] if t in ('range', 'count') else v['lo'] + '-' + v['hi'] + ' chars' if t == 'length' else '|'.join(v['ct']) if t == 'choice' else v.get('hint') or ('' if t != 'regex' else v['pat'] if len(v['pat']) <= 15 else 'pattern')


def help_level(prefix, long=False):
    def mk(r, n):
        b = [help_opt()] if r.random() < .95 else []
        if r.random() < .3:
            b.append(version_opt())
        ls = [(a, b if len(b) < 30 else 'long-name%d' % i) for i, (a, b) in enumerate(names(r, r.randint(1, 9)))]
        grouped = False
        for s, l in ls:
            t = r.choice(ALL_TYPES)
            o = opt(t, s, l, help=htext(r, None, long))
            k = r.random()
            if t == 'int' and k < .5:
                o['vals'] = r.choice([[v_range(*sorted(r.sample([-5, 0, 1, 10, 65535, 2**40, -2**63, 2**63 - 1], 2)))], [v_choice_int(1, 2, 3)], [v_range(0, 5), v_choice_int(1, 2)], [v_choice_int(*range(10, 19))]])
            elif t == 'str' and k < .5:
                o['vals'] = r.choice([[v_length(1, 9)], [v_choice_str('red', 'green', 'blue')], [v_choice_str('with space', 'b')], [v_regex(r.choice(['digits', 'few', 'kv', 'more', 'issue']))], [v_regex('kv', 'KEY=NUM')], [v_regex('digits', 'a long hint with many words')],
                                      [v_length(2, 8), v_regex('abc3')], [v_regex(r.choice(list(PREDEF)))], [v_choice_str(*['choice%d' % i for i in range(4)])]])
            elif t == 'float' and k < .5:
                o['vals'] = r.choice([[v_range(0, 100)], [v_choice_float('1.5', '2.0', '12.75')]])
            elif t in COLL and k < .4:
                o['vals'] = [v_count(1, r.choice([3, 10, 99]))]
            if long and t in ('str', 'int', 'float') and r.random() < .15:
                n = r.choice([8, 40, 90, 150])
                o['vals'] = [{'str': lambda: v_choice_str(*['%s%d' % (r.choice(['choice', 'x', 'some-word-']), i) for i in range(n)]), 'int': lambda: v_choice_int(*[r.randint(-2**63, 2**63 - 1) for _ in range(n)]),
                              'float': lambda: v_choice_float(*['%d.5' % i for i in range(n)])}[t]()]
                if t != 'float' and r.random() < .3:
                    o['vals'].append(v_length(0, 300) if t == 'str' else v_range(-2**63, 2**63 - 1))
            if t in ('str', 'int', 'float', 'bool') and r.random() < .35:
                o['def'] = {'str': lambda: 's:' + r.choice(['abc', 'two words', '/etc/x', 'x', ' '.join(r.choice(HWORDS) for _ in range(r.choice([5, 20, 60])))]), 'int': lambda: 'i:%d' % r.choice([0, 8080, -3, 2**40]), 'float': lambda: canon(r.choice(['1.5', '-2.25', '0.5', '1000.0', '0.75', '-1e15', '1e15'])), 'bool': lambda: r.choice(['b:0', 'b:1'])}[t]()
            if t != 'flag' and r.random() < .25:
                o['hint'] = r.choice(['FILE', 'N', 'SOMETHING', 'a-b', 'X Y', 'A_VERY_LONG_HINT_TEXT_FOR_VALUE', '|'.join(['one-of-several'] * r.randint(3, 12))])
            if r.random() < .25:
                o['env'] = r.choice(['VAR', 'APP_VAR', 'LONG_ENVIRONMENT_NAME'])
            elif r.random() < .2:
                o['flags'] = o['flags'] + ['AUTO_ENV']
            for f, pr in (('NO_ENV_PREFIX', .1), ('HIDDEN', .12), ('REQUIRED', .1), ('DEPRECATED', .1), ('EXPERIMENTAL', .1)):
                if r.random() < pr:
                    o['flags'] = o['flags'] + [f]
            if r.random() < .18:
                b.append(grp(r.choice(['Network', 'Output options', 'Misc', 'Network', 'Output option', 'Output', 'Network settings', 'network', 'Output options of this'])))
                grouped = True
            elif grouped and r.random() < .15:
                b.append(gend())
                grouped = False
            b.append(o)
        if grouped:
            b.append(gend())
        for i in range(r.choice([0, 0, 1, 2, 3])):
            p = pos(r.choice(['str', 'int', 'float', 'bool']), ['src', 'dst', 'mode-of-operation'][i], required=r.random() < .6, help=htext(r, None, long))
            if p['vt'] == 'int' and r.random() < .5:
                p['vals'] = [v_range(1, 10)]
            if p['vt'] == 'str' and r.random() < .3:
                p['vals'] = [v_choice_str('a', 'b')]
            if r.random() < .2:
                p['env'] = 'POSVAR'
            b.append(p)
        if r.random() < .3:
            b.append(pos(r.choice(['vs', 'vi', 'vf']), 'files', required=r.random() < .4, help=htext(r, None, long)))
        return b
    return mk


def help_crowd(g, tier):
    """help over very many options, groups, positionals and commands"""
    r = g.r
    for size in r.sample(SIZES[:5], 2) if tier == "quick" else SIZES[:8]:
        os = crowd(r, size, ALL_TYPES, .15)
        lv = [help_opt()]
        open_ = False
        for o in os:
            o['help'] = htext(r, None, False)
            for f, pr in (('HIDDEN', .1), ('REQUIRED', .05), ('DEPRECATED', .05)):
                if r.random() < pr:
                    o['flags'] = o['flags'] + [f]
            if r.random() < .1:
                o['hint'] = r.choice(['FILE', 'N'])
            if r.random() < .3:
                lv.append(grp('Part %d' % r.randint(1, size)))
                open_ = True
            elif open_ and r.random() < .2:
                lv.append(gend())
                open_ = False
            lv.append(o)
        if open_:
            lv.append(gend())
        k = r.random()
        rest = []
        if k < .4:
            lv += [pos(r.choice(['str', 'int']), 'arg%d' % i, required=i < 20, help=htext(r, None, False)) for i in range(40)]
        elif k < .8:
            lv += [sub('cmd%d' % i, i + 2, help=htext(r, None, False), flags=['HIDDEN'] if r.random() < .1 else []) for i in range(40)]
            rest = [[help_opt()] for _ in range(40)]
        ti = g.table(schema([lv] + rest, cfg=dict(w=100, col=r.choice([30, 50]), ind=2, hl=24, sp=r.random() < .3, sq=False)))
        g.case(ti, [P(['--help'])])
        g.case(ti, [O('help'), O('usage')])
        if rest:
            g.case(ti, [P(['cmd39', '--help'])])
            g.case(ti, [P(['cmd20']), O('help'), O('usage')])


def c17(g, tier):
    r = g.r
    help_crowd(g, tier)
    for hl in (40, r.randint(10, 24)):      # patterns and bounds of every length, as hints and behind the text
        os = [opt('str', 'abcdefgijklmnopqr'[i], 'opt%d' % i, vals=[v] + ([v_length(0, 9)] if j else [])) for j in (0, 1) for i, v in enumerate([v_regex(x) for x in sorted(OWN)], 0)]
        for i, o in enumerate(os):
            o.update(s='', l='opt%d' % i, name='opt%d' % i)
        g.case(g.table(schema([[help_opt()] + os], cfg=dict(w=120, col=60, ind=2, hl=hl, sp=True, sq=False))), [O('help')])
    for _ in range(scale(tier, 170, 1500)):
        prefix = r.choice(['', '', 'APP', 'APP_'])
        long = r.random() < .3
        mk = help_level(prefix, long)
        lv = [mk(r, 1)] if r.random() < .5 else tree(r, r.choice([1, 2, 3, 4]), mk, maxlev=r.choice([5, 7]), wide=r.choice([2, 3]), hidden=.2)
        for b in lv:
            ss = [o for o in b if o['k'] == 'sub']
            for o in ss:
                o['help'] = htext(r, None, long)
            if ss and all('HIDDEN' in o['flags'] for o in ss):
                ss[0]['flags'] = []
            if ss:
                b[:] = [o for o in b if o['k'] != 'pos'] if r.random() < .7 else [o for o in b if o['k'] != 'pos' or o['vt'] not in ('vs', 'vi', 'vf')]
        w, col = r.choice([(80, 30), (80, 30), (80, 24), (80, 38), (100, 30), (100, 50), (120, 40), (120, 70)])
        cfg = dict(w=w, col=col, ind=r.choice([2, 2, 4, 1]), hl=r.choice([24, 24, 10, 40]), sp=r.random() < .3, sq=long)
        if r.random() < .4:
            ns = sorted({n for b in lv for o in b for n in [len(valtext(o['vals'][0])) if o['k'] == 'opt' and len(o['vals']) == 1 else 0] if n})
            if ns:
                cfg['hl'] = min(40, max(1, r.choice(ns) + r.choice([-1, 0, 0, 0, 1])))
        sc = schema(lv, prefix=prefix, cfg=cfg, prog=r.choice(['prog', 'my-tool', 'x']), ver=r.choice(['1.2', '', '2.0.0-beta+5']), desc=r.choice(['A test program', '', 'Words ' * 40]))
        ti = g.table(sc)
        words = [[]]
        def walk(l, pre):
            for o in lv[l - 1]:
                if o['k'] == 'sub':
                    words.append(pre + [o['name']])
                    walk(o['sub'], pre + [o['name']])
        walk(1, [])
        r.shuffle(words)
        for w in words[:3]:
            av = []
            for i, x in enumerate(w):
                lvl = sc['levels'][0] if not i else sc['levels'][at - 1]
                at = next(o for o in lvl if o['k'] == 'sub' and o['name'] == x)['sub']
                av.append(x)
            req = any('REQUIRED' in o['flags'] and o['k'] in ('opt', 'pos') for b in lv for o in b)
            hv = '--help' if any(o['l'] == 'help' for o in sc['levels'][at - 1 if w else 0]) else None
            if hv:
                g.case(ti, [P(av + ['--help'])])
            g.case(ti, [P(av), O('help'), O('usage'), O('version')])
        if words[0]:
            g.case(ti, [O('help'), O('usage')])


# ---- C18 ----
def c18_level(r, n):
    b = [help_opt()]
    k = 0
    for s, l in names(r, r.randint(2, 5)):
        t = r.choice(['flag', 'str', 'int', 'str', 'as', 'str', 'mi', 'bool', 'own'])
        o = opt(t, s, l)
        for i in range(r.choice([0, 1, 1, 2, 3]) if r.random() < .96 else r.choice([8, 17, 33])):
            k += 1
            if r.random() < .55:
                o['vals'].append(v_pre('p%d' % k, r.choice(['', '', '', 'x', '3', 'yes', '*' if r.random() < .3 else '']), r.choice([40, 50, 12])))
            else:
                o['vals'].append(v_post('q%d' % k, r.choice(['', '', '', 'x' if t == 'str' else '', '*' if r.random() < .3 else '']), r.choice([41, 51, 19])))
        if r.random() < .15 and t in ('int',):
            o['vals'].append(v_range(0, 100))
        if r.random() < .15 and t in ('str',):
            o['vals'].insert(r.randint(0, len(o['vals'])), v_regex(r.choice(['digits', 'abc3'])))
        if t in ('str', 'flag') and r.random() < .35:
            o['h'] = 'log'
            if t == 'str':
                o['hbad'], o['hrc'] = r.choice(['', '', 'x']), r.choice([43, 53])
        if t == 'own':
            o['hbad'], o['hrc'] = r.choice(['', '', 'x']), r.choice([43, 53])
        if r.random() < .3:
            o['env'] = 'L%d_%s' % (n, o['name'].upper().replace('-', '_'))
            if r.random() < .3:
                o['flags'] = ['ENV_OVERRIDE']
        if t == 'str' and o['h'] == 'std' and r.random() < .15:
            o['def'] = 's:' + r.choice(['x', 'dd'])
        if r.random() < .06:
            o['flags'] = o['flags'] + ['REQUIRED']
        b.append(o)
    if r.random() < .4:
        b.append(pos(r.choice(['str', 'vs']), 'arg%d' % n, required=False, vals=[v_pre('pp%d' % n, r.choice(['', 'x'])), v_post('pq%d' % n)][:r.randint(0, 2)]))
    return b


def looks(r, sc):
    """validators that ask for other options (never their own; defaults are validated before there is a parse)"""
    def paths(l, ch):
        for o in sc['levels'][l]:
            if o['k'] in ('opt', 'pos', 'sub'):
                yield o['name']
                yield '.'.join(ch + [o['name']]) if ch else '.' + o['name']
            if o['k'] == 'sub':
                yield from paths(o['sub'] - 1, ch + [o['name']])
    ps = sorted(set(paths(0, []))) + ['nope', '.', 'go.nope', '']
    for b in sc['levels']:
        for o in b:
            for v in o['vals']:
                if v['t'] in ('pre', 'post') and not o['def'] and r.random() < .6:
                    p = r.choice(ps)
                    if p.split('.')[-1] != o['name']:
                        v['see'] = p


def c18(g, tier):
    r = g.r
    for _ in range(scale(tier, 46, 300)):
        lv = [c18_level(r, 1)] if r.random() < .5 else tree(r, r.choice([1, 2]), c18_level, maxlev=6, wide=3)
        t = schema(lv)
        if r.random() < .6:
            looks(r, t)
        ti = g.table(t)
        sc = g.schemas[ti]
        a = Argv(r, sc, n=5, bad=.03, term=.03, optlike=.03, badval=.02, posprob=.2)
        vals = {'str': ['x', 'dd', 'abc', '12', 'v'], 'own': ['x', 'dd', 'w w'], 'int': ['3', '7', '101'], 'as': ['x', 'a,b'], 'mi': ['k=3'], 'bool': ['yes', 'no'], 'vs': ['x', 'w']}
        a.val = lambda o: r.choice(vals[o['vt']])
        a.posval = lambda o, only: r.choice(vals[o['vt']])
        for _ in range(scale(tier, 26, 60)):
            env = []
            for b in lv:
                for o in b:
                    if o['env'] and r.random() < .4:
                        env.append((o['env'], '1' if o['vt'] == 'flag' else r.choice(vals[o['vt']])))
            g.case(ti, [P(a.make(), env)])


# ---- C19 ----
def c19_level(r, n):
    b = [help_opt()]
    for s, l in names(r, r.randint(2, 6)):
        t = r.choice(['as', 'ai', 'af', 'ms', 'mi', 'mf', 'mb', 'str', 'int', 'as', 'ms', 'ai', 'own', 'flag'])
        o = opt(t, s, l)
        if t in LISTS:
            o['flags'] = r.choice([[], [], ['SORTED'], ['UNIQUE'], ['SORTED', 'UNIQUE']])
        if t in MAPS:
            o['flags'] = r.choice([[], [], ['SORTED_KEY'], ['SORTED_VALUE']])
        if t != 'flag' and r.random() < .3:
            o['env'] = 'O%d_%s' % (n, o['name'].upper().replace('-', '_'))
            if r.random() < .4:
                o['flags'] = o['flags'] + ['ENV_OVERRIDE']
        if t == 'str' and r.random() < .3:
            o['vals'] = [r.choice([v_length(0, 40), v_regex('digits'), v_choice_str('abc', 'x', 'Z9')])]
        b.append(o)
    b.append(pos(r.choice(['vs', 'vi', 'vf']), 'rest%d' % n, required=False))
    return b


def c19_exit(g, tier):
    """memory runs out on the way to the help, or while it is put together"""
    r = g.r
    for i in range(scale(tier, 8, 40)):
        def mk(r, n):
            b = [help_opt()] + ([version_opt()] if r.random() < .5 else [])
            for s, l in names(r, r.randint(3, 8)):
                if r.random() < .3:
                    b.append(r.choice([grp('Group %d' % r.randint(1, 3)), gend()]))
                t = r.choice(['str', 'int', 'float', 'as', 'mi', 'flag'])
                o = opt(t, s, l, r.choice(['some help', 'a rather long text that has to be broken over two lines or more of the help output', 'x']))
                if t == 'str':
                    o['vals'] = r.choice([[], [v_length(1, 5)], [v_regex('digits')], [v_choice_str('abc', 'de')]])
                if t == 'int':
                    o['vals'] = r.choice([[], [v_range(-5, 500)], [v_choice_int(1, 2, 3)]])
                if t == 'as':
                    o['vals'] = r.choice([[], [v_count(0, 5)]])
                if r.random() < .3:
                    o['env'] = 'E%d' % r.randint(1, 9)
                b.append(o)
            return b
        lv = [mk(r, 1)] if r.random() < .5 else tree(r, r.choice([1, 2]), mk, maxlev=4, wide=2)
        ti = g.table(schema(lv))
        a = Argv(r, g.schemas[ti], n=2, bad=0, term=0, optlike=0, badval=0, posprob=0)
        for _ in range(2):
            a.val = lambda o: {'str': 'abc', 'int': '2', 'float': '1.5', 'as': 'a,b', 'mi': 'k=1'}[o['vt']]
            av = a.make() + [r.choice(['-h', '--help', '-h', '-V'])]
            for k in range(1, scale(tier, 60, 150)):
                g.case(ti, [P(av, oom=k)])


def c19(g, tier):
    r = g.r
    c19_exit(g, tier)
    for i in range(scale(tier, 34, 220)):
        lv = [c19_level(r, 1)] if r.random() < .6 else tree(r, r.choice([1, 2]), c19_level, maxlev=4, wide=2)
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        a = Argv(r, sc, n=5 if len(lv) == 1 else 3, bad=0, term=.02, optlike=0, badval=.02, posprob=.3)
        for _ in range(scale(tier, 3, 8)):
            av = a.make()
            if not av:
                continue
            env = [(o['env'], value(r, o)) for b in lv for o in b if o['env'] and r.random() < .5]
            if r.random() < .5:
                o = r.choice([x for x in lv[0] if x['vt'] in COLL])
                if o['k'] == 'opt':
                    av = spell(r, o, ','.join(pair(r, o['vt']) if o['vt'] in MAPS else elem(r, o['vt']) or '1' for _ in range(r.choice([9, 10, 18])))) + av
            for k in range(1, scale(tier, 24, 60)):
                again = [O('free'), O('init')] if r.random() < .7 else []
                g.case(ti, [P(av, env, oom=k)] + chain_queries(sc, r, 7) + again + [P(av, env)] + chain_queries(sc, r, 7) + [O('free')])


# ---- C20 ----
def hexs(r, n):
    return ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(n))


def alnum(r, a, b, extra=''):
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789' + extra) for _ in range(r.randint(a, b)))


def lab(r):
    s = alnum(r, 1, 8, '-')
    return s.strip('-') or 'a'


def dom(r):
    return '.'.join(lab(r) for _ in range(r.randint(1, 3))) + '.' + ''.join(r.choice('abcz') for _ in range(r.randint(2, 4)))


def member(r, p):
    d = lambda a, b: str(r.randint(a, b))
    date = lambda: '%04d-%02d-%02d' % (r.randint(0, 9999), r.randint(1, 12), r.randint(1, 31))
    if p == 'IPV4':
        return '.'.join(str(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, r.randint(0, 255)])) for _ in range(4))
    if p == 'IPV6':
        if r.random() < .4:
            return ':'.join(hexs(r, r.randint(1, 4)) for _ in range(8))
        n = r.randint(0, 7)
        k = r.randint(0, n)
        q = [hexs(r, r.randint(1, 4)) for _ in range(n)]
        return ':'.join(q[:k]) + '::' + ':'.join(q[k:])
    if p == 'DOMAIN': return dom(r)
    if p == 'URL': return r.choice(['http', 'ftp', 'git+ssh', 'x', 'a.b', 'A1']) + '://' + dom(r) + r.choice(['', '/', '/a/b?c=d#e', ':8080/x'])
    if p == 'HTTP': return r.choice(['http', 'https']) + '://' + dom(r) + r.choice(['', '/', '/a/b?c=d', ':80'])
    if p == 'PORT': return d(1, 65535) if r.random() < .6 else r.choice(['1', '65535', '65530', '9', '10', '9999', '10000', '59999', '60000', '64999', '65000', '65499', '65500', '65529'])
    if p == 'EMAIL': return alnum(r, 1, 8, '._%+-') + '@' + dom(r)
    if p == 'EMAIL_STRICT': return alnum(r, 1, 8, ".!#$%&'*+/=?^_`{|}~-") + '@' + '.'.join(lab(r) for _ in range(r.randint(1, 3)))
    if p == 'ISO_DATE': return date()
    if p == 'ISOTIME': return date() + 'T%02d:%02d:%02d' % (r.choice([0, 9, 10, 19, 20, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]))
    if p == 'USER': return alnum(r, 3, 20, '_-')
    if p == 'PASSWD':
        s = alnum(r, 6, 14)
        return r.choice(['a1' + s, s + 'Z9', s[:3] + 'x0' + s[3:]])
    if p == 'UUID': return '%s-%s-4%s-%s%s-%s' % (hexs(r, 8), hexs(r, 4), hexs(r, 3), r.choice('89abAB'), hexs(r, 3), hexs(r, 12))
    if p == 'UNIX_PATH': return '/' + '/'.join(alnum(r, 1, 6, '._-') for _ in range(r.randint(0, 4))) + r.choice(['', '/'])
    if p == 'FILENAME': return alnum(r, 1, 8, '_, -') + '.' + ''.join(r.choice('abcTXT') for _ in range(r.randint(1, 5)))
    if p == 'SEMVER':
        v = lambda: r.choice(['0', '1', '10', '99', '20'])
        s = '.'.join(v() for _ in range(3))
        if r.random() < .5: s += '-' + '.'.join(r.choice(['alpha', 'rc', '0', '1', 'x-y', '0a', 'beta-2', '11', '-', '0-0']) for _ in range(r.randint(1, 3)))
        if r.random() < .4: s += '+' + '.'.join(r.choice(['build', '001', 'x-1', '5', '-']) for _ in range(r.randint(1, 2)))
        return s
    if p == 'POS_INT': return str(r.randint(1, 10**r.randint(1, 15)))
    if p == 'NEG_INT': return '-' + str(r.randint(1, 10**r.randint(1, 15)))
    if p == 'FLOAT': return r.choice(['', '-', '+']) + r.choice(['1', '0.5', '.5', '12.25', '007', '0', '10.0', '99'])
    if p == 'HEX': return '0x' + hexs(r, r.randint(1, 10))
    raise KeyError(p)


def mutate(r, s):
    k = r.random()
    i = r.randint(0, len(s))
    ch = '0123456789abcdefgxzAFGZ.:-_/@+ ,#~%=TtX'
    if k < .3:
        return s[:i] + r.choice(ch) + s[i:]
    if k < .55 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i + 1:]
    if k < .8 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice(ch) + s[i + 1:]
    if k < .87 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i] + s[i:]
    if k < .93:
        return s + s
    if k < .96:
        return r.choice(['x', ' ', '0', '.']) + s
    return s + r.choice(['x', ' ', '.', '0', '99'])


def edges(r, p):
    """texts at the bounds of everything that is counted or ranged in a pattern"""
    A = lambda n: ''.join(r.choice('abcXYZ') for _ in range(n))
    H = lambda n: hexs(r, n)
    out = []
    if p == 'IPV4':
        oct_ = ['0', '1', '9', '10', '19', '99', '100', '199', '200', '249', '250', '254', '255', '256', '259', '260', '299', '300', '999', '00', '01', '007', '055', '1000', '', '-1']
        for i in range(4):
            for o in oct_:
                q = ['1', '22', '133', '4']
                q[i] = o
                out.append('.'.join(q))
        out += ['1.2.3', '1.2.3.4.5', '1..3.4', '1.2.3.4.']
    elif p == 'IPV6':
        for n in range(0, 10):
            out.append(':'.join(H(r.randint(1, 4)) for _ in range(n)))
            for k in range(n + 1):
                q = [H(r.randint(1, 4)) for _ in range(n)]
                out.append(':'.join(q[:k]) + '::' + ':'.join(q[k:]))
                if n:
                    q[r.randrange(n)] = r.choice([H(5), 'g', H(0)])
                    out.append(':'.join(q[:k]) + '::' + ':'.join(q[k:]))
        for n in range(0, 6):
            for i in range(8):
                q = ['1'] * 8
                q[i] = H(n)
                out.append(':'.join(q))
        out += ['::1::', ':::', '1::2::3', ':1:2:3:4:5:6:7', '1:2:3:4:5:6:7:', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8']
    elif p in ('DOMAIN', 'URL', 'HTTP', 'EMAIL', 'EMAIL_STRICT'):
        ds = []
        for n in (1, 2, 62, 63, 64, 65):
            ds += [A(n) + '.com', 'x.' + A(n) + '.org', A(n)]
        for n in range(0, 5):
            ds += ['ab.' + A(n), 'ab.c-d.' + A(n)]
        ds += ['-a.com', 'a-.com', 'a-b.com', 'a--b.com', 'a.-b.com', 'a..com', '.com', 'a.c0m', 'a.com.', 'a_b.com', 'com', '1.com', 'a.b.c.d.ef', 'a.123', 'a.x-', 'a.b1']
        for n in range(245, 260):
            k = (n - 3) // 50
            ds.append(('a' * 49 + '.') * k + 'b' * (n - 50 * k - 4) + '.com' if n - 50 * k - 4 > 0 else 'a.com')
        if p == 'DOMAIN':
            out = ds
        elif p in ('EMAIL', 'EMAIL_STRICT'):
            out = ['u@' + d for d in ds]
            out += [u + '@ab.cd' for u in ['', 'a', 'a.b', '.', '+', '%', '-', '_', 'a b', 'a@b', '"q"', 'a!b', '#', 'a/b', '{x}', '~', '|', '`', '^', '=', '?', "o'k", '*', '$', '&', '(', ')', ',', ';', ':', '<', '[', '\\']]
        else:
            for sch in ['http', 'https', 'HTTP', 'ftp', 'a', '1a', 'a1', 'a+b', 'a-b', 'a.b', 'a_b', '', 'httpss', 'htt']:
                for sep in ['://', ':/', ':', '//', ':///', '']:
                    for rest in ['ab', 'a', '', 'a.b/c', '/a', '$a', '.a', '?a', '#a', 'a/', 'a ', 'a b', 'ab c', ' ab', 'a b.c']:
                        if sep == '://' or r.random() < .2:
                            out.append(sch + sep + rest)
    elif p == 'PORT':
        out = [str(n) for b in (1, 10, 100, 1000, 10000, 60000, 65000, 65500, 65530, 65535, 65536, 70000, 99999, 100000) for n in (b - 1, b, b + 1)]
        out += [str(n) for n in range(0, 70100, 997)] + [str(n) for n in range(65480, 65600, 3)] + ['00', '01', '080', '+80', '-1', '8 0', '65535 ', '1e3']
    elif p in ('ISO_DATE', 'ISOTIME'):
        sfx = '' if p == 'ISO_DATE' else 'T01:02:03'
        two = ['%02d' % n for n in range(0, 100)] + ['0', '1', '9', '001', '012', '', '1x']
        out = ['2024-%s-15%s' % (m, sfx) for m in two] + ['2024-05-%s%s' % (d, sfx) for d in two]
        out += ['%s-01-01%s' % (y, sfx) for y in ('0000', '9999', '1', '12', '123', '12345', '', '-123')]
        out += ['2024%s05%s06%s' % (x, y, sfx) for x in '-/. ' for y in '-/. ']
        if sfx:
            for t in two:
                out += ['2024-05-06T%s:30:30' % t, '2024-05-06T12:%s:30' % t, '2024-05-06T12:30:%s' % t]
            out += ['2024-05-06' + x for x in ('', 'T', 'T12', 'T12:30', 'T12:30:30Z', 'T12:30:30.5', ' 12:30:30', 't12:30:30', 'T12-30-30', 'T12:30:30+02:00')]
    elif p in ('USER', 'PASSWD'):
        for n in range(0, 24):
            out += [alnum(r, n, n), alnum(r, n, n, '_-'), 'a' * n, '1' * n, ('a1' * 12)[:n], ('Z9-_' * 6)[:n], 'a' * (n - 1) + '1' if n else '', '1' * (n - 1) + 'Z' if n else '']
        out += ['a' * n + '7' for n in (30, 64, 100)]
    elif p == 'UUID':
        base = [8, 4, 4, 4, 12]
        for i in range(5):
            for d in (-2, -1, 0, 1, 2):
                q = [H(n) for n in base]
                q[2], q[3] = '4' + q[2][1:], 'a' + q[3][1:]
                q[i] = (q[i] + H(2))[:base[i] + d]
                out.append('-'.join(q))
        for c in '0123456789abcdefABCDEFgG-':
            q = [H(n) for n in base]
            out.append('-'.join([q[0], q[1], c + q[2][1:], '8' + q[3][1:], q[4]]))
            out.append('-'.join([q[0], q[1], '4' + q[2][1:], c + q[3][1:], q[4]]))
        out += ['{%s}' % out[0], out[0].replace('-', ''), out[2].upper(), out[2].lower()]
    elif p == 'UNIX_PATH':
        out = ['/', '//', '/a', '/a/', '/a/b', 'a', 'a/', './a', '~/a', '/a b', '/ ', '/a//b', '/.', '/..', '/a.b-c_d', '/*', '/a\\b', '/' + 'x' * 200]
    elif p == 'FILENAME':
        for n in range(0, 8):
            out += ['file.' + A(n), A(n) + '.txt', 'a.b.' + A(n), A(n) + '.' + A(n)]
        out += ['a b.txt', 'a,b.txt', 'a-b.txt', 'a_b.txt', 'a.t1t', 'a.1', '.txt', 'a.', 'a/b.txt', 'a.tx t', '-.c', ' .c', ',.c', 'a;b.c', 'a+b.c']
    elif p == 'SEMVER':
        for v in ['0', '1', '9', '10', '99', '00', '01', '1a', '', '-1', '100000']:
            out += [v + '.2.3', '1.%s.3' % v, '1.2.' + v]
        for i in ['0', '1', '01', '00', '0a', 'a0', '-', '--', '0-', '-0', 'a.b', 'a.', '.a', 'a..b', 'rc.1', 'rc.01', '1.0', '1.00', '', 'a_b', 'a b', 'x' * 40]:
            out += ['1.2.3-' + i, '1.2.3+' + i, '1.2.3-%s+%s' % (i, i), '1.2.3-a+' + i, '1.2.3-%s+b' % i]
        out += ['1.2', '1', '1.2.3.4', 'v1.2.3', '1.2.3 ', '1.2.3-a+b+c', '1.2.3+b-a']
    elif p in ('POS_INT', 'NEG_INT'):
        for t in ['0', '1', '9', '10', '09', '00', '', '-', '+', '+1', '--1', '1.0', '1e1', ' 1', '1 ', '1' * 30, '9' * 19, '0x1', '1_0', '1,0']:
            out += [t, '-' + t]
    elif p == 'FLOAT':
        for sg in ['', '-', '+', '--', '+-', ' ']:
            for t in ['0', '1', '00', '1.0', '1.', '.5', '.', '', '1.5.2', '1e5', '1.5e-2', '1,5', '0.00', 'inf', 'nan', '1 ', '12345678901234567890.5', '1.' + '9' * 30]:
                out.append(sg + t)
    elif p == 'HEX':
        for pre in ['0x', '0X', '0', 'x', '', '00x', '1x', '-0x', '#']:
            for t in ['0', 'f', 'F', 'g', '', '123', 'abcDEF', '0x1', '1.5', 'a b', 'f' * 40]:
                out.append(pre + t)
    return out


PRINTABLE = ''.join(chr(c) for c in range(32, 127))
CANON = {'IPV4': '192.168.1.254', 'IPV6': '2001:db8:0:1:f:a:22:333', 'DOMAIN': 'my-host.example.org', 'URL': 'git+ssh://host.org/p', 'HTTP': 'https://ab.c/d',
         'PORT': '54321', 'EMAIL': 'a.b+c@d-e.fr.uk', 'EMAIL_STRICT': "a.b'c@d-e.f", 'ISO_DATE': '1999-12-31', 'ISOTIME': '2000-02-29T23:59:59',
         'USER': 'User_na-me9', 'PASSWD': 'secret99', 'UUID': '123e4567-e89b-42d3-a456-426614174000', 'UNIX_PATH': '/usr/lib.x', 'FILENAME': 'my file,1.Txt',
         'SEMVER': '1.20.3-rc.1+b.7', 'POS_INT': '1203', 'NEG_INT': '-905', 'FLOAT': '-12.50', 'HEX': '0x1F9a'}


def c20(g, tier):
    r = g.r
    lv = [help_opt()]
    for i, p in enumerate(PREDEF):
        lv.append(opt('str', '', p.lower().replace('_', '-'), vals=[v_regex(p)]))
    ti = g.table(schema([lv]))
    for i, p in enumerate(PREDEF):
        l = p.lower().replace('_', '-')
        texts = {'', ' ', 'x', '0', '-', '1.2.3.4', '/', 'a@b.cd', 'a' * 64 + '.com', '2024-02-30', '1.0.0', '65536', 'http://ab', 'abc1'}
        texts.update(edges(r, p))
        # every character at every place of one member, every deletion, doubling and swap
        ms = [CANON[p]] + [member(r, p) for _ in range(scale(tier, 0, 4))]
        for m in ms:
            m = m[:40]
            for k in range(len(m) + 1):
                cs_ = PRINTABLE if tier != 'quick' else ''.join(r.sample(PRINTABLE, 25)) + '0.-:@/ _'
                texts.update(m[:k] + c + m[k + 1:] for c in cs_)
                texts.update(m[:k] + c + m[k:] for c in r.sample(PRINTABLE, 12))
                texts.add(m[:k] + m[k + 1:])
                texts.add(m[:k])
                texts.add(m[k:])
                texts.add(m[:k] + m[k:k + 1] * 2 + m[k + 1:])
                texts.add(m[:k] + m[k + 1:k + 2] + m[k:k + 1] + m[k + 2:])
        for k in range(scale(tier, 120, 1500)):
            s = member(r, p)
            for _ in range(r.choice([0, 1, 1, 2])):
                s = mutate(r, s)
            texts.add(s)
        texts = sorted(t for t in texts if len(t) <= 270)
        r.shuffle(texts)
        for k in range(0, len(texts), 60):
            g.case(ti, [B(l, texts[k:k + 60])])
        g.case(ti, [P(['--%s' % l, texts[0]]), Q(l)])
    g.case(ti, [O('strerror')])


# ---- C16 ----
OPT_FL = ['REQUIRED', 'HIDDEN', 'ADVANCED', 'DEPRECATED', 'EXPERIMENTAL', 'EXIT', 'ENV_OVERRIDE', 'AUTO_ENV', 'NO_ENV_PREFIX']
ALL_FL = OPT_FL + ['SORTED', 'UNIQUE', 'SORTED_KEY', 'SORTED_VALUE', 'UNIQUE_VALUE', 'EXCLUSIVE']


def good_default(r, o):
    """a default, and validators that agree with it"""
    vt = o['vt']
    if vt == 'int':
        n = r.choice([0, 1, -1, 7, 100, 2**31, -2**33, r.randint(-999, 999)])
        o['def'] = 'i:%d' % n
        if r.random() < .6:
            o['vals'] = [r.choice([v_range(n - r.choice([0, 1, 50]), n + r.choice([0, 1, 50])), v_choice_int(n, n + 1), v_choice_int(n + 3, n), v_post('p1')])]
    elif vt == 'float':
        t = r.choice(['0.5', '-2.25', '3', '100.75'])
        o['def'] = canon(t)
        if r.random() < .6:
            f = int(float(t))
            o['vals'] = [r.choice([v_range(f - 1, f + 1), v_choice_float(t, '9.5'), v_choice_float('7.25', t)])]
    elif vt == 'str':
        t = r.choice(['abc', 'hello', 'x', '42', 'a=1'])
        o['def'] = 's:' + t
        if r.random() < .7:
            o['vals'] = [r.choice([v_length(len(t) - r.choice([0, 1]), len(t) + r.choice([0, 3])), v_choice_str(t, 'other'), v_choice_str('one', 'two', t),
                                   v_pre('q1', 'bad text'), v_post('q2', 'bad text')])]
            if t == '42':
                o['vals'].append(v_regex('digits'))
    elif vt == 'bool':
        o['def'] = r.choice(['b:0', 'b:1'])


def bad_default(r, o):
    """a default its validators refuse"""
    vt = o['vt']
    if vt == 'int':
        n = r.choice([0, 5, -5, 2**32])
        o['def'] = 'i:%d' % n
        o['vals'] = [r.choice([v_range(n + 1, n + 9), v_range(n - 9, n - 1), v_choice_int(n + 1, n - 1), v_post('p1', '*')])]
    elif vt == 'float':
        o['def'] = canon('2.5')
        o['vals'] = [r.choice([v_range(3, 9), v_range(-9, 2), v_choice_float('2.25', '3')])]
    elif vt == 'str':
        o['def'] = 's:abc'
        o['vals'] = [r.choice([v_length(4, 9), v_length(0, 2), v_choice_str('ab', 'abcd', 'ABC'), v_regex('digits'), v_pre('q1', 'abc'), v_pre('q1', '*'), v_post('q2', 'abc')])]
    else:
        return False
    if r.random() < .4:       # first or last of several
        extra = v_post('fine') if vt != 'str' else r.choice([v_pre('fine', 'zzz'), v_post('fine'), v_length(0, 50)])
        o['vals'].insert(r.randint(0, 1), extra)
    return True


def def_level(r, n, posn=False):
    """a level that follows every rule"""
    lv = [help_opt()] if r.random() < .8 else [opt('flag', '', 'help', 'Show help message', flags=['EXIT'], h='help')]
    for s, l in names(r, n):
        vt = r.choice(ALL_TYPES)
        o = opt(vt, s, l)
        fl = [f for f in OPT_FL if r.random() < .12]
        if vt in ('as', 'ai', 'af'):
            fl += [f for f in ('SORTED', 'UNIQUE') if r.random() < .4]
        if vt in MAPS:
            fl += [f for f in ('SORTED_KEY', 'SORTED_VALUE', 'UNIQUE_VALUE') if r.random() < .3]
        if 'EXIT' in fl and vt != 'flag':
            fl.remove('EXIT')
        o['flags'] = fl
        if vt in ('int', 'float', 'str', 'bool') and r.random() < .4:
            good_default(r, o)
        elif vt in COLL and r.random() < .3:
            o['vals'] = [v_count(0, 9)]
        lv.append(o)
    os = lv[1:]
    for o in os:
        if r.random() < .25 and len(os) > 2:
            a, b = r.sample([x['name'] for x in os if x is not o], 2)
            o['req'] = [a] if r.random() < .6 else []
            o['con'] = [b] if r.random() < .6 else []
    if len(os) > 2 and r.random() < .5:      # longer lists, partners naming each other
        for o in r.sample(os, r.randint(1, len(os))):
            ns = [x['name'] for x in os if x is not o] + (['help'] if r.random() < .2 else [])
            r.shuffle(ns)
            k, m = r.randint(0, len(ns)), r.randint(0, len(ns))
            o['req'], o['con'] = ns[:k][:3], ns[max(k, m):][:4]
            if r.random() < .5:
                for x in os:
                    if x['name'] in o['con'] and o['name'] not in x['req'] and o['name'] not in x['con']:
                        x['con'] = x['con'] + [o['name']]
                    elif x['name'] in o['req'] and o['name'] not in x['con'] and o['name'] not in x['req']:
                        x['req'] = x['req'] + [o['name']]
    if r.random() < .3 and len(lv) > 3:
        k = r.randint(1, len(lv) - 1)
        lv.insert(k, grp('Group %d' % r.randint(1, 9), ['EXCLUSIVE'] if r.random() < .3 else []))
        lv.append(gend())
    if r.random() < .3:       # help is not always first
        h = lv.pop(0)
        lv.insert(r.randint(0, len(lv)), h)
    if posn:
        nreq = r.randint(0, 2)
        ps = [pos(r.choice(['str', 'int', 'float', 'bool']), 'arg%d' % i) for i in range(nreq)]
        if r.random() < .5:
            for i in range(r.randint(0, 2)):
                p = pos(r.choice(['str', 'int', 'float', 'bool']), 'opt%d' % i, required=False)
                if r.random() < .5:
                    good_default(r, p)
                ps.append(p)
        elif r.random() < .7:
            p = pos(r.choice(['vs', 'vi', 'vf']), 'many', required=r.random() < .6)
            p['flags'] += [f for f in ('SORTED', 'UNIQUE', 'DEPRECATED') if r.random() < .3]
            ps.append(p)
        if r.random() < .3 and ps:
            at = r.randint(0, len(lv))
            lv[at:at] = ps[:1]           # among the options
            ps = ps[1:]
        lv += ps
    return lv


def good_tree(r):
    """levels and the command path of each"""
    levels = []

    def grow(d):
        i = len(levels)
        levels.append(None)
        kids = d > 0 and r.random() < (1 if not i else .7)
        lv = def_level(r, r.randint(0, 4), posn=not kids)
        if kids:
            used = {x for o in lv for x in (o['name'], o['l'])}
            k = [n for n in r.choice(CMD_SETS) if n not in used]
            r.shuffle(k)
            for n in k[:r.randint(1, 3)]:
                if len(levels) < 7:
                    s = sub(n, grow(d - 1), act='go' if r.random() < .3 else '')
                    s['flags'] = [f for f in ('HIDDEN', 'ADVANCED', 'DEPRECATED', 'EXPERIMENTAL') if r.random() < .15]
                    lv.append(s)
        levels[i] = lv
        return i + 1
    grow(r.choice([0, 1, 1, 2, 3]))
    return levels


def put_opt(r, lv, o, before=None):
    """an option at a legal place"""
    k = min([i for i, x in enumerate(lv) if x['k'] == 'sub'] + [len(lv)])
    lv.insert(r.randint(0, k), o)


def fresh(r, lv, vt=None, **kw):
    used = {x for o in lv for x in (o['name'], o['l'], o['s'])}
    l = r.choice([n for n in LONGS + ['extra', 'more'] if n not in used])
    return opt(vt or r.choice(ALL_OPT), '', l, **kw)


def pick(r, lv, *kinds):
    c = [o for o in lv if o['k'] in kinds and not (o['k'] == 'opt' and o['name'] == 'help')]
    return r.choice(c) if c else None


def break_one(r, lv, how):
    """violate one rule at one place of this level; False where it does not apply"""
    o = pick(r, lv, 'opt')
    p = pick(r, lv, 'pos')
    s = pick(r, lv, 'sub')
    subs = [i for i, x in enumerate(lv) if x['k'] == 'sub']
    poss = [i for i, x in enumerate(lv) if x['k'] == 'pos']
    hl = next(x for x in lv if x['name'] == 'help')
    if how == 'nohelp':
        lv.remove(hl)
    elif how == 'help-other-name':
        hl['l'] = hl['name'] = r.choice(['helpme', 'hel', 'usage', 'Help'])
    elif how == 'help-is-command':
        if poss or len(lv) < 2:
            return False
        lv.remove(hl)
        lv.append(sub('help', subs and lv[subs[0] - 1]['sub'] or 0))
    elif how == 'help-is-positional':
        if subs or any(lv[i]['vt'] in ('vs', 'vi', 'vf') or 'REQUIRED' not in lv[i]['flags'] for i in poss):
            return False
        lv.remove(hl)
        lv.append(pos(r.choice(['str', 'int', 'vs']), 'help', required=r.random() < .7))
    elif how == 'help-is-group':
        lv.remove(hl)
        lv[:0] = [grp('help'), gend()]
    elif how == 'empty-name':
        if not p and not s:
            return False
        r.choice([x for x in (p, s) if x])['name'] = r.choice(['', EMPTY])
    elif how == 'short-space':
        put_opt(r, lv, fresh(r, lv, s=' ') if False else opt(r.choice(ALL_OPT), ' ', fresh(r, lv)['l']))
    elif how == 'short-hyphen':
        put_opt(r, lv, opt(r.choice(ALL_OPT), '-', fresh(r, lv)['l']))
    elif how == 'short-dup':
        c = [x for x in lv if x['s']]
        if not c:
            return False
        put_opt(r, lv, opt(r.choice(ALL_OPT), r.choice(c)['s'], fresh(r, lv)['l']))
    elif how == 'long-dup':
        c = [x for x in lv if x['l']]
        n = fresh(r, lv)
        n['l'] = n['name'] = r.choice(c)['l']
        put_opt(r, lv, n)
    elif how == 'name-dup':        # the long name of an option is the name of another entry
        c = [x for x in lv if x['k'] in ('pos', 'sub', 'grp')] + [x for x in lv if x['k'] == 'opt' and not x['l']]
        if not c:
            return False
        n = fresh(r, lv)
        n['l'] = n['name'] = r.choice(c)['name']
        put_opt(r, lv, n)
    elif how == 'pos-dup':
        if not p or p['vt'] in ('vs', 'vi', 'vf'):
            return False
        lv.insert(lv.index(p) + r.randint(0, 1), dict(p))
    elif how == 'sub-dup':
        if not s:
            return False
        k = lv.index(s)
        lv.insert(r.choice([k, len(lv)]), dict(s))
    elif how == 'long-hyphen':
        n = fresh(r, lv)
        n['l'] = n['name'] = r.choice(['-', '--']) + n['l']
        put_opt(r, lv, n)
    elif how in ('long-space', 'long-dot'):
        n = fresh(r, lv)
        k = r.randint(0, len(n['l']))
        n['l'] = n['name'] = n['l'][:k] + (' ' if how == 'long-space' else '.') + n['l'][k:]
        put_opt(r, lv, n)
    elif how == 'long-empty':
        n = opt(r.choice(ALL_OPT), r.choice('QZ'), EMPTY)
        put_opt(r, lv, n)
    elif how == 'no-names':
        put_opt(r, lv, opt(r.choice(ALL_OPT), '', ''))
    elif how == 'no-help-text':
        x = r.choice([x for x in lv if x['k'] in ('opt', 'pos', 'sub')])
        x['help'] = ''
        if x['h'] == 'help':
            x['flags'] = ['EXIT']
    elif how == 'no-handler':
        x = r.choice([x for x in (o, p) if x] or [hl])
        x['h'] = 'none'
    elif how == 'bad-flag':
        x = r.choice([x for x in (o, p, s, pick(r, lv, 'grp')) if x and x['vt'] != 'own'] or [hl])
        x['flags'] = x['flags'] + [r.choice([f for f in ALL_FL if f not in x['flags']])]
    elif how == 'flag-default':
        c = [x for x in lv if x['vt'] == 'flag' and x is not hl]
        x = r.choice(c) if c and r.random() < .7 else fresh(r, lv, 'flag')
        if x not in lv:
            put_opt(r, lv, x)
        x['def'] = r.choice(['b:0', 'b:1'])
    elif how == 'bad-default':
        x = fresh(r, lv, r.choice(['int', 'float', 'str']))
        put_opt(r, lv, x)
        bad_default(r, x)
    elif how == 'pos-bad-default':
        x = pos(r.choice(['int', 'float', 'str']), 'extra-arg', required=False)
        if subs or any(lv[i]['vt'] in ('vs', 'vi', 'vf') for i in poss):
            return False
        lv.append(x)
        bad_default(r, x)
    elif how == 'pos-required-default':
        c = [lv[i] for i in poss if 'REQUIRED' in lv[i]['flags'] and lv[i]['vt'] not in ('vs', 'vi', 'vf')]
        if not c:
            return False
        good_default(r, r.choice(c))
    elif how in ('require-unknown', 'conflict-unknown'):
        x = o or hl
        k = 'req' if how[0] == 'r' else 'con'
        n = r.choice(['no-such', x['name'] + 'x', 'Help', 'hel'])
        at = r.choice([0, len(x[k]), len(x[k]), r.randint(0, len(x[k]))])
        x[k] = x[k][:at] + [n] + x[k][at:]
    elif how == 'other-level':
        return False
    elif how == 'require-and-conflict':
        if not o:
            return False
        n = r.choice([x['name'] for x in lv if x['k'] == 'opt' and x is not o])
        o['req'] = r.choice([[n], [n] + o['req'], o['req'] + [n]])
        o['con'] = r.choice([[n], [n] + o['con'], o['con'] + [n]])
    elif how == 'pos-depends':
        if not p:
            return False
        p[r.choice(['req', 'con'])] = ['help']
    elif how == 'sub-depends':
        if not s:
            return False
        s[r.choice(['req', 'con'])] = ['help']
    elif how == 'sub-no-options':
        if not s:
            return False
        s['sub'] = 0
    elif how == 'sub-handler':
        if not s:
            return False
        s['h'] = 'log'
    elif how == 'sub-default':
        if not s:
            return False
        s['def'] = r.choice(['i:1', 's:x', 'b:1'])
    elif how == 'sub-validator':
        if not s:
            return False
        s['vals'] = [r.choice([v_length(0, 9), v_post('p'), v_pre('p')])]
    elif how == 'option-after-sub':
        if not subs:
            return False
        lv.insert(r.randint(subs[0] + 1, len(lv)), fresh(r, lv))
    elif how == 'pos-and-sub':
        if subs:
            lv.insert(r.randint(0, len(lv)), pos(r.choice(['str', 'int', 'vs']), 'stray', required=r.random() < .5))
        else:
            return False
    elif how == 'required-after-optional':
        if subs:
            return False
        lv.append(pos('str', 'late-optional', required=False))
        lv.append(pos(r.choice(['str', 'int']), 'later-required'))
    elif how == 'two-many':
        if subs or [i for i in poss if lv[i]['vt'] in ('str', 'int', 'bool', 'float') and 'REQUIRED' not in lv[i]['flags']]:
            return False
        lv.append(pos(r.choice(['vs', 'vi', 'vf']), 'more-1', required=r.random() < .5))
        lv.append(pos(r.choice(['vs', 'vi', 'vf']), 'more-2', required=r.random() < .5))
    elif how == 'pos-after-many':
        if subs:
            return False
        lv.append(pos(r.choice(['vs', 'vi', 'vf']), 'more-1', required=r.random() < .5))
        lv.append(pos(r.choice(['str', 'int']), 'tail', required=r.random() < .7))
    elif how == 'many-and-optional':
        if subs:
            return False
        lv.append(pos(r.choice(['str', 'int']), 'maybe', required=False))
        lv.append(pos(r.choice(['vs', 'vi', 'vf']), 'more-1', required=r.random() < .5))
    else:
        raise KeyError(how)
    return True


BREAKS = ['nohelp', 'help-other-name', 'help-is-command', 'help-is-positional', 'help-is-group', 'empty-name', 'short-space', 'short-hyphen', 'short-dup', 'long-dup', 'name-dup', 'pos-dup', 'sub-dup', 'long-hyphen',
          'long-space', 'long-dot', 'long-empty', 'no-names', 'no-help-text', 'no-handler', 'bad-flag', 'bad-flag', 'flag-default', 'bad-default', 'bad-default', 'pos-bad-default', 'pos-required-default',
          'require-unknown', 'conflict-unknown', 'require-and-conflict', 'pos-depends', 'sub-depends', 'sub-no-options', 'sub-handler', 'sub-default',
          'sub-validator', 'option-after-sub', 'pos-and-sub', 'required-after-optional', 'two-many', 'pos-after-many', 'many-and-optional']
D = dict(op='define')


def c16(g, tier):
    import copy
    r = g.r

    def add(levels, twice=False):
        ti = g.table(schema(levels))
        g.case(ti, [D, D] if twice else [D])
    for k in range(scale(tier, 70, 250)):
        add(good_tree(r), twice=True)
    # a chain of n commands below the root; errors in the deepest level
    for n in (1, 7, 8, 9, 10, 12):
        for how in (None, 'nohelp', 'short-dup'):
            lv = [def_level(r, 1) + [sub('c%d' % i, i + 2)] for i in range(n)] + [def_level(r, 2)]
            if how:
                break_one(r, lv[-1], how)
            add(lv, twice=True)
    # many siblings are not nesting
    add([[help_opt()] + [sub('s%d' % i, i + 2) for i in range(10)]] + [[help_opt()] for _ in range(10)], twice=True)
    # a command that is its own parent
    add([[help_opt(), sub('again', 1)]])
    add([[help_opt(), sub('down', 2)], [help_opt(), sub('again', 2)]])
    # every rule at a random place of random levels
    for how in BREAKS:
        got = 0
        for _ in range(400):
            if got >= scale(tier, 12, 40):
                break
            lv = good_tree(r)
            if len(lv) == 1 and r.random() < .5:
                continue
            t = r.choice(range(len(lv)))
            if break_one(r, lv[t], how):
                got += 1
                add(copy.deepcopy(lv))
    # one fault among very many entries, and none
    for size in r.sample(SIZES[:6], scale(tier, 2, 4)) + scale(tier, [], [128, 200]):
        base = [help_opt()] + crowd(r, size, ['flag', 'str', 'int', 'as', 'ms'], .2)
        for o in base[1:]:
            if r.random() < .1:
                o[r.choice(['req', 'con'])] = [r.choice([x['name'] for x in base[1:] if x is not o])]
            if r.random() < .1 and o['vt'] in ('str', 'int'):
                good_default(r, o)
        tails = [[], [pos('str', 'arg%d' % i, required=i < 30) for i in range(60)], [sub('cmd%d' % i, i + 2) for i in range(70)]]
        for t in tails:
            add([base + t] + [[help_opt()] for _ in t if _['k'] == 'sub'])
        for how in BREAKS:
            if tier != 'quick' and r.random() < .5:
                continue
            lv = copy.deepcopy(base + r.choice(tails))
            rest = [[help_opt()] for o in lv if o['k'] == 'sub']
            if break_one(r, lv, how):
                add([lv] + rest)
    # the fault comes after many sound entries
    for how in BREAKS:
        for _ in range(scale(tier, 1, 3)):
            lv = def_level(r, r.randint(3, 6), r.random() < .5)
            if not break_one(r, lv, how):
                lv = def_level(r, 4) + [sub('one', 2), sub('two', 2)]
                if not break_one(r, lv, how):
                    continue
            pad = crowd(r, r.choice(SIZES[:8]), ['flag', 'str'])
            for o in pad:
                o['s'] = ''
            add([pad + lv] + ([[help_opt()]] if any(o['k'] == 'sub' for o in lv) else []))
    # flags of every kind of entry, one at a time
    for vt in ALL_OPT:
        for f in ALL_FL:
            if tier != 'quick' or r.random() < .35 or f == 'EXCLUSIVE':
                add([[help_opt(), opt(vt, 'x', 'xx', flags=[f])]])
    for vt in ('str', 'int', 'vs', 'vi', 'vf'):
        for f in ALL_FL:
            if tier != 'quick' or r.random() < .5:
                add([[help_opt(), pos(vt, 'p', required=r.random() < .5 and f != 'REQUIRED', flags=[f])]])
    for f in ALL_FL:
        add([[help_opt(), sub('cmd', 2, flags=[f])], [help_opt()]])
        add([[help_opt(), grp('G', [f]), opt('str', 'x', 'xx'), gend()]])
    # all tables of two entries (three in the deep run) over a small alphabet
    ents = [lambda: opt('flag', 'a', 'x'), lambda: opt('str', 'b', 'x'), lambda: opt('str', 'a', 'y', req=['x']), lambda: opt('as', '', 'y', flags=['SORTED'], con=['x']), lambda: opt('ms', 'x', '', flags=['REQUIRED']),
            lambda: opt('int', 'c', 'z', default='i:3', vals=[v_range(1, 5)]), lambda: opt('int', 'c', 'z', default='i:7', vals=[v_range(1, 5)]),
            lambda: pos('str', 'x'), lambda: pos('int', 'p'), lambda: pos('int', 'q', required=False), lambda: pos('str', 'r', required=False, default='s:d'),
            lambda: pos('vs', 'm'), lambda: pos('vi', 'n', required=False), lambda: sub('c', 2), lambda: sub('y', 2), lambda: sub('d', 2, flags=['HIDDEN']),
            lambda: grp('G', ['EXCLUSIVE']), lambda: gend(), lambda: opt('bool', 'k', 'kk', flags=['SORTED'])]
    for c in itertools.product(ents, repeat=2):
        add([[help_opt()] + [e() for e in c], [help_opt()]])
    for c in itertools.product(ents, repeat=3):
        if r.random() < scale(tier, .03, .4):
            add([[help_opt()] + [e() for e in c], [help_opt()]])
    # dependencies: all lists of up to two names of one option among three, partners naming it back or not
    ns = ['aa', 'bb', 'cc']
    for at in range(3):
        others = [n for n in ns if n != ns[at]] + ['zz']
        lists = [list(p) for k in range(3) for p in itertools.permutations(others, k)]
        for req, con in itertools.product(lists, repeat=2):
            for back in (0, 1, 2):
                if r.random() < scale(tier, .15, 1):
                    lv = [help_opt()] + [opt(r.choice(['flag', 'str', 'int']), n[0], n) for n in ns]
                    lv[1 + at].update(req=req, con=con)
                    for o in lv[1:]:
                        if back and o['name'] in con:
                            o['con'] = [ns[at]] if back == 1 else [n for n in ns if n != o['name']]
                        elif back and o['name'] in req:
                            o['req'] = [ns[at]] if back == 1 else [n for n in ns if n != o['name']]
                    add([lv])
    # names in every order of two entries
    def ent(k, nm):
        return {'l': lambda: opt('str', '', nm), 's': lambda: opt('str', nm[0], ''), 'p': lambda: pos('str', nm), 'o': lambda: pos('int', nm, required=False), 'c': lambda: sub(nm, 2), 'g': lambda: grp(nm)}[k]()
    for a in 'lspcg':
        for b in 'lspcg':
            for n1, n2 in (('q', 'q'), ('q', 'w')):
                if 'g' in (a, b) and a + b == 'gg':
                    continue
                x, y = ent(a, n1), ent(b, n2)
                lv = [help_opt(), x, y]
                if 'c' in (a, b):
                    add([lv, [help_opt()]])
                else:
                    add([lv])


# ---- bounded models: explored exhaustively by TLC, every script replayed ----
def m_c01(g, tier):
    k = scale(tier, 3, 4)
    t = schema([[help_opt(), opt('flag', 'a', 'all'), opt('flag', 'b', ''), opt('str', 'n', 'num'), opt('str', '', 'number'), opt('as', 'l', 'list')]])
    g.model(t, ['-a', '-ab', '-an', '-nab', '-n', '--num', '--num=', '--num=--all', '--number', '--all', '--al', '-l', '-lx,y'], k)
    if tier != 'quick':
        t = schema([[help_opt(), opt('flag', 'n', ''), opt('int', 'a', 'aa'), opt('bool', 'b', 'bb'), pos('vs', 'rest', required=False)]])
        g.model(t, ['-n', '-na', '-a', '-a5', '-na5', '--aa=5', '--aa', '5', 'on', '-bon', '-b', '-nbon', '--bb=on', '-5', 'x'], k)


def m_c02(g, tier):
    k = scale(tier, 3, 4)
    o = [help_opt(), opt('flag', 'a', 'aa'), opt('str', 'n', 'num'), opt('flag', '5', 'five')]
    toks = ['--', '-', '', 'w', '-5', '-.5', '-a', '-x', '-n', '7']
    g.model(schema([o + [pos('vs', 'rest', required=False)]]), toks, k)
    g.model(schema([o + [pos('int', 'first'), pos('vf', 'rest', required=False)]]), ['--', '-', '4', '-5', '-.5', '-5a', '-a', '-n', '2.5'], k)
    g.model(schema([o + [pos('str', 'first'), pos('float', 'second', required=False), pos('str', 'third', required=False)]]), ['--', 'w', '-5', '-a', '-n', '-', '1e3'], k)


def m_c06(g, tier):
    k = scale(tier, 4, 5)
    t = schema([[help_opt(), opt('flag', 'v', 'verbose'), sub('st', 2), sub('start', 3), sub('status', 4), sub('x', 2)],
                [help_opt(), opt('flag', 'v', 'verbose'), sub('start', 3), sub('stop', 4)],
                [help_opt(), opt('str', 'v', 'verbose'), pos('vs', 'rest', required=False)],
                [help_opt(), opt('flag', 'w', 'wide'), sub('x', 3)]])
    g.model(t, ['st', 'sta', 'star', 'stat', 'sto', 's', 'x', '-v'], k)
    if tier != 'quick':
        g.model(t, ['st', 'start', 'statu', 'x', '-v', '-w', '--', 'q'], k)


def m_c08(g, tier):
    def t(flags, d):
        r = [help_opt()]
        for vt, l in (('int', 'num'), ('as', 'list')):
            o = opt(vt, l[0], l, flags=flags)
            if d and vt == 'int':
                o['def'] = 'i:3'
            r.append(o)
        r.append(opt('str', 's', 'word', env='WORD', flags=flags, vals=[v_length(1, 3)]))
        return r
    envs = [[], [('APP_NUM', '5')], [('APP_NUM', 'x')], [('APP_LIST', 'a,b')], [('APP_LIST', '')], [('NUM', '6')], [('APP_WORD', 'hey')], [('WORD', 'hey')], [('APP_WORD', 'toolong')],
            [('APP_NUM', '5'), ('APP_LIST', 'c'), ('APP_WORD', 'abc')]]
    toks = ['--num=7', '--num', '8', '-lz', '-sabc', '-swxyz']
    fl = [['AUTO_ENV'], ['AUTO_ENV', 'ENV_OVERRIDE'], ['AUTO_ENV', 'NO_ENV_PREFIX']]
    for f in fl:
        for d in (False, True):
            lv = [t(f, d)]
            g.model(schema(lv, prefix='APP'), toks, scale(tier, 2, 3), envs)
    g.model(schema([[help_opt(), opt('int', 'n', 'num', flags=['AUTO_ENV']), sub('cmd', 2), sub('other', 3)],
                    [help_opt(), opt('int', 'n', 'num', flags=['AUTO_ENV', 'ENV_OVERRIDE']), opt('str', 'w', 'word', flags=['AUTO_ENV', 'REQUIRED'])],
                    [help_opt(), opt('str', 'w', 'word', flags=['AUTO_ENV'])]], prefix='APP'),
            ['cmd', 'other', '-n4', '-wq'], scale(tier, 3, 4), envs)


def m_c10(g, tier):
    k = scale(tier, 4, 5)
    t1 = [help_opt(), opt('flag', 'a', 'aa', req=['bb']), opt('str', 'b', 'bb', con=['dd']), opt('flag', 'c', 'cc', req=['aa', 'bb']), opt('flag', 'd', 'dd')]
    g.model(schema([t1]), ['-a', '-bv', '-c', '-d'], k)
    t2 = [help_opt(), opt('flag', 'r', 'rr', flags=['REQUIRED']), grp('E', ['EXCLUSIVE']), opt('flag', 'a', 'aa'), opt('str', 'b', 'bb'), opt('as', 'c', 'cc'), gend(),
          opt('flag', 'd', 'dd', con=['aa', 'cc']), grp('F'), opt('flag', 'e', 'ee'), opt('flag', 'f', 'ff')]
    g.model(schema([t2]), ['-r', '-a', '-bv', '-cx', '-d', '-ef'], k)
    t3 = [t1[:2] + [t1[2], t1[4], sub('go', 2)], [help_opt(), opt('flag', 'a', 'aa', flags=['REQUIRED']), grp('E', ['EXCLUSIVE']), opt('flag', 'b', 'bb'), opt('flag', 'd', 'dd'), opt('flag', 'e', 'ee')]]
    g.model(schema(t3), ['-a', '-bv', '-d', 'go', '-b', '-e'], k)


def m_c12(g, tier):
    k = scale(tier, 3, 4)
    t = schema([[help_opt(), version_opt(), opt('flag', 'a', 'aa'), opt('flag', 'x', 'stop', flags=['EXIT'], h='log'), opt('str', 'n', 'num', vals=[v_pre('p', 'bad')]), opt('as', 'l', 'list'), sub('go', 2)],
                [help_opt(), opt('as', 'l', 'list'), opt('flag', 'r', 'req', flags=['REQUIRED'])]])
    g.model(t, ['-h', '-V', '-ah', '-xa', '-ax', '--help', '-n', '-nbad', '-hZ', '-lp,q', 'go', '--zz', '--stop'], k)


def m_c13(g, tier):
    lv = [help_opt(), opt('as', 'l', 'list', flags=['UNIQUE']), opt('ms', 'm', 'map'), opt('int', 'i', 'int'), opt('str', 's', 'str'), pos('vs', 'rest', required=False)]
    ops = [O('free'), O('help'), O('exec'), P(['-la,b', '-mk=1', 'x']), P(['-lc', '-mk=2', '-ibad']), P(['-lb', '-mk=3,k=4,j=5'], [('X', 'y')])]
    g.model(schema([lv]), ['-la,b', '-mk=v', 'y', '-ix', '-i5'], scale(tier, 2, 3), ops=ops, maxops=scale(tier, 3, 4), opstok=scale(tier, 1, 1))
    # custom options: their free handlers release what their handlers took
    t = schema([[help_opt(), opt('own', 'e', 'end', hbad='bad', hrc=40, env='END'), opt('str', 's', 'str', vals=[v_pre('p', 'bad', 41)]), sub('go', 2)], [help_opt(), opt('own', 'e', 'end'), pos('own', 'rest', required=False, hbad='bad', hrc=42)]])
    g.model(t, ['-ea', '-eb', '-ebad', 'go', 'bad', '-sbad', '-h'], scale(tier, 3, 4), ops=[O('free'), P(['-ex', 'go', '-ey', 'z']), P(['-ebad']), P([], [('END', 'v')])], maxops=scale(tier, 2, 3), opstok=2)
    t = schema([[help_opt(), opt('as', 'l', 'list'), sub('go', 2, act='do_go', arc=4)], [help_opt(), opt('ms', 'm', 'map'), pos('vi', 'rest', required=False)]])
    g.model(t, ['-la,b', 'go', '-mk=v', '5', 'x'], scale(tier, 3, 4), ops=[O('free'), O('init'), O('exec'), O('help'), P(['-lx', 'go', '-mz=1', '7']), P(['go', 'bad'])], maxops=scale(tier, 3, 4), opstok=2, fresh=True)


def m_c15(g, tier):
    t = schema([[help_opt(), opt('flag', 'v', 'verbose'), sub('run', 2, act='do_run', arc=3), sub('rm', 3), sub('re', 4, act='do_re', flags=['HIDDEN'])],
                [help_opt(), sub('all', 3), sub('one', 5, act='do_one', arc=-1)],
                [help_opt(), sub('deep', 5, act='do_deep', arc=200), sub('dark', 5, act='do_dark', flags=['HIDDEN'])],
                [help_opt(), opt('flag', 'f', 'force')], [help_opt(), opt('flag', 'f', 'force'), sub('last', 4)]])
    g.model(t, ['run', 'rm', 're', 'r', 'all', 'one', 'deep', 'dark', 'last', '-f'], scale(tier, 4, 5), after=[O('exec'), O('hascmd'), O('exec')])


def m_c18(g, tier):
    t = schema([[help_opt(), opt('str', 'n', 'num', h='log', hbad='nope', hrc=50, vals=[v_pre('p1', 'bad', 40, see='aa'), v_pre('p2', 'worse', 42), v_post('q1', '', 41, see='go'), v_post('q2', 'ugly', 43)], env='NUM'),
                 opt('flag', 'a', 'aa', h='log', vals=[v_pre('pa'), v_post('qa', see='.num')]), opt('str', 'd', 'dd', vals=[v_post('qd', 'def', 44)], default='s:x'), sub('go', 2)],
                [help_opt(), opt('str', 'n', 'num', h='log', vals=[v_post('z1', see='dd'), v_pre('y1', 'bad', 45)]), pos('vs', 'rest', required=False, vals=[v_pre('pr', 'bad', 46, see='num'), v_post('qr')])]])
    g.model(t, ['-nok', '-nbad', '-nworse', '-nnope', '-nugly', '-a', '-aa', 'go', 'bad', '-ddef', '--zz'], scale(tier, 3, 4), [[], [('NUM', 'ok')], [('NUM', 'bad')]])


def m_c07(g, tier):
    k = scale(tier, 3, 4)
    f = lambda *n: [opt('str', '', x, default='s:%s' % x) if i % 2 else opt('str', '', x) for i, x in enumerate(n)]
    t = schema([[help_opt()] + f('x', 'ab') + [sub('a', 2), sub('b', 3), sub('abc', 4)], [help_opt()] + f('x', 'y') + [sub('a', 4), sub('bc', 3)],
                [help_opt()] + f('ab', 'y'), [help_opt()] + f('x', 'z', 'ab') + [sub('d', 3)]])
    parts = ['x', 'y', 'ab', 'a', 'b', 'abc', 'd', '', 'z']
    paths = ['x', 'y', 'z', 'ab', 'nope', '', '.', '..', '.x', '.y', '.ab', '.z', 'x.', 'a.', '.a.x', 'a..x', 'a.b.', '..x'] + ['.'.join(c) for c in itertools.product(['a', 'b', 'abc', 'ab', 'd'], ['x', 'y', 'ab', 'z'])]
    paths += ['.'.join(c) for c in itertools.product(['a', 'b', 'abc'], ['a', 'bc', 'b', 'd'], ['x', 'y', 'ab'])] + ['a.a.d.y', 'a.a.d.x', 'a.a.d.ab.y', 'abc.d.y', 'a.bc.y.y', 'A.x', 'a.X', ' a.x', 'a.x ']
    paths += ['a', 'b', 'abc', 'bc', 'd', '.a', '.b', '.d', 'a.a', 'a.bc', 'a.a.d', 'b.a', 'abc.d']
    r = g.r
    for i in range(scale(tier, 2, 6)):
        some = paths if tier != 'quick' else r.sample(paths, 45)
        g.model(t, ['a', 'b', 'ab', 'abc', 'bc', 'd', '--x=1', '--y=2', '--ab=3'] if i % 2 == 0 else ['a', 'abc', 'd', '--z=4', '--ab=5'], k, after=[Q(p) for p in dict.fromkeys(some)])


def m_c11(g, tier):
    k = scale(tier, 3, 4)
    t = schema([[help_opt(), opt('int', 'i', 'int', vals=[v_range(1, 5)]), opt('str', 'w', 'word', req=['int']), opt('bool', 'b', 'bool'), sub('go', 2), sub('gone', 3), sub('quit', 2)],
                [help_opt(), opt('ms', 'm', 'map'), opt('flag', 'r', 'req', flags=['REQUIRED']), opt('str', 'c', 'choice', vals=[v_choice_str('x', 'y')]), sub('deep', 3)],
                [help_opt(), opt('ai', 'l', 'list', vals=[v_count(1, 2)]), pos('float', 'num'), pos('str', 'last', required=False)]])
    g.model(t, ['-i3', '-i9', '-ix', '-i', '-wz', '--bool=maybe', 'go', 'gon', 'g', 'quit', '-r', '-cz', '-mk', 'deep', '-l1,2,3', '1.5', '--zz', '-Z'], k)


def m_c14(g, tier):
    k = scale(tier, 3, 4)
    lv = [help_opt(), opt('ai', 'l', 'list', flags=['SORTED']), opt('ms', 'm', 'map', flags=['UNIQUE_VALUE']), opt('str', 's', 'str'), opt('float', 'f', 'float', default=canon('1.5')), pos('vs', 'rest', required=False)]
    g.model(schema([lv]), ['-l3,1', '-l2-4', '-mk=v', '-mk=w,j=v', '-sx', '-f2', 'a', '-mz'], k, after=[Q('nope'), Q('.list'), O('free'), Q('nope')])


def m_c17(g, tier):
    lv = [[help_opt(), opt('flag', 'v', 'verbose'), opt('int', 'n', 'num', vals=[v_range(1, 5)], default='i:2'), sub('st', 2), sub('status', 3, flags=['HIDDEN']), sub('x', 4)],
          [help_opt(), grp('More'), opt('str', 'w', 'word', flags=['REQUIRED']), gend(), pos('str', 'in'), pos('str', 'out', required=False)],
          [help_opt(), opt('as', 'l', 'list', flags=['HIDDEN']), pos('vs', 'rest', required=False)],
          [help_opt(), sub('y', 3), sub('z', 2)]]
    for w in scale(tier, [(80, 30)], [(80, 30), (60, 20), (100, 40), (40, 16)]):
        g.model(schema(lv, cfg=dict(w=w[0], col=w[1])), ['st', 'status', 'x', 'y', 'z', '-h', '-v', 'a'], scale(tier, 3, 4), after=[O('help'), O('usage'), O('version')])


def m_c21(g, tier):
    a = schema([[help_opt(), opt('int', 'i', 'int', env='NUM'), opt('as', 'l', 'list'), sub('go', 2, act='do_go', arc=3)],
                [help_opt(), opt('str', 'w', 'word', default='s:dv'), sub('on', 3, act='do_on')], [help_opt(), opt('ms', 'm', 'map'), pos('int', 'num', required=False)]])
    b = schema([[help_opt(), opt('int', 'n', 'num', default='i:4'), opt('str', 'w', 'word', env='NUM', con=['flag']), opt('flag', 'f', 'flag'), sub('go', 2, act='b_go', arc=9), sub('in', 2)],
                [help_opt(), opt('ai', 'x', 'xs', flags=['SORTED']), opt('bool', 'b', 'bool', env='FLAG'), pos('vs', 'rest', required=False)]], prog='tool')
    i, j = len(g.models), len(g.models) + 1
    e = [('NUM', '7'), ('FLAG', 'yes')]
    U = lambda k: dict(op='use', sc=k)
    fin = [O('free'), O('exec'), O('hascmd'), P([], e), P(['-i5', 'go', 'on', '3']), P(['-la', 'go', '-wz']), P(['-lb', 'go', 'on', '-mk=v', 'x'])]
    gin = [O('free'), O('init'), P([]), P(['in', '-x2', 'q'], e), P(['-f', '-wv']), P(['-wv', 'go', '-bno', 'r', 's'])]
    g.model(a, ['-i5', '-la,b', 'go', '-wz', 'on', '-mk=v', '3', 'x'], scale(tier, 2, 3), [[], e], ops=fin + [O('init'), U(j), P(['-n8', '-f', 'go', '-x3,1'])], maxops=scale(tier, 3, 3), opstok=scale(tier, 0, 1))
    g.model(b, ['-n8', '-wv', '-f', 'go', 'in', '-x3,1', '-bno', 'r'], scale(tier, 2, 3), [[], e], ops=gin + [O('exec'), U(i), P(['-n8', '-f', 'go', '-x3,1'])], maxops=scale(tier, 3, 3), opstok=scale(tier, 0, 1))


def m_c22(g, tier):
    k = scale(tier, 3, 4)
    t = schema([[help_opt(), opt('int', 'i', 'int', req=['word', 'bool'], vals=[v_range(-4, 15)]), opt('str', 'w', 'word', con=['list', 'int'], vals=[v_choice_str('x', 'y', 'why not')]), opt('bool', 'b', 'bool'),
                 opt('ai', 'l', 'list', vals=[v_count(0, 2)]), sub('go', 2), sub('gone', 2), sub('gonzo', 2)],
                [help_opt(), opt('mi', 'm', 'map'), grp('Either', ['EXCLUSIVE']), opt('flag', 'p', 'pp'), opt('float', 'f', 'ff'), opt('as', 'q', 'qq'), gend(), opt('flag', 'r', 'need', flags=['REQUIRED']),
                 pos('str', 'name', vals=[v_length(2, 13)]), pos('float', 'num', required=False)]], prog='my-tool')
    g.model(t, ['-i7', '-i99', '-i4x', '-w', 'x', '-wz', '--bool=maybe', '-l1,2,3', '-l1,z', 'go', 'gon', '--wor', '-Z'], k)
    g.model(t, ['go', '-mkk=1', '-mkk', '-ma=1,bb=zz', '-p', '-f', '2.5', '-qu', '-r', 'n', 'a-very-long-name', 'ok', '-2', 'more'], scale(tier, 4, 5), ops=[], maxops=0)


MODELS = dict(C22=m_c22, C21=m_c21, C07=m_c07, C11=m_c11, C14=m_c14, C17=m_c17, C01=m_c01, C02=m_c02, C06=m_c06, C08=m_c08, C10=m_c10, C12=m_c12, C13=m_c13, C15=m_c15, C18=m_c18)




# ---- C21 ----
SCALAR_DEF = {'str': lambda r: 's:' + r.choice(['dv', 'two words']), 'int': lambda r: 'i:%d' % r.choice([3, 0, -7]), 'float': lambda r: canon('1.5'), 'bool': lambda r: r.choice(['b:0', 'b:1'])}


def c21_level(r, n):
    b = [help_opt()]
    for t, c in zip(r.sample(ALL_TYPES, r.randint(3, 7)), r.sample('abcdefgijk', 10)):
        o = opt(t, c, {'a': 'alpha', 'b': 'beta', 'c': 'gamma', 'd': 'delta', 'e': 'eps', 'f': 'zeta', 'g': 'theta', 'i': 'iota', 'j': 'kappa', 'k': 'mu'}[c])
        k = r.random()
        if k < .2 and t in SCALAR_DEF and not any(x['req'] or x['con'] for x in b):
            o['def'] = SCALAR_DEF[t](r)
        if k < .1 or .2 <= k < .4:
            o['env'] = 'E_' + o['name'].upper()
            if r.random() < .4:
                o['flags'] = ['ENV_OVERRIDE']
        elif k < .2:
            pass
        elif k < .5 and t in COLL:
            o['vals'] = [v_count(0, 3)]
        elif k < .6 and len(b) > 1 and not any(x.get('def') for x in b):
            o[r.choice(['req', 'con'])] = [r.choice([x['name'] for x in b[1:]])]
        elif k < .65:
            o['flags'] = ['REQUIRED']
        b.append(o)
    if r.random() < .3 and not any(x['def'] or x['con'] for x in b):
        b = b[:1] + [grp('Group', ['EXCLUSIVE'])] + b[1:3] + [gend()] + b[3:]
    if n and r.random() < .4:
        b.append(pos(r.choice(['vs', 'vi', 'str', 'int']), 'rest', required=r.random() < .3))
    return b


def c21(g, tier):
    r = g.r
    for _ in range(scale(tier, 18, 90)):
        ts = []
        for _ in range(r.choice([1, 2, 2, 3])):
            lv = [c21_level(r, 1)] if r.random() < .4 else tree(r, r.choice([1, 2]), c21_level, maxlev=5, wide=3, act=.6)
            ts.append(g.table(schema(lv, prog=r.choice(['prog', 'tool', 'x-y']), prefix=r.choice(['', '', 'APP']))))
            if r.random() < .3:     # the same options again under another program's name and prefix
                twin = copy.deepcopy(lv)
                if r.random() < .5:     # the only variable of both
                    vs = [(a, b) for x, y in zip(lv, twin) for a, b in zip(x, y) if a['k'] == 'opt' and a['env']][1:]
                    for a, b in vs:
                        a['env'] = b['env'] = ''
                        a['flags'], b['flags'] = [[f for f in x['flags'] if f != 'ENV_OVERRIDE'] for x in (a, b)]
                if r.random() < .5:
                    for x in twin:
                        for o in x:
                            if o['def'] and not o['vals']:
                                o['def'] = SCALAR_DEF[o['vt']](r)
                ts[-1] = g.table(schema(lv, prog='first', prefix=r.choice(['ONE', 'ONE_', ''])))
                ts.append(g.table(schema(twin, prog='second', prefix=r.choice(['TWO', 'TWO_', 'ONE']))))
        good = {t: Argv(r, g.schemas[t], n=5, bad=0, term=.04, optlike=.03, badval=0, posprob=.3) for t in ts}
        evil = {t: Argv(r, g.schemas[t], n=5, bad=.06, term=.04, optlike=.03, badval=.1, posprob=.3) for t in ts}
        for _ in range(scale(tier, 26, 60)):
            cur = ts[0]
            scr, clean = [], {t: True for t in ts}
            last = {}
            for _ in range(r.choice([2, 3, 3, 4, 6, 9])):
                k = r.random()
                if k < .3 and len(ts) > 1:
                    cur = r.choice([t for t in ts if t != cur])
                    scr.append(dict(op='use', sc=cur))
                    if r.random() < .5:
                        scr += chain_queries(g.schemas[cur], r, 4)
                if cur in last and r.random() < .25:
                    p = last[cur]
                else:
                    env = dict(rand_env(r, g.schemas[r.choice(ts)], prob=.4, bad=.02, decoy=0))
                    env.update(rand_env(r, g.schemas[cur], prob=.4, bad=.06, decoy=0))
                    p = P((good if r.random() < .8 else evil)[cur].make(), list(env.items()))
                last[cur] = p
                scr.append(p)
                scr += chain_queries(g.schemas[cur], r, 8)
                for x in ('exec', 'hascmd', 'help', 'usage'):
                    if r.random() < .2:
                        scr.append(O(x))
                if r.random() < .3:
                    scr.append(O('free'))
                    if r.random() < .4:
                        scr.append(O('init'))
            g.case(ts[0], scr)


    long_history(g, tier, c21_level)


def long_history(g, tier, level):
    """hundreds of parses in one process"""
    r = g.r
    for k in range(scale(tier, 3, 8)):
        lv = tree(r, 1, level, maxlev=3, wide=2, act=1)
        if k == 0:
            lv = [[help_opt(), opt('flag', 'a', 'aa'), opt('flag', '', 'bb'), opt('flag', 'c', ''), opt('int', 'i', 'ii'), sub('go', 2, act='go')], [help_opt(), opt('flag', 'a', 'aa'), opt('str', 's', 'ss')]]
        ti = g.table(schema(lv))
        sc = g.schemas[ti]
        good = Argv(r, sc, n=2 + (k == 0), bad=0, term=.02, optlike=0, badval=0, posprob=.2)
        evil = Argv(r, sc, n=2, bad=.3, term=.02, optlike=0, badval=.3, posprob=.2)
        pool = [P(good.make()) for _ in range(6)] + [P(evil.make()) for _ in range(k % 3)]
        scr = []
        for n in range(scale(tier, 270, 600)):
            scr.append(r.choice(pool))
            if k == 0:          # what this line gave
                ns = {o['name'] for b in lv for o in b if o['k'] == 'opt' for x in scr[-1]['argv'] if x[:1] == '-' and (x[2:].split('=')[0] == o['l'] if x[1:2] == '-' else x[1:2] == o['s'])}
                scr += [Q(x) for x in sorted(ns)]
            if n % 16 == 0:
                scr += chain_queries(sc, r, 3)
                scr.append(O(r.choice(['exec', 'hascmd', 'help'])))
            if k != 2 or r.random() < .5:
                scr.append(O('free'))
                if k != 1 or r.random() < .5:
                    scr.append(O('init'))
        scr += [r.choice(pool)] + chain_queries(sc, r, 8)
        g.case(ti, scr)


PROPS = {
    'C01': dict(gen=c01, asp=VALS), 'C02': dict(gen=c02, asp=VALS), 'C03': dict(gen=c03, asp=VALS), 'C04': dict(gen=c04, asp=VALS), 'C05': dict(gen=c05, asp=VALS),
    'C06': dict(gen=c06, asp=['rc', 'code', 'set', 'val', 'cnt', 'exec', 'stack']),
    'C07': dict(gen=c07, asp=['res', 'set', 'val', 'cnt']),
    'C08': dict(gen=c08, asp=VALS),
    'C09': dict(gen=c09, asp=['rc']),
    'C10': dict(gen=c10, asp=['rc', 'code']),
    'C11': dict(gen=c11, asp=['rc', 'code', 'out', 'hint', 'msg', 'quiet']),
    'C12': dict(gen=c12, asp=['rc', 'exit', 'shows', 'cb', 'live', 'flow']),
    'C13': dict(gen=c13, asp=['live', 'cnt', 'val']),
    'C14': dict(gen=c14, asp=['acc']),
    'C15': dict(gen=c15, asp=['exec', 'stack']),
    'C16': dict(gen=c16, asp=['def', 'blame'], debug=True),
    'C17': dict(gen=c17, asp=['out', 'wide', 'exitout', 'exit']),
    'C18': dict(gen=c18, asp=['cb', 'code', 'rc', 'flow']),
    'C19': dict(gen=c19, asp=['rc', 'cnt', 'val', 'live', 'exit']),
    'C20': dict(gen=c20, asp=['rc', 'strerror']),
    'C22': dict(gen=c22, asp=['rc', 'code', 'msg', 'what']),
    'C21': dict(gen=c21, asp=VALS + ['pure', 'set', 'exec', 'stack', 'live', 'out', 'hint']),
}

NOTES = {
    'C01': 'random and enumerated command lines over random tables; every option is queried afterwards and compared with the state of the specification',
    'C02': 'command lines mixing options, terminators, negative numbers and words over random positional tables',
    'C03': 'good, extreme and malformed texts of every scalar type, conversion recomputed by the specification on exact decimal texts',
    'C04': 'occurrences, ranges and growth under all flag combinations; integer elements stay within 32 bits where sorting or uniqueness is on (known finding)',
    'C05': 'pairs, replacements and growth under all flag combinations',
    'C06': 'random command trees with names that are prefixes of each other, up to ten nested commands',
    'C07': 'right, partial, extended and wrong paths on random trees with shadowed names',
    'C08': 'random combinations of command line, environment, prefix, defaults and flags, all source combinations per type',
    'C09': 'values at, next to and 2^32 away from the bounds of every validator kind, from every source',
    'C10': 'random subsets of options over random constraint tables and all subsets of small tables',
    'C11': 'failing command lines of every kind, alone and together, on nested commands',
    'C12': 'exiting options at every position of random command lines, with errors before and after; help text itself is C17',
    'C13': 'histories of parse, query, exec, help, release and parse again under AddressSanitizer with counted live allocations',
    'C14': 'every accessor and iterator on every option kind, at and beyond the end, after reset and exhaustion',
    'C15': 'execution after random command lines on random trees',
    'C16': 'random valid tables on up to ten nested levels; every rule violated alone at random places and levels; flags of every kind of entry one at a time; names in every order of two entries',
    'C17': 'help, usage and version of random tables compared word by word with the text the specification derives; words longer than the column are not generated',
    'C18': 'order, arguments and number of recorded callback invocations, with failing callbacks at random places',
    'C19': 'every single failing allocation of each sampled parse (help included), then release (or not) and a second parse',
    'C21': 'histories of up to nine parses by up to three parsers used in turn, with queries, execution, help and releases between',
    'C22': 'failing command lines, environments and texts drawn from all other generators; the message is searched for what the specification says was wrong',
    'C20': 'members and near misses of every predefined pattern against a language written independently in the specification; all error codes',
}
TRUST = ' Bounded: sampled from the seed, not exhaustive. Trusts TLC, gcc and its sanitizers, and the driver in tools/driver.c.'
for _k, _v in NOTES.items():
    PROPS[_k]['note'] = _v + '.' + TRUST


# ---- large tables ----
def big_level(r, n, posn=0, kinds=None, choices=True):
    """one level with n options, or with posn declared positionals and a variadic one"""
    b = [help_opt()]
    kinds = kinds or ALL_OPT + ['flag', 'str', 'int', 'str']
    sh = [c for c in SHORTS]
    for i in range(1, n + 1):
        t = r.choice(kinds)
        o = opt(t, sh.pop(0) if sh and r.random() < .2 else '', 'o%d' % i)
        k = r.random()
        if k < .06:
            o['env'] = 'E_%d' % i
        elif k < .1:
            o['flags'] = ['AUTO_ENV']
        elif k < .14:
            o['req'] = ['o%d' % max(1, min(n, i + r.choice([-1, 1, -60, 30, 128, -128])))]
        elif k < .18:
            o['con'] = ['o%d' % max(1, min(n, i + r.choice([-1, 1, -60, 30, 128, -128])))]
        elif k < .22 and t in ('str', 'int') and choices:
            o['vals'] = [v_choice_str(*['w%d' % x for x in range(150)])] if t == 'str' else [v_choice_int(*range(-20, 240))]
        if 'o%d' % i in o['req'] + o['con']:
            o['req'], o['con'] = [], []
        b.append(o)
    for i in range(posn):
        b.append(pos(r.choice(['str', 'str', 'int']), 'p%d' % i))
    return b


def with_big(fn, what):
    """a few cases on tables far larger than usual: indexes beyond 127 and 255"""
    def f(g, tier):
        fn(g, tier)
        r = random.Random(g.r.random())
        n = r.choice([140, 270, 300])
        if 'opts' in what:
            t = g.table(schema([big_level(r, n, choices='help' not in what) + [sub('run', 2)], [help_opt(), opt('str', '', 'deep'), opt('int', 'n', 'o7')]], prefix='APP'))
            sc = g.schemas[t]
            lv = sc['levels'][0]
            plainish = [o for o in opts_of(lv) if not o['req'] and not o['con'] and not o['vals'] and plain(o)]
            for _ in range(scale(tier, 12, 60)):
                av = []
                pick = [r.choice(plainish) for _ in range(r.randint(1, 4))] + ([r.choice(opts_of(lv)[1:])] if r.random() < .5 else [])
                for o in pick:
                    v = None if o['vt'] == 'flag' else (r.choice(['w0', 'w127', 'w128', 'w149', 'w150']) if o['vt'] == 'str' else r.choice(['-20', '107', '108', '239', '240'])) if o['vals'] else value(r, o)
                    av += spell(r, o, v)
                    for q in o['req']:
                        q = next(x for x in lv if x['name'] == q)
                        if r.random() < .7:
                            av += spell(r, q, None if q['vt'] == 'flag' else value(r, q))
                env = rand_env(r, sc, prob=.3, bad=0, decoy=0)
                names = list(dict.fromkeys([o['name'] for o in pick] + ['o%d' % x for x in r.sample(range(1, n + 1), 4)] + [o['name'] for o in lv if o['env'] or 'AUTO_ENV' in o['flags']][:4]))
                run = r.random() < .4
                if run:
                    av += ['run', '--deep=x'] + r.choice([[], ['-n', '5']])
                g.case(t, [P(av, env)] + [Q(x) for x in names] + ([Q('.' + names[0]), Q('run.o7'), Q('.o7')] if run else []) + ([O('help')] if 'help' in what else []) + [O('free')] + [Q(names[0])])
        if 'pos' in what:
            for extra in ([pos('vs', 'rest', required=False)], []):
                k = r.choice([130, 260])
                t = g.table(schema([big_level(r, 2, k, ['flag', 'str']) + extra]))
                few = g.table(schema([big_level(r, 2, 2, ['flag', 'str']) + (extra or [pos('vi', 'rest')])]))
                for tt, m in ((t, k), (few, 2)):
                    ps = [o for o in g.schemas[tt]['levels'][0] if o['k'] == 'pos' and o['vt'] in ('str', 'int')]
                    for c in (m - 1, m, m + 1, m + 131, m + 260):
                        if tt == t and c > m + 1 and not extra:
                            continue
                        av = [word(r) if i < len(ps) and ps[i]['vt'] == 'str' else str(i - 20 * (i % 2)) for i in range(c)]
                        g.case(tt, [P(av)] + [Q(x) for x in ['p0', 'p1', 'p%d' % (m - 1), 'p%d' % min(127, m - 1), 'p%d' % min(128, m - 1), 'rest']])
        if 'subs' in what:
            k = r.choice([130, 260, 300])
            t = g.table(schema([[help_opt(), opt('flag', 'f', 'flag')] + [sub('c%d' % i, 2 + i % 2, act='do_%d' % i, arc=i % 200) for i in range(1, k + 1)],
                                [help_opt(), opt('str', 's', 'str')], [help_opt(), opt('int', 'i', 'int'), sub('again', 2)]]))
            for _ in range(scale(tier, 12, 40)):
                i = r.choice([1, 10, 127, 128, 129, k - 1, k, r.randint(1, k), k + 1, 25, 12])
                g.case(t, [P(['c%d' % i] + (['-s', 'x'] if i % 2 == 0 else ['-i3'] + r.choice([[], ['again', '-sy']])))] + [Q(x) for x in ('str', 'int', 'c%d.str' % i, 'c%d.int' % i, 'flag')] + [O('exec')])
    return f


BIG = dict(C01=['opts'], C02=['pos'], C06=['subs'], C07=['opts', 'subs'], C08=['opts'], C09=['opts'], C10=['opts'], C13=['opts'], C14=['opts'],
           C15=['subs'], C17=['opts', 'help'])


def with_history(fn, prob):
    """some cases run on tables and a parser that an earlier parse has used"""
    def f(g, tier):
        fn(g, tier)
        r = random.Random(g.r.random())
        pool = {}
        for c in g.cases:
            o = c['script'][0]
            if o['op'] == 'parse' and not o['oom'] and not {'--help', '--version', '-h'} & set(o['argv']) and len(o['argv']) < 40:
                pool.setdefault(c['sc'], []).append(o)
        for c in g.cases:
            s = c['script']
            if s[0]['op'] != 'parse' or 'kf' in c or c.get('initev') or c['sc'] not in pool or r.random() >= prob:
                continue
            pre = [r.choice(pool[c['sc']])] + r.choice([[], [O('free')], [O('free'), O('init')]])
            if r.random() < .2:
                pre = [r.choice(pool[c['sc']])] + r.choice([[], [O('free')]]) + pre
            c['script'] = pre + s
    return f


for _k, _w in BIG.items():
    PROPS[_k]['gen'] = with_big(PROPS[_k]['gen'], _w)
for _k in PROPS:
    if _k not in ('C13', 'C16', 'C19', 'C20', 'C21', 'C22'):
        PROPS[_k]['gen'] = with_history(PROPS[_k]['gen'], .2)
for _k, _m in MODELS.items():
    PROPS[_k]['model'] = _m
