"""Inputs: option tables and scripts of API calls, per property."""
import math
import random
from fractions import Fraction
from schema import *

INT_GOOD = ['0', '-0', '+5', '007', '42', '-17', '2147483647', '2147483648', '-2147483648', '-2147483649',
            '4294967295', '4294967296', '4294967301', '9223372036854775807', '-9223372036854775808', '+9223372036854775807',
            ' 12', '000000000000000000000000012', '1000000000000', '-999999999999999999', '10', '100', '9']
INT_BAD = ['', '12x', 'x', '1.5', '9223372036854775808', '-9223372036854775809', '18446744073709551616',
           '99999999999999999999999', '1e3', '--5', '+-3', '12 ', '1,2', '-', '+', '0x10', '1_000', '4 2', 'ten', '- 5',
           '0b1', '12-', '5-7', '3:4']
FLT_GOOD = ['0', '1.5', '-2.25', '.5', '5.', '1e3', '1E-2', '+3.75', '00.10', '123456.789', '-.5e1', '1e+5', '0.1', '-0.3',
            '3.14159', '2.5e-10', '1e100', '-7e-50', '100', '99999999', '0.0', '1e0', ' 2.5', '12345678901234', '0.001']
FLT_BAD = ['', '1.5x', 'abc', '.', '1e', 'e5', '1.2.3', '1,5', '--1', '1.5 ', '-', '+', '-.', '1e+', '2.5f', '1.5e1.5', '1 5', '5%']
BOOL_TRUE = ['1', 'true', 'yes', 'y', 'on', '0x1', '0b1', 'TRUE', 'True', 'Yes', 'YES', 'Y', 'ON', 'On', 'tRuE']
BOOL_FALSE = ['0', 'false', 'no', 'n', 'off', '0x0', '0b0', 'FALSE', 'No', 'N', 'OFF', 'oFf', 'False']
BOOL_BAD = ['2', 'tru', 'yess', '', 'ye', '00', 't', 'f', 'onn', 'o', 'truefalse', ' on', 'on ', '10', '-1', '01', 'enable', 'nope', 'falsey', '1true']
STRS = ['abc', 'x', 'hello world', 'a=b', '=', '=x', 'a,b', '-', 'Z9', 'foo.bar', '/path/to', '*', '"q"', "it's", '\\n', '%s%d', '#', 'UPPER', 'a b  c', '~', '0', '42', 'true']
STR_OPTLIKE = ['--', '-x', '--num', '--num=3', '-5', '-abc', '---', '--help', '-h', '-v', '--no-such', '-1.5', '']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta']
LONGS = ['num', 'number', 'nu', 'name', 'output', 'out', 'out-put', 'verbose', 'verb', 'level', 'lev', 'x', 'xy', 'tags', 'tag', 'mode', 'model',
         'config', 'conf', 'dry-run', 'dry', 'force', 'list', 'id', 'a', 'ab', 'Num', 'n1', 'n_1', 'color', 'very-long-option-name-of-more-than-thirty-two-chars']
SHORTS = list('abcdefgijklmnopqrstuvwxyzABCDEFGIJKLMNOPQRSTUWXYZ')


class G:
    def __init__(self, seed, tag=''):
        self.r = random.Random('%s/%s' % (seed, tag))
        self.schemas, self.cases, self.models = [], [], []

    def table(self, s):
        self.schemas.append(s)
        return len(self.schemas) - 1

    def model(self, s, toks, maxtok, envs=((),), ops=(), maxops=0, opstok=9, fresh=False, after=()):
        """explore the specification over this table exhaustively within the bounds"""
        self.models.append((s, dict(toks=list(toks), maxtok=maxtok, envs=[[list(e) for e in x] for x in envs], ops=list(ops), maxops=maxops,
                                    opstok=opstok, fresh=fresh, after=list(after))))

    def case(self, sc, script, **kw):
        self.cases.append(dict(id=len(self.cases) + 1, sc=sc, script=script, **kw))


def P(argv, env=(), oom=0):
    return dict(op='parse', argv=list(argv), env=[list(e) for e in dict(env).items()], oom=oom)


def Q(p):
    return dict(op='q', p=p)


def O(n):
    return dict(op=n)


def B(o, texts, via='long', env=''):
    return dict(op='batch', o=o, texts=list(texts), via=via, env=env)


def MUCH(r, o, n, rep=1, via='long', env='', plain=False):
    """n * rep elements for option o: a permutation of 0..n-1, rep times over"""
    a = 1 if plain or via == 'range' else r.choice([x for x in (1, n - 1, 7, 11, 13, 17, 29, 31) if 0 < x <= n and math.gcd(x, n) == 1 and x * n < 2**31])
    b = 0 if via == 'range' or plain else r.randrange(n)
    at = [0, 1, 2, n // 2, n - 1, n, n + 1, n * rep - 1] + [x + d for x in (8, 16, 32, 64, 128, 256, 512, 1024, 32768, 65536) for d in (-1, 0)]
    return dict(op='big', o=o, via=via, env=env, n=n, r=rep, a=a, b=b, at=at)


def int_text(r):
    return r.choice([r.choice(INT_GOOD), str(r.randint(-1000, 1000)), str(r.randint(-2**63, 2**63 - 1)), str(r.randint(-2**33, 2**33))])


def int_bad(r):
    return r.choice([r.choice(INT_BAD), str(r.randint(2**63, 2**65)), str(-r.randint(2**63 + 1, 2**66)),
                     str(r.randint(-500, 500)) + r.choice('xX.,: _-e%')])


# decimals next to the border between two doubles
ROUNDING = ['9007199254740993', '9007199254740992.9999', '9007199254740993.0000000000000001', '9007199254740995', '0.1000000000000000055', '0.10000000000000001', '0.3000000000000000166', '1.00000000000000011102230246251565',
            '1.000000000000000111022302462515654', '1.0000000000000001110223024625156540424', '123456789012345678', '0.333333333333333333333333', '2.2250738585072014e-290', '179769313486231.57e200', '4503599627370497.5', '-4503599627370496.5']
# at and beyond the ends of the range of doubles
FLT_ENDS = ['1e308', '1.7976931348623157e308', '1.7976931348623158e308', '1.79769313486231580794e308', '1.7976931348623159e308', '1e309', '-1e400', '1e99999', '1e-307', '1e-323', '5e-324', '4.9e-324', '2.4e-324', '2.5e-324',
            '-1e-400', '1e99999999999999999999', '-1e-99999999999', '2.2250738585072011e-308', '2.2250738585072014e-308', '0e99999999999', '0.000e-400', '123456e303', '-123456e304', '1e+0000000000000000012', '1e-00', '17976931348623157' + '0' * 292,
            '17976931348623159' + '0' * 292, '0.' + '0' * 320 + '49', '0.' + '0' * 330 + '9', '1e308x', '1e309,', '1e-400 ', '1e 5', '1e+-5', '1e-', '-1e+']


def flt_mid(r):
    """a decimal at the middle between two neighbouring doubles, or a hair beside it"""
    while 1:
        d = r.choice([r.uniform(.5, 2), r.uniform(1, 1000), float(r.randint(2**52, 2**56)), r.uniform(1e15, 1e22), 2.0**r.randint(-8, 70), r.uniform(.01, 1)])
        m = (Fraction(d) + Fraction(math.nextafter(d, math.inf))) / 2
        k = m.denominator.bit_length() - 1      # a power of two
        if k > 62:
            continue
        t = str(m.numerator * 5**k).rjust(k + 1, '0')
        t = t[:-k] + '.' + t[-k:] if k else t + r.choice(['', '.0', '.'])
        u = r.choice(['', '+', 'z', '-'])
        if u == '+':
            t = (t if '.' in t else t + '.') + '0' * r.choice([0, 1, 6, 20, 40]) + r.choice('159')
        elif u == 'z':
            t = (t if '.' in t else t + '.') + '0' * r.choice([1, 9])
        elif u == '-':
            i = max(j for j, c in enumerate(t) if c in '123456789')
            t = t[:i] + str(int(t[i]) - 1) + ('9' * r.choice([1, 5, 30]) if '.' in t[:i] else t[i + 1:].replace('.', '') .replace('0', '9') + '.' + '9' * r.choice([1, 5, 30]))
        return r.choice(['', '', '-', '+']) + t


def flt_text(r):
    t = r.choice([r.choice(FLT_GOOD), '%d.%d' % (r.randint(-999, 999), r.randint(0, 99999)),
                  '%s%de%d' % (r.choice(['', '-', '+']), r.randint(1, 99999), r.randint(-60, 60)),
                  '%s%d.%de%d' % (r.choice(['', '-']), r.randint(0, 99), r.randint(0, 10**r.choice([3, 17, 30])), r.choice([0, 0, 5, -5, 99, -99, 290, -290])),
                  '%d' % r.randint(-10**19, 10**19), r.choice(ROUNDING)])
    return t


def near_float(r):
    """numbers that differ by little more than the tolerance of the unique flag"""
    return '%s%d.%s' % (r.choice(['', '', '-']), r.choice([0, 0, 1, 2, 30]), r.choice(['%04d', '%06d', '%04d000', '%07d']).__mod__(2 * r.randint(0, 9)))


def flt_coarse(r):
    """floats of lists: equal, or further apart than the tolerance of the unique flag"""
    return r.choice([r.choice(['0', '1.5', '-2.25', '.5', '5.', '1e3', '+3.75', '00.10', '-.5e1', '1e+5', '0.1', '-0.3', '2.5e2', '100', '0.0', '1e0', '0.001', '5E-1', '3', '1e100']),
                     '%d.%d' % (r.randint(-99, 99), r.randint(0, 999)), '%s%de%d' % (r.choice(['', '-', '+']), r.randint(1, 999), r.randint(-3, 40)), near_float(r)])


def flt_bad(r):
    return r.choice([r.choice(FLT_BAD), flt_text(r).strip() + r.choice('xX,: _%')])


def word(r):
    return r.choice([r.choice(STRS), ''.join(r.choice('abcXYZ019._/:@-') for _ in range(r.randint(1, 8)))]).lstrip('-') or 'w'


def int_elem(r, big=True):
    k = r.random()
    if k < .6:
        return str(r.randint(-30, 30)) if r.random() < .8 else str(r.randint(-2**31, 2**31 - 1))
    a = r.randint(-12, 12)
    b = a + r.randint(-6, 6)
    return '%d%s%d' % (a, r.choice('-:'), b)


ELEM_BAD = ['x', '1x', '1-', '1-x', 'x-3', '--2', '1.5', '1-2-3', '3:', ':3', '99999999999999999999', '1-99999999999999999999', ' ', '4 ', '1-2x', '1- 2x', '-', '1--', 'a:b']


BIGINT = [str(x) for x in (2**63 - 1, 2**63 - 2, -2**63, 1 - 2**63, 2**32, 2**32 + 1, 2**31, -2**31 - 1, 2**53 + 1, -2**53 - 1)]
NOINT = [str(x) for x in (2**63, 2**63 + 1, -2**63 - 1, 2**64, 2**64 - 1, 2**64 + 5, -2**64, 10**25, -10**25)]


def elem(r, vt, good=True):
    if vt in ('as', 'vs'):
        return word(r).replace(',', ';')
    if vt == 'ai':
        return int_elem(r) if good else r.choice(ELEM_BAD)
    if vt == 'vi':
        return r.choice([str(r.randint(-50, 50)), str(r.randint(-2**31, 2**31 - 1))]) if good else int_bad(r)
    return flt_coarse(r) if good else flt_bad(r).replace(',', ';') or 'x'


KEYS = ['k', 'key', 'ke', 'a', 'b', 'c', 'K', 'a.b', 'x-y', '1', 'zeta', 'alpha', 'beta']


def pair(r, vt, good=True):
    x = r.random()
    k = r.choice(KEYS) if x < .8 else '' if x < .84 else ''.join(r.choice('abc') for _ in range(r.randint(1, 3)))
    if vt == 'ms':
        v = r.choice([word(r), '', 'a=b', '=', 'same', 'same', 'x'])
    elif vt == 'mi':
        v = r.choice([str(r.randint(-9, 9)), str(r.randint(-2**31, 2**31 - 1)), int_text(r).strip() or '0'])
    elif vt == 'mf':
        v = r.choice(['1.5', '2', '-3.25', flt_coarse(r)])
    else:
        v = r.choice(BOOL_TRUE + BOOL_FALSE)
    if not good:
        if vt == 'ms' or r.random() < .4:
            return r.choice(['nokey', 'x', 'key:3', 'justtext'])
        v = {'mi': int_bad, 'mf': flt_bad, 'mb': lambda r: r.choice(BOOL_BAD)}[vt](r)
    return k + '=' + v.replace(',', ';')


def value(r, o, good=True):
    vt = o['vt']
    if vt in ('str', 'own'):
        return r.choice(STRS) if r.random() < .6 else word(r)
    if vt == 'int':
        return int_text(r) if good else int_bad(r)
    if vt == 'float':
        return flt_text(r) if good else flt_bad(r)
    if vt in ('bool', 'flag'):
        return r.choice(BOOL_TRUE + BOOL_FALSE) if good else r.choice(BOOL_BAD)
    if vt == 'vi' and good and not set(o['flags']) & {'SORTED', 'UNIQUE'} and r.random() < .2:
        return r.choice(BIGINT)
    if vt in ('vs', 'vi', 'vf'):
        return elem(r, vt, good)
    n = r.choice([1, 1, 1, 2, 2, 3, 4, 7])
    f = pair if vt in MAPS else elem
    if vt == 'ai' and good and not o['flags'] and r.random() < .2:
        return ','.join(r.choice(BIGINT) for _ in range(r.choice([1, 2, 3])))
    parts = [f(r, vt, True) for _ in range(n)]
    if not good and (vt != 'as'):
        parts[r.randrange(n)] = f(r, vt, False)
    sep = ',' if r.random() < .9 else ',,'
    t = sep.join(parts)
    if r.random() < .06:
        t = r.choice([',' + t, t + ','])
    return t


def spell(r, o, v, how=None):
    """one occurrence of option o with value v (None for a flag): list of tokens"""
    l, s = o['l'], o['s']
    if v is None:
        return ['--' + l] if l and (not s or r.random() < .5) else ['-' + s]
    forms = []
    if l:
        forms += [['--' + l, v], ['--%s=%s' % (l, v)]]
    if s:
        forms += [['-' + s, v]]
        if v:
            forms += [['-' + s + v]]
    return r.choice(forms)


def opts_of(level):
    return [o for o in level if o['k'] == 'opt']


def plain(o):
    return 'EXIT' not in o['flags']


class Argv:
    """random argument vector for a table"""
    def __init__(self, r, sc, n=6, bad=.04, exit=.0, term=.08, optlike=.15, cmd=.9, fill=.95, maxpos=None, badval=.04, posprob=.35):
        self.r, self.sc = r, sc
        self.n, self.bad, self.exit, self.term, self.optlike, self.cmd, self.fill, self.badval = n, bad, exit, term, optlike, cmd, fill, badval
        self.posprob = posprob

    def val(self, o):
        r = self.r
        if o['vt'] in ('str',) and r.random() < self.optlike:
            return r.choice(STR_OPTLIKE)
        return value(r, o, r.random() >= self.badval)

    def posval(self, o, only):
        r = self.r
        v = value(r, o, r.random() >= self.badval)
        if only and o['vt'] in ('str', 'vs') and r.random() < .4:
            return r.choice(STR_OPTLIKE)
        return v

    def make(self):
        r = self.r
        out, lev = [], 1
        while True:
            level = self.sc['levels'][lev - 1]
            opts = [o for o in opts_of(level) if plain(o)]
            exits = [o for o in opts_of(level) if not plain(o)]
            poss = [o for o in level if o['k'] == 'pos']
            subs = [o for o in level if o['k'] == 'sub']
            only, pc = False, 0
            for _ in range(r.randint(0, self.n)):
                k = r.random()
                if k < self.bad:
                    out.append(r.choice(['--unknown', '-Z', '--nu', '---', '--=x', '-', '--out=', 'stray', '-9', '--ver', '-=']))
                elif k < self.bad + self.exit and exits:
                    out += spell(r, r.choice(exits), None)
                elif k < self.bad + self.exit + self.term and (poss or r.random() < .2):
                    out.append('--')
                    only = True
                elif poss and r.random() < self.posprob:
                    o = poss[min(pc, len(poss) - 1)]
                    if pc >= len(poss) and o['vt'] not in ('vs', 'vi', 'vf') and r.random() < .9:
                        continue
                    pc += 1
                    out.append(self.posval(o, only))
                elif opts and not only:
                    out += self.occurrence(opts)
            missing = [o for o in poss[pc:] if 'REQUIRED' in o['flags']]
            if r.random() < self.fill:
                for o in missing:
                    out.append(self.posval(o, only))
            if not only or r.random() < .3:
                vis = subs
                if vis and r.random() < self.cmd:
                    o = r.choice(vis)
                    nm = o['name']
                    if r.random() < .25 and len(nm) > 1:
                        nm = nm[:r.randint(1, len(nm))]
                    out.append(nm)
                    lev = o['sub']
                    # the prefix may select another command; good enough
                    continue
            # a last value-taking option without its value
            if opts and r.random() < self.bad:
                o = r.choice(opts)
                out.append('--' + o['l'] if o['l'] else '-' + o['s'])
            return out

    def occurrence(self, opts):
        r = self.r
        flags = [o for o in opts if o['vt'] == 'flag' and o['s']]
        if flags and r.random() < .3:
            cl = '-' + ''.join(r.choice(flags)['s'] for _ in range(r.randint(1, 4)))
            vals = [o for o in opts if o['vt'] != 'flag' and o['s']]
            if vals and r.random() < .6:
                o = r.choice(vals)
                v = self.val(o)
                if v and r.random() < .5:
                    return [cl + o['s'] + v]
                return [cl + o['s'], v]
            return [cl]
        o = r.choice(opts)
        return spell(r, o, None if o['vt'] == 'flag' else self.val(o))


ALL_OPT = ['flag', 'bool', 'str', 'int', 'float', 'as', 'ai', 'af', 'ms', 'mi', 'mf', 'mb']
ALL_TYPES = ALL_OPT + ['own']


FAR = 'name-of-an-option-that-is-far-longer-than-anybody-would-like-to-type-but-legal'
FARS = [FAR[:k] + t for k in (15, 16, 31, 32, 62, 63, 64, 70) for t in ('a', 'b', 'bb', '')]
FARS = [x for i, x in enumerate(FARS) if x[-1] != '-' and x not in FARS[:i]]


def names(r, n):
    l = LONGS[:]
    r.shuffle(l)
    if r.random() < .15:
        for i, x in enumerate(r.sample(FARS, min(len(FARS), r.choice([2, 4, 12])))):
            l[i] = x
        k = r.sample(range(12), 12)
        l = [l[i] for i in k] + l[12:]
    s = SHORTS[:]
    r.shuffle(s)
    out, seen = [], set()
    for i in range(n):
        k = r.random()
        L = '' if k < .15 else l[i]
        Sx = '' if L and k > .75 else s[i]
        nm = L or Sx
        if nm in seen:
            L = l[i + 12]
            nm = L
        seen.add(nm)
        out.append((Sx, L))
    # no long name equal to the name of a short-only option
    shorts = {a for a, b in out if not b}
    return [(a, b if b not in shorts else b + 'q') for a, b in out]


def rand_opts(r, types, n):
    out = []
    for s, l in names(r, n):
        out.append(opt(r.choice(types), s, l))
    return out


def chain_queries(sc, r, limit=40):
    """every option by plain name and by its full chain"""
    out = []

    def walk(lev, pre, depth):
        for o in sc['levels'][lev - 1]:
            if o['k'] in ('opt', 'pos'):
                out.append(pre + o['name'])
            if o['k'] == 'sub' and depth < 9:
                walk(o['sub'], pre + o['name'] + '.', depth + 1)
    walk(1, '', 0)
    out = list(dict.fromkeys(out))
    if len(out) > limit:
        r.shuffle(out)
        out = out[:limit]
    return [Q(p) for p in out]


CMD_SETS = [['st', 'start', 'stat', 'status', 's', 'stop', 'staging'], ['a', 'ab', 'abc', 'b', 'bc'], ['run', 'runner', 'rm', 'remote', 'rename'],
            ['add', 'apply', 'list', 'ls'], ['config', 'conf', 'con', 'commit', 'co'], ['get', 'set', 'del'], ['x'], ['push', 'pull', 'pu'],
            ['db', 'db-migrate', 'db2', 'Db'], [FAR[:k] + t for k, t in ((31, 'a'), (31, 'b'), (32, ''), (33, 'c'), (63, 'a'), (63, 'b'), (64, 'z'))]]


def tree(r, depth, mk, maxlev=9, wide=4, hidden=.0, act=.7):
    """levels of a random command tree; mk(r, number) makes the options of one level"""
    levels = []
    deep = depth > 0 and r.random() < .14        # a few far deeper than usual
    if deep:
        depth, maxlev, wide = r.randint(4, 8), 12, r.choice([1, 2])

    def grow(d):
        i = len(levels)
        levels.append(None)
        body = mk(r, i + 1)
        if d > 0:
            k = r.choice(CMD_SETS)[:]
            r.shuffle(k)
            for n in k[:r.randint(1, wide)]:
                if len(levels) >= maxlev:
                    break
                if n in [o['name'] for o in body]:      # names are unique within a level
                    continue
                li = grow(d - 1 if r.random() < (.95 if deep else .8) else 0)
                a = ('do_%d_%s' % (li, n)) if r.random() < act else ''
                body.append(sub(n, li, act=a, arc=r.choice([0, 0, 3, 7, -1, 21, 255, 256, 65536, 2**31 - 1, -2**31 + 1]) if a else 0, flags=['HIDDEN'] if r.random() < hidden else []))
        levels[i] = body
        return i + 1
    grow(depth)
    return levels
