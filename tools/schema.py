"""Option tables: one description, emitted both as C (public macros) and as
data for the specification."""
import json

VT_MACRO = {
    'flag': 'OPTION_FLAG', 'bool': 'OPTION_BOOL', 'str': 'OPTION_STRING', 'int': 'OPTION_INT',
    'float': 'OPTION_FLOAT', 'as': 'OPTION_ARRAY_STRING', 'ai': 'OPTION_ARRAY_INT',
    'af': 'OPTION_ARRAY_FLOAT', 'ms': 'OPTION_MAP_STRING', 'mi': 'OPTION_MAP_INT',
    'mf': 'OPTION_MAP_FLOAT', 'mb': 'OPTION_MAP_BOOL', 'own': 'OPTION_BASE'}
POS_MACRO = {'str': 'POSITIONAL_STRING', 'int': 'POSITIONAL_INT', 'bool': 'POSITIONAL_BOOL',
             'float': 'POSITIONAL_FLOAT', 'vs': 'POSITIONAL_MANY_STRING',
             'vi': 'POSITIONAL_MANY_INT', 'vf': 'POSITIONAL_MANY_FLOAT', 'own': 'POSITIONAL_BASE'}
LISTS = ('as', 'ai', 'af', 'vs', 'vi', 'vf')
MAPS = ('ms', 'mi', 'mf', 'mb')
COLL = LISTS + MAPS
EMPTY = '@empty@'
PREDEF = {'IPV4': 'IPv4', 'IPV6': 'IPv6', 'DOMAIN': 'domain', 'URL': 'URL', 'HTTP': 'HTTP-URL', 'PORT': 'port',
          'EMAIL': 'email', 'EMAIL_STRICT': 'email-strict', 'ISO_DATE': 'YYYY-MM-DD', 'ISOTIME': 'ISO-datetime',
          'USER': 'username', 'PASSWD': 'password', 'UUID': 'UUID', 'UNIX_PATH': 'unix-path', 'FILENAME': 'filename',
          'SEMVER': 'semver', 'POS_INT': 'positive-int', 'NEG_INT': 'negative-int', 'FLOAT': 'decimal', 'HEX': 'hex'}
OWN = {'digits': '^[0-9]+$', 'abc3': '^[a-z]{3}$', 'kv': '^[a-z]+=[0-9]+$', 'opt-a-b': '^a?b?$',
       'issue': '^[a-z]+ #[0-9]+$', 'switch': '^(on|off|[0-9]{2,4})$', 'capital': '^[A-Z][a-z]*$', 'has-x': 'x[0-9]',
       'few': '^[0-9]{1,300}$', 'more': '^[0-9]+[0-9]{0}$'}

BASE = dict(k='opt', name='', s='', l='', vt='', flags=[], env='', vals=[], req=[], con=[], help='',
            hint='', sub=0, act='', arc=0, h='std', hbad='', hrc=0)
BASE['def'] = ''


def rec(**kw):
    r = {k: (list(v) if isinstance(v, list) else v) for k, v in BASE.items()}
    r.update(kw)
    return r


def opt(vt, s='', l='', help='some help', **kw):
    d = kw.pop('default', '')
    if vt == 'own':         # a custom option that owns its value
        kw['h'] = 'own'
    r = rec(k='opt', vt=vt, s=s, l=l, name=l if l else s, help=help, **kw)
    r['def'] = d
    return r


def pos(vt, name, required=True, help='some help', **kw):
    d = kw.pop('default', '')
    if vt == 'own':
        kw['h'] = 'own'
    fl = kw.pop('flags', []) + (['REQUIRED'] if required else [])
    r = rec(k='pos', vt=vt, name=name, help=help, flags=fl, **kw)
    r['def'] = d
    return r


def grp(name, flags=()):
    return rec(k='grp', name=name, flags=list(flags))


def gend():
    return rec(k='end')


def sub(name, level, act='', arc=0, help='does things', flags=()):
    return rec(k='sub', name=name, sub=level, act=act, arc=arc, help=help, flags=list(flags))


def help_opt():
    return opt('flag', 'h', 'help', 'Show help message', flags=['EXIT'], h='help')


def version_opt():
    return opt('flag', 'V', 'version', 'Show version information', flags=['EXIT'], h='version')


VBASE = dict(t='', lo='', hi='', ch=[], ct=[], p='', pat='', hint='', id='', bad='', rc=0, see='')


def val(t, **kw):
    r = {k: (list(v) if isinstance(v, list) else v) for k, v in VBASE.items()}
    r.update(t=t, **kw)
    return r


def v_range(lo, hi): return val('range', lo=str(lo), hi=str(hi))
def v_length(lo, hi): return val('length', lo=str(lo), hi=str(hi))
def v_count(lo, hi): return val('count', lo=str(lo), hi=str(hi))
def v_pre(id, bad='', rc=40, see=''): return val('pre', id=id, bad=bad, rc=rc, see=see)
def v_post(id, bad='', rc=41, see=''): return val('post', id=id, bad=bad, rc=rc, see=see)
def v_choice_str(*c): return val('choice', ch=['s:' + x for x in c], ct=list(c))
def v_choice_int(*c): return val('choice', ch=['i:%d' % x for x in c], ct=['%d' % x for x in c])
def v_choice_float(*c): return val('choice', ch=[canon(x) for x in c], ct=['%g' % float(x) for x in c])


def v_regex(p, hint=None):
    if p in PREDEF:
        return val('regex', p=p, pat='predefined-pattern', hint=PREDEF[p])
    return val('regex', p=p, pat=OWN[p], hint='' if hint is None else hint)


def canon(x):
    """canonical text of a float, from its decimal text or a Python float"""
    t = ('%r' % float(x)) if not isinstance(x, str) else x
    from decimal import Decimal
    d = Decimal(t)
    if d == 0:
        return 'f:0'
    sign, dig, e = d.as_tuple()
    s = ''.join(map(str, dig)).lstrip('0')
    ex = len(s) + e
    s = s.rstrip('0')
    return 'f:%s%se%d' % ('-' if sign else '', s, ex)


def schema(levels, prog='prog', ver='1.2', desc='A test program', prefix='', cfg=None):
    c = dict(w=80, col=30, ind=2, hl=24, sp=False, sq=False)
    if cfg:
        c.update(cfg)
    return dict(levels=levels, prog=prog, ver=ver, desc=desc, prefix=prefix, cfg=c)


# ---- C ----
def cs(s):
    if s == EMPTY:
        return '""'
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def ci(t):
    t = int(t)
    if t == -2**63:
        return 'INT64_MIN'
    return '%dLL' % t


def cf(tag):
    s = tag[2:]
    if s == '0':
        return '0.0'
    neg = s.startswith('-')
    m, e = s.lstrip('-').split('e')
    return '%s0.%se%s' % ('-' if neg else '', m, e)


def cdef(o):
    d = o['def']
    if d[0] == 'i':
        return '(int64_t)' + ci(d[2:])
    if d[0] == 'f':
        return cf(d)
    if d[0] == 'b':
        return 'true' if d == 'b:1' else 'false'
    return cs(d[2:])


def cval(o, v, ctx):
    t = v['t']
    if t in ('range', 'length', 'count'):
        return 'V_%s(%s, %s)' % (t.upper(), ci(v['lo']), ci(v['hi']))
    if t == 'choice':
        k = v['ch'][0][0]
        if k == 's':
            return 'V_CHOICE_STR(%s)' % ', '.join(cs(c[2:]) for c in v['ch'])
        if k == 'i':
            return 'V_CHOICE_INT(%s)' % ', '.join(ci(c[2:]) for c in v['ch'])
        return 'V_CHOICE_FLOAT(%s)' % ', '.join(cf(c) for c in v['ch'])
    if t == 'regex':
        if v['p'] in PREDEF:
            return 'V_REGEX(ARGUS_RE_%s)' % v['p']
        return 'V_REGEX(MAKE_REGEX(%s, %s))' % (cs(v['pat']), cs(v['hint']) if v['hint'] else 'NULL')
    return 'MAKE_VALIDATOR(drv_%s, NULL, CTX(%s, %s, %s, %d, %s), ORDER_%s)' % (
        t, cs(o['name']), cs(v['id']), cs(v['bad']), v['rc'], cs(v['see']), t.upper())


def emit(schemas, first=0):
    """C text of the tables; returns (text, registry lines)"""
    out, reg = ['#include "driver.h"'], []
    for si, sc in enumerate(schemas):
        si += first
        out += ['extern argus_option_t t_%d_%d[];' % (si, li) for li in range(1, len(sc['levels']) + 1)]
        for li in range(len(sc['levels']), 0, -1):
            rows, pre = [], []
            for oi, o in enumerate(sc['levels'][li - 1]):
                a = []
                if o['help'] and o['k'] in ('opt', 'pos', 'sub'):
                    a.append('HELP(%s)' % cs(o['help']))
                fl = o['flags']
                if o.get('rawflags'):
                    a.append('FLAGS(%s)' % o['rawflags'])
                elif fl or o['k'] == 'pos':
                    if not (o['k'] == 'pos' and fl == ['REQUIRED']):
                        a.append('FLAGS(%s)' % ('|'.join('FLAG_' + f for f in fl) or '0'))
                if o['env']:
                    a.append('ENV_VAR(%s)' % cs(o['env']))
                if o['def'] and not o.get('raw_def'):
                    a.append('DEFAULT(%s)' % cdef(o))
                if o['hint']:
                    a.append('HINT(%s)' % cs(o['hint']))
                if o['req']:
                    a.append('REQUIRE(%s)' % ', '.join(map(cs, o['req'])))
                if o['con']:
                    a.append('CONFLICT(%s)' % ', '.join(map(cs, o['con'])))
                if o['vals']:
                    a.append('VALIDATOR(%s)' % ', '.join(cval(o, v, None) for v in o['vals']))
                if o['h'] == 'help':
                    a.append('HANDLER(help_handler)')
                elif o['h'] == 'version':
                    a.append('HANDLER(version_handler)')
                elif o['h'] == 'none':
                    a.append('HANDLER(NULL)')
                elif o['h'] == 'log':
                    fn = 'h_%d_%d_%d' % (si, li, oi)
                    pre.append('static int %s(argus_t *a, argus_option_t *o, char *v) { (void)a; return drv_handler(o, v, %s, %d); }'
                               % (fn, cs(o['hbad']), o['hrc']))
                    a.append('HANDLER(%s)' % fn)
                elif o['h'] == 'own':
                    fn = 'h_%d_%d_%d' % (si, li, oi)
                    pre.append('static int %s(argus_t *a, argus_option_t *o, char *v) { (void)a; return drv_own(o, v, %s, %d); }'
                               % (fn, cs(o['hbad']), o['hrc']))
                    a += ['HANDLER(%s)' % fn, 'FREE_HANDLER(drv_own_free)']
                if o['act']:
                    fn = 'act_%d_%d_%d' % (si, li, oi)
                    pre.append('static int %s(argus_t *a, void *d) { (void)a; return drv_action(%s, d, %d); }'
                               % (fn, cs(o['act']), o['arc']))
                    a.append('ACTION(%s)' % fn)
                for x in o.get('raw', []):
                    a.append(x)
                if o['vt'] == 'own':
                    a = ['VALUE_TYPE_CUSTOM'] + a
                tail = ''.join(', ' + x for x in a)
                if o['k'] == 'opt':
                    sn = "'%s'" % ('\\' + o['s'] if o['s'] in "'\\" else o['s']) if o['s'] else "'\\0'"
                    ln = cs(o['l']) if o['l'] else 'NULL'
                    if o['h'] == 'help' and o['help'] == 'Show help message' and not (o['env'] or o['req'] or o['con'] or o['vals'] or o['def'] or o.get('raw')) and o['flags'] == ['EXIT'] and (o['s'], o['l']) == ('h', 'help'):
                        rows.append('HELP_OPTION()')
                    elif o['h'] == 'version' and o['help'] == 'Show version information' and not (o['env'] or o['req'] or o['con'] or o['vals'] or o['def'] or o.get('raw')) and o['flags'] == ['EXIT'] and (o['s'], o['l']) == ('V', 'version'):
                        rows.append('VERSION_OPTION()')
                    else:
                        rows.append('%s(%s, %s%s)' % (VT_MACRO[o['vt']], sn, ln, tail))
                elif o['k'] == 'pos':
                    rows.append('%s(%s%s)' % (POS_MACRO[o['vt']], cs(o['name']) if o['name'] else 'NULL', tail))
                elif o['k'] == 'grp':
                    rows.append('GROUP_START(%s%s)' % (cs(o['name']), tail))
                elif o['k'] == 'end':
                    rows.append('GROUP_END()')
                else:
                    so = 't_%d_%d' % (si, o['sub']) if o['sub'] else 'NULL'
                    rows.append('SUBCOMMAND(%s, %s%s)' % (cs(o['name']) if o['name'] else 'NULL', so, tail))
            out += pre
            out.append('ARGUS_OPTIONS(t_%d_%d,\n  %s)' % (si, li, ''.join('  ' + r + ',\n' for r in rows)))
        c = sc['cfg']
        reg.append(('extern argus_option_t t_%d_1[];' % si,
                    '{t_%d_1, %s, %s, %s, %s, %d, %d, %d, %d, %s}' % (
                        si, cs(sc['prog']), cs(sc['ver']) if sc['ver'] else 'NULL', cs(sc['desc']) if sc['desc'] else 'NULL',
                        cs(sc['prefix']) if sc['prefix'] else 'NULL', c['w'], c['col'], c['ind'], c['hl'],
                        'true' if c['sp'] else 'false')))
    return '\n'.join(out) + '\n', reg


SPEC_KEYS = list(BASE)


def spec_json(sc):
    d = dict(sc)
    d['levels'] = [[{k: o[k] for k in SPEC_KEYS} for o in lv] for lv in sc['levels']]
    return json.dumps(d)


def kind_of(vt):
    return 'l' if vt in LISTS else 'm' if vt in MAPS else 's'


def path_kind(sc, path):
    n = path.split('.')[-1]
    ks = {kind_of(o['vt']) if o['k'] in ('opt', 'pos') else 's'
          for lv in sc['levels'] for o in lv if o['name'] == n}
    return ks.pop() if len(ks) == 1 else '?'
