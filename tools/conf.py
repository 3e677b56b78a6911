"""Conformance pipeline: tables -> C driver on the real library -> recorded
events -> trace validation by TLC against spec/Argus.tla."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import schema as sch

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('ARGUS_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SAN = ['-fsanitize=address,bounds,null,alignment', '-fno-sanitize-recover=all']
CC = 'gcc'
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup']


class MachineError(Exception):
    pass


class Work:
    """scratch directory of one run"""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='argus-verif-')
        return self

    def __exit__(self, *a):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            print('kept', self.dir, file=sys.stderr)

    def path(self, *p):
        return os.path.join(self.dir, *p)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def compile_all(jobs):
    """jobs: list of (src, obj, flags); runs in parallel"""
    def one(j):
        src, obj, flags = j
        r = sh([CC, '-c', src, '-o', obj, '-w', '-g'] + flags)
        if r.returncode:
            raise MachineError('compile %s failed:\n%s' % (src, r.stdout[-3000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))


def build(work, schemas, debug=False, tag='drv', regex=True, flags=None):
    """driver binary containing the given tables"""
    d = work.path(tag)
    os.makedirs(d, exist_ok=True)
    flags = (['-O1'] + SAN if flags is None else flags) + ['-I', os.path.join(REPO, 'includes'), '-I', HERE, '-std=gnu11']
    if regex:
        flags.append('-DARGUS_REGEX')
    jobs, objs = [], []
    for s in sorted(glob.glob(os.path.join(REPO, 'source/**/*.c'), recursive=True)):
        o = os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')
        jobs.append((s, o, flags))
        objs.append(o)
    dbg = ['-DARGUS_DEBUG'] if debug else []
    tf = [f for f in flags if f != '-O1'] + ['-O0'] + dbg
    o = os.path.join(d, 'driver.o')
    jobs.append((os.path.join(HERE, 'driver.c'), o, ['-O0', '-I', os.path.join(REPO, 'includes'), '-I', HERE] + SAN[:1] + dbg + (['-DARGUS_REGEX'] if regex else [])))
    objs.append(o)
    chunk = max(1, (len(schemas) + JOBS * 2 - 1) // (JOBS * 2))
    reg = []
    for k in range(0, len(schemas), chunk):
        text, r = sch.emit(schemas[k:k + chunk], k)
        reg += r
        p = os.path.join(d, 'tables_%d.c' % k)
        open(p, 'w').write(text)
        jobs.append((p, p + '.o', tf))
        objs.append(p + '.o')
    p = os.path.join(d, 'registry.c')
    open(p, 'w').write('#include "driver.h"\n' + '\n'.join(a for a, _ in reg) +
                       '\nstruct table tables[] = {\n' + ',\n'.join(b for _, b in reg) + '\n};\nconst int ntables = %d;\n' % len(reg))
    jobs.append((p, p + '.o', tf))
    objs.append(p + '.o')
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    compile_all(jobs)
    exe = os.path.join(d, 'driver')
    r = sh([CC, '-o', exe] + objs + SAN[:1] + ['-fsanitize=bounds,null,alignment'] + WRAP + (['-lpcre2-8'] if regex else []) + ['-lm'])
    if r.returncode:
        raise MachineError('link failed:\n' + r.stdout[-3000:])
    return exe


def hx(s):
    return s.encode('latin-1').hex()


def case_text(c, schemas):
    L = ['case %d %d %d' % (c['id'], c['sc'], 1 if c['script'][0]['op'] == 'define' else 0)]
    sc = schemas[c['sc']]
    for op in c['script']:
        n = op['op']
        if n == 'use':
            sc = schemas[op['sc']]
            L.append('use %d' % op['sc'])
        elif n == 'parse':
            L.append('parse %d %d %d' % (len(op['argv']), len(op['env']), op.get('oom', 0)))
            L += ['a ' + hx(a) for a in op['argv']]
            L += ['e %s %s' % (hx(a), hx(b)) for a, b in op['env']]
        elif n == 'q':
            L.append('q %s %s' % (sch.path_kind(sc, op['p']), hx(op['p'])))
        elif n == 'batch':
            L.append('batch %d %s %s %s %s' % (len(op['texts']), sch.path_kind(sc, op['o']), op['via'], hx(op['o']), hx(op['env'])))
            L += ['a ' + hx(a) for a in op['texts']]
        elif n == 'big':
            o = next(o for o in sc['levels'][0] if o['name'] == op['o'])
            L.append('big %s %s %d %d %d %d %s %s %s' % (o['vt'], op['via'], op['n'], op['r'], op['a'], op['b'], hx(op['o']), hx(op['env']), ' '.join(map(str, op['at']))))
        else:
            L.append(n)
    L.append('end')
    return '\n'.join(L) + '\n'


def squash(s):
    return ''.join(s.split())


def norm(s):
    return ' '.join(s.split())


def post(ev, c, schemas):
    """raw driver events of one case -> trace events"""
    s = schemas[c['sc']]
    out = []
    fin = exited = False
    for e in ev:
        k = e['e']
        if k == 'fin':
            fin = True
            continue
        if k == 'status':
            if not exited and not fin:
                out.append(dict(e='crash', why=norm(e['why'])[:1500]))
            continue
        if k == 'timeout':
            out.append(dict(e='timeout'))
            fin = True
            continue
        e = dict(e)
        if k == 'use':
            s = schemas[e.pop('sc')]
        if k == 'batch':
            e['r'] = [dict(x, txt=squash(x['txt'])) for x in e['r']]
        if 'errout' in e:
            err = e.pop('errout')
            e['errempty'] = err == ''
            lines = err.split('\n')
            if k == 'exit':
                e['blame'] = re.findall(r' -> \w+ \[ (.*?) ?\]:', err)
            if k == 'parse':
                e['txt'] = squash(''.join(ln for ln in lines if not ln.startswith("Try '")))
                e['msg'] = any(ln.startswith(s['prog'] + ': ') for ln in lines)
                h = [norm(ln) for ln in lines if ln.startswith("Try '")]
                e['hint'] = h[0] if h else ''
                if len(h) > 1:
                    e['hint'] = '|'.join(h)
        if 'out' in e:
            o = e['out']
            if k == 'exec':
                e['paths'] = sorted({norm(ln).split(' - ')[0] for ln in o.split('\n') if ln.strip()})
                del e['out']
            else:
                if k in ('help', 'usage', 'version'):
                    e['wide'] = k == 'help' and max((len(o.get('hint') or '') for lv in s['levels'] for o in lv), default=0) <= 40 and any(len(ln) > s['cfg']['w'] for ln in o.split('\n') if ln.startswith(' '))
                e['out'] = norm(o)
                if k == 'exit':
                    e['words'] = sorted({w.rstrip(',') for w in o.split()})
        if k == 'exit':
            exited = True
        out.append(e)
    if not fin and not exited and not (out and out[-1]['e'] in ('crash', 'timeout')):
        out.append(dict(e='crash', why='process ended'))
    return out


def run_cases(work, exe, cases, schemas, tag='run', tmo=6):
    """cases -> {id: trace}"""
    d = work.path(tag)
    os.makedirs(d, exist_ok=True)
    parts = [cases[i::JOBS] for i in range(JOBS)]
    procs = []
    env = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:color=never:allocator_may_return_null=1:hard_rss_limit_mb=2500',
           'UBSAN_OPTIONS': 'print_stacktrace=0', 'PATH': '/usr/bin:/bin'}
    for i, p in enumerate(parts):
        if not p:
            continue
        ci, eo = os.path.join(d, 'c%d' % i), os.path.join(d, 'e%d' % i)
        open(ci, 'w').write(''.join(case_text(c, schemas) for c in p))
        procs.append((subprocess.Popen([exe, ci, eo, str(tmo)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), eo))
    byid = {c['id']: c for c in cases}
    res = {}
    for pr, eo in procs:
        _, err = pr.communicate()
        if pr.returncode:
            raise MachineError('driver failed (%d): %s' % (pr.returncode, err.decode()[-2000:]))
        cur = None
        evs = {}
        for ln in open(eo):
            e = json.loads(ln)
            if e['e'] == 'case':
                cur = evs.setdefault(e['id'], [])
            else:
                cur.append(e)
        for i, ev in evs.items():
            res[i] = post(ev, byid[i], schemas)
    if len(res) != len(cases) and not any(e['e'] == 'timeout' for t in res.values() for e in t):
        raise MachineError('driver lost cases: %d of %d' % (len(res), len(cases)))
    return res


def tlc(work, module, cfg=None, env=None, workers=None, timeout=850, extra=(), tag=None):
    meta = work.path('meta-%s-%d' % (tag or module, time.time_ns()))
    e = dict(os.environ)
    e.update(env or {})
    tmpd = work.path('jtmp')
    os.makedirs(tmpd, exist_ok=True)
    cmd = ['java', '-Xmx6g', '-Xss128m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + tmpd, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers or JOBS),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or os.path.join(SPEC, module + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    r = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    stats = dict(transitions=int(m.group(1)), states=int(m.group(2))) if m else dict(transitions=0, states=0)
    ok = 'Model checking completed. No error has been found' in r.stdout
    return ok, stats, r.stdout


def write_nd(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(r if isinstance(r, str) else json.dumps(r))
            f.write('\n')


CBS = ('pre', 'h', 'post', 'see')


def validate(work, cases, schemas, traces, asp, tag='tv'):
    """TLC decides every recorded trace; returns ({id: (verdict, text)}, stats)"""
    sp, cp = work.path(tag + '-schemas.json'), work.path(tag + '-cases.json')
    # each case sees only the tables it uses
    write_nd(sp, (sch.spec_json(s) for s in schemas))
    rows = []
    cases = [c for c in cases if c['id'] in traces]      # the driver stops after a few endless ones
    for c in cases:
        tr = traces[c['id']]
        if 'cb' not in asp:
            tr = [e for e in tr if e['e'] not in CBS]
        extra = lambda op: dict(oom=op.get('oom', 0)) if op['op'] == 'parse' else dict(sc=op['sc'] + 1) if op['op'] == 'use' else {}
        script = [dict(op, **extra(op)) for op in c['script']]
        rows.append(dict(id=c['id'], sc=c['sc'] + 1, script=script, asp=list(asp), tr=tr))
    write_nd(cp, rows)
    ok, stats, out = tlc(work, 'Trace', env=dict(CASES=cp, SCHEMAS=sp), tag=tag)
    ver = {}
    for m in re.finditer(r'^"@@(ACC|REJ|SKP) (\d+)(.*)"$', out, re.M):
        ver[int(m.group(2))] = (m.group(1), m.group(3))
    if not ok or len(ver) != len(cases):
        raise MachineError('TLC (%d of %d verdicts):\n%s' % (len(ver), len(cases), '\n'.join(ln for ln in out.split('\n') if not ln.startswith('"@@'))[-6000:]))
    return ver, stats


def enumerate_model(work, tables, tag='enum', timeout=800):
    """tables: [(schema, conf)]; every script TLC reaches within the bounds, the invariants holding in
    all of them; returns ([(table, script)], stats)"""
    sp, cp = work.path(tag + '-schemas.json'), work.path(tag + '-confs.json')
    write_nd(sp, (sch.spec_json(s) for s, _ in tables))
    write_nd(cp, (dict(c, ops=[dict(o, sc=o['sc'] + 1) if o['op'] == 'use' else o for o in c['ops']]) for _, c in tables))
    ok, stats, out = tlc(work, 'Enum', env=dict(CONFS=cp, SCHEMAS=sp), tag=tag, timeout=timeout)
    if not ok:
        raise MachineError('TLC on the specification:\n%s' % '\n'.join(ln for ln in out.split('\n') if not ln.startswith('"@@'))[-6000:])
    res = set()
    for m in re.finditer(r'^"@@S (\d+) <<(\d+), <<(.*?)>>, <<(.*?)>>>>"$', out, re.M):
        s, e, t, o = m.groups()
        ints = lambda x: tuple(int(y) for y in x.split(',') if y.strip())
        res.add((int(s) - 1, int(e) - 1, ints(t), ints(o)))
    scripts = []
    for s, e, t, o in sorted(res):
        c = tables[s][1]
        scripts.append((s, [dict(op='parse', argv=[c['toks'][k - 1] for k in t], env=c['envs'][e], oom=0)] + [c['ops'][k - 1] for k in o]))
    return scripts, stats
