#!/usr/bin/env python3
"""Decide one property on /repo's working tree.

  check.py C04            exit 0 held, 1 VIOLATION, 2 the check itself failed
  check.py --replay FILE  run one recorded case again

VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough."""
import hashlib
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import conf
import gen
import props

EVID = os.path.join(conf.ROOT, 'evidence')
KNOWN = os.path.join(conf.ROOT, 'known-findings.txt')


def known(pid):
    """case names listed as findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def clean(o):
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items() if not k.startswith('_')}
    if isinstance(o, list):
        return [clean(v) for v in o]
    return o


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.trans = self.traces = self.model_states = self.model_trans = self.enumerated = 0
        self.sup = self.skipped = 0
        self.samples, self.bad, self.found = [], [], {}
        self.cover = {}
        self.t0 = time.time()

    def note_cover(self, traces):
        for tr in traces.values():
            for e in tr:
                k = e['e'] + ('' if 'rc' not in e else ' rc=%s' % e['rc'])
                self.cover[k] = self.cover.get(k, 0) + 1

    def round(self, g, asp, kf, tag, debug=False, flags=None):
        with conf.Work() as w:
            if g.models:
                self.explore(w, g)
            exe = conf.build(w, g.schemas, debug=debug)
            tr = conf.run_cases(w, exe, g.cases, g.schemas)
            ver, st = conf.validate(w, g.cases, g.schemas, tr, asp)
            g.cases = [c for c in g.cases if c['id'] in ver]
            rej = [c for c in g.cases if ver[c['id']][0] == 'REJ']
            again = {}
            if rej:     # a second look, with time to spare
                rej.sort(key=lambda c: len(json.dumps(c['script'])))
                slow = [c for c in rej if any(e['e'] == 'timeout' for e in tr[c['id']])]
                pick = [c for c in rej if c not in slow][:60] + slow[:4]
                pick += [c for c in rej if c.get('kf') and c not in pick]
                tr2 = conf.run_cases(w, exe, pick, g.schemas, tag='again', tmo=25)
                ver2, _ = conf.validate(w, pick, g.schemas, tr2, asp, tag='tv2')
                again = {c['id']: (ver2[c['id']], tr2[c['id']]) for c in pick}
            self.states += st['states']
            self.trans += st['transitions']
            self.traces += sum(1 for v in ver.values() if v[0] == 'ACC')
            self.skipped += sum(1 for v in ver.values() if v[0] == 'SKP')
            self.note_cover(tr)
            if len(self.samples) < 4:
                for c in g.cases[::max(1, len(g.cases) // 2)][:2]:
                    self.samples.append(dict(script=c['script'][:3], verdict=ver[c['id']][0], events=tr[c['id']][:1]))
            for i, ((v, txt), t) in again.items():
                if v != 'REJ':
                    continue
                c = next(x for x in g.cases if x['id'] == i)
                if c.get('kf') in kf:
                    self.found[c['kf']] = kf[c['kf']]
                else:
                    self.bad.append((g.schemas[c['sc']], c, asp, txt, t, debug))

    def explore(self, w, g):
        """bounded exhaustive exploration of the specification; its scripts become cases"""
        scripts, st = conf.enumerate_model(w, g.models)
        self.model_states += st['states']
        self.model_trans += st['transitions']
        self.enumerated += len(scripts)
        base = [g.table(s) for s, _ in g.models]
        for t, scr in scripts:
            out, cur = [], t
            for op in scr:
                if op['op'] == 'use':
                    cur = op['sc']
                    op = dict(op, sc=base[cur])
                out.append(op)
                if op['op'] == 'parse':
                    out += gen.chain_queries(g.models[cur][0], g.r, 12)
                    out += g.models[t][1]['after']
            g.case(base[t], out)

    def violation(self):
        """smallest failing case -> replay file"""
        sc, c, asp, txt, t, debug = min(self.bad, key=lambda b: len(json.dumps(b[1]['script'])) + len(json.dumps(clean(b[0]))) / 20)
        d = os.path.join(EVID, 'replays')
        os.makedirs(d, exist_ok=True)
        body = clean(dict(property=self.pid, schema=sc, script=c['script'], aspects=list(asp), debug=debug, initev=c.get('initev', 0), verdict=txt, recorded=t))
        p = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.sha1(json.dumps(body['script']).encode() + json.dumps(body['schema']).encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            json.dump(body, f, indent=1)
        return p, txt

    def evidence(self, extra):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states + self.model_states, transitions=self.trans + self.model_trans, scripts_enumerated_by_tlc=self.enumerated, traces_validated_against_impl=self.traces,
                   samples=self.samples, traces_not_comparable=self.skipped, events_compared=self.cover)
        cov.update(extra)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(clean(dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                           assumptions=['inputs are printable ASCII', 'texts whose conversion C leaves to the locale or rounding of the last digit are not generated'],
                           wall_s=round(time.time() - self.t0, 1), violations=len(self.bad))), f, indent=1)


def check(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(pid, tier, seed)
    kf = known(pid)
    P = props.PROPS[pid]
    budget = float(os.environ.get('VERIF_BUDGET', '25' if tier == 'quick' else '420'))
    rounds, k = (1, 0)
    extra = {}
    try:
        while True:
            g = gen.G('%d.%d' % (seed, k) if k else seed, pid)
            P['gen'](g, tier)
            if k == 0 and 'model' in P:
                P['model'](g, tier)
            run.round(g, P['asp'], kf, 'r%d' % k, debug=P.get('debug', False))
            k += 1
            if run.bad or (k >= 3 and tier == 'quick') or time.time() - run.t0 > budget:
                break
        extra['rounds'] = k
    except conf.MachineError as e:
        print('ERROR: the check could not run: %s' % e)
        return 2
    run.evidence(extra)
    for n, what in sorted(run.found.items()):
        print('KNOWN-FINDING: property=%s case=%s %s' % (pid, n, what))
    if run.bad:
        p, txt = run.violation()
        print('%d failing cases; the smallest: %s' % (len(run.bad), txt[:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    print('%s held: %d traces of the library accepted by the specification (%d states), %d s' % (pid, run.traces, run.states + run.model_states, time.time() - run.t0))
    return 0


def replay(path):
    b = json.load(open(path))
    c = dict(id=1, sc=0, script=b['script'], initev=b['initev'])
    with conf.Work() as w:
        exe = conf.build(w, [b['schema']], debug=b['debug'])
        tr = conf.run_cases(w, exe, [c], [b['schema']], tmo=60)
        ver, _ = conf.validate(w, [c], [b['schema']], tr, b['aspects'])
    print('table:', json.dumps(b['schema'])[:6000])
    print('script:', json.dumps(b['script'])[:6000])
    print('recorded:', json.dumps(tr[1])[:6000])
    print('verdict:', ver[1][0], ver[1][1][:6000])
    if ver[1][0] == 'REJ':
        print('VIOLATION property=%s replay=%s' % (b['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == '--replay' else check(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
