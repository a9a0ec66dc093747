"""Check driver: obligations, violations, evidence."""
import json
import os
import pickle
import select
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
REGISTRY = {}


class AnalysisError(Exception):
    """the analysis could not be carried out (a vanished anchor, an unsupported construct)"""


def check(pid, technique, level='proof', note='', trusted=()):
    def deco(fn):
        REGISTRY[pid] = dict(fn=fn, technique=technique, level=level, note=note, trusted=list(trusted))
        return fn
    return deco


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.obligations = 0
        self.discharged = 0
        self.bad = []
        self.rules = {}
        self.units = []
        self.functions = set()
        self.notes = []
        self.info = {}
        self.sites = set()
        self.watched = []
        self.only = None       # rules this check is about
        self.incomplete = []   # parts the analysis could not carry out
        self.t0 = time.time()

    def par(self, jobs, limit=8):
        """run [(function, args...)] in forked children, each with a context of its own; merge what they found"""
        if os.environ.get('VF_SERIAL'):
            for j in jobs:
                j[0](self, *j[1:])
            return
        todo = list(enumerate(jobs))
        live = {}
        res = {}
        while todo or live:
            while todo and len(live) < limit:
                k, j = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        c = Ctx(self.pid, self.tier)
                        c.only, c.t0 = self.only, self.t0
                        err = None
                        try:
                            j[0](c, *j[1:])
                        except Exception as e:
                            err = ('%s: %s' % (type(e).__name__, e), traceback.format_exc())
                            for I in list(c.watched):
                                c.absorb(I)
                        c.watched = []
                        d = dict(c.__dict__)
                        d['err'] = err
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(d, f)
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(w)
                live[r] = (k, pid, [])
            rs, _, _ = select.select(list(live), [], [])
            for r in rs:
                b = os.read(r, 1 << 16)
                k, pid, buf = live[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                res[k] = b''.join(buf)
        for k in sorted(res):
            if not res[k]:
                self.incomplete.append('a worker process died')
                continue
            d = pickle.loads(res[k])
            self.obligations += d['obligations']
            self.discharged += d['discharged']
            self.bad += d['bad']
            for n, v in d['rules'].items():
                x = self.rules.setdefault(n, [0, 0])
                x[0] += v[0]
                x[1] += v[1]
            self.units += d['units']
            self.functions |= d['functions']
            self.sites |= d['sites']
            self.incomplete += d['incomplete']
            self.notes += [n for n in d['notes'] if n not in self.notes]
            for n, v in d['info'].items():
                self.info[n] = self.info.get(n, 0) + v if isinstance(v, int) else v
            if d['err']:
                self.incomplete.append(d['err'][0])
                print(d['err'][1])

    def watch(self, I):
        self.watched.append(I)

    def ob(self, ok, rule, msg='', loc='', fn='', path=()):
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if loc:
            self.sites.add(loc)
        if ok:
            self.discharged += 1
        else:
            r[1] += 1
            self.bad.append(dict(rule=rule, msg=msg, loc=str(loc), entry=fn, path=list(path)))
        return ok

    def absorb(self, I, rules=None, entries=None, skip=()):
        """take over the obligations of an interpreter run"""
        n = 0
        rules = rules or self.only
        if I in self.watched:
            self.watched.remove(I)
        for (rule, loc, entry), (ok, bad) in I.obl.items():
            if (rules is not None and rule not in rules) or rule in skip or (entries is not None and entry not in entries):
                continue
            n += ok + bad
            self.obligations += ok + bad
            self.discharged += ok
            r = self.rules.setdefault(rule, [0, 0])
            r[0] += ok + bad
            r[1] += bad
            self.sites.add(loc)
            self.functions.add(entry)
        for v in I.violations.values():
            if (rules is not None and v.rule not in rules) or v.rule in skip or (entries is not None and v.fn not in entries):
                continue
            self.bad.append(dict(rule=v.rule, msg=v.msg, loc=v.loc, entry=v.fn, path=v.path))
        self.info['abstract_steps'] = self.info.get('abstract_steps', 0) + I.nsteps
        self.info['paths'] = self.info.get('paths', 0) + I.paths
        self.info['loops'] = self.info.get('loops', 0) + len(I.loops_done)
        return n


def known_findings():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> match=<substring> <description>
                f = dict(x.split('=', 1) for x in l.split()[1:3] if '=' in x)
                out.append((f.get('property'), f.get('match'), l))
    return out


def again(ent, c, pid, tier):
    """a check that found something is repeated with the stronger (slower) loop invariants; what they prove is not reported"""
    from . import ai
    d = Ctx(pid, tier)
    ai.STRONG = True
    try:
        ent['fn'](d)
    except Exception as e:
        print('(second attempt: %s: %s)' % (type(e).__name__, e))
        return c
    finally:
        ai.STRONG = False
    if set(d.incomplete) <= set(c.incomplete) and len(d.bad) < len(c.bad) and d.obligations:
        return d
    return c


def run(pid, tier=None):
    from . import checks
    checks.load(pid)
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    ent = REGISTRY[pid]
    c = Ctx(pid, tier)
    t0 = time.time()
    err = None
    try:
        ent['fn'](c)
    except Exception as e:
        err = e
        tb = traceback.format_exc()
        for I in list(c.watched):
            c.absorb(I)
    if c.bad and err is None and c.info.get('loops') and time.time() - t0 < 200:
        c = again(ent, c, pid, tier)
    wall = time.time() - t0
    if err is not None:
        c.incomplete.append('%s: %s' % (type(err).__name__, err))
        print(tb)
    for x in sorted(set(c.incomplete)):
        print('INCOMPLETE property=%s %s' % (pid, x))
    if not c.bad and (not c.obligations or (c.incomplete and os.environ.get('VF_STRICT'))):
        print('ANALYSIS-ERROR property=%s %s' % (pid, 'incomplete' if c.obligations else 'no obligation was generated'))
        return 2
    known = [(m, l) for p, m, l in known_findings() if p == pid and m]
    bad, kf = [], []
    for b in c.bad:
        s = '%s %s %s' % (b['rule'], b['loc'], b['msg'])
        k = [l for m, l in known if m in s]
        (kf if k else bad).append(b)
    level = ent['level']
    cov = dict(rules={k: dict(obligations=v[0], failed=v[1]) for k, v in sorted(c.rules.items())},
               sites=len(c.sites), entry_points=sorted(c.functions), **c.info)
    if level == 'proof':
        cov.update(obligations=c.obligations, discharged=c.discharged, checker_cmd='python3 -m vf check %s' % pid,
                   trusted_base=['clang 18 front end and its always-inline/mem2reg-level passes', 'libisl (linear integer arithmetic)',
                                 'the analyser in /verif/vf'] + ent['trusted'])
    else:
        cov.update(explanation='%s; %d obligations at %d sites, %d discharged' % (ent['technique'], c.obligations, len(c.sites), c.discharged))
    cov['samples'] = sorted(c.sites)[:20]
    if c.notes:
        cov['notes'] = c.notes
    if c.incomplete:
        cov['incomplete'] = sorted(set(c.incomplete))
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=[ent['note']] if ent['note'] else [], wall_s=round(wall, 3), violations=len(bad))
    d = os.environ.get('VF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d sites, %.1fs' % (pid, c.obligations, c.discharged, len(c.sites), wall))
    for b in kf:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, b['rule'], b['loc'], b['msg']))
    rp = os.path.join(d, pid + '.violation.txt')
    if os.path.exists(rp):
        os.remove(rp)
    if bad:
        with open(rp, 'w') as f:
            for b in bad:
                f.write('%s: [%s] %s (entry %s)\n' % (b['loc'], b['rule'], b['msg'], b['entry']))
                if b['path']:
                    f.write('    path: %s\n' % ' -> '.join(b['path'][-40:]))
        seen = set()
        for b in bad:
            k = (b['rule'], b['loc'], b['msg'])
            if k in seen:
                continue
            seen.add(k)
            print('%s: [%s] %s (entry %s)' % (b['loc'], b['rule'], b['msg'], b['entry']))
            if b['path']:
                print('    path: %s' % ' -> '.join(b['path'][-12:]))
            if len(seen) >= 12:
                break
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
