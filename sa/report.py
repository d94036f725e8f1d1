"""Obligations, verdicts, evidence and exit codes shared by all checks."""
import json
import os
import signal
import sys
import time
import traceback

from . import frontend
from .terms import *
from .terms import has_top
from . import decide
from .decide import Ctx
from .engine import Engine, Dead, LV, loc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Vanished(Exception):
    """an anchor the property is stated over is not in the source any more"""


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


class Check:
    def __init__(self, pid, tier, seed, title):
        self.pid, self.tier, self.seed, self.title = pid, tier, seed, title
        self.t0 = time.time()
        self.obls = []           # dicts
        self.bulk = 0            # access obligations discharged while summarising
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.rules = []
        self.prog = None
        self.where = ''
        self.deadline = self.t0 + (700 if tier == 'quick' else 800)

    def load(self):
        self.prog = frontend.load()
        return self.prog

    # ---------------------------------------------------------------- anchors
    def funcs(self, qname, n=None):
        fs = [f for f in self.prog.by_qname.get(qname, []) if f.body is not None]
        if n is not None:
            fs = [f for f in fs if len(f.params) == n]
        if not fs:
            raise Vanished('no definition of %s%s' % (qname, '' if n is None else '/%d' % n))
        return fs

    def func(self, qname, n=None, pred=None):
        fs = self.funcs(qname, n)
        if pred is not None:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise Vanished('no matching definition of ' + qname)
        return fs[0]

    def cls(self, name):
        if name not in self.prog.classes:
            raise Vanished('no class ' + name)
        return name

    # ---------------------------------------------------------------- verdicts
    def add(self, name, where, verdict, detail=None, rule=''):
        self.obls.append({'name': name, 'where': where, 'verdict': verdict, 'rule': rule,
                          'detail': detail})
        if os.environ.get('SA_VERBOSE'):
            print('  [%s] %-8s %s  %s' % (self.pid, verdict, name, '' if verdict == 'proved' else str(detail)[:600]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def equal(self, name, where, a, b, ctx, rule=''):
        """a (from the code) equals b (specification) under ctx"""
        try:
            v, w = decide.equal_or_refute(a, b, ctx, self.seed)
        except RecursionError:
            v, w = 'unknown', 'recursion'
        if v == 'refuted' and ctx.weak:
            v, w = 'unknown', 'a path condition is not known'
        if v == 'refuted':
            w = {'code': show(a)[:1500], 'spec': show(b)[:1500], 'separating_valuation': w,
                 'under': [show(l)[:200] for l in ctx.lits][:40]}
        self.add(name, where, v, w, rule)
        return v

    def holds(self, name, where, cond, ctx, rule=''):
        try:
            if cond is TRUE or ctx.dead:
                v, w = 'proved', None
            else:
                v, w = decide.prove_or_refute(cond, ctx, self.seed)
        except RecursionError:
            v, w = 'unknown', 'recursion'
        if v == 'refuted' and ctx.weak:
            v, w = 'unknown', 'a path condition is not known'
        if v == 'refuted':
            w = {'condition': show(cond)[:1500], 'violating_valuation': w,
                 'under': [show(l)[:200] for l in ctx.lits][:40]}
        self.add(name, where, v, w, rule)
        return v

    def never(self, name, where, ctx, rule=''):
        """the situation described by ctx cannot happen"""
        return self.holds(name, where, FALSE, ctx, rule)

    def group(self, name, fn, seconds=150):
        """run a family of obligations under a time limit; internal failures leave it undecided"""
        left = self.deadline - time.time()
        if any(o['verdict'] == 'refuted' for o in self.obls):
            # a violation is established: the rest is looked at briefly
            self.deadline = min(self.deadline, time.time() + 60)
            left = min(left, 60)
        if left < 5:
            self.add(name, '', 'unknown', 'time limit of the check reached')
            return
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, min(seconds, left))
        try:
            fn()
        except TimeUp:
            self.add(name, '', 'unknown', 'time limit')
        except Vanished as e:
            # part of what is observed is gone: these obligations cannot be stated; finish() fails if none can
            self.add(name, '', 'unknown', 'not found: %s' % e)
        except Dead:
            self.add(name, '', 'unknown', 'no normal outcome')
        except (RecursionError, MemoryError) as e:
            self.add(name, '', 'unknown', repr(e))
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.add(name, '', 'unknown', 'analysis gave up: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    # ---------------------------------------------------------------- result
    def finish(self, level, minimum=1, explain=''):
        known = load_known()
        pr = [o for o in self.obls if o['verdict'] == 'proved']
        rf = [o for o in self.obls if o['verdict'] == 'refuted']
        un = [o for o in self.obls if o['verdict'] == 'unknown']
        new = []
        for o in rf:
            k = self.pid + '|' + o['name']
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
            else:
                new.append(o)
        edir = os.environ.get('SA_EVIDENCE', os.path.join(ROOT, 'evidence'))
        os.makedirs(edir, exist_ok=True)
        cov = {
            'obligations': len(self.obls) + self.bulk,
            'discharged': len(pr) + self.bulk,
            'refuted': len(rf),
            'undecided': len(un),
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': 'clang 18 (parsing, name lookup, types); /verif/sa (summaries, library models, term decision); '
                            'integers and reals as mathematical numbers; %s' % ' '.join(self.notes[:6]),
            'explanation': explain,
            'rules': self.rules,
            'functions_analysed': sorted(self.functions)[:400],
            'counts': self.counts,
            'samples': [dict(o, detail=trim(o['detail'])) for o in (rf + un + pr)[:60]],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3)}
        with open(os.path.join(edir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d refuted, %d undecided; %d functions; %.1f s' % (
            self.pid, len(self.obls) + self.bulk, len(pr) + self.bulk, len(rf), len(un), len(self.functions), time.time() - self.t0))
        for o in un:
            print('  undecided: %s (%s)' % (o['name'], str(o['detail'])[:160]))
        if new:
            path = os.path.join(edir, self.pid + '.violation.json')
            with open(path, 'w') as f:
                json.dump(new, f, indent=1, default=str)
            for o in new:
                print('  %s: %s' % (o['where'], o['name']))
                print('     ' + json.dumps(trim(o['detail']), default=str)[:1200])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if not pr:
            print('ANALYSIS-ERROR property=%s nothing decided (%d obligations, expected at least %d)' % (self.pid, len(self.obls), minimum))
            return 3
        if len(pr) < minimum:
            print('WARNING property=%s only %d of at least %d expected obligations were decided' % (self.pid, len(pr), minimum))
        return 0


def trim(x, n=1500):
    s = json.dumps(x, default=str)
    if len(s) <= n:
        return x
    return s[:n] + '...'


def load_known():
    p = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=ID key=<obligation name> :: text
                try:
                    head, text = l[9:].split(' :: ', 1)
                    pid = head.split('property=', 1)[1].split()[0]
                    key = head.split('key=', 1)[1]
                    out[pid + '|' + key] = text
                except (IndexError, ValueError):
                    pass
    return out
