"""Check runner: obligations, violations, known findings, evidence."""
import json
import os
import signal
import sys
import time
import traceback

from .program import Program, AnalysisError, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class RuleTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.tainted = []
        self.obs = []           # (rule, construct, status, msg, loc)
        self._p = None
        self.rules = {}
        self.analysed = {}

    @property
    def P(self):
        if self._p is None:
            self._p = Program()
            if self._p.errors:
                raise AnalysisError('unparsable source: %r' % (self._p.errors,))
        return self._p

    @property
    def native(self):
        """the program with its Cython sources"""
        if getattr(self, '_native', None) is None:
            self._native = Program(native=True)
        return self._native

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, construct, loc=''):
        self.obs.append((rule, construct, 'ok', '', loc))

    def bad(self, rule, construct, msg, loc=''):
        self.obs.append((rule, construct, 'bad', msg, loc))

    def unk(self, rule, construct, msg='', loc=''):
        self.obs.append((rule, construct, 'unk', msg, loc))

    def check(self, cond, rule, construct, msg, loc=''):
        if cond is None:
            self.unk(rule, construct, msg, loc)
        elif cond:
            self.ok(rule, construct, loc)
        else:
            self.bad(rule, construct, msg, loc)
        return cond

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def cut(self, rule, construct):
        """an analysis was interrupted: what it shared with others may be left half done (see main)"""
        self.tainted.append((rule + '|' + construct, len(self.obs)))

    def skipped(self, rule, construct):
        return rule + '|' + construct in os.environ.get('VERIF_SKIP', '').split(' ')

    def guard(self, rule, fn, *a):
        """run one rule; an analysis failure is an undecided obligation, never a pass or an alarm"""
        if self.skipped(rule, 'analysis'):
            return self.unk(rule, 'analysis', 'time limit')

        def fire(*_):
            raise RuleTimeout()
        signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, 6000 if self.tier == 'thorough' else 600)
        try:
            fn(self, *a)
        except RuleTimeout:
            self.cut(rule, 'analysis')
            self.unk(rule, 'analysis', 'time limit')
        except AnalysisError as e:
            self.unk(rule, 'anchor', str(e))
        except RecursionError:
            self.cut(rule, 'analysis')
            self.unk(rule, 'analysis', 'recursion limit')
        except Exception as e:       # pragma: no cover
            if os.environ.get('VERIF_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(rule, 'analysis', '%s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    out = {}
    for k in json.load(open(KNOWN)):
        if k.get('status') == 'known' and k['property'] == prop:
            out[k['rule'] + '|' + k['construct']] = k['what']
    return out


def main(prop, rules, technique, min_decided, level='other', explanation='', argv=None, retry=True):
    """rules: list of (rule id, text, fn(ctx))"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    argv = sys.argv[1:] if argv is None else argv
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    ctx = Ctx(prop, tier)
    try:
        ctx.P
    except AnalysisError as e:
        print('ERROR', e)
        return 2
    for rid, text, fn in rules:
        ctx.rule(rid, text)
        ctx.guard(rid, fn)
    known = load_known(prop)
    if ctx.tainted and any(o[2] == 'bad' and o[0] + '|' + o[1] not in known for o in ctx.obs):
        # an alarm in a run where an analysis was cut short counts only if a fresh run without that analysis raises it too
        n = int(os.environ.get('VERIF_RETRY', '0'))
        if n < 2 and time.time() - t0 < 400 and argv is not None and retry:
            os.environ['VERIF_RETRY'] = str(n + 1)
            os.environ['VERIF_SKIP'] = ' '.join(os.environ.get('VERIF_SKIP', '').split() + [k for k, i in ctx.tainted])
            sys.stdout.flush()
            os.execv(sys.executable, [sys.executable] + sys.argv)
        first = min(i for k, i in ctx.tainted)
        ctx.obs = ctx.obs[:first] + [(o[0], o[1], 'unk' if o[2] == 'bad' else o[2], o[3], o[4]) for o in ctx.obs[first:]]
    seen = {}
    for rule, c, status, msg, loc in ctx.obs:
        k = rule + '|' + c
        if status == 'bad' and k not in seen:
            seen[k] = (rule, c, msg, loc)
    viol = {k: v for k, v in seen.items() if k not in known}
    nk = {k: v for k, v in seen.items() if k in known}
    decided = sum(1 for o in ctx.obs if o[2] in ('ok', 'bad'))
    und = [o for o in ctx.obs if o[2] == 'unk']
    os.makedirs(EVID, exist_ok=True)
    per_rule = {}
    for rule, c, status, msg, loc in ctx.obs:
        d = per_rule.setdefault(rule, {'rule': ctx.rules.get(rule, ''), 'ok': 0, 'bad': 0, 'undecided': 0, 'sites': []})
        d[{'ok': 'ok', 'bad': 'bad', 'unk': 'undecided'}[status]] += 1
        if len(d['sites']) < 60:
            d['sites'].append((status + ' ' + c + (' @ ' + loc if loc else '') + ((': ' + msg) if msg else ''))[:400])
    replay_dir = os.path.join(EVID, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    vlist = []
    for i, (k, (rule, c, msg, loc)) in enumerate(sorted(viol.items())):
        path = os.path.join(replay_dir, '%s-%d.txt' % (prop, i))
        with open(path, 'w') as fh:
            fh.write('property %s\nrule %s: %s\nconstruct %s\nlocation %s\n%s\n'
                     'replay: cd %s && python3 check.py %s\n' % (prop, rule, ctx.rules.get(rule, ''), c, loc, msg, VERIF, prop))
        vlist.append({'property': prop, 'rule': rule, 'construct': c, 'location': loc, 'what': msg, 'replay': path})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': {
            'explanation': explanation or technique,
            'modules_parsed': len(ctx.P.modules), 'classes': len(ctx.P.all_classes),
            'obligations': len(ctx.obs), 'discharged': sum(1 for o in ctx.obs if o[2] == 'ok'),
            'undecided': len(und), 'analysed': ctx.analysed, 'rules': per_rule,
            'known_findings': sorted(nk),
            'checker_cmd': 'python3 check.py ' + prop,
            'trusted_base': 'CPython ast parser, sa/ analysis engine',
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': vlist,
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if os.environ.get('VERIF_VERBOSE'):
        for o in ctx.obs:
            print(*o)
    for k in sorted(nk):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    for v in vlist:
        print('%s: %s [%s] %s' % (v['location'], v['what'], v['rule'], v['construct']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    print('%s: %d obligations, %d decided, %d undecided, %d violations, %d known findings (%.1fs)'
          % (prop, len(ctx.obs), decided, len(und), len(vlist), len(nk), time.time() - t0))
    for o in und[:10]:
        print('  undecided:', o[0], o[1], o[3] if os.environ.get('VERIF_ONLY') else o[3][:200])
    if vlist:
        return 1
    if decided < min_decided:
        print('ERROR: only %d obligations could be decided (minimum %d): anchors vanished?' % (decided, min_decided))
        return 2
    return 0
