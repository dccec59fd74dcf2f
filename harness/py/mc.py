"""Stateless explorer for Python: every execution of a family is replayed from a list of choices; all choices are enumerated
depth first, in parallel over prefixes. The counterpart of mc/mc.h for the scripts."""
import argparse, json, multiprocessing, os, signal, sys, time, traceback


class Found(BaseException):
    """A violation; BaseException, so that handlers in the code under test let it pass (bare ones are caught by the record)."""
    def __init__(self, sig, msg):
        BaseException.__init__(self, msg)
        self.sig, self.msg = sig, msg


class Hang(BaseException):
    pass


class Mc(object):
    def __init__(self, known=(), verbose=False):
        self.known, self.verbose = set(known), verbose
        self.states, self.outcomes, self.transitions = set(), set(), 0
        self.known_hit, self.samples = {}, []

    def begin(self, family, prefix):
        self.family, self.choices, self.sizes, self.pos, self.trace = family, list(prefix), [], 0, []
        self.found = None

    def choose(self, n, label=''):
        assert n > 0
        if self.pos == len(self.choices):
            self.choices.append(0)
        c = self.choices[self.pos]
        if c >= n:
            raise RuntimeError('choice %d of %d (%s): the execution is not deterministic' % (c, n, label))
        self.sizes.append(n)
        self.pos += 1
        return c

    def pick(self, seq, label=''):
        seq = list(seq)
        return seq[self.choose(len(seq), label)]

    def flag(self, label=''):
        return bool(self.choose(2, label))

    def note(self, msg, *a):
        self.transitions += 1
        self.trace.append(msg % a if a else msg)

    def state(self, s):
        self.states.add(hash(s if isinstance(s, str) else repr(s)))

    def outcome(self, s):
        self.outcomes.add(hash(s if isinstance(s, str) else repr(s)))

    def fail(self, sig, msg, *a):
        if a:
            msg = msg % a
        if sig in self.known:
            self.known_hit[sig] = self.known_hit.get(sig, 0) + 1
            return
        if not self.found:
            self.found = (sig, msg)
        raise Found(sig, msg)

    def expect(self, cond, sig, msg, *a):
        if not cond:
            self.fail(sig, msg, *a)


def one(x, fams, prop, family, prefix, hang):
    """One execution; returns the violation or None."""
    x.begin(family, prefix)

    armed = [True]

    def on_alarm(*a):
        if armed:
            raise Hang()
    # processor time, so that a busy machine is no hang; a blocked execution is ended by the clock much later
    signal.signal(signal.SIGPROF, on_alarm)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, hang, 1)
    signal.setitimer(signal.ITIMER_REAL, 10 * hang, 5)
    try:
        fams[family](x)
        armed.clear()
    except Found:
        pass
    except Exception:
        if not x.found:
            raise
    except Hang:
        armed.clear()
        x.found = x.found or ('hang', 'no end after %g s:\n%s' % (hang, traceback.format_exc()))
    except BaseException:
        # threads of an execution that has failed unwind
        if not x.found:
            raise
    finally:
        armed.clear()
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    if x.found:
        return {'signature': x.found[0], 'message': x.found[1], 'family': family, 'choices': x.choices[:x.pos], 'trace': list(x.trace)}
    if len(x.samples) < 2:
        x.samples.append('%s %s: %s' % (family, x.choices[:x.pos], ' | '.join(x.trace[:12])))
    return None


def successor(x, keep):
    """Next choice list after the execution just made, or None; the first `keep` choices are fixed."""
    c, n = x.choices[:x.pos], x.sizes
    i = x.pos - 1
    while i >= keep and c[i] + 1 >= n[i]:
        i -= 1
    return None if i < keep else c[:i] + [c[i] + 1]


def _work(job):
    family, prefix, limit = job
    fams, prop, known, hang, stop = CTX
    x = Mc(known)
    n, viol, err, pre, t = 0, None, None, prefix, time.time()
    complete = True
    try:
        while pre is not None:
            viol = one(x, fams, prop, family, pre, hang)
            n += 1
            if viol:
                break
            pre = successor(x, len(prefix))
            if pre is not None and (time.time() > limit or (not n & 63 and stop.value)):
                complete = False
                break
    except BaseException:
        err = 'family %s, choices %s:\n%s' % (family, getattr(x, 'choices', None), traceback.format_exc())
    if viol or err:
        stop.value = 1
    return family, n, complete, viol, err, x.states, x.outcomes, x.transitions, x.known_hit, x.samples


def prefixes(x, fams, prop, family, hang, want):
    """Choice prefixes that partition the executions of a family."""
    level = [[]]
    while 0 < len(level) < want:
        nxt = []
        for p in level:
            one(x, fams, prop, family, p, hang)
            if len(x.sizes) <= len(p):
                nxt.append((p, False))
            else:
                nxt += [(p + [i], True) for i in range(x.sizes[len(p)])]
        if not any(g for _, g in nxt):
            return [p for p, _ in nxt]
        level = [p for p, _ in nxt]
        if len(level) > 4000:
            break
    return level


def main(families, setup=None):
    """families: property -> tier -> {family name: function(x)}"""
    global CTX
    ap = argparse.ArgumentParser()
    ap.add_argument('--gen'); ap.add_argument('--repo'); ap.add_argument('--prop'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--hang', type=float, default=20); ap.add_argument('--out'); ap.add_argument('--known', action='append', default=[])
    ap.add_argument('--limit', type=float, default=700); ap.add_argument('--replay', nargs=2); ap.add_argument('--only')
    a = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.dont_write_bytecode = True
    t0 = time.time()
    if setup:
        setup(a)
    fams = families(a.prop, a.tier)
    if a.only:
        fams = {a.only: fams[a.only]}
    if a.replay:
        x = Mc(a.known)
        v = one(x, fams, a.prop, a.replay[0], [int(c) for c in a.replay[1].split(',') if c], a.hang)
        print('\n'.join(x.trace))
        print('%s: %s' % (v['signature'], v['message']) if v else 'no violation')
        return 1 if v else 0
    stop = multiprocessing.Value('i', 0, lock=False)
    CTX = (fams, a.prop, a.known, a.hang, stop)
    jobs, err = [], None
    x = Mc(a.known)
    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        for f in fams:
            for p in prefixes(x, fams, a.prop, f, a.hang, 64):
                jobs.append((f, p, t0 + a.limit))
    except Exception:
        err = 'while partitioning %s:\n%s' % (f, traceback.format_exc())
    res = {f: {'name': f, 'executions': 0, 'complete': True} for f in fams}
    out = {'executions': 0, 'transitions': 0, 'error': err, 'violations': [], 'samples': [], 'known': {}}
    states, outcomes, seen, sampled = set(), set(), set(), set()
    if not err:
        with multiprocessing.Pool(8) as pool:
            for family, n, complete, viol, e, st, oc, tr, kn, sm in pool.imap_unordered(_work, jobs):
                r = res[family]
                r['executions'] += n; r['complete'] = r['complete'] and complete and not viol
                out['executions'] += n; out['transitions'] += tr
                states |= st; outcomes |= oc
                for k in kn:
                    out['known'][k] = out['known'].get(k, 0) + kn[k]
                if viol and viol['signature'] not in seen:
                    seen.add(viol['signature']); out['violations'].append(viol)
                if e and not out['error']:
                    out['error'] = e
                if sm and family not in sampled:
                    sampled.add(family); out['samples'].append(sm[-1])
    out['violations'].sort(key=lambda v: len(v['choices']))
    if out['violations']:
        out['error'] = None
    out.update(states=len(states), outcomes=len(outcomes), families=list(res.values()), wall_s=round(time.time() - t0, 2))
    json.dump(out, open(a.out, 'w'), indent=1)
    if out['error']:
        print(out['error'])
    return 1 if out['violations'] else 0
