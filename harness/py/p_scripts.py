"""P03: spawner and unspawner. P04: controller_manager, controller_group and controller_manager_interface."""
import itertools, os, sys, tempfile, shutil, atexit
import mc, ros
from mc import Found, Hang
from p_utils import call, subsets

BIN = '/controller_manager/scripts/'
POOL = ['a', 'ab', 'b', 'abc', 'B', 'ns/a', 'b1']


class Env(object):
    """What others do to the manager: at most n acts, each on one controller."""
    def __init__(self, m, n):
        self.m, self.n, self.touched = m, n, set()

    def acts(self, names):
        c = self.m.ctl
        out = []
        for n in names:
            if c.get(n) == 'running':
                out.append(('stop', n))
            elif n in c:
                out += [('start', n), ('unload', n)]
            else:
                out.append(('load', n))
        return out

    def do(self, act):
        what, n = act
        self.n -= 1
        self.touched.add((what, n))
        self.m.w.note('another one: %s %s', what, n)
        if what == 'stop':
            self.m.ctl[n] = 'stopped'
        elif what == 'start':
            self.m.ctl[n] = 'running'
        elif what == 'unload':
            del self.m.ctl[n]
        else:
            self.m.ctl[n] = 'initialized'
        self.m.x.state(self.m.snapshot())


def requests(m, kind, since=0):
    return [r for r in m.requests[since:] if r[0] == kind]


# ------------------------------------------------------------------ spawner
def run_spawner(x, w, args):
    w.argv = ['spawner'] + args
    w.note('spawner %s', ' '.join(args))
    r = w.script(ros.REPO + BIN + 'spawner')
    w.note('ended: %r', r)
    return r


def switches(m, names, word):
    """Requests that would change the state of one of the names."""
    return [r for r in m.requests if r[0] == 'switch_controller' and set(getattr(r[1], word + '_controllers')) & set(names)]


def spawner_family(names, acts, fault, kinds=('spin',), flags=([], ['--stopped']), others=('none', 'p running', 'first there'), namespaces=(None,), deep=False):
    """All outcomes of loading, what others do before the end, one failing call; killed while running, or at any point."""
    def f(x):
        w = ros.World(x)
        space = x.pick(namespaces)
        prefix = '' if space is None else space.rstrip('/').lstrip('/') + '/'
        n = x.pick(range(1, names + 1) if names < 4 else [names])
        todo = POOL[:n]
        args = todo + ([todo[0]] if x.flag('given twice') else []) if names > 1 and kinds == ('spin',) else todo
        m = ros.Manager(w, '/' + prefix + 'controller_manager', loadable=set(x.pick(subsets(todo)[::-1] if 'thread' not in kinds or deep else [todo, todo[:1], todo[1:2]])))
        m.loadable.update('p')
        other = x.pick(others)
        if other == 'p running':
            m.ctl['p'] = 'running'
        elif other == 'first there':
            m.ctl['a'] = x.pick(['running', 'initialized'])
        flag = x.pick(flags)
        kind = x.pick(kinds)
        foreign = dict(m.ctl)
        env = Env(m, acts)
        st = {'killed': False, 'mine': [], 'faults': 0, 'start': None, 'startreq': None, 'at': None}
        budget = [1 if fault and x.flag('fault') else 0]

        def on_fault(k, req):
            if k == 'load_controller':
                st['last'] = req.name
            if budget[0] and not (w.in_shutdown and k == 'unload_controller' and False):
                c = x.pick([None, 'refuse', 'raise'], 'fault')
                if c:
                    budget[0] = 0
                    st['faults'] += 1
                    if w.in_shutdown or st['killed']:
                        st['bad'] = True
                return c
        m.fault = on_fault

        def die(how, what=''):
            st['killed'] = True
            st['at'] = len(m.requests)
            st['then'] = dict(m.ctl)
            if how != 'thread' and 'load_controller' in what:
                # nobody can know whether the manager gets a request that a signal interrupts
                st['flight'] = m.w.sending
            w.note('killed (%s)', how)
            if how == 'thread':
                w.dying = True
                w.spawn('killer', w.signal_shutdown)
            else:
                w.signal_shutdown(how)
                if how == 'int':
                    raise KeyboardInterrupt()

        def kill(what):
            if st['killed'] or kind == 'spin':
                return
            # an interrupt while a request is under way is left out: nobody can know whether the manager still gets it
            if kind == 'int' and what.startswith('after'):
                return
            if x.flag('kill at ' + what):
                die(kind, what)
        w.kill = kill

        def spin():
            if st['start'] is None:
                st['start'] = dict(m.ctl)
                st['loads'] = [r[1].name for r in requests(m, 'load_controller')]
            while env.n:
                a = x.pick([None] + env.acts(todo + (['p'] if 'p' in m.ctl else [])), 'act')
                if a is None:
                    break
                env.do(a)
            die('term' if kind == 'spin' else kind)
        w.on_spin = spin
        opt = ([] if space is None else ['--namespace', space]) + flag
        r = run_spawner(x, w, opt + args if opt and kinds == ('spin',) and x.flag('options first') else args + opt)
        x.outcome(repr((r if isinstance(r, str) else type(r).__name__, m.snapshot())))
        x.state(m.snapshot())
        if isinstance(r, Exception) and not (isinstance(r, ros.ServiceException) and (st['faults'] or st['killed'])):
            x.fail('spawner-raises', 'the spawner raised %s: %s', type(r).__name__, r)
        x.expect(r != 'interrupted' or kind == 'int', 'spawner-interrupted', 'the spawner ended by an interrupt')
        # what the manager loaded for the spawner
        mine = [q[1].name for q in m.requests if q[0] == 'load_controller' and q[2] is None and q[4]]
        loads = [q[1].name for q in requests(m, 'load_controller')]
        if kind == 'spin' and not st['faults']:
            x.expect(loads == args, 'wrong-loads', 'loads %r for %r', loads, args)
            want = dict(foreign)
            for c in mine:
                want[c] = 'initialized' if flag else 'running'
            x.expect(st['start'] == want, 'wrong-start', 'after starting the manager has %r, not %r', st['start'], want)
        else:
            x.expect(loads == args[:len(loads)], 'wrong-loads', 'loads %r for %r', loads, args)
        for q in requests(m, 'switch_controller'):
            x.expect(set(q[1].start_controllers) <= set(mine), 'starts-foreign', 'asked to start %r, loaded %r', q[1].start_controllers, mine)
            x.expect(set(q[1].stop_controllers) <= set(mine), 'stops-foreign', 'asked to stop %r, loaded %r', q[1].stop_controllers, mine)
            x.expect(not (flag and q[1].start_controllers), 'starts-although-stopped', 'asked to start %r in spite of --stopped', q[1].start_controllers)
        for q in requests(m, 'unload_controller'):
            x.expect(q[1].name in mine, 'unloads-foreign', 'unloads %s, loaded %r', q[1].name, mine)
        for q in m.requests:
            x.expect(q[0] in ('load_controller', 'unload_controller', 'switch_controller', 'list_controllers'), 'unrelated-request', 'calls %s', q[0])
        for c in foreign:
            if c not in [n for _, n in env.touched]:
                x.expect(m.ctl.get(c) == foreign[c], 'foreign-changed', '%s was %s and is %s', c, foreign[c], m.ctl.get(c))
        if st['killed'] and not st['faults']:
            # a controller that somebody unloaded and loaded again is no longer the spawner's
            gone = [n for what, n in env.touched if what in ('unload', 'load')]
            left = [c for c in mine if c in m.ctl and c not in gone and c != st.get('flight')]
            x.expect(not left, 'left-after-kill', 'killed, but %r are still loaded (%r)', left, m.snapshot())
            down = [q[1].name for q in m.requests if q[0] == 'unload_controller' and q[2] is None and q[4]]
            if kind == 'spin':
                x.expect(down == [c for c in reversed(mine) if c in down], 'wrong-unload-order', 'unloads %r after loading %r', down, mine)
    return f


def spawner_wait_family(forms, history):
    """The start condition: the manager appears late or never, the topic says nothing, false and true."""
    def f(x):
        w = ros.World(x)
        form = x.pick(forms)
        topic = x.flag('wait for a topic')
        m = ros.Manager(w, '/controller_manager', loadable={'a'})
        order = ['load_controller', 'switch_controller', 'unload_controller']
        sim = w.params['/use_sim_time'] = x.flag('sim time')
        w.clock_zero = sim and x.flag('no clock')
        clock_comes = w.clock_zero
        budget = [3]
        st = {'hist': [], 'killed': False, 'early': False, 'missing': False}
        forever = any(o in form for o in ('--no-timeout',)) or form[:1] in (['--timeout=0'], ['--timeout=-1'], ['--timeout=-0.5'])
        limit = 30 if not form or forever else float(form[0].split('=')[1])

        def wait(service, timeout):
            if w.flag:
                raise ros.ROSInterruptException('rospy shutdown')
            x.expect((timeout is None) if forever else timeout == limit, 'wrong-timeout', 'waits %r for %s with %r', timeout, service, form)
            name = service.rsplit('/', 1)[1]
            x.expect(service in m.names.values(), 'waits-for-wrong-service', 'waits for %s', service)
            opts = ['there']
            if timeout is not None and budget[0] > 0:
                opts.append('timeout')
            if budget[0] > 0 and not w.in_shutdown:
                opts.append('killed')
            c = x.pick(opts, 'wait')
            w.note('waiting for %s: %s', name, c)
            if c == 'there':
                st.setdefault('found', set()).add(name)
                return
            budget[0] -= 1
            if c == 'killed':
                st['killed'] = True
                w.signal_shutdown('term')
                raise ros.ROSInterruptException('rospy shutdown')
            w.time += timeout
            if w.clock_zero:
                st['clock'] = st.get('clock', 0) + 1
                if clock_comes and x.flag('clock comes'):
                    w.clock_zero = False
                    st['maybe'] = True   # came while the service timed out: whether to go on is a matter of taste
            else:
                st['missing'] = True
            raise ros.ROSException('timeout exceeded')
        w.wait_hook = wait

        def asleep(s):
            if w.flag or 'spin' in st:
                return
            subs = w.subs.get('/go', [])
            if len(st['hist']) >= history:
                ev = x.pick(['true', 'killed'])
            else:
                ev = x.pick(['nothing', 'false', 'true', 'killed', 'long nothing'])
            w.note('topic: %s', ev)
            st['hist'].append(ev)
            if ev == 'killed':
                st['killed'] = True
                w.signal_shutdown('term')
            elif ev == 'long nothing':
                w.time += 100
            elif ev != 'nothing':
                st['true'] = ev == 'true'
                st['ever'] = st.get('ever') or ev == 'true'
                for s in subs:
                    s.cb(ros.Bool(ev == 'true'))
        w.on_sleep = asleep

        def fault(k, req):
            if not st.get('spin'):
                if topic and not st.get('ever'):
                    x.fail('too-early', '%s before the topic said true (%r)', k, st['hist'])
                if st.get('found') != set(order):
                    x.fail('too-early', '%s although only %r were found', k, st.get('found'))
        m.fault = fault

        def spin():
            st['spin'] = True
            st['start'] = dict(m.ctl)
            st['killed'] = True
            w.signal_shutdown('term')
        w.on_spin = spin
        r = run_spawner(x, w, form + (['--wait-for', 'go'] if topic else []) + ['a'])
        x.outcome(repr((r if isinstance(r, str) else type(r).__name__, m.snapshot(), st['hist'])))
        x.state(repr((st['hist'], m.snapshot(), w.clock_zero, sim)))
        if isinstance(r, Exception) or r not in ('end', 0):
            x.fail('spawner-raises', 'the spawner ended with %s: %s', type(r).__name__, r)
        x.expect(not m.ctl, 'left-after-kill', 'at the end %r', m.snapshot())
        if 'spin' in st:
            x.expect(st['start'] == {'a': 'running'}, 'wrong-start', 'runs with %r', st['start'])
            x.expect(not st['missing'], 'runs-without-services', 'runs although a service was missing')
        else:
            x.expect(st['killed'] or st['missing'] or st.get('maybe'), 'gave-up', 'ended without being killed, with all services there')
            x.expect(not requests(m, 'load_controller'), 'too-early', 'loaded although it was killed or gave up before')
    return f


SCRATCH = []


def scratch():
    if not SCRATCH:
        d = tempfile.mkdtemp(prefix='spawner-')
        SCRATCH.append(d)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
        docs = {'one.yaml': 'a:\n  type: t/A\n  gain: 1\n', 'two.yaml': 'b:\n  type: t/B\na:\n  type: t/A2\n', 'many.yaml': 'c: {type: t/C}\nb: {type: t/B, sub: {x: 2}}\n'}
        for n in docs:
            with open(os.path.join(d, n), 'w') as f:
                f.write(docs[n])
    os.chdir(SCRATCH[0])
    return SCRATCH[0]


YAML = {'one.yaml': (['a'], {'/a/type': 't/A', '/a/gain': 1}), 'two.yaml': (['b', 'a'], {'/b/type': 't/B', '/a/type': 't/A2'}),
        'many.yaml': (['c', 'b'], {'/c/type': 't/C', '/b/type': 't/B', '/b/sub/x': 2})}


def spawner_yaml_family(n):
    """Arguments that are files: their parameters are set, their controllers spawned, in order."""
    def f(x):
        scratch()
        w = ros.World(x)
        m = ros.Manager(w)
        items = list(YAML) + ['a', 'd']
        args = [x.pick(items) for _ in range(x.pick(range(1, n + 1)))]
        want, params = [], {}
        for a in args:
            if a in YAML:
                want += YAML[a][0]
                params.update(YAML[a][1])
            else:
                want.append(a)
        m.loadable = set(x.pick([['a', 'b', 'c', 'd'], ['b', 'd'], ['a', 'c']]))
        st = {}

        def fault(k, req):
            if k == 'load_controller' and 'params' not in st:
                st['params'] = dict(w.params)
        m.fault = fault

        def spin():
            st['start'] = dict(m.ctl)
            w.signal_shutdown('term')
        w.on_spin = spin
        r = run_spawner(x, w, args)
        x.outcome(repr((args, st.get('start'))))
        if isinstance(r, Exception):
            x.fail('spawner-raises', 'the spawner raised %s: %s', type(r).__name__, r)
        loads = [q[1].name for q in requests(m, 'load_controller')]
        x.expect(loads == want, 'wrong-loads', 'loads %r for %r, not %r', loads, args, want)
        x.expect(w.params == params, 'wrong-parameters', 'parameters %r, not %r', w.params, params)
        missing = {k for c in loads for k in YAML_OF(c, args) if k not in st.get('params', {})}
        x.expect(not missing, 'parameters-too-late', 'loads before setting %r', missing)
        ok = {c: 'running' for c in want if c in m.loadable}
        x.expect(st.get('start') == ok, 'wrong-start', 'runs with %r, not %r', st.get('start'), ok)
        x.expect(not m.ctl, 'left-after-kill', 'at the end %r', m.snapshot())
    return f


def YAML_OF(c, args):
    """Parameters that must be set before the first load of a mixed list: those of the first item."""
    a = args[0]
    return YAML[a][1] if a in YAML else []


# ------------------------------------------------------------------ unspawner
def unspawner_family(names, ticks, acts, fault, threads):
    def f(x):
        w = ros.World(x)
        m = ros.Manager(w)
        pool = POOL[:names]
        k, o = (x.pick(range(3)), x.pick(range(3))) if names > 3 else (0, 0)
        for i, c in enumerate(pool):
            s = (['running', 'stopped', None][(i * k + o) % 3]) if names > 3 else x.pick(['running', 'stopped', None] if c != 'b' else ['running', None])
            if s:
                m.ctl[c] = s
        named = x.pick(subsets(pool)[1:] if names < 4 else [pool, pool[::-1], pool[::2], pool[3:]])
        twice = x.flag('given twice') if len(named) == 1 else False
        env = Env(m, acts)
        st = {'stopped': {}, 'ticks': 0, 'bad': False, 'exit': None, 'faults': 0}
        budget = [1 if fault and x.flag('fault') else 0]
        seen = [0]

        def on_fault(k, req):
            if budget[0] and k == 'switch_controller':
                c = x.pick([None, 'refuse'], 'fault')
                if c:
                    budget[0] = 0
                    st['faults'] += 1
                    if w.in_shutdown:
                        st['bad'] = True
                return c
        m.fault = on_fault

        def settle():
            """Account for the requests since the last time."""
            for q in m.requests[seen[0]:]:
                if q[0] == 'switch_controller':
                    extra = set(q[1].stop_controllers) - set(named)
                    x.expect(not extra, 'stops-unnamed', 'asked to stop %r; named are %r', extra, named)
                    if q[2] is None and q[4]:
                        for c in q[1].stop_controllers:
                            if dict(q[3]).get(c) == 'running':
                                st['stopped'][c] = True
                            st['order'] = st.get('order', []) + [c]
            seen[0] = len(m.requests)

        def after_pass(n):
            settle()
            run = [c for c in named if m.ctl.get(c) == 'running']
            if not st['faults']:
                x.expect(not run, 'named-still-runs', '%r still run after pass %d', run, n)

        def spin():
            if st['exit'] is not None:
                return
            if 'zero' not in st:
                st['zero'] = True
                after_pass(0)
            live = [t for t in w.timers if not t.stopped]
            opts = ['kill'] + (['tick'] if st['ticks'] < ticks else []) + (['act'] if env.n else []) + (['tick and kill'] if threads else [])
            ev = x.pick(opts, 'event')
            w.note('-- %s', ev)
            if ev == 'act':
                a = x.pick(env.acts(pool))
                env.do(a)
                st['mine'] = st.get('mine', []) + [a]
                return
            if ev == 'tick':
                st['ticks'] += 1
                x.expect(live, 'no-timer', 'no timer looks for controllers that run later')
                for t in live:
                    w.time += t.period.to_sec()
                    t.stopped = t.oneshot
                    t.cb(None)
                after_pass(st['ticks'])
                return
            settle()
            st['exit'] = dict(m.ctl)
            st['mid'] = ev != 'kill'
            if ev == 'kill':
                w.signal_shutdown('term')
            else:
                x.expect(live, 'no-timer', 'no timer looks for controllers that run later')
                for t in live:
                    t.stopped = t.oneshot
                    w.spawn('timer', lambda t=t: t.cb(None))
                w.signal_shutdown('term')
        w.on_spin = spin
        w.argv = ['/opt/ros/bin/unspawner'] + named + (named if twice else [])
        old = sys.argv
        sys.argv = list(w.argv)
        w.note('unspawner %s with %r', named, m.snapshot())
        start = dict(m.ctl)
        try:
            r = w.script(ros.REPO + BIN + 'unspawner')
        finally:
            sys.argv = old
        settle()
        x.state(m.snapshot())
        x.outcome(repr((m.snapshot(), sorted(st['stopped']), r if isinstance(r, str) else type(r).__name__)))
        if isinstance(r, Exception) or r not in ('end', 0):
            x.fail('unspawner-raises', 'the unspawner ended with %s: %s', type(r).__name__, r)
        x.expect(st['exit'] is not None, 'ended-early', 'the unspawner ended although nobody asked it to')
        if st['bad']:
            return
        for c in pool:
            was, now = st['exit'].get(c), m.ctl.get(c)
            if c in named and st['mid'] and was == 'running':
                pass   # may be stopped and must be started again
            if c in st['stopped'] and c in m.ctl:
                reloaded = any(a[1] == c and a[0] in ('unload', 'load', 'start', 'stop') for a in st.get('mine', []))
                if not reloaded:
                    x.expect(now == 'running', 'not-restarted', '%s was stopped by the unspawner and is %s at the end', c, now)
            elif not st['mid'] or c not in named:
                x.expect(now == was, 'changed-at-exit', '%s was not stopped by the unspawner, was %s and is %s', c, was, now)
            else:
                x.expect(now == was or now == 'running', 'changed-at-exit', '%s was %s and is %s', c, was, now)
            if c not in named:
                x.expect(now == was, 'unnamed-changed', '%s is not named, was %s and is %s', c, was, now)
        for q in m.requests:
            x.expect(q[0] in ('list_controllers', 'switch_controller'), 'unrelated-request', 'calls %s', q[0])
    return f


def unspawner_late_family(x):
    """The services come one after another, or never."""
    w = ros.World(x)
    m = ros.Manager(w)
    m.ctl = {c: x.pick(['running', 'stopped']) for c in POOL[:2]}
    was = dict(m.ctl)
    away = {m.names[k]: w.services.pop(m.names[k]) for k in x.pick(subsets(['list_controllers', 'switch_controller']))}
    st = {'killed': False, 'spin': False}

    def wait(service, timeout):
        if w.flag:
            raise ros.ROSInterruptException('rospy shutdown')
        if service in away:
            c = x.pick(['comes', 'all come', 'killed'], 'wait')
            w.note('waiting for %s: %s', service, c)
            for s in [s for s in away if c == 'all come' or (c == 'comes' and s == service)]:
                w.services[s] = away.pop(s)
            if c == 'killed':
                st['killed'] = True
                w.signal_shutdown('term')
                raise ros.ROSInterruptException('rospy shutdown')
    w.wait_hook = wait

    def spin():
        if not st['spin']:
            st['spin'] = True
            x.expect(not away and m.ctl == {c: 'stopped' for c in was}, 'named-still-runs', 'waits with %r, was %r', m.ctl, was)
            w.signal_shutdown('term')
    w.on_spin = spin
    w.argv = ['/opt/ros/bin/unspawner'] + POOL[:2]
    old, sys.argv = sys.argv, list(w.argv)
    w.note('unspawner, %r; not there: %r', was, sorted(away))
    try:
        r = w.script(ros.REPO + BIN + 'unspawner')
    finally:
        sys.argv = old
    x.outcome(repr((m.snapshot(), st, r if isinstance(r, str) else type(r).__name__)))
    x.state(repr((was, sorted(away))))
    x.expect(st['spin'] or st['killed'], 'gave-up', 'the unspawner ended with %r although nobody asked it to', r)
    if isinstance(r, Exception) and not (st['killed'] and isinstance(r, ros.ROSInterruptException)):
        x.fail('unspawner-raises', 'the unspawner ended with %s: %s', type(r).__name__, r)
    x.expect(m.ctl == was, 'changed-at-exit', 'was %r and is %r', was, m.ctl)


def unspawner_usage(x):
    w = ros.World(x)
    m = ros.Manager(w)
    m.ctl = {'a': 'running'}
    args = x.pick([[], ['-h'], ['--help']])
    w.argv = ['unspawner'] + args
    old, sys.argv = sys.argv, ['unspawner'] + args
    try:
        r = w.script(ros.REPO + BIN + 'unspawner')
    finally:
        sys.argv = old
    x.note('-> %r', r)
    x.outcome(repr(r))
    x.expect(not m.requests and not isinstance(r, Exception), 'usage-acts', 'unspawner %s: %r, requests %r', args, r, m.requests)


def p03(tier):
    t = tier == 'thorough'
    return {
        'spawner': spawner_family(3 if t else 2, 2, False),
        'spawner, namespaces': spawner_family(2, 0, False, namespaces=(None, 'ns', 'ns/', '/ns', 'a/b'), others=('none', 'p running')),
        'spawner, six controllers': spawner_family(6, 0, False, others=('none', 'p running')),
        'spawner, three controllers': spawner_family(3, 1, False),
        'spawner, one failing call': spawner_family(3 if t else 2, 1, True, others=('none', 'p running')),
        'spawner, terminated at any point': spawner_family(3, 0, False, kinds=('term', 'int'), others=('none', 'p running', 'first there')),
        'spawner, killed from another thread': spawner_family(2, 0, False, kinds=('thread',), others=('none',), flags=([], ['--stopped']) if t else ([],), deep=t),
        'spawner, start condition': spawner_wait_family([[], ['--timeout=5'], ['--no-timeout'], ['--timeout=0'], ['--timeout=-1'], ['--timeout=5', '--no-timeout']], 4 if t else 3),
        'spawner, files': spawner_yaml_family(4 if t else 3),
        'unspawner': unspawner_family(3 if t else 2, 2, 3 if t else 2, False, False),
        'unspawner, seven controllers': unspawner_family(7, 2, 2 if t else 1, False, False),
        'unspawner, three controllers': unspawner_family(3, 1, 1, False, False),
        'unspawner, one failing call': unspawner_family(2, 2, 2, True, False),
        'unspawner, killed during a pass': unspawner_family(3 if t else 2, 1, 1, False, True),
        'unspawner, services that come late': unspawner_late_family,
        'unspawner, usage': unspawner_usage,
    }



# ------------------------------------------------------------------ controller_manager_interface, controller_manager
S = ['running', 'stopped', 'initialized', None]


def some_manager(x, w, pool, states=S, loadable=None):
    m = ros.Manager(w, loadable=loadable)
    for c in pool:
        s = x.pick(states)
        if s:
            m.ctl[c] = s
    x.state(m.snapshot())
    return m


def shape(q):
    """What a request asks for."""
    if q[0] in ('load_controller', 'unload_controller'):
        return (q[0].split('_')[0], q[1].name)
    if q[0] == 'switch_controller':
        return ('switch', list(q[1].start_controllers), list(q[1].stop_controllers), q[1].strictness, bool(q[1].start_asap), float(q[1].timeout))
    if q[0] == 'reload_controller_libraries':
        return ('reload', bool(q[1].force_kill))
    return (q[0],)


def strict(start, stop):
    return ('switch', list(start), list(stop), 2, False, 0.0)


def one_fault(x, m, kinds=(None, 'refuse', 'raise')):
    at = x.pick(kinds, 'fault')
    m.fault = lambda k, q: at
    return at


def late(x, w, m):
    """Services that come only when somebody waits for them, in the order in which a manager offers them."""
    if x.flag('late services'):
        away = {s: w.services.pop(s) for s in m.names.values()}

        def wait(service, timeout):
            w.note('waiting for %s', service)
            while away and service in away:
                s = next(iter(away))
                w.services[s] = away.pop(s)
            x.expect(service in w.services, 'waits-for-wrong-service', 'waits for %s', service)
        w.wait_hook = wait


def functions_family(x):
    w = ros.World(x)
    i = ros.interface()
    pool = ['a', 'ab']
    m = some_manager(x, w, pool, loadable={'a', 'ab'})
    at = one_fault(x, m)
    late(x, w, m)
    f = x.pick(['load', 'unload', 'start', 'stop', 'starts', 'stops', 'both'])
    before = dict(m.ctl)
    names = list(x.pick([['a'], ['ab'], ['z']] if f in ('load', 'unload', 'start', 'stop') else [['a'], ['a', 'ab'], ['ab', 'a'], ['a', 'z'], ('a', 'ab'), ['ab'], []]))
    given = names
    other = []
    if f == 'load':
        run, want = (lambda: i.load_controller(names[0])), ('load', names[0])
    elif f == 'unload':
        run, want = (lambda: i.unload_controller(names[0])), ('unload', names[0])
    elif f == 'start':
        run, want = (lambda: i.start_controller(names[0])), strict(names, [])
    elif f == 'stop':
        run, want = (lambda: i.stop_controller(names[0])), strict([], names)
    elif f == 'starts':
        run, want = (lambda: i.start_controllers(given)), strict(names, [])
    elif f == 'stops':
        run, want = (lambda: i.stop_controllers(given)), strict([], names)
    else:
        other = x.pick([['ab'], ['a'], []])
        run, want = (lambda: i.start_stop_controllers(start_controllers=given, stop_controllers=other)), strict(names, other)
    twice = x.flag('twice')
    for k in range(2 if twice else 1):
        n0 = len(m.requests)
        w.out.seek(0); w.out.truncate()
        w.note('%s %r %r, %r', f, names, other, m.snapshot())
        got = None
        try:
            with ros.contextlib.redirect_stdout(w.out):
                got = run()
        except ros.ServiceException as e:
            x.expect(at == 'raise', 'function-raises', '%s raised %s', f, e)
            got = 'raised'
        except (Found, Hang, ros.Abort):
            raise
        except Exception as e:
            x.fail('function-raises', '%s raised %s: %s', f, type(e).__name__, e)
        reqs = m.requests[n0:]
        text = w.out.getvalue()
        x.note('-> %r %r', got, text)
        x.outcome(repr((f, got, text)))
        if want == strict([], []) and not reqs:
            return
        x.expect([shape(q) for q in reqs] == [want], 'wrong-request', '%s %r %r asked for %r, not %r', f, names, other, [shape(q) for q in reqs], want)
        ok = bool(at is None and reqs[0][4])
        x.expect(got is ok or (at == 'raise' and got in ('raised', False)), 'wrong-result', '%s returned %r; the manager %s', f, got, 'did it' if ok else 'did not')
        said = {'load': "Loaded '%s'\n" % names[0], 'unload': "Unloaded '%s' successfully\n" % names[0]}.get(f) if f in ('load', 'unload') else \
            ('Started %s successfully\n' % (given if f in ('starts', 'both') else names) if want[1] else '') + ('Stopped %s successfully\n' % (other if f == 'both' else given if f == 'stops' else names) if want[2] else '')
        if ok:
            x.expect(text == said, 'wrong-report', '%s printed %r, not %r', f, text, said)
        else:
            x.expect('Loaded' not in text and 'successfully' not in text, 'wrong-report', '%s printed %r although it failed', f, text)


def run_tool(x, w, tool, args):
    w.argv = [tool] + args
    w.note('%s %s', tool, ' '.join(args))
    ros.interface()
    old, sys.argv = sys.argv, list(w.argv)
    err, sys.stderr = sys.stderr, ros.io.StringIO()
    try:
        r = w.script(ros.REPO + BIN + tool)
    finally:
        sys.argv, sys.stderr = old, err
    x.note('-> %r %r', r, w.out.getvalue())
    x.outcome(repr((tool, args[:1], r if isinstance(r, (str, int)) else type(r).__name__, w.out.getvalue())))
    return r


def commands_family(pool, n):
    """The tool: commands, argument lists, states of the manager; requests in order; what goes wrong with one goes on with the next."""
    def f(x):
        w = ros.World(x)
        m = some_manager(x, w, pool, loadable=set(pool) - {'ab'} | ({'ab'} if x.flag('b loads') else set()))
        cmd = x.pick(['load', 'unload', 'start', 'stop', 'spawn', 'sp', 'kill', 'kl'])
        names = [x.pick(pool) for _ in range(x.pick(range(n + 1)))]
        r = run_tool(x, w, 'controller_manager', [cmd] + names)
        want = {'load': [('load', c) for c in names], 'unload': [('unload', c) for c in names], 'start': [strict([c], []) for c in names], 'stop': [strict([], [c]) for c in names]}
        want['spawn'] = want['sp'] = want['load'] + want['start']
        want['kill'] = want['kl'] = want['stop'] + want['unload']
        got = [shape(q) for q in m.requests]
        x.expect(got == want[cmd], 'wrong-requests', '%s %r asked for %r, not %r', cmd, names, got, want[cmd])
        x.expect(not isinstance(r, Exception), 'tool-raises', '%s %r ended with %r', cmd, names, r)
        text = ''.join('' if not q[4] else "Loaded '%s'\n" % q[1].name if q[0] == 'load_controller' else "Unloaded '%s' successfully\n" % q[1].name if q[0] == 'unload_controller' else
                       'Started %s successfully\n' % q[1].start_controllers if q[1].start_controllers else 'Stopped %s successfully\n' % q[1].stop_controllers for q in m.requests)
        said = ''.join(l + '\n' for l in w.out.getvalue().splitlines() if 'Loaded' in l or 'success' in l)
        x.expect(said == text, 'wrong-report', '%s %r reported %r, not %r', cmd, names, said, text)
    return f


def many_commands_family(x):
    """Seven names at once, in every rotation, some of which cannot be loaded or run already."""
    w = ros.World(x)
    k, o = x.pick(range(1, 4)), x.pick(range(4))
    m = ros.Manager(w, loadable=set(POOL[k % 2::2]))
    for i, c in enumerate(POOL):
        s = S[(i * k + o) % 4]
        if s:
            m.ctl[c] = s
    cmd, r = x.pick(['load', 'unload', 'start', 'stop', 'spawn', 'kill']), x.pick(range(len(POOL)))
    names = (POOL + POOL)[r:r + len(POOL) - o]
    res = run_tool(x, w, 'controller_manager', [cmd] + names)
    x.state(m.snapshot())
    one = {'load': [('load', c) for c in names], 'unload': [('unload', c) for c in names], 'start': [strict([c], []) for c in names], 'stop': [strict([], [c]) for c in names]}
    one['spawn'], one['kill'] = one['load'] + one['start'], one['stop'] + one['unload']
    got = [shape(q) for q in m.requests]
    x.expect(got == one[cmd], 'wrong-requests', '%s %r asked for %r, not %r', cmd, names, got, one[cmd])
    x.expect(not isinstance(res, Exception), 'tool-raises', '%s %r ended with %r', cmd, names, res)


def usage_family(x):
    w = ros.World(x)
    m = some_manager(x, w, ['a'])
    args = x.pick([[], ['nonsense'], ['Load', 'a'], ['--restore'], ['st', 'a']])
    r = run_tool(x, w, 'controller_manager', args)
    x.expect(not m.requests, 'usage-acts', '%r asked for %r', args, [shape(q) for q in m.requests])
    x.expect(r == (1 if args else 0), 'wrong-exit-code', '%r ended with %r', args, r)


def list_family(n):
    def f(x):
        w = ros.World(x)
        pool = ['ab', 'a', 'b'][:n]
        m = some_manager(x, w, pool, S if n < 3 else ['running', 'initialized', None])
        claims = [[], [('I', ['r'])], [('I', ['r']), ('K', ['s', 't'])], [('K', ['s']), ('I', []), ('K', ['r'])], [('I', ['r']), ('I', ['q'])]]
        for c in m.ctl:
            m.claims[c] = x.pick(claims)
        types = x.pick([['t/B', 't/A'], [], ['t/A', 't/C', 't/B']])
        m.types = types
        w0 = dict(w.services)
        late(x, w, m)
        r = run_tool(x, w, 'controller_manager', [x.pick(['list', 'lc'])])
        x.expect(not isinstance(r, Exception), 'tool-raises', 'list ended with %r', r)
        lines = w.out.getvalue().splitlines()
        if not m.ctl:
            x.expect(lines == ['No controllers are loaded in mechanism control'], 'wrong-list', 'with no controllers, list printed %r', lines)
        else:
            x.expect(len(lines) == len(m.ctl), 'wrong-list', 'list printed %r for %r', lines, m.snapshot())
            for l, (c, s) in zip(lines, m.ctl.items()):
                hw = {i for i, _ in m.claims[c]}
                x.expect(l.startswith("'%s' - '" % c) and l.endswith("' ( %s )" % s), 'wrong-list', 'list printed %r for %s, %s', l, c, s)
                mid = l[len("'%s' - '" % c):-len("' ( %s )" % s)]
                x.expect(sorted(mid.split('+') if mid else []) == sorted(hw), 'wrong-interfaces', 'list printed %r for %s, which claims %r', l, c, hw)
        n0 = len(m.requests)
        w2 = ros.World(x)
        w2.services = w.services
        m.w = w2
        w2.services.update((s, w0[s]) for s in w0 if s not in w2.services)
        late(x, w2, m)
        r = run_tool(x, w2, 'controller_manager', [x.pick(['list-types', 'lt'])])
        x.expect(w2.out.getvalue().splitlines() == types, 'wrong-types', 'list-types printed %r for %r', w2.out.getvalue(), types)
        x.expect({q[0] for q in m.requests[:n0]} == {'list_controllers'} and {q[0] for q in m.requests[n0:]} == {'list_controller_types'}, 'wrong-requests', 'lists asked for %r', [shape(q) for q in m.requests])
    return f


def reload_family(n):
    def f(x):
        w = ros.World(x)
        pool = ['a', 'ab', 'b', 'd'][:n]
        bad = x.pick([None] + pool)   # can no longer be loaded
        m = some_manager(x, w, pool, loadable=set(pool) - {bad})
        late(x, w, m)
        before = dict(m.ctl)
        how = x.pick(['tool', 'tool --restore', 'function'])
        restore, kill = how == 'tool --restore', True
        at = None
        if how == 'function':
            restore, kill = x.flag('restore'), x.flag('force kill')
            at = x.pick([None, 'refuse'])
            m.fault = lambda k, q: at if k == 'reload_controller_libraries' else None
            i = ros.interface()
            with ros.contextlib.redirect_stdout(w.out):
                got = call(x, 'function-raises', 'reload_libraries', lambda: i.reload_libraries(kill, restore=restore) if restore or x.flag('explicit') else i.reload_libraries(kill))
            ok = at is None and (kill or not before)
            x.expect(got is ok, 'wrong-result', 'reload_libraries(%s, restore=%s) returned %r with %r', kill, restore, got, before)
        else:
            r = run_tool(x, w, 'controller_manager', ['reload-libraries'] + (['--restore'] if restore else []))
            x.expect(not isinstance(r, Exception), 'tool-raises', 'reload ended with %r', r)
            ok = True
        text = w.out.getvalue()
        x.note('%s, %r -> %r, %r', how, before, m.snapshot(), text)
        x.outcome(repr((how, restore, kill, m.snapshot(), text)))
        x.expect(('Successfully reloaded' in text) == ok, 'wrong-report', 'printed %r', text)
        rel = [shape(q) for q in m.requests if q[0] == 'reload_controller_libraries']
        x.expect(rel == [('reload', kill)], 'wrong-requests', 'asked for %r', rel)
        if not restore:
            x.expect(m.ctl == ({} if ok else before), 'wrong-state', 'after reloading %r there are %r', before, m.ctl)
            x.expect(all(q[0] in ('reload_controller_libraries', 'list_controllers') for q in m.requests), 'wrong-requests', 'asked for %r', [shape(q) for q in m.requests])
        elif ok:
            want = {c: ('running' if s == 'running' else 'initialized') for c, s in before.items() if c != bad}
            x.expect(m.ctl == want, 'not-restored', 'after reloading %r there are %r', before, m.ctl)
            x.expect(list(m.ctl) == [c for c in before if c != bad], 'restored-in-other-order', 'after reloading %r there are %r', list(before), list(m.ctl))
        else:
            x.expect(m.ctl == before, 'wrong-state', 'a refused reloading of %r left %r', before, m.ctl)
    return f


# ------------------------------------------------------------------ controller_group
def group_family(pool, tables, states):
    def f(x):
        w = ros.World(x)
        table = x.pick(tables)
        if table is not None:
            w.params['/controller_groups'] = table
        bad = x.pick([None] + pool)
        if states:
            m = some_manager(x, w, pool + ['p'], states, loadable=set(pool) - {bad})
        else:
            k, o = x.pick(range(4)), x.pick(range(4))
            m = ros.Manager(w, loadable=set(pool) - {bad})
            m.ctl.update((c, S[(i * k + o) % 4]) for i, c in enumerate(pool + ['p']) if S[(i * k + o) % 4])
        m.ctl = dict(sorted(m.ctl.items()))
        before = dict(m.ctl)
        m.fault = lambda k, q: 'refuse' if refuse and k == 'switch_controller' else None
        refuse = False
        cmd = x.pick(['list', 'spawn', 'switch'])
        if cmd == 'list':
            r = run_tool(x, w, 'controller_group', ['list'])
            t = table or {}
            want = 'Number of groups: %d\n' % len(t) + ''.join('  %s\n' % g + ''.join('      %s\n' % c for c in t[g]) for g in sorted(t))
            x.expect(w.out.getvalue() == want, 'wrong-list', 'listed %r, not %r', w.out.getvalue(), want)
            x.expect(not m.requests, 'list-acts', 'asked for %r', [shape(q) for q in m.requests])
            return
        group = x.pick(['g1', 'g2', 'no'])
        refuse = x.flag('switch refused')
        r = run_tool(x, w, 'controller_group', [cmd, group])
        x.expect(not isinstance(r, Exception), 'tool-raises', '%s %s ended with %s %s', cmd, group, type(r).__name__, r)
        x.state(m.snapshot())
        mine = set((table or {}).get(group, ()))
        others = set(c for g in (table or {}).values() for c in g) - mine
        acts = [shape(q) for q in m.requests if q[0] != 'list_controllers']
        if not mine:
            x.expect(not acts, 'unknown-group-acts', '%s of a group without controllers asked for %r', cmd, acts)
            x.expect(any(l == 'err' for l, _ in w.log), 'no-error', '%s of a group without controllers reported no error', cmd)
            return
        loads = [a[1] for a in acts if a[0] == 'load']
        kinds = [a[0] for a in acts]
        x.expect(kinds == sorted(kinds), 'wrong-order', '%s asked for %r', cmd, acts)
        if cmd == 'spawn':
            x.expect(sorted(loads) == sorted(mine), 'wrong-loads', 'spawn %r loaded %r', mine, loads)
            starts = [a for a in acts if a[0] == 'switch']
            x.expect(sorted(starts) == sorted(strict([c], []) for c in mine), 'wrong-starts', 'spawn %r asked for %r', mine, starts)
            return
        need = sorted(c for c in mine if c not in before)
        failed = bad in need
        if failed:
            x.expect(set(loads) <= set(need) and len(set(loads)) == len(loads) and bad in loads, 'wrong-loads', 'switching to %r with %r loaded %r', mine, before, loads)
            x.expect('switch' not in kinds, 'switch-after-failed-load', 'asked for %r although %s could not be loaded', acts, bad)
            return
        x.expect(sorted(loads) == need, 'wrong-loads', 'switching to %r with %r loaded %r', mine, before, loads)
        start = sorted(c for c in mine if before.get(c) != 'running')
        stop = sorted(c for c in others if before.get(c) == 'running')
        sw = [a for a in acts if a[0] == 'switch']
        x.expect(len(sw) == 1 or not (sw or start or stop), 'wrong-switches', 'switching to %r with %r asked for %r', mine, before, sw)
        if sw:
            a = sw[0]
            x.expect((sorted(a[1]), sorted(a[2])) + a[3:] == (start, stop, 2, False, 0.0), 'wrong-switch', 'switching to %r (others %r) with %r asked for %r', mine, others, before, a)
        x.expect(('successfully' in w.out.getvalue()) == bool(sw and not refuse and (start or stop)), 'wrong-report', 'printed %r', w.out.getvalue())
    return f


def tables(pool):
    out = [None, {}]
    for a in subsets(pool):
        for b in subsets(pool):
            out.append({'g1': a, 'g2': b})
    out += [{'g1': [pool[0], pool[0]], 'g2': pool}, {'g2': pool[::-1]}, {'g1': pool[:1], 'g2': pool[1:], 'g3': pool}]
    return out


def p04(tier):
    t = tier == 'thorough'
    return {
        'library functions': functions_family,
        'commands': commands_family(['a', 'ab', 'z'] if t else ['a', 'ab'], 3 if t else 2),
        'commands, three names': commands_family(['a', 'ab'], 3),
        'commands, many names': many_commands_family,
        'usage': usage_family,
        'lists': list_family(3 if t else 2),
        'reloading': reload_family(4 if t else 3),
        'groups': group_family(['a', 'ab', 'b'] if t else ['a', 'ab'], tables(['a', 'ab', 'b'] if t else ['a', 'ab']), ['running', 'stopped', 'initialized', None]),
        'groups, many controllers': group_family(POOL, [{'g1': POOL[i:j], 'g2': POOL[k::2], 'g3': POOL[j:], 'g4': POOL[:i]} for i in (0, 2) for j in (3, 5, 7) for k in (0, 1)], None),
        'groups, three controllers': group_family(['a', 'ab', 'b'], [{'g1': a, 'g2': b} for a in subsets(['a', 'ab', 'b'])[1:] for b in (['ab'], ['b', 'a'], ['a', 'ab', 'b'])], ['running', None]),
    }


if __name__ == '__main__':
    sys.exit(mc.main(lambda prop, tier: {'P03': p03, 'P04': p04}[prop](tier), ros.setup))
