"""P01, P02: controller_manager_msgs.utils."""
import itertools, sys
import mc, ros
from mc import Found, Hang


def call(x, sig, what, f, *a, **k):
    """Calls the code under test: an exception is a violation."""
    try:
        return f(*a, **k)
    except (Found, Hang, ros.Abort):
        raise
    except Exception as e:
        x.fail(sig, '%s raised %s: %s' % (what, type(e).__name__, e))


def subsets(s, n=None):
    return [list(c) for k in range(len(s) + 1 if n is None else n + 1) for c in itertools.combinations(s, k)]


# ------------------------------------------------------------------ P01
IFACES, RES = ['J', 'JJ'], ['r', 'rs', 's']


def claim_sets(full):
    one = [(i, r) for i in IFACES for r in (subsets(RES) if full else [[], ['r'], ['rs'], ['r', 's']])]
    return [[]] + [[c] for c in one] + [[c, d] for c in one for d in one if full or len(c[1]) + len(d[1]) < 4]


def build(msg, name, type_, state, claims):
    return msg.ControllerState(name=name, type=type_, state=state, claimed_resources=[
        msg.HardwareInterfaceResources(hardware_interface=i, resources=list(r)) for i, r in claims])


def compare(x, what, lst, before, got, want):
    x.note('%s -> %r', what, [c.name for c in got] if isinstance(got, list) else got)
    x.expect(isinstance(got, list), 'not-a-list', '%s returned %r', what, got)
    must, may = want
    ids = [id(c) for c in got]
    x.expect([i for i in ids if i in set(map(id, lst))] == ids, 'foreign-element', '%s returned something that is not in the list', what)
    x.expect(ids == [id(c) for c in lst if id(c) in set(ids)], 'order-or-duplicate', '%s returned %r: not in list order, each once', what, got)
    m = [repr(c) for c in lst if id(c) in must and id(c) not in ids]
    x.expect(not m, 'match-left-out', '%s left out %s', what, m)
    m = [repr(c) for c in lst if id(c) not in may and id(c) in ids]
    x.expect(not m, 'wrong-match', '%s returned %s', what, m)
    x.expect(repr(lst) == before, 'input-changed', '%s changed its input', what)
    x.outcome(repr([repr(c) for c in got]))


def attr_family(sizes, vals):
    def f(x):
        ros.World(x)
        u = ros.utils()
        import controller_manager_msgs.msg as msg
        attr = x.pick(['name', 'type', 'state'])
        n = x.pick(sizes)
        lst = [build(msg, 'n', 't', 's', []) for _ in range(n)]
        for c in lst:
            setattr(c, attr, x.pick(vals))
        before = repr(lst)
        x.state(attr + before)
        fn = getattr(u, 'filter_by_' + attr)
        for v in vals + ['zz']:
            for sub in (None, False, True):
                what = 'filter_by_%s(%s, %r, %s)' % (attr, [getattr(c, attr) for c in lst], v, sub)
                got = call(x, 'filter-raises', what, fn, lst, v) if sub is None else call(x, 'filter-raises', what, fn, lst, v, match_substring=sub)
                want = {id(c) for c in lst if (v in getattr(c, attr) if sub else getattr(c, attr) == v)}
                compare(x, what, lst, before, got, (want, want))
    return f


def claims_family(n, claims, which):
    def f(x):
        ros.World(x)
        u = ros.utils()
        import controller_manager_msgs.msg as msg
        lst = [build(msg, 'c%d' % i, 't', 's', x.pick(claims)) for i in range(n)]
        before = repr(lst)
        x.state(before)
        if which == 'iface':
            for v in ['J', 'JJ', 'Z', '']:
                for sub in (None, False, True):
                    what = 'filter_by_hardware_interface(%s, %r, %s)' % (before, v, sub)
                    got = call(x, 'filter-raises', what, u.filter_by_hardware_interface, lst, v) if sub is None else call(x, 'filter-raises', what, u.filter_by_hardware_interface, lst, v, match_substring=sub)
                    want = {id(c) for c in lst if any(v in r.hardware_interface if sub else v == r.hardware_interface for r in c.claimed_resources)}
                    compare(x, what, lst, before, got, (want, want))
            return
        for res in subsets(RES) + [['s', 'r'], ['r', 'r'], ['z'], ['z', 'r'], ['r', 'z']]:
            for hw in (None, 'J', 'JJ', 'Z'):
                for any_ in (None, False, True):
                    what = 'filter_by_resources(%s, %r, %r, %r)' % (before, res, hw, any_)
                    given = list(res)
                    k = {} if any_ is None else {'match_any': any_}
                    got = call(x, 'filter-raises', what, u.filter_by_resources, lst, given, **(dict(k, hardware_interface=hw) if hw else k))
                    x.expect(given == res, 'input-changed', '%s changed the list of resources', what)

                    def ok(c):
                        for r in c.claimed_resources:
                            if hw is None or r.hardware_interface == hw:
                                if any(e in r.resources for e in res) if any_ else all(e in r.resources for e in res):
                                    return True
                        return False
                    must = {id(c) for c in lst if ok(c)}
                    # nothing is asked of a controller without the interface: whether it claims "all of no resources" is a matter of taste
                    compare(x, what, lst, before, got, (must, must if res else {id(c) for c in lst} if not any_ else must))
    return f


def crowd_family(n):
    """One long list; every kind of pattern in it; every filter one after another on the same list."""
    def f(x):
        ros.World(x)
        u = ros.utils()
        import controller_manager_msgs.msg as msg
        names = ['arm', 'arm_controller', 'left_arm_controller', 'joint_state_controller', 'Arm', 'a']
        types, states = ['pos/JointTrajectoryController', 'pos/JointController', 'eff/JointController', 'JointController'], ['running', 'stopped', 'initialized', 'running ']
        ifs, res = ['hw::EffortJointInterface', 'hw::JointInterface', 'EffortJointInterface'], ['joint_1', 'joint_10', 'joint_2', 'Joint_1', 'j']
        a, b, d = x.pick(range(1, 6)), x.pick(range(1, 4)), x.pick(range(5))
        lst = []
        for i in range(n):
            claims = [(ifs[(i * b + k) % 3], [res[(i * a + d + j) % 5] for j in range((i + k * b) % 4)]) for k in range((i + d) % 4)]
            lst.append(build(msg, names[i * a % 6] + ('' if i < 6 else str(i)), types[i * b % 4], states[(i + d) % 4], claims))
        before = repr(lst)
        x.state(before)
        for attr, vals in (('name', names + ['controller', '7']), ('type', types + ['Joint', '/']), ('state', states + ['run', 'ed'])):
            for v in vals:
                for sub in (False, True):
                    what = 'filter_by_%s of %d controllers (%r, %s)' % (attr, n, v, sub)
                    want = {id(c) for c in lst if (v in getattr(c, attr) if sub else getattr(c, attr) == v)}
                    compare(x, what, lst, before, call(x, 'filter-raises', what, getattr(u, 'filter_by_' + attr), lst, v, match_substring=sub), (want, want))
        for v in ifs + ['Joint', 'hw']:
            for sub in (False, True):
                what = 'filter_by_hardware_interface of %d controllers (%r, %s)' % (n, v, sub)
                want = {id(c) for c in lst if any(v in r.hardware_interface if sub else v == r.hardware_interface for r in c.claimed_resources)}
                compare(x, what, lst, before, call(x, 'filter-raises', what, u.filter_by_hardware_interface, lst, v, match_substring=sub), (want, want))
        for rs in subsets(res)[1:]:
            for hw in [None] + ifs:
                for any_ in (False, True):
                    what = 'filter_by_resources of %d controllers (%r, %r, %s)' % (n, rs, hw, any_)
                    want = {id(c) for c in lst if any((any if any_ else all)(e in r.resources for e in rs) for r in c.claimed_resources if hw is None or r.hardware_interface == hw)}
                    compare(x, what, lst, before, call(x, 'filter-raises', what, u.filter_by_resources, lst, list(rs), **dict({'match_any': any_}, **({'hardware_interface': hw} if hw else {}))), (want, want))
    return f


def p01(tier):
    t = tier == 'thorough'
    small, full = claim_sets(False), claim_sets(True)
    tiny = [[], [('J', ['r'])], [('J', ['r', 's'])], [('JJ', ['rs']), ('J', ['s'])], [('J', []), ('J', ['r'])], [('JJ', ['r'])], [('J', ['s']), ('J', ['r', 'rs'])], [('JJ', ['s', 'r']), ('JJ', [])]]
    return {
        'names, types and states': attr_family([0, 1, 2, 3, 4] if t else [0, 1, 2, 3], ['', 'a', 'ab', 'ba', 'b'] if t else ['', 'a', 'ab', 'b']),
        'many controllers': crowd_family(13),
        'interfaces of one controller': claims_family(1, full, 'iface'),
        'interfaces of two controllers': claims_family(2, full if t else small, 'iface'),
        'interfaces of three controllers': claims_family(3, tiny, 'iface'),
        'resources of no controller': claims_family(0, [[]], 'res'),
        'resources of one controller': claims_family(1, full, 'res'),
        'resources of two controllers': claims_family(2, full if t else small, 'res'),
        'resources of three controllers': claims_family(3, tiny + (small[:24] if t else []), 'res'),
    }


# ------------------------------------------------------------------ P02
SRV = ['list_controllers', 'list_controller_types', 'load_controller', 'unload_controller', 'switch_controller', 'reload_controller_libraries']
TYPE = {s: 'controller_manager_msgs/' + ''.join(p.capitalize() for p in s.split('_')) for s in SRV}


def p(ns):
    return ns if ns.endswith('/') else ns + '/'


def offer(w, ns, kind):
    """kind: 'no', 'full', ('without', s), ('type', s), ('dead', s)"""
    for s in SRV:
        w.services.pop(p(ns) + s, None)
    if kind == 'no':
        return
    for s in SRV:
        if kind == ('without', s):
            continue
        t = TYPE[s]
        if kind == ('type', s):
            t = TYPE[SRV[(SRV.index(s) + 1) % 6]]
        w.services[p(ns) + s] = (t, None if kind in (('dead', s), 'dead') else (lambda q: None))


KINDS = ['full', 'no', 'dead'] + [(k, s) for k in ('without', 'type', 'dead') for s in SRV]
FEW = ['full', 'no', ('without', 'load_controller'), ('type', 'switch_controller'), 'dead']
NOISE = [[], ['/a/list_controllers_x'], ['/a/list_controllersx/get_loggers'], ['/list_controllers_gui/get_loggers'], ['/a/b/set_list_controllers'], ['/list_controllers_x/cm/list_controllers']]


def below(ns, root):
    return ns == root.rstrip('/') or p(ns).startswith(ros.global_ns(root)) or ros.global_ns(root) == '/'


def managers(w):
    """The namespaces that offer the whole interface."""
    out = []
    for n in w.services:
        if n.endswith('/list_controllers'):
            ns = n[:-len('/list_controllers')] or '/'
            if all(w.services.get(p(ns) + s, (None, None))[0] == TYPE[s] and w.services[p(ns) + s][1] for s in SRV):
                out.append(ns)
    return sorted(out)


def expect_managers(x, w, what, got, root, guess=()):
    x.note('%s -> %r', what, got)
    x.outcome(repr(got))
    x.expect(isinstance(got, list), 'not-a-list', '%s returned %r', what, got)
    if w.master_down:
        x.expect(got == [], 'managers-without-master', '%s returned %r without a master', what, got)
        return
    full = [n for n in managers(w) if below(n, root)]
    x.expect(len(set(got)) == len(got), 'manager-listed-twice', '%s returned %r', what, got)
    x.expect(got == sorted(got), 'managers-unsorted', '%s returned %r', what, got)
    m = [n for n in full if n not in got]
    x.expect(not m, 'manager-left-out', '%s returned %r, without %s', what, got, m)
    # an entry of the guess is checked lazily: it may stay while its list_controllers service is registered
    m = [n for n in got if n not in full and not (n in guess and p(n) + 'list_controllers' in w.services and below(n, root))]
    x.expect(not m, 'not-a-manager-listed', '%s returned %r; %s are no managers', what, got, m)


ROOTS = [None, '/', '/a', '/a/b', 'a', '/ab', '/a/']


def find_family(spaces, kinds, noises, roots):
    def f(x):
        w = ros.World(x)
        for ns in spaces:
            offer(w, ns, x.pick(kinds))
        for n in x.pick(noises):
            if n.endswith('/list_controllers'):
                offer(w, n[:-len('/list_controllers')], x.pick(['full', ('without', 'load_controller')]))
            else:
                w.services[n] = ('roscpp/GetLoggers', lambda q: None)
        w.services['/rosout/get_loggers'] = ('roscpp/GetLoggers', lambda q: None)
        u = ros.utils()
        x.state(repr(sorted((n, s[0], s[1] is None) for n, s in w.services.items())))
        for r in roots:
            what = 'get_controller_managers(%s)' % ('' if r is None else repr(r))
            got = call(x, 'discovery-raises', what, u.get_controller_managers, *([] if r is None else [r]))
            expect_managers(x, w, what, got, r or '/')
        full = managers(w)
        for ns in spaces + ['/zz', '']:
            what = 'is_controller_manager(%r)' % ns
            got = call(x, 'discovery-raises', what, u.is_controller_manager, ns)
            x.expect(got is ((ns or '/') in full), 'is-manager-wrong', '%s returned %r; the managers are %r', what, got, full)
    return f


def history_family(spaces, kinds, steps, listers):
    """Changes between calls; the answer of the call before is the guess."""
    def f(x):
        w = ros.World(x)
        u = ros.utils()
        lister = x.flag('lister') if listers else False
        root = x.pick(['/', '/a'])
        l = u.ControllerManagerLister(root) if lister or root != '/' else u.ControllerManagerLister()
        guess = x.pick([None, [], ['/zz'], ['/a']]) if not lister else None
        for step in range(steps):
            w.master_down = step > 0 and x.flag('master down')
            if not w.master_down:
                if step == 0:
                    for ns in spaces:
                        offer(w, ns, x.pick(kinds))
                    noise = x.flag('noise')
                    if noise:
                        w.services['/a/list_controllers_x'] = ('roscpp/GetLoggers', lambda q: None)
                else:
                    offer(w, x.pick(spaces), x.pick(kinds))
            x.state(repr(sorted((n, s[0], s[1] is None) for n, s in w.services.items())) + repr(guess))
            if lister:
                got = call(x, 'discovery-raises', 'ControllerManagerLister()', l)
                expect_managers(x, w, 'ControllerManagerLister(%r)()' % root, got, root, guess or [])
                guess = list(got)
            else:
                g = None if guess is None else list(guess)
                what = 'get_controller_managers(%r, initial_guess=%r)' % (root, guess)
                got = call(x, 'discovery-raises', what, u.get_controller_managers, root, g)
                x.expect(g == guess, 'guess-changed', '%s changed the guess to %r', what, g)
                expect_managers(x, w, what, got, root, guess or [])
                guess = list(got)
    return f


PARAMS = ['/type', '/a/type', '/a/type/x', '/a/b/type', '/b/type', '/b/gain', '/ab/type', '/ns/a/type', '/ns/a/b/type', '/ns/type', '/ns/b/typex', '/ns/b/type', '/nsx/a/type', '/ns/ns/type', '/ns/ns/c/type', '/a/ns/d/type']


def names_family(k):
    def f(x):
        w = ros.World(x)
        u = ros.utils()
        some = x.pick([list(c) for i in range(k + 1) for c in itertools.combinations(PARAMS, i)] + [PARAMS])
        for q in some:
            w.params[q] = 't'
        x.state(repr(some))
        for ns in [None, '/', '', '/ns', '/ns/', 'ns', '/a', '/ns/ns', '/zz', 'a/ns']:
            what = 'get_rosparam_controller_names(%s) of %s' % ('' if ns is None else repr(ns), some)
            got = call(x, 'names-raise', what, u.get_rosparam_controller_names, *([] if ns is None else [ns]))
            g = ros.global_ns(ns or '/')
            want = sorted({q[len(g):].split('/')[0] for q in some if q.startswith(g) and q[len(g):].count('/') == 1 and q.endswith('/type')})
            x.note('%s -> %r', what, got)
            x.outcome(repr((ns, got)))
            x.expect(got == want, 'wrong-controller-names', '%s returned %r, not %r', what, got, want)
    return f


def lister_family(steps):
    """One manager that dies, comes back and fails calls; a controller lister on it."""
    def f(x):
        w = ros.World(x)
        u = ros.utils()
        ns = x.pick(['/controller_manager', '/ns/cm', '/', '/ns/', None])
        m = ros.Manager(w, (ns or '/controller_manager').rstrip('/') or '/')
        m.ctl = {'a': 'running'}
        alive = True
        budget = [0]

        def fault(kind, req):
            if budget[0] > 0:
                budget[0] -= 1
                return 'raise'
        m.fault = fault
        w.terminated = x.flag('kind of failure')
        if x.flag('not there at first'):
            m.die(); alive = False
        l = call(x, 'lister-raises', 'ControllerLister(%r)' % ns, u.ControllerLister, *([] if ns is None else [ns]))
        for step in range(steps):
            ev = x.pick(['same', 'dies', 'restarts', 'controllers change', 'one call fails', 'two calls fail'], 'event')
            x.note(ev)
            budget[0] = 0
            if ev == 'dies':
                m.die(); alive = False
            elif ev == 'restarts':
                m2 = ros.Manager(w, m.ns); m2.ctl = {'b': 'stopped'}; m2.fault = fault; m = m2; alive = True
            elif ev == 'controllers change':
                m.ctl = {'c': 'initialized'} if 'a' in m.ctl else {'a': 'running', 'c': 'stopped'} if m.ctl else {'a': 'stopped'}
            elif ev == 'one call fails':
                budget[0] = 1
            elif ev == 'two calls fail':
                budget[0] = 2
            before = budget[0]
            got = call(x, 'lister-raises', 'ControllerLister.__call__', l)
            x.state(repr((alive, m.snapshot(), before, ev)))
            x.note('-> %r', got)
            x.expect(isinstance(got, list), 'not-a-list', 'the lister returned %r', got)
            names = [(c.name, c.state) for c in got]
            x.outcome(repr(names))
            here = list(m.snapshot())
            if not alive:
                x.expect(names == [], 'list-of-a-dead-manager', 'the lister returned %r; the manager is gone', names)
            elif before < 2:
                x.expect(names == here, 'stale-or-missing-list', 'the lister returned %r; the manager has %r', names, here)
            else:
                x.expect(names in ([], here), 'stale-or-missing-list', 'the lister returned %r; the manager has %r', names, here)
    return f


def p02(tier):
    t = tier == 'thorough'
    return {
        'one namespace, all defects': find_family(['/a'], KINDS, NOISE, ROOTS),
        'root namespace, all defects': find_family(['/'], KINDS, NOISE, ROOTS),
        'namespaces together': find_family(['/', '/a', '/a/b', '/ab'] if t else ['/', '/a', '/a/b'], FEW, NOISE, ROOTS),
        'many namespaces': find_family(['/r%d/%s' % (i % 3, 'x' * i) for i in range(1, 8)], ['full', ('type', 'switch_controller')] + (['dead'] if t else []), [[], NOISE[1]], [None, '/r1', '/r2/']),
        'changes between calls': history_family(['/', '/a', '/a/b'], FEW if t else ['full', 'no', ('type', 'switch_controller'), 'dead'], 3, True),
        'configurations': names_family(4 if t else 3),
        'controller lister': lister_family(5 if t else 4),
    }


if __name__ == '__main__':
    sys.exit(mc.main(lambda prop, tier: {'P01': p01, 'P02': p02}[prop](tier), ros.setup))
