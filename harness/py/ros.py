"""Stand-ins for rospy, rosservice, rosparam, std_msgs and time, driven by the explorer; loads the code under test afresh for
every execution. Behaviour follows rospy of ROS Noetic: client shutdown hooks run before is_shutdown() becomes true, in the
thread that asked for the shutdown; messages are type-checked and copied; names are resolved and made canonical."""
import copy, importlib.machinery, io, os, sys, threading as _threading, types, contextlib
from mc import Found, Hang

REPO = GEN = None
W = None   # the world of the present execution
POINTS = 3000


class Abort(BaseException):
    pass


def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    return m


# ---------------------------------------------------------------- exceptions
class ROSException(Exception): pass
class ROSInterruptException(ROSException): pass
class ROSInitException(ROSException): pass
class ROSSerializationException(ROSException): pass
class TransportException(Exception): pass
class TransportTerminated(TransportException): pass
class ServiceException(Exception): pass
class ROSServiceException(Exception): pass
class ROSServiceIOException(ROSServiceException): pass
class RosParamException(Exception): pass
class RosParamIOException(RosParamException): pass


def canon(name, ns='/'):
    """rospy.names.resolve_name for names without remapping or ~."""
    while '//' in name:
        name = name.replace('//', '/')
    if name != '/' and name.endswith('/'):
        name = name[:-1]
    return name if name.startswith('/') else ns + name


def global_ns(ns):
    if not ns.startswith('/'):
        ns = '/' + ns
    return ns if ns.endswith('/') else ns + '/'


# ---------------------------------------------------------------- messages
def check(m, what):
    """The type checks of genpy's serialisation."""
    def s(v):
        return isinstance(v, str)

    def strings(v):
        return type(v) in (list, tuple) and all(s(e) for e in v)
    rules = {'name': s, 'start_controllers': strings, 'stop_controllers': strings, 'strictness': lambda v: isinstance(v, int),
             'start_asap': lambda v: v in (True, False, 0, 1), 'force_kill': lambda v: v in (True, False, 0, 1),
             'timeout': lambda v: isinstance(v, (int, float)), 'ok': lambda v: v in (True, False, 0, 1)}
    for f in m.__slots__:
        if f in rules and not rules[f](getattr(m, f)):
            raise ROSSerializationException('%s: field %s cannot hold %r' % (what, f, getattr(m, f)))


class Bool(object):
    def __init__(self, data=False):
        self.data = data


# ---------------------------------------------------------------- the world
class Thr(object):
    def __init__(self, name, fn):
        self.name, self.fn, self.sem, self.cond, self.done = name, fn, _threading.Semaphore(0), None, False


class World(object):
    def __init__(self, x):
        global W
        W = self
        self.x, self.params, self.services, self.log, self.hooks = x, {}, {}, [], []
        self.flag = self.in_shutdown = self.dying = False
        self.time, self.points, self.subs, self.timers = 0.0, 0, {}, []
        self.argv, self.out = ['prog'], io.StringIO()
        self.threads, self.cur, self.dead = [], None, False
        self.kill = None            # called at every point: may call signal() or start_kill()
        self.on_spin = None         # what happens while the node spins: called until the node is shut down
        self.node = self.sending = None
        self.master_down = False
        self.clock_zero = False
        self.on_sleep = None
        self.wait_hook = None

    # -- scheduling: one thread runs at a time; every call into ROS is a point where another may go on
    def spawn(self, name, fn):
        if not self.threads:
            self.cur = Thr('main', None)
            self.threads.append(self.cur)
        t = Thr(name, fn)
        self.threads.append(t)

        def body():
            t.sem.acquire()
            try:
                if not self.dead:
                    fn()
            except (Abort, Found, Hang) as e:
                if isinstance(e, Hang):
                    self.x.found = self.x.found or ('hang', 'more than %d calls' % POINTS)
            except ServiceException as e:
                self.x.note('%s ended with %s', name, e)   # rospy prints a traceback and the thread is gone
                if not self.flag:
                    self.x.found = self.x.found or ('exception-in-' + t.name, str(e))
            except BaseException as e:
                self.x.found = self.x.found or ('exception-in-' + t.name, '%s: %s' % (type(e).__name__, e))
            t.done = True
            if self.x.found:
                self.dead = True
            self._next(t)
        t.os = _threading.Thread(target=body, daemon=True)
        t.os.start()

    def _enabled(self):
        return [t for t in self.threads if not t.done and (t.cond is None or t.cond())]

    def _next(self, me):
        """Pass the baton on; returns when `me` runs again (never, if it is done)."""
        if self.dead:
            for t in self.threads:
                if t is not me:
                    t.sem.release()
            if not me.done:
                raise Abort()
            return
        en = self._enabled()
        if not en:
            if me.done and all(t.done or t.name == 'main' for t in self.threads):
                en = [self.threads[0]]
            else:
                self.x.found = self.x.found or ('deadlock', 'threads wait for one another: %s' % [t.name for t in self.threads if not t.done])
                self.dead = True
                return self._next(me)
        # the running thread first: later choices are preemptions
        en.sort(key=lambda t: t is not me)
        try:
            t = en[self.x.choose(len(en), 'thread')] if len(en) > 1 else en[0]
        except RuntimeError as e:
            self.x.found = ('nondeterminism', str(e)); self.dead = True
            return self._next(me)
        if t is me:
            return
        self.cur = t
        t.sem.release()
        if not me.done:
            me.sem.acquire()
            if self.dead:
                raise Abort()

    def point(self, what):
        self.points += 1
        if self.points > POINTS:
            raise Hang()
        if self.kill and not self.in_shutdown and not self.flag:
            self.kill(what)
        if len(self.threads) > 1:
            self._next(self.cur)

    def block(self, cond):
        """The present thread waits for cond."""
        if cond():
            return True
        if len(self.threads) < 2 or all(t.done for t in self.threads if t is not self.cur):
            return False
        me = self.cur
        me.cond = cond
        try:
            self._next(me)
        finally:
            me.cond = None
        return True

    def finish(self):
        """The main thread is done: let the others end."""
        while any(not t.done for t in self.threads if t.name != 'main'):
            self.block(lambda: all(t.done for t in self.threads if t.name != 'main'))
        if self.x.found:
            raise Found(*self.x.found)

    # -- shutdown
    def signal_shutdown(self, reason=''):
        if self.flag or self.in_shutdown:
            return
        self.in_shutdown = True
        for h in self.hooks:
            try:
                h()
            except Exception as e:
                self.note('shutdown hook raised %s: %s', type(e).__name__, e)
                self.hook_error = e
        self.hooks = []
        self.point('after the hooks')   # rospy's own hooks run now, then is_shutdown() turns true
        self.flag = True

    def note(self, *a):
        self.x.note(*a)

    def script(self, path, name='__main__', replace=()):
        """Runs a script as rosrun does: returns 'end', the exit code or the exception; then runs the exit handlers of rospy."""
        return self.guard(lambda: load_path(path, name, dict(replace)))

    def guard(self, fn):
        try:
            with contextlib.redirect_stdout(self.out):
                fn()
            r = 'end'
        except SystemExit as e:
            r = e.code or 0
        except KeyboardInterrupt:
            r = 'interrupted'
        except Exception as e:
            r = e
            self.note('ended with %s: %s', type(e).__name__, e)
        self.kill = None
        self.signal_shutdown('atexit')
        self.finish()
        return r


# ---------------------------------------------------------------- rospy
class ServiceProxy(object):
    def __init__(self, name, service_class, persistent=False, headers=None):
        self.name, self.cls, self.persistent = canon(name), service_class, persistent
        self.resolved_name = self.name
        W.proxies = getattr(W, 'proxies', 0) + 1
        self.link = None

    def wait_for_service(self, timeout=None):
        wait_for_service(self.name, timeout)

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def call(self, *a, **k):
        rc = self.cls._request_class
        req = a[0] if len(a) == 1 and not k and isinstance(a[0], rc) else rc(*a, **k)
        check(req, self.name)
        W.sending = getattr(req, 'name', None)
        W.point('before ' + self.name)
        h = W.services.get(self.name)
        if h is None:
            raise ServiceException('service [%s] unavailable' % self.name)
        if h[0] != self.cls._type:
            raise ServiceException('unable to connect to service: type mismatch on %s' % self.name)
        if h[1] is None:
            raise ServiceException('unable to connect to service %s' % self.name)
        if self.persistent:
            # a persistent connection ends with the provider it was made to
            if self.link is None:
                self.link = h
            elif self.link is not h:
                raise TransportTerminated('connection of %s closed' % self.name) if getattr(W, 'terminated', False) else ServiceException('transport error completing service call')
        resp = h[1](copy.deepcopy(req))
        W.point('after ' + self.name)
        if W.flag:
            # the request was sent, but nobody waits for the response any more
            raise ServiceException('service [%s] returned no response' % self.name)
        return copy.deepcopy(resp)

    def close(self):
        self.link = None


def wait_for_service(service, timeout=None):
    if timeout == 0.:
        raise ValueError('timeout must be non-zero')
    W.point('wait for ' + service)
    if W.wait_hook:
        return W.wait_hook(canon(service), timeout)
    if W.flag:
        raise ROSInterruptException('rospy shutdown')
    if canon(service) not in W.services:
        if timeout is None:
            W.x.fail('waits-forever', 'waits for the service %s, which never comes' % service)
        W.time += timeout
        raise ROSException('timeout exceeded while waiting for service %s' % service)


class Time(object):
    def __init__(self, s=0, ns=0):
        self.t = s + ns * 1e-9

    def __eq__(self, o):
        return isinstance(o, Time) and self.t == o.t

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def to_sec(self):
        return self.t

    @staticmethod
    def now():
        return get_rostime()


class Duration(Time):
    pass


class Rate(object):
    def __init__(self, hz, reset=False):
        self.sleep_dur = Duration(1.0 / hz)

    def sleep(self):
        rossleep(self.sleep_dur)

    def remaining(self):
        return self.sleep_dur


def get_rostime():
    return Time(0) if W.clock_zero else Time(1 + W.time)


class Subscriber(object):
    def __init__(self, topic, cls, callback=None, *a, **k):
        self.topic, self.cb = canon(topic), callback
        W.subs.setdefault(self.topic, []).append(self)

    def unregister(self):
        W.subs[self.topic].remove(self)


class Timer(object):
    def __init__(self, period, callback, oneshot=False, reset=False):
        self.period, self.cb, self.oneshot, self.stopped = period, callback, oneshot, False
        W.timers.append(self)

    def shutdown(self):
        W.note('timer shut down')
        self.stopped = True

    def is_alive(self):
        return not self.stopped

    def join(self, timeout=None):
        W.block(lambda: not getattr(self, 'busy', False))


def init_node(name, *a, **k):
    W.node = name


def on_shutdown(h):
    if W.flag:
        h()   # as rospy does when it is too late
        return
    if W.in_shutdown:
        W.block(lambda: W.flag)   # rospy's lock is held while the hooks run; whoever comes meanwhile is forgotten
    W.hooks.append(h)


def is_shutdown():
    return W.flag


def is_shutdown_requested():
    return W.in_shutdown or W.flag


def spin():
    while not W.flag:
        try:
            W.points += 1
            if W.points > POINTS:
                raise Hang()
            if W.in_shutdown or W.dying:
                if not W.block(lambda: W.flag):
                    W.flag = True
                continue
            W.on_spin()
        except KeyboardInterrupt:
            W.signal_shutdown('keyboard interrupt')


def sleep(d):
    s = d.to_sec() if hasattr(d, 'to_sec') else d
    W.time += s
    W.point('sleep')
    if W.on_sleep:
        W.on_sleep(s)


def rossleep(d):
    sleep(d)
    if W.flag:
        raise ROSInterruptException('ROS shutdown request')


class _Unspecified(object):
    pass


def get_param(name, default=_Unspecified):
    n = canon(name)
    if n in W.params:
        return copy.deepcopy(W.params[n])
    top = n.rstrip('/') + '/'
    sub = {k[len(top):]: v for k, v in W.params.items() if k.startswith(top)}
    if sub:
        out = {}
        for k, v in sub.items():
            d, parts = out, k.split('/')
            for p in parts[:-1]:
                d = d.setdefault(p, {})
            d[parts[-1]] = copy.deepcopy(v)
        return out
    if default is _Unspecified:
        raise KeyError(name)
    return default


def _get_param(param_name, default=_Unspecified):
    W.point('get_param ' + param_name)
    return get_param(param_name, default)


def _has_param(n):
    try:
        get_param(n)
        return True
    except KeyError:
        return False


def _log(level):
    def f(msg, *a, **k):
        W.log.append((level, msg % a if a else msg))
    return f


# ---------------------------------------------------------------- rosservice, rosparam
def get_service_list(node=None, namespace=None, include_nodes=False):
    W.point('get_service_list')
    if W.master_down:
        raise ROSServiceIOException('Unable to communicate with master!')
    out = list(W.services)
    if namespace:
        g = global_ns(namespace)
        out = [s for s in out if s == namespace or s.startswith(g)]
    return sorted(out)


def get_service_type(name):
    W.point('get_service_type')
    if W.master_down:
        raise ROSServiceIOException('Unable to communicate with master!')
    h = W.services.get(canon(name))
    if h is None:
        return None
    if h[1] is None:
        raise ROSServiceIOException('Unable to communicate with service [%s]' % name)
    return h[0]


def list_params(ns):
    W.point('list_params')
    if W.master_down:
        raise RosParamIOException('Unable to communicate with master!')
    g = global_ns(ns)
    return sorted(k for k in W.params if k.startswith(g))


def set_param_file(param, value, verbose=False):
    import yaml
    W.point('set_param')

    def put(p, v):
        if v is None:
            raise RosParamException('value of %s is None' % p)
        if isinstance(v, dict):
            for k in v:
                put(p.rstrip('/') + '/' + k, v[k])
        else:
            W.params[canon(p)] = v
    v = yaml.safe_load(value)
    W.note('set_param %r %r', param, v)
    put('/' + param.strip('/'), v)


class CoLock(object):
    """threading.Lock and RLock for scripts, as points of the scheduler."""
    def __init__(self, re):
        self.re, self.owner, self.n = re, None, 0

    def _me(self):
        return W.cur or 'main'

    def acquire(self, blocking=True, timeout=-1):
        W.point('lock')
        me = self._me()
        if self.owner is not None and not (self.re and self.owner is me):
            if not blocking:
                return False
            while self.owner is not None:
                if self.owner is me or not W.block(lambda: self.owner is None):
                    W.x.fail('deadlock', 'a lock is taken twice')
        self.owner = self._me()
        self.n += 1
        return True

    def release(self):
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self):
        return self.owner is not None
    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


# ---------------------------------------------------------------- loading the code under test
_code = {}


def compiled(path):
    if path not in _code:
        with open(path) as f:
            _code[path] = compile(f.read(), path, 'exec')
    return _code[path]


def load_path(path, name, replace=None):
    """Executes a file as module `name` with the stand-ins visible to its imports."""
    m = mod(name, __file__=path)
    if '.' in name:
        m.__package__ = name.rsplit('.', 1)[0]
    old = {k: sys.modules.get(k) for k in TIME}
    sys.modules.update(TIME)
    main = sys.modules.get('__main__')
    try:
        if name != '__main__':
            sys.modules[name] = m
            if '.' in name:
                setattr(sys.modules[m.__package__], name.rsplit('.', 1)[1], m)
        exec(compiled(path), m.__dict__)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.modules['__main__'] = main
    return m


def fake_time():
    return W.time


TIME = {}


def setup(a):
    global REPO, GEN, TIME
    REPO, GEN = a.repo, a.gen
    sys.path.insert(0, GEN)
    exc = mod('rospy.exceptions', ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSInitException,
              ROSSerializationException=ROSSerializationException, TransportException=TransportException, TransportTerminated=TransportTerminated)
    svc = mod('rospy.service', ServiceException=ServiceException)
    rospy = mod('rospy', exceptions=exc, service=svc, ROSException=ROSException, ROSInterruptException=ROSInterruptException, ROSInitException=ROSInitException,
                ROSSerializationException=ROSSerializationException, ServiceException=ServiceException, ServiceProxy=ServiceProxy, wait_for_service=wait_for_service,
                Time=Time, Duration=Duration, get_rostime=get_rostime, get_time=lambda: get_rostime().to_sec(), Subscriber=Subscriber, Timer=Timer, init_node=init_node, on_shutdown=on_shutdown,
                is_shutdown=is_shutdown, spin=spin, sleep=rossleep, get_param=_get_param, has_param=_has_param, signal_shutdown=lambda r='': W.signal_shutdown(r),
                myargv=lambda argv=None: list(W.argv), logdebug=_log('debug'), loginfo=_log('info'), logout=_log('info'), logwarn=_log('warn'), logerr=_log('err'), logfatal=_log('fatal'),
                Rate=Rate, get_namespace=lambda: '/', parse_rosrpc_uri=None, AnyMsg=object, TransportException=TransportException,
                get_name=lambda: '/' + (W.node or 'node'), resolve_name=canon,
                core=mod('rospy.core', is_shutdown=is_shutdown, is_shutdown_requested=is_shutdown_requested))
    for n in ('debug', 'info', 'warn', 'err', 'fatal'):
        setattr(rospy, 'log%s_once' % n, _log(n))
        setattr(rospy, 'log%s_throttle' % n, lambda period, msg, *a, **k: _log(n)(msg, *a, **k))
        setattr(rospy, 'log%s_throttle_identical' % n, lambda period, msg, *a, **k: _log(n)(msg, *a, **k))
    rosservice = mod('rosservice', get_service_list=get_service_list, get_service_type=get_service_type, ROSServiceException=ROSServiceException, ROSServiceIOException=ROSServiceIOException)
    rosparam = mod('rosparam', list_params=list_params, set_param=set_param_file, get_param=get_param, RosParamException=RosParamException, RosParamIOException=RosParamIOException)
    std = mod('std_msgs'); std.msg = mod('std_msgs.msg', Bool=Bool); std.msg.__all__ = ['Bool']
    sys.modules.update({'rospy': rospy, 'rospy.exceptions': exc, 'rospy.service': svc, 'rospy.core': rospy.core, 'rosservice': rosservice, 'rosparam': rosparam, 'std_msgs': std, 'std_msgs.msg': std.msg})
    import time as real_time
    t = mod('time')
    t.__dict__.update(real_time.__dict__)
    t.time = t.monotonic = fake_time
    t.sleep = sleep
    th = mod('threading')
    th.__dict__.update(_threading.__dict__)
    th.Lock = lambda: CoLock(False)
    th.RLock = lambda: CoLock(True)
    TIME = {'time': t, 'threading': th}
    import controller_manager_msgs, controller_manager_msgs.msg, controller_manager_msgs.srv  # generated
    pkg = mod('controller_manager')
    pkg.__path__ = []
    sys.modules['controller_manager'] = pkg


def utils():
    return load_path(REPO + '/controller_manager_msgs/src/controller_manager_msgs/utils.py', 'controller_manager_msgs.utils')


def interface():
    return load_path(REPO + '/controller_manager/src/controller_manager/controller_manager_interface.py', 'controller_manager.controller_manager_interface')


# ---------------------------------------------------------------- a model of the controller manager
class Manager(object):
    """Services of one controller manager: states of the controllers, the requests it saw, and the failures the explorer adds."""
    STRICT, BEST = 2, 1

    def __init__(self, w, ns='/controller_manager', loadable=None):
        from controller_manager_msgs import srv, msg
        self.w, self.x, self.ns, self.srv, self.msg = w, w.x, ns, srv, msg
        self.ctl, self.loadable, self.requests = {}, loadable, []
        self.fault = None      # fault(kind, request) -> None | 'refuse' | 'raise'
        self.types, self.base = ['t/A', 't/B'], ['b/A', 'b/B']
        self.claims = {}
        self.user = 'script'
        p = ns if ns.endswith('/') else ns + '/'
        self.names = {}
        for n, t in (('list_controllers', 'ListControllers'), ('list_controller_types', 'ListControllerTypes'), ('load_controller', 'LoadController'),
                     ('unload_controller', 'UnloadController'), ('switch_controller', 'SwitchController'), ('reload_controller_libraries', 'ReloadControllerLibraries')):
            self.names[n] = p + n
            w.services[p + n] = ('controller_manager_msgs/' + t, self._handler(n, getattr(srv, t + 'Response')))

    def _handler(self, n, resp):
        def h(req):
            f = self.fault(n, req) if self.fault else None
            self.requests.append((n, req, f, self.snapshot()))
            self.w.note('%s %r%s', n, req, ' [%s]' % f if f else '')
            if f == 'raise':
                raise ServiceException('service [%s] responded with an error' % n)
            r = resp()
            if f == 'refuse':
                r.ok = False
                return r
            getattr(self, n)(req, r)
            self.requests[-1] += (getattr(r, 'ok', None),)
            self.x.state(self.snapshot())
            return r
        return h

    def snapshot(self):
        return tuple(self.ctl.items())

    def list_controllers(self, q, r):
        for n, s in self.ctl.items():
            r.controller.append(self.msg.ControllerState(name=n, state=s, type='type_' + n, claimed_resources=[
                self.msg.HardwareInterfaceResources(hardware_interface=i, resources=list(rs)) for i, rs in self.claims.get(n, [])]))

    def list_controller_types(self, q, r):
        r.types, r.base_classes = list(self.types), list(self.base)

    def load_controller(self, q, r):
        r.ok = q.name not in self.ctl and (self.loadable is None or q.name in self.loadable)
        if r.ok:
            self.ctl[q.name] = 'initialized'

    def unload_controller(self, q, r):
        r.ok = self.ctl.get(q.name, 'running') != 'running'
        if r.ok:
            del self.ctl[q.name]

    def switch_controller(self, q, r):
        r.ok = self.switch(q.start_controllers, q.stop_controllers, q.strictness)

    def switch(self, start, stop, strict):
        strict = strict == self.STRICT
        c, run = self.ctl, 'running'
        if strict and (any(n not in c for n in list(start) + list(stop)) or any(c[n] != run for n in stop) or any(c[n] == run and n not in stop for n in start)):
            return False
        stop = [n for n in stop if c.get(n) == run]
        start = [n for n in start if n in c and not (c[n] == run and n not in stop)]
        if set(start) & set(stop):
            return False
        for n in stop:
            c[n] = 'stopped'
        for n in start:
            c[n] = run
        return True

    def reload_controller_libraries(self, q, r):
        if self.ctl and not q.force_kill:
            return
        self.ctl.clear()
        r.ok = True

    def die(self):
        for n in self.names.values():
            self.w.services.pop(n, None)
