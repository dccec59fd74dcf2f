"""P05: the rqt plugin, with a stand-in for Qt that keeps to the signals of QComboBox and to what the plugin uses of the rest."""
import itertools, sys
from xml.etree import ElementTree
import mc, ros
from mc import Found, Hang
from p_utils import call, subsets, SRV, TYPE


class Loose(object):
    """Whatever is not modelled: attributes and calls without effect."""
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = Loose()
        object.__setattr__(self, n, v)
        return v

    def __call__(self, *a, **k):
        return Loose()


class Signal(object):
    def __init__(self, owner=None):
        self.owner, self.slots, self.typed = owner, [], {}

    def __getitem__(self, t):
        return self.typed.setdefault(t, Signal(self.owner))

    def connect(self, f):
        self.slots.append(f)

    def disconnect(self, f=None):
        self.slots = [s for s in self.slots if f is not None and s != f]

    def emit(self, *a):
        if self.owner is not None and self.owner.blocked:
            return
        for f in list(self.slots):
            f(*a)


class QObject(Loose):
    def __init__(self, *a, **k):
        self.blocked = False

    def blockSignals(self, b):
        old, self.blocked = self.blocked, b
        return old

    def signalsBlocked(self):
        return self.blocked


class QComboBox(QObject):
    def __init__(self, *a):
        QObject.__init__(self)
        self.items, self.cur = [], -1
        self.currentIndexChanged = Signal(self)
        self.currentTextChanged = Signal(self)
        self.log = []

    def count(self): return len(self.items)
    def itemText(self, i): return self.items[i] if 0 <= i < len(self.items) else ''
    def currentText(self): return self.itemText(self.cur)
    def currentIndex(self): return self.cur

    def findText(self, t):
        return self.items.index(t) if t in self.items else -1

    def _set(self, i, text_before=None):
        before, self.cur = self.cur, i
        if i != before or (text_before is not None and text_before != self.currentText()):
            if not self.blocked:
                self.log.append(self.currentText())
            self.currentIndexChanged.emit(i)
            self.currentIndexChanged[int].emit(i)
            self.currentIndexChanged[str].emit(self.currentText())
            self.currentTextChanged.emit(self.currentText())

    def setCurrentIndex(self, i):
        self._set(i if 0 <= i < len(self.items) else -1)

    def setCurrentText(self, t):
        if t in self.items:
            self._set(self.items.index(t))

    def clear(self):
        self.items = []
        self._set(-1)

    def insertItems(self, at, texts):
        empty = not self.items
        at = max(0, min(at, len(self.items)))
        texts = list(texts)
        assert all(isinstance(t, str) for t in texts)
        self.items[at:at] = texts
        if not texts:
            return
        if empty and self.cur < 0:
            self._set(0)
        elif self.cur >= at:
            self._set(self.cur + len(texts))

    def insertItem(self, at, t): self.insertItems(at, [t])
    def addItems(self, ts): self.insertItems(len(self.items), ts)
    def addItem(self, t): self.insertItems(len(self.items), [t])

    def removeItem(self, i):
        if not 0 <= i < len(self.items):
            return
        del self.items[i]
        if i < self.cur:
            self._set(self.cur - 1)
        elif i == self.cur:
            before = self.cur
            self.cur = -2
            self._set(min(before, len(self.items) - 1))


class QTimer(QObject):
    def __init__(self, parent=None):
        QObject.__init__(self)
        self.timeout, self.on = Signal(self), False
        GUI.timers.append(self)

    def start(self, *a): self.on = True
    def stop(self): self.on = False
    def isActive(self): return self.on


class QTableView(QObject):
    def __init__(self):
        QObject.__init__(self)
        self.customContextMenuRequested, self.doubleClicked = Signal(self), Signal(self)
        self._model = None
        self.header = Loose()
        self.header.customContextMenuRequested = Signal()

    def setModel(self, m): self._model = m
    def model(self): return self._model
    def horizontalHeader(self): return self.header

    def rowAt(self, y):
        n = self._model.rowCount(QModelIndex()) if self._model else 0
        return y // 10 if 0 <= y < 10 * n else -1


class QWidget(QObject):
    def __init__(self, *a):
        QObject.__init__(self)

    def windowTitle(self): return 'Controller manager'


class Label(QObject):
    def setText(self, t): self.shown = t
    def text(self): return getattr(self, 'shown', '')


class Tree(QObject):
    def setModel(self, m): self.m = m


class QModelIndex(object):
    def __init__(self, row=-1, column=-1):
        self.r, self.c = row, column

    def isValid(self): return self.r >= 0
    def row(self): return self.r
    def column(self): return self.c


class QAbstractTableModel(QObject):
    def __init__(self, parent=None):
        QObject.__init__(self)


class QStandardItem(Loose):
    def __init__(self, text=''):
        self.t, self.kids = text, []

    def appendRow(self, i): self.kids.append(i)
    def text(self): return self.t

    def tree(self):
        return (self.t, [k.tree() for k in self.kids])


class QStandardItemModel(QStandardItem):
    pass


class QMenu(QObject):
    def __init__(self, *a):
        QObject.__init__(self)
        self.acts = []

    def addAction(self, *a):
        act = Loose()
        act.name = a[-1] if isinstance(a[-1], str) else a[1]
        act.triggered = Signal()
        self.acts.append(act)
        return act

    def exec_(self, *a):
        act = GUI.menu(self.acts)
        if act is not None:
            act.triggered.emit(False)
        return act
    exec = exec_
    popup = exec_


class Plugin(QObject):
    def __init__(self, context):
        QObject.__init__(self)


class Gui(object):
    def __init__(self):
        self.timers, self.menu = [], None


GUI = None


class QIcon(object):
    def __init__(self, path=''):
        self.path = path


def setup(a):
    ros.setup(a)
    M = ros.mod

    class Qt(object):
        CustomContextMenu, Horizontal, Vertical, DisplayRole, DecorationRole, FontRole, TextAlignmentRole, AlignCenter = 'menu', 1, 2, 0, 1, 6, 7, 0x84
        ToolTipRole, EditRole, UserRole, NoContextMenu = 3, 2, 256, 'none'
    q = M('python_qt_binding', loadUi=load_ui)
    q.QtCore = M('python_qt_binding.QtCore', QAbstractTableModel=QAbstractTableModel, QModelIndex=QModelIndex, Qt=Qt, QTimer=QTimer, QVariant=lambda v=None: v, Signal=Signal, QObject=QObject)
    q.QtWidgets = M('python_qt_binding.QtWidgets', QWidget=QWidget, QFormLayout=Loose, QHeaderView=Loose(), QMenu=QMenu, QStyledItemDelegate=Loose, QTableView=QTableView, QComboBox=QComboBox)
    q.QtGui = M('python_qt_binding.QtGui', QCursor=Loose(), QFont=Loose, QIcon=QIcon, QStandardItem=QStandardItem, QStandardItemModel=QStandardItemModel)
    g = M('qt_gui')
    g.plugin = M('qt_gui.plugin', Plugin=Plugin)
    rp = M('rospkg', RosPack=type('RosPack', (), {'get_path': lambda self, n: ros.REPO + '/' + n}))
    pkg = M('rqt_controller_manager')
    pkg.__path__ = []
    sys.modules.update({'python_qt_binding': q, 'python_qt_binding.QtCore': q.QtCore, 'python_qt_binding.QtWidgets': q.QtWidgets, 'python_qt_binding.QtGui': q.QtGui,
                        'qt_gui': g, 'qt_gui.plugin': g.plugin, 'rospkg': rp, 'rqt_controller_manager': pkg})


FILES = {}


def xml(f):
    if f not in FILES:
        FILES[f] = ElementTree.parse(f).getroot()
    return FILES[f]


def load_ui(f, w):
    kinds = {'QComboBox': QComboBox, 'QTableView': QTableView, 'QLabel': Label, 'QTreeView': Tree}
    for e in xml(f).iter('widget'):
        if e.get('class') in kinds:
            setattr(w, e.get('name'), kinds[e.get('class')]())


def plugin_class():
    """The module and the class that the plug-in description names."""
    for c in xml(ros.REPO + '/rqt_controller_manager/plugin.xml').iter('class'):
        if c.get('base_class_type') == 'rqt_gui_py::Plugin':
            return c.get('type').rsplit('.', 1)


SRC = '/rqt_controller_manager/src/rqt_controller_manager/'


# ------------------------------------------------------------------ the selection box
def check_combo(x, combo, old, sel, new, log):
    what = '%r with %r selected, offered %r' % (old, sel, new)
    x.note('%s -> %r at %d, signals %r', what, combo.items, combo.cur, log)
    x.outcome(repr((sel in new, combo.items, combo.cur, log)))
    x.expect(sorted(combo.items) == sorted(new), 'combo-wrong-entries', '%s: entries %r', what, combo.items)
    if sel is not None and sel in new:
        x.expect(combo.currentText() == sel and combo.cur >= 0, 'combo-selection-lost', '%s: selects %r', what, combo.currentText())
        x.expect(not log, 'combo-signal', '%s: signals %r', what, log)
    else:
        x.expect(combo.cur == -1, 'combo-selection-appears', '%s: selects %r', what, combo.currentText())
        if sel is None:
            x.expect(all(l == '' for l in log), 'combo-signal', '%s: signals %r', what, log)
        else:
            x.expect(log and log[-1] == '' and all(l == '' for l in log), 'combo-no-signal', '%s: signals %r', what, log)
    x.expect(not combo.blocked, 'combo-stays-blocked', '%s: signals stay blocked', what)


def combo_family(vals, steps, order):
    def f(x):
        global GUI
        GUI = Gui()
        ros.World(x)
        u = ros.load_path(ros.REPO + SRC + 'update_combo.py', 'rqt_controller_manager.update_combo')
        combo = QComboBox()
        lists = [list(q) for s in subsets(vals) for q in (itertools.permutations(s) if order else [s])]
        combo.items = x.pick(lists)
        combo.cur = x.choose(len(combo.items) + 1) - 1
        for _ in range(steps):
            old, sel = list(combo.items), combo.currentText() if combo.cur >= 0 else None
            new = x.pick(lists)
            given = list(new)
            combo.log = []
            x.state(repr((old, sel, new)))
            call(x, 'combo-raises', 'update_combo', u.update_combo, combo, given)
            x.expect(given == new, 'input-changed', 'update_combo changed the list')
            check_combo(x, combo, old, sel, new, combo.log)
            if x.flag('user selects'):
                if combo.items:
                    combo.setCurrentIndex(x.choose(len(combo.items)))
    return f


# ------------------------------------------------------------------ the plugin
MENU = {'Stop': ['stop'], 'Stop and Unload': ['stop', 'unload'], 'Start again': ['start'], 'Start': ['start'], 'Unload': ['unload'], 'Load': ['load'], 'Load and Start': ['load', 'start']}
OFFER = {'running': {'Stop', 'Stop and Unload'}, 'stopped': {'Start again', 'Unload'}, 'initialized': {'Start', 'Unload'}, 'uninitialized': {'Load', 'Load and Start'}}


class Rig(object):
    def __init__(self, x, managers, params, restore=None):
        global GUI
        self.x, self.w = x, ros.World(x)
        self.gui = GUI = Gui()
        self.w.params.update(params)
        self.m = {}
        for ns, ctl in managers.items():
            self.add(ns, ctl)
        ros.utils()
        ros.load_path(ros.REPO + SRC + 'update_combo.py', 'rqt_controller_manager.update_combo')
        module, cls = call(x, 'plugin-raises', 'looking for the plug-in', plugin_class)
        mod = ros.load_path(ros.REPO + '/rqt_controller_manager/src/' + module.replace('.', '/') + '.py', module)
        ctx = Loose()
        ctx.serial_number = lambda: x.pick([1, 2]) if restore is None else 1
        self.p = call(x, 'plugin-raises', 'the constructor', getattr(mod, cls), ctx)
        self.combo, self.table = self.p._widget.cm_combo, self.p._widget.table_view
        x.expect(len([t for t in self.gui.timers if t.on]) >= 1, 'no-timer', 'no timer is running')

    def add(self, ns, ctl):
        self.m[ns] = ros.Manager(self.w, ns)
        self.m[ns].ctl = dict(ctl)
        self.m[ns].claims = {'a': [('I', ['r', 's']), ('K', ['r'])], 'b': [('I', [])]}

    def drop(self, ns):
        self.m.pop(ns).die()

    def tick(self):
        for t in self.gui.timers:
            if t.on:
                call(self.x, 'update-raises', 'an update', t.timeout.emit)

    def selected(self):
        return self.combo.currentText() if self.combo.cur >= 0 else None

    def select(self, ns):
        self.combo.log = []
        call(self.x, 'select-raises', 'selecting', self.combo.setCurrentIndex, self.combo.items.index(ns))

    def rows(self):
        """What the table shows: names, states; and that every cell can be drawn."""
        m = self.table._model
        if m is None:
            return []
        out = []
        n = call(self.x, 'drawing-raises', 'rowCount', m.rowCount, QModelIndex())
        for r in range(n):
            cells = [[call(self.x, 'drawing-raises', 'the table, drawing row %d,' % r, m.data, QModelIndex(r, c), role) for role in (0, 1, 6, 7)] for c in (0, 1)]
            out.append((cells[0][0], cells[1][0]))
            self.x.expect(isinstance(cells[0][1], QIcon), 'no-icon', 'row %r has the icon %r', out[-1], cells[0][1])
        return out

    def want(self):
        ns = self.selected()
        if not ns:
            return []
        up = ns.rsplit('/', 1)[0] + '/'
        rows = list(self.m[ns].snapshot()) if ns in self.m else []
        have = {c for c, _ in rows}
        conf = sorted(k[len(up):].split('/')[0] for k in self.w.params if k.startswith(up) and k.endswith('/type') and k[len(up):].count('/') == 1)
        return rows + [(c, 'uninitialized') for c in conf if c not in have]

    def check(self, what):
        got, want = self.rows(), self.want()
        self.x.note('%s: selected %r, rows %r', what, self.selected(), got)
        self.x.state(repr((self.selected(), got)))
        self.x.outcome(repr(got))
        self.x.expect(got == want, 'wrong-rows', '%s: the table shows %r, not %r', what, got, want)

    def check_managers(self, old, sel):
        check_combo(self.x, self.combo, old, sel, sorted(self.m), self.combo.log)

    def click(self, row, n, meanwhile=None):
        """A context menu on a row; the user takes the n-th entry (None: none)."""
        x = self.x
        shown = self.rows()
        sel = self.selected()
        for m in self.m.values():
            m.requests = []
        st = {}

        def menu(acts):
            st['acts'] = [a.name for a in acts]
            x.note('menu on %r: %r', shown[row], st['acts'])
            if meanwhile:
                meanwhile()
            if n is None or n >= len(acts):
                return None
            st['took'] = acts[n].name
            return acts[n]
        self.gui.menu = menu
        pos = Loose()
        pos.y = lambda: row * 10 + 5
        pos.x = lambda: 5
        call(x, 'menu-raises', 'the menu', self.table.customContextMenuRequested.emit, pos)
        name, state = shown[row]
        if state in OFFER:
            x.expect(set(st.get('acts', ())) == OFFER[state] and len(st['acts']) == 2, 'wrong-menu', 'the menu of a controller that is %s offers %r', state, st.get('acts'))
        want = []
        for a in MENU[st['took']] if 'took' in st else []:
            want.append({'start': ('switch', [name], [], 2), 'stop': ('switch', [], [name], 2), 'load': ('load', name), 'unload': ('unload', name)}[a])
        for ns in self.m:
            got = [('switch', list(q[1].start_controllers), list(q[1].stop_controllers), q[1].strictness) if q[0] == 'switch_controller' else (q[0].split('_')[0], q[1].name)
                   for q in self.m[ns].requests if q[0] not in ('list_controllers',)]
            x.expect(got == (want if ns == sel else []), 'wrong-requests', '%r on %r of %s sent %r to %s', st.get('took'), shown[row], sel, got, ns)
        return st.get('took')

    def info(self, row):
        x = self.x
        name, state = self.rows()[row]
        call(x, 'info-raises', 'the information', self.table.doubleClicked.emit, QModelIndex(row, 0))
        pop = self.p._popup_widget
        x.expect(pop.ctrl_name.text() == name, 'wrong-info', 'the information on %s is about %r', name, pop.ctrl_name.text())
        m = self.m[self.selected()]
        loaded = name in m.ctl
        up = self.selected().rsplit('/', 1)[0] + '/'
        typ = 'type_' + name if loaded else self.w.params.get(up + name + '/type')
        x.expect(pop.ctrl_type.text() == typ, 'wrong-info', 'the information on %s has the type %r, not %r', name, pop.ctrl_type.text(), typ)
        tree = [k.tree() for k in pop.resource_tree.m.kids]
        want = [('Claimed Resources', [(i, [(r, []) for r in rs]) for i, rs in (m.claims.get(name, []) if loaded else [])])]
        x.expect(tree == want, 'wrong-info', 'the information on %s shows %r, not %r', name, tree, want)


STATES = ['running', 'stopped', 'initialized', 'waiting', 'aborted']


def rows_family(names, states, params):
    """Every list of controllers and configurations; every menu entry on every row."""
    def f(x):
        ns = x.pick(['/cm', '/ns/cm', '/ns/a/b'])
        up = ns.rsplit('/', 1)[0]
        ctl = {}
        k, o = (x.pick(range(3)), x.pick(range(3))) if len(names) > 3 else (0, 0)
        for i, c in enumerate(names):
            s = (states + [None])[(i * k + o) % (len(states) + 1)] if len(names) > 3 else x.pick(states + [None])
            if s:
                ctl[c] = s
        conf = {up + '/' + q: 't/' + q for q in x.pick([list(s) for s in subsets(params)])}
        rig = Rig(x, {ns: ctl, '/other': {'a': 'running'}}, dict(conf, **{'/zz/a/type': 'no', '/type': 'no'}), restore=False)
        rig.tick()
        x.expect(rig.selected() is None, 'combo-selection-appears', 'selects %r at first', rig.selected())
        rig.select(ns)
        rig.check('after selecting')
        rig.tick()
        rig.check('after an update')
        rows = rig.rows()
        if not rows:
            return
        r = x.choose(len(rows))
        act = x.pick([None, 0, 1, 'info', 'below'])
        if act == 'info':
            rig.info(r)
        elif act == 'below':
            rig.gui.menu = lambda acts: x.fail('menu-nowhere', 'a menu opens below the last row')
            pos = Loose()
            pos.y = lambda: 1000
            call(x, 'menu-raises', 'the menu', rig.table.customContextMenuRequested.emit, pos)
        else:
            rig.click(r, act)
            rig.tick()
            rig.check('after the action')
    return f


def history_family(steps, events, selected=False):
    """Managers and controllers come and go, the user selects and acts, also while a menu is open."""
    def f(x):
        rig = Rig(x, {'/cm': {'a': 'running', 'b': 'stopped'}, '/ns/cm': {'a': 'initialized'}}, {'/a/type': 't/a', '/c/type': 't/c', '/ns/d/type': 't/d'}, restore=False)
        rig.combo.log = []
        rig.tick()
        rig.check_managers([], None)

        def change():
            ev = x.pick(['a changes', 'b goes', 'configuration', '/cm', '/ns/cm', 'new'], 'change')
            x.note('-- %s', ev)
            if ev in ('a changes', 'b goes'):
                for m in rig.m.values():
                    if ev == 'a changes' and 'a' in m.ctl:
                        m.ctl['a'] = {'running': 'stopped'}.get(m.ctl['a'], 'running')
                    elif ev == 'b goes':
                        if 'b' in m.ctl:
                            del m.ctl['b']
                        else:
                            m.ctl = dict({'b': 'initialized'}, **m.ctl)
            elif ev == 'configuration':
                if '/c/type' in rig.w.params:
                    del rig.w.params['/c/type']; rig.w.params['/ns/e/type'] = 't/e'
                else:
                    rig.w.params['/c/type'] = 't/c'
            elif ev == 'new':
                if '/ab/cm' in rig.m:
                    rig.drop('/ab/cm')
                else:
                    rig.add('/ab/cm', {'z': 'stopped'})
            elif ev in rig.m:
                rig.drop(ev)
            else:
                rig.add(ev, {'a': 'stopped', 'c': 'running'})

        def update():
            old, sel = list(rig.combo.items), rig.selected()
            rig.combo.log = []
            rig.tick()
            rig.check_managers(old, sel)
            if rig.selected() is None and sel is not None:
                rig.tick()   # the table follows with the next update
            rig.check('after an update')
        if selected:
            rig.select('/cm')
            rig.check('after selecting /cm')
        fresh = True   # the table was updated after the last change
        for _ in range(steps):
            ev = x.pick(events, 'event')
            if ev == 'change':
                change(); fresh = False
            elif ev == 'restart':
                ns = rig.selected() or '/cm'
                if ns in rig.m:
                    x.note('-- restart of %s', ns)
                    ctl = dict(rig.m[ns].ctl)
                    rig.drop(ns); rig.add(ns, ctl)
            elif ev == 'update':
                update(); fresh = True
            elif ev == 'select':
                if rig.combo.items:
                    ns = x.pick(rig.combo.items)
                    x.note('select %s', ns)
                    was = rig.selected()
                    rig.select(ns)
                    if was != ns:
                        if ns in rig.m:
                            rig.check('after selecting %s' % ns)
                        fresh = True
            elif ev == 'act':
                rows = rig.rows()
                if rows and rig.selected() in rig.m:
                    meanwhile = None
                    if 'change' in events and x.flag('updates while the menu is open'):
                        def meanwhile():
                            sel = rig.selected()
                            change()
                            rig.tick()
                            if rig.selected() not in rig.m or rig.selected() != sel:
                                raise Gone()
                    try:
                        rig.click(x.choose(len(rows)), x.choose(2), meanwhile)
                    except Gone:
                        return
                    fresh = False
        update()
    return f


class Gone(BaseException):
    """The manager ended while its menu was open: nothing is asked of what the entry does."""


def settings_family(x):
    """What was selected in the last session is selected again if it is offered."""
    offered = x.pick(subsets(['/a/cm', '/cm', '/ns/cm']))
    saved = x.pick(['/a/cm', '/cm', '/ns/cm', '', None, '/zz', []])
    rig = Rig(x, {ns: {'a': 'running'} for ns in offered}, {'/c/type': 't'}, restore=True)
    if x.flag('updated before'):
        rig.tick()
        if offered and x.flag('selected before'):
            rig.select(offered[0])
    sel = rig.selected()
    inst = Loose()
    inst.value = lambda k, *d: saved
    call(x, 'settings-raise', 'restore_settings', rig.p.restore_settings, Loose(), inst)
    x.note('offered %r, saved %r -> %r', offered, saved, rig.selected())
    want = saved if saved in offered else sel
    x.expect(rig.selected() == want, 'wrong-restored', 'offered %r, saved %r, selected %r', offered, saved, rig.selected())
    rig.tick()
    rig.check('after an update')
    kept = {}
    inst.set_value = lambda k, v: kept.__setitem__(k, v)
    call(x, 'settings-raise', 'save_settings', rig.p.save_settings, Loose(), inst)
    if rig.selected():
        x.expect(kept.get('cm_ns') == rig.selected(), 'wrong-saved', '%r is selected, saved %r', rig.selected(), kept)
    call(x, 'shutdown-raises', 'shutdown_plugin', rig.p.shutdown_plugin)
    x.expect(not any(t.on for t in rig.gui.timers), 'timer-left', 'a timer runs after the shutdown')


def p05(tier):
    t = tier == 'thorough'
    return {
        'selection box': combo_family(['/a', '/b', '/c'], 2, True) if t else combo_family(['/a', '/b', '/c'], 1, True),
        'selection box, many managers': combo_family(['/a', '/ab', '/b', '/', '/ns/a', '/c'] if t else ['/a', '/ab', '/b', '/', '/ns/a'], 1, False),
        'selection box, histories': combo_family(['/a', '/ab'], 4 if t else 3, False),
        'rows': rows_family(['ab', 'a'], STATES, ['a/type', 'abc/type', 'ab/type', 'b/type', 'd/gain'] if t else ['a/type', 'abc/type', 'd/gain']),
        'rows, order': rows_family(['b', 'a', 'ab'], ['running', 'initialized'], ['b/type', 'a/type', '0/type']),
        'rows, many controllers': rows_family(['arm', 'a', 'b7', 'arm_2', 'Arm', 'z', 'b', 'b71', 'b70'], ['running', 'initialized', 'stopped'], ['arm/type', 'arm_3/type', '0/type'] if t else ['arm/type', '0/type']),
        'histories': history_family(6 if t else 5, ['update', 'select', 'change']),
        'histories with actions': history_family(4, ['update', 'select', 'act', 'change']) if t else history_family(3, ['update', 'select', 'act', 'change'], True),
        'restarts': history_family(4 if t else 3, ['update', 'act', 'restart'], True),
        'settings': settings_family,
    }


if __name__ == '__main__':
    sys.exit(mc.main(lambda prop, tier: {'P05': p05}[prop](tier), setup))
