"""Runs demo.py and the Blender add-on of the tree under test, with stand-ins for the windows they
need: matplotlib and bpy are replaced by recorders."""
import importlib.util
import os
import sys
import types

from . import target

_n = [0]


class Anything:
    """Accepts every call and attribute."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __iter__(self):
        return iter(())


class Axes(Anything):
    """Records what is drawn: lines are lists of 3D points."""

    def __init__(self, log):
        self.__dict__['log'] = log
        self.__dict__['lines'] = []

    def clear(self):
        self.log.append('clear')
        del self.lines[:]

    cla = clear

    def plot(self, xs, ys, zs, *a, **k):
        self.log.append('plot')
        self.lines.append([(float(x), float(y), float(z)) for x, y, z in zip(xs, ys, zs)])

    plot3D = plot

    def add_collection3d(self, col, *a, **k):
        self.log.append('plot')
        for s in getattr(col, 'segments', ()):
            s = [tuple(map(float, p)) for p in s]
            if getattr(col, 'closed', False):
                s.append(s[0])
            self.lines.append(s)

    add_collection = add_collection3d

    def set_axis_off(self, *a):
        pass


class Figure(Anything):
    def __init__(self, log, axes):
        self.__dict__['log'] = log
        self.__dict__['axes'] = axes

    def _new(self, *a, **k):
        ax = Axes(self.log)
        ax.__dict__['three'] = k.get('projection') == '3d' or (k.get('subplot_kw') or {}).get('projection') == '3d'
        self.axes.append(ax)
        return ax

    add_subplot = add_axes = _new

    def gca(self, *a, **k):
        return self.axes[0] if self.axes else self._new(*a, **k)


class Demo:
    """demo.py, started; set(pitch) moves the slider."""

    def __init__(self):
        log, axes, sliders = [], [], []
        self.log, self.axes, self.sliders = log, axes, sliders
        self.shown = 0

        class Slider(Anything):
            def __init__(self, *a, **k):
                names = ['ax', 'label', 'valmin', 'valmax', 'valinit']
                k.update(zip(names, a))
                self.__dict__['k'] = k
                self.__dict__['f'] = []
                self.__dict__['val'] = k.get('valinit')
                sliders.append(self)

            def on_changed(self, f):
                self.f.append(f)
                return len(self.f)

        class Lines(Anything):
            def __init__(self, segments=(), *a, **k):
                self.__dict__['segments'] = segments
                self.__dict__['closed'] = False

        class Polys(Anything):
            def __init__(self, verts=(), *a, **k):
                self.__dict__['segments'] = verts
                self.__dict__['closed'] = True
        mpl = types.ModuleType('matplotlib')
        plt = types.ModuleType('matplotlib.pyplot')
        wid = types.ModuleType('matplotlib.widgets')
        tk = types.ModuleType('mpl_toolkits')
        m3 = types.ModuleType('mpl_toolkits.mplot3d')
        a3 = types.ModuleType('mpl_toolkits.mplot3d.art3d')
        fig = Figure(log, axes)
        plt.figure = lambda *a, **k: fig
        plt.subplots = lambda *a, **k: (fig, fig.add_subplot(*a, **k))
        plt.gcf = lambda: fig
        plt.gca = fig.gca
        plt.axes = fig.add_axes
        plt.draw = plt.ion = plt.ioff = lambda *a, **k: None

        def show(*a, **k):
            self.shown += 1
        plt.show = show
        plt.__getattr__ = lambda name: Anything()
        mpl.__getattr__ = lambda name: Anything()
        wid.Slider = Slider
        m3.Axes3D = Anything
        a3.Line3DCollection, a3.Poly3DCollection = Lines, Polys
        m3.art3d = a3
        tk.mplot3d = m3
        mpl.pyplot, mpl.widgets = plt, wid
        mods = {'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.widgets': wid,
                'mpl_toolkits': tk, 'mpl_toolkits.mplot3d': m3, 'mpl_toolkits.mplot3d.art3d': a3}
        _n[0] += 1
        self.mod = load('bps_demo_%d' % _n[0], os.path.join(target.REPO, 'demo.py'), mods)
        self.mod.run_demo()

    def drawing(self):
        """What the main axes show now."""
        return [l for ax in self.axes for l in ax.lines]

    def set(self, pitch):
        for s in self.sliders:
            s.__dict__['val'] = pitch
            for f in s.f:
                f(pitch)


def load(name, path, mods, package=False):
    """Load a module while sys.modules holds the stand-ins."""
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        kw = {'submodule_search_locations': [os.path.dirname(path)]} if package else {}
        spec = importlib.util.spec_from_file_location(name, path, **kw)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        return m
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class AddOn:
    """__init__.py as Blender loads it."""

    def __init__(self):
        self.classes, self.maps, self.menu = [], [], []
        self.meshes, self.added = [], []
        me = self

        class Mesh:
            def __init__(self, name):
                self.name, self.data = name, None
                me.meshes.append(self)

            def from_pydata(self, verts, edges, faces, *a, **k):
                self.data = ([tuple(map(float, v)) for v in verts], [tuple(e) for e in edges],
                             [tuple(f) for f in faces])

            def update(self, *a, **k):
                pass

            validate = update

        class Operator:
            pass

        class AddObjectHelper:
            pass

        class Menu:
            @staticmethod
            def append(f):
                me.menu.append(f)

            @staticmethod
            def remove(f):
                me.menu.remove(f)
        bpy = types.ModuleType('bpy')
        bpy.types = types.ModuleType('bpy.types')
        bpy.types.Operator = Operator
        bpy.types.VIEW3D_MT_mesh_add = Menu
        bpy.props = types.ModuleType('bpy.props')
        bpy.props.__getattr__ = lambda name: (lambda *a, **k: k)
        bpy.utils = types.ModuleType('bpy.utils')
        bpy.utils.register_class = self.classes.append
        bpy.utils.unregister_class = self.classes.remove
        bpy.utils.register_manual_map = self.maps.append
        bpy.utils.unregister_manual_map = self.maps.remove
        bpy.data = types.SimpleNamespace(meshes=types.SimpleNamespace(new=lambda name='', *a: Mesh(name)))
        be = types.ModuleType('bpy_extras')
        ou = types.ModuleType('bpy_extras.object_utils')
        ou.AddObjectHelper = AddObjectHelper
        ou.object_data_add = lambda context, obdata, *a, **k: me.added.append((context, obdata, a or k.get('operator')))
        be.object_utils = ou
        _n[0] += 1
        self.mod = load('bps_addon_%d' % _n[0], os.path.join(target.REPO, '__init__.py'),
                        {'bpy': bpy, 'bpy.types': bpy.types, 'bpy.props': bpy.props, 'bpy.utils': bpy.utils,
                         'bpy_extras': be, 'bpy_extras.object_utils': ou}, package=True)
