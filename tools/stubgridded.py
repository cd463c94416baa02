"""Stand-in for the package "gridded", which is not installed here: enough for gnome to import."""
import sys, types, importlib, importlib.abc, importlib.machinery


class Dummy(object):
    _default_component_types = {}
    default_names = []
    cf_names = []

    def __init__(self, *a, **k):
        pass


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n[0].islower():
            return importlib.import_module(self.__name__ + '.' + n)
        c = type(n, (Dummy,), {})
        setattr(self, n, c)
        return c


class F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name == 'gridded' or name.startswith('gridded.'):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__path__ = []
        m.__version__ = '99.0'
        return m

    def exec_module(self, m):
        pass


sys.meta_path.insert(0, F())

import gridded
import gridded.time
import gridded.utilities
import numpy as np
from datetime import datetime, timedelta


class Time(Dummy):
    def __init__(self, data=None, *a, **k):
        super().__init__()
        self.name = k.get('name')
        if isinstance(data, Time):
            data = data.data
        self.data = np.array([data] if isinstance(data, datetime) else list(data if data is not None else [datetime(2000, 1, 1)]), dtype=object)
        self.tz_offset = None
        self.varname = self.filename = self.origin = self.displacement = self.tz_offset_name = None
        self.environment_name = None

    @classmethod
    def constant_time(cls):
        return cls(data=[datetime(2000, 1, 1)])

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]

    @property
    def min_time(self):
        return self.data[0]

    @property
    def max_time(self):
        return self.data[-1]

    def valid_time(self, t):
        if t < self.min_time or t > self.max_time:
            raise ValueError('time out of range')

    def index_of(self, t, extrapolate=False):
        if not (extrapolate or len(self.data) == 1):
            self.valid_time(t)
        i = int(np.searchsorted(self.data, t))
        if extrapolate:
            i = min(i, len(self.data) - 1)
        return i

    def interp_alpha(self, t, extrapolate=False):
        if len(self.data) == 1:
            return 0
        i = self.index_of(t, extrapolate)
        if i == 0:
            return 0
        t0, t1 = self.data[i - 1], self.data[i]
        return (t - t0).total_seconds() / (t1 - t0).total_seconds()


gridded.time.Time = gridded.Time = Time
gridded.utilities._reorganize_spatial_data = lambda p: None if p is None else np.asarray(p).reshape(-1, np.asarray(p).shape[-1])
gridded.utilities._align_results_to_spatial_data = lambda r, p: r
