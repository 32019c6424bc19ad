from abc import ABCMeta, abstractmethod
from collections.abc import Iterable, Callable
from functools import reduce
from itertools import zip_longest
from numbers import Real, Integral
import numpy as np
from . import checkvalue as cv
from .mixin import EqualityMixin
from .data import EV_PER_MEV
INTERPOLATION_SCHEME = {1: 'histogram', 2: 'linear-linear', 3: 'linear-log', 4: 'log-linear', 5: 'log-log'}

def sum_functions(funcs):
    funcs = list(funcs)
    xs = []
    for f in funcs:
        if isinstance(f, Tabulated1D):
            xs.append(f.x)
            if not np.all(f.interpolation == 2):
                raise ValueError('Only linear-linear tabulated functions can be combined')
    if xs:
        x = reduce(np.union1d, xs)
        y = sum((f(x) for f in funcs))
        return Tabulated1D(x, y)
    else:
        coeffs = [sum(x) for x in zip_longest(*funcs, fillvalue=0.0)]
        return Polynomial(coeffs)

class Function1D(EqualityMixin, metaclass=ABCMeta):

    @abstractmethod
    def __call__(self):
        pass

    @abstractmethod
    def to_hdf5(self, group, name='xy'):
        pass

    @classmethod
    def from_hdf5(cls, dataset):
        for subclass in cls.__subclasses__():
            if dataset.attrs['type'].decode() == subclass.__name__:
                return subclass.from_hdf5(dataset)
        raise ValueError("Unrecognized Function1D class: '" + dataset.attrs['type'].decode() + "'")

class Tabulated1D(Function1D):

    def __init__(self, x, y, breakpoints=None, interpolation=None):
        if breakpoints is None or interpolation is None:
            self.breakpoints = np.array([len(x)])
            self.interpolation = np.array([2])
        else:
            self.breakpoints = np.asarray(breakpoints, dtype=int)
            self.interpolation = np.asarray(interpolation, dtype=int)
        self.x = np.asarray(x)
        self.y = np.asarray(y)

    def __call__(self, x):
        if isinstance(x, Iterable):
            iterable = True
            x = np.array(x)
        else:
            iterable = False
            x = np.array([x], dtype=float)
        y = np.zeros_like(x)
        idx = np.searchsorted(self.x, x, side='right') - 1
        for k in range(len(self.breakpoints)):
            i_begin = self.breakpoints[k - 1] - 1 if k > 0 else 0
            i_end = self.breakpoints[k] - 1
            contained = (idx >= i_begin) & (idx < i_end)
            xk = x[contained]
            xi = self.x[idx[contained]]
            xi1 = self.x[idx[contained] + 1]
            yi = self.y[idx[contained]]
            yi1 = self.y[idx[contained] + 1]
            if self.interpolation[k] == 1:
                y[contained] = yi
            elif self.interpolation[k] == 2:
                y[contained] = yi + (xk - xi) / (xi1 - xi) * (yi1 - yi)
            elif self.interpolation[k] == 3:
                y[contained] = yi + np.log(xk / xi) / np.log(xi1 / xi) * (yi1 - yi)
            elif self.interpolation[k] == 4:
                y[contained] = yi * np.exp((xk - xi) / (xi1 - xi) * np.log(yi1 / yi))
            elif self.interpolation[k] == 5:
                y[contained] = yi * np.exp(np.log(xk / xi) / np.log(xi1 / xi) * np.log(yi1 / yi))
        y[np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
        y[np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
        return y if iterable else y[0]

    def __len__(self):
        return len(self.x)

    @property
    def x(self):
        return self._x

    @property
    def y(self):
        return self._y

    @property
    def breakpoints(self):
        return self._breakpoints

    @property
    def interpolation(self):
        return self._interpolation

    @property
    def n_pairs(self):
        return len(self.x)

    @property
    def n_regions(self):
        return len(self.breakpoints)

    @x.setter
    def x(self, x):
        cv.check_type('x values', x, Iterable, Real)
        self._x = x

    @y.setter
    def y(self, y):
        cv.check_type('y values', y, Iterable, Real)
        self._y = y

    @breakpoints.setter
    def breakpoints(self, breakpoints):
        cv.check_type('breakpoints', breakpoints, Iterable, Integral)
        self._breakpoints = breakpoints

    @interpolation.setter
    def interpolation(self, interpolation):
        cv.check_type('interpolation', interpolation, Iterable, Integral)
        self._interpolation = interpolation

    def integral(self):
        partial_sum = np.zeros(len(self.x) - 1)
        i_low = 0
        for k in range(len(self.breakpoints)):
            i_high = self.breakpoints[k] - 1
            x0 = self.x[i_low:i_high]
            x1 = self.x[i_low + 1:i_high + 1]
            y0 = self.y[i_low:i_high]
            y1 = self.y[i_low + 1:i_high + 1]
            if self.interpolation[k] == 1:
                partial_sum[i_low:i_high] = y0 * (x1 - x0)
            elif self.interpolation[k] == 2:
                m = (y1 - y0) / (x1 - x0)
                partial_sum[i_low:i_high] = (y0 - m * x0) * (x1 - x0) + m * (x1 ** 2 - x0 ** 2) / 2
            elif self.interpolation[k] == 3:
                logx = np.log(x1 / x0)
                m = (y1 - y0) / logx
                partial_sum[i_low:i_high] = y0 * (x1 - x0) + m * (x1 * (logx - 1) + x0)
            elif self.interpolation[k] == 4:
                m = np.log(y1 / y0) / (x1 - x0)
                partial_sum[i_low:i_high] = y0 / m * (np.exp(m * (x1 - x0)) - 1)
            elif self.interpolation[k] == 5:
                m = np.log(y1 / y0) / np.log(x1 / x0)
                partial_sum[i_low:i_high] = y0 / ((m + 1) * x0 ** m) * (x1 ** (m + 1) - x0 ** (m + 1))
            i_low = i_high
        return np.concatenate(([0.0], np.cumsum(partial_sum)))

    def to_hdf5(self, group, name='xy'):
        dataset = group.create_dataset(name, data=np.vstack([self.x, self.y]))
        dataset.attrs['type'] = np.string_(type(self).__name__)
        dataset.attrs['breakpoints'] = self.breakpoints
        dataset.attrs['interpolation'] = self.interpolation

    @classmethod
    def from_hdf5(cls, dataset):
        if dataset.attrs['type'].decode() != cls.__name__:
            raise ValueError("Expected an HDF5 attribute 'type' equal to '" + cls.__name__ + "'")
        x = dataset[0, :]
        y = dataset[1, :]
        breakpoints = dataset.attrs['breakpoints']
        interpolation = dataset.attrs['interpolation']
        return cls(x, y, breakpoints, interpolation)

    @classmethod
    def from_ace(cls, ace, idx=0, convert_units=True):
        n_regions = int(ace.xss[idx])
        n_pairs = int(ace.xss[idx + 1 + 2 * n_regions])
        idx += 1
        if n_regions > 0:
            breakpoints = ace.xss[idx:idx + n_regions].astype(int)
            interpolation = ace.xss[idx + n_regions:idx + 2 * n_regions].astype(int)
        else:
            breakpoints = np.array([n_pairs])
            interpolation = np.array([2])
        idx += 2 * n_regions + 1
        x = ace.xss[idx:idx + n_pairs].copy()
        y = ace.xss[idx + n_pairs:idx + 2 * n_pairs].copy()
        if convert_units:
            x *= EV_PER_MEV
        return Tabulated1D(x, y, breakpoints, interpolation)

class Polynomial(np.polynomial.Polynomial, Function1D):

    def to_hdf5(self, group, name='xy'):
        dataset = group.create_dataset(name, data=self.coef)
        dataset.attrs['type'] = np.string_(type(self).__name__)

    @classmethod
    def from_hdf5(cls, dataset):
        if dataset.attrs['type'].decode() != cls.__name__:
            raise ValueError("Expected an HDF5 attribute 'type' equal to '" + cls.__name__ + "'")
        return cls(dataset[()])

class Combination(EqualityMixin):

    def __init__(self, functions, operations):
        self.functions = functions
        self.operations = operations

    def __call__(self, x):
        ans = self.functions[0](x)
        for i, operation in enumerate(self.operations):
            ans = operation(ans, self.functions[i + 1](x))
        return ans

    @property
    def functions(self):
        return self._functions

    @functions.setter
    def functions(self, functions):
        cv.check_type('functions', functions, Iterable, Callable)
        self._functions = functions

    @property
    def operations(self):
        return self._operations

    @operations.setter
    def operations(self, operations):
        cv.check_type('operations', operations, Iterable, np.ufunc)
        length = len(self.functions) - 1
        cv.check_length('operations', operations, length, length_max=length)
        self._operations = operations

class Sum(EqualityMixin):

    def __init__(self, functions):
        self.functions = list(functions)

    def __call__(self, x):
        return sum((f(x) for f in self.functions))

    @property
    def functions(self):
        return self._functions

    @functions.setter
    def functions(self, functions):
        cv.check_type('functions', functions, Iterable, Callable)
        self._functions = functions

class Regions1D(EqualityMixin):

    def __init__(self, functions, breakpoints):
        self.functions = functions
        self.breakpoints = breakpoints

    def __call__(self, x):
        i = np.searchsorted(self.breakpoints, x)
        if isinstance(x, Iterable):
            ans = np.empty_like(x)
            for j in range(len(i)):
                ans[j] = self.functions[i[j]](x[j])
            return ans
        else:
            return self.functions[i](x)

    @property
    def functions(self):
        return self._functions

    @property
    def breakpoints(self):
        return self._breakpoints

    @functions.setter
    def functions(self, functions):
        cv.check_type('functions', functions, Iterable, Callable)
        self._functions = functions

    @breakpoints.setter
    def breakpoints(self, breakpoints):
        cv.check_iterable_type('breakpoints', breakpoints, Real)
        self._breakpoints = breakpoints

class ResonancesWithBackground(EqualityMixin):

    def __init__(self, resonances, background, mt):
        self.resonances = resonances
        self.background = background
        self.mt = mt

    def __call__(self, x):
        from . import resonance
        xs = self.background(x)
        for r in self.resonances:
            if not isinstance(r, resonance._RESOLVED):
                continue
            if isinstance(x, Iterable):
                within = (r.energy_min <= x) & (x <= r.energy_max)
                resonant_xs = r.reconstruct(x[within])
                xs[within] += resonant_xs[self.mt]
            elif r.energy_min <= x <= r.energy_max:
                resonant_xs = r.reconstruct(x)
                xs += resonant_xs[self.mt]
        return xs

    @property
    def background(self):
        return self._background

    @property
    def mt(self):
        return self._mt

    @property
    def resonances(self):
        return self._resonances

    @background.setter
    def background(self, background):
        cv.check_type('background cross section', background, Callable)
        self._background = background

    @mt.setter
    def mt(self, mt):
        cv.check_type('MT value', mt, Integral)
        self._mt = mt

    @resonances.setter
    def resonances(self, resonances):
        from .resonance import Resonances
        cv.check_type('resolved resonance parameters', resonances, Resonances)
        self._resonances = resonances
