from collections.abc import Iterable
from numbers import Integral, Real
import numpy as np
from . import checkvalue as cv
from .mixin import EqualityMixin
from .data import EV_PER_MEV

class ProbabilityTables(EqualityMixin):

    def __init__(self, energy, table, interpolation, inelastic_flag=-1, absorption_flag=-1, multiply_smooth=False):
        self.energy = energy
        self.table = table
        self.interpolation = interpolation
        self.inelastic_flag = inelastic_flag
        self.absorption_flag = absorption_flag
        self.multiply_smooth = multiply_smooth

    @property
    def absorption_flag(self):
        return self._absorption_flag

    @property
    def energy(self):
        return self._energy

    @property
    def inelastic_flag(self):
        return self._inelastic_flag

    @property
    def interpolation(self):
        return self._interpolation

    @property
    def multiply_smooth(self):
        return self._multiply_smooth

    @property
    def table(self):
        return self._table

    @absorption_flag.setter
    def absorption_flag(self, absorption_flag):
        cv.check_type('absorption flag', absorption_flag, Integral)
        self._absorption_flag = absorption_flag

    @energy.setter
    def energy(self, energy):
        cv.check_type('probability table energies', energy, Iterable, Real)
        self._energy = energy

    @inelastic_flag.setter
    def inelastic_flag(self, inelastic_flag):
        cv.check_type('inelastic flag', inelastic_flag, Integral)
        self._inelastic_flag = inelastic_flag

    @interpolation.setter
    def interpolation(self, interpolation):
        cv.check_value('interpolation', interpolation, [2, 5])
        self._interpolation = interpolation

    @multiply_smooth.setter
    def multiply_smooth(self, multiply_smooth):
        cv.check_type('multiply by smooth', multiply_smooth, bool)
        self._multiply_smooth = multiply_smooth

    @table.setter
    def table(self, table):
        cv.check_type('probability tables', table, np.ndarray)
        self._table = table

    def to_hdf5(self, group):
        group.attrs['interpolation'] = self.interpolation
        group.attrs['inelastic'] = self.inelastic_flag
        group.attrs['absorption'] = self.absorption_flag
        group.attrs['multiply_smooth'] = int(self.multiply_smooth)
        group.create_dataset('energy', data=self.energy)
        group.create_dataset('table', data=self.table)

    @classmethod
    def from_hdf5(cls, group):
        interpolation = group.attrs['interpolation']
        inelastic_flag = group.attrs['inelastic']
        absorption_flag = group.attrs['absorption']
        multiply_smooth = bool(group.attrs['multiply_smooth'])
        energy = group['energy'][()]
        table = group['table'][()]
        return cls(energy, table, interpolation, inelastic_flag, absorption_flag, multiply_smooth)

    @classmethod
    def from_ace(cls, ace):
        idx = ace.jxs[23]
        if idx == 0:
            return None
        N = int(ace.xss[idx])
        M = int(ace.xss[idx + 1])
        interpolation = int(ace.xss[idx + 2])
        inelastic_flag = int(ace.xss[idx + 3])
        absorption_flag = int(ace.xss[idx + 4])
        multiply_smooth = int(ace.xss[idx + 5]) == 1
        idx += 6
        energy = ace.xss[idx:idx + N] * EV_PER_MEV
        idx += N
        table = ace.xss[idx:idx + N * 6 * M].copy()
        table.shape = (N, 6, M)
        table[:, 5, :] *= EV_PER_MEV
        return cls(energy, table, interpolation, inelastic_flag, absorption_flag, multiply_smooth)
