from abc import ABCMeta, abstractmethod
from collections.abc import Iterable
from numbers import Integral, Real
from warnings import warn
import numpy as np
from .function import Tabulated1D, INTERPOLATION_SCHEME
from .univariate import Univariate, Tabular, Discrete, Mixture
from . import checkvalue as cv
from .mixin import EqualityMixin
from .data import EV_PER_MEV
from .endf import get_tab1_record, get_tab2_record

class EnergyDistribution(EqualityMixin, metaclass=ABCMeta):

    def __init__(self):
        pass

    @abstractmethod
    def to_hdf5(self, group):
        pass

    @staticmethod
    def from_hdf5(group):
        energy_type = group.attrs['type'].decode()
        if energy_type == 'maxwell':
            return MaxwellEnergy.from_hdf5(group)
        elif energy_type == 'evaporation':
            return Evaporation.from_hdf5(group)
        elif energy_type == 'watt':
            return WattEnergy.from_hdf5(group)
        elif energy_type == 'madland-nix':
            return MadlandNix.from_hdf5(group)
        elif energy_type == 'discrete_photon':
            return DiscretePhoton.from_hdf5(group)
        elif energy_type == 'level':
            return LevelInelastic.from_hdf5(group)
        elif energy_type == 'continuous':
            return ContinuousTabular.from_hdf5(group)
        else:
            raise ValueError('Unknown energy distribution type: {}'.format(energy_type))

    @staticmethod
    def from_endf(file_obj, params):
        lf = params[3]
        if lf == 1:
            return ArbitraryTabulated.from_endf(file_obj, params)
        elif lf == 5:
            return GeneralEvaporation.from_endf(file_obj, params)
        elif lf == 7:
            return MaxwellEnergy.from_endf(file_obj, params)
        elif lf == 9:
            return Evaporation.from_endf(file_obj, params)
        elif lf == 11:
            return WattEnergy.from_endf(file_obj, params)
        elif lf == 12:
            return MadlandNix.from_endf(file_obj, params)
        else:
            raise ValueError('Unsupported ENDF energy distribution law LF={}'.format(lf))

class ArbitraryTabulated(EnergyDistribution):

    def __init__(self, energy, pdf):
        super().__init__()
        self.energy = energy
        self.pdf = pdf

    def to_hdf5(self, group):
        raise NotImplementedError

    @classmethod
    def from_endf(cls, file_obj, params):
        params, tab2 = get_tab2_record(file_obj)
        n_energies = params[5]
        energy = np.zeros(n_energies)
        pdf = []
        for j in range(n_energies):
            params, func = get_tab1_record(file_obj)
            energy[j] = params[1]
            pdf.append(func)
        return cls(energy, pdf)

class GeneralEvaporation(EnergyDistribution):

    def __init__(self, theta, g, u):
        super().__init__()
        self.theta = theta
        self.g = g
        self.u = u

    def to_hdf5(self, group):
        raise NotImplementedError

    @classmethod
    def from_ace(cls, ace, idx=0):
        raise NotImplementedError

    @classmethod
    def from_endf(cls, file_obj, params):
        u = params[0]
        params, theta = get_tab1_record(file_obj)
        params, g = get_tab1_record(file_obj)
        return cls(theta, g, u)

class MaxwellEnergy(EnergyDistribution):

    def __init__(self, theta, u):
        super().__init__()
        self.theta = theta
        self.u = u

    @property
    def theta(self):
        return self._theta

    @property
    def u(self):
        return self._u

    @theta.setter
    def theta(self, theta):
        cv.check_type('Maxwell theta', theta, Tabulated1D)
        self._theta = theta

    @u.setter
    def u(self, u):
        cv.check_type('Maxwell restriction energy', u, Real)
        self._u = u

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('maxwell')
        group.attrs['u'] = self.u
        self.theta.to_hdf5(group, 'theta')

    @classmethod
    def from_hdf5(cls, group):
        theta = Tabulated1D.from_hdf5(group['theta'])
        u = group.attrs['u']
        return cls(theta, u)

    @classmethod
    def from_ace(cls, ace, idx=0):
        theta = Tabulated1D.from_ace(ace, idx)
        theta.y *= EV_PER_MEV
        nr = int(ace.xss[idx])
        ne = int(ace.xss[idx + 1 + 2 * nr])
        u = ace.xss[idx + 2 + 2 * nr + 2 * ne] * EV_PER_MEV
        return cls(theta, u)

    @classmethod
    def from_endf(cls, file_obj, params):
        u = params[0]
        params, theta = get_tab1_record(file_obj)
        return cls(theta, u)

class Evaporation(EnergyDistribution):

    def __init__(self, theta, u):
        super().__init__()
        self.theta = theta
        self.u = u

    @property
    def theta(self):
        return self._theta

    @property
    def u(self):
        return self._u

    @theta.setter
    def theta(self, theta):
        cv.check_type('Evaporation theta', theta, Tabulated1D)
        self._theta = theta

    @u.setter
    def u(self, u):
        cv.check_type('Evaporation restriction energy', u, Real)
        self._u = u

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('evaporation')
        group.attrs['u'] = self.u
        self.theta.to_hdf5(group, 'theta')

    @classmethod
    def from_hdf5(cls, group):
        theta = Tabulated1D.from_hdf5(group['theta'])
        u = group.attrs['u']
        return cls(theta, u)

    @classmethod
    def from_ace(cls, ace, idx=0):
        theta = Tabulated1D.from_ace(ace, idx)
        theta.y *= EV_PER_MEV
        nr = int(ace.xss[idx])
        ne = int(ace.xss[idx + 1 + 2 * nr])
        u = ace.xss[idx + 2 + 2 * nr + 2 * ne] * EV_PER_MEV
        return cls(theta, u)

    @classmethod
    def from_endf(cls, file_obj, params):
        u = params[0]
        params, theta = get_tab1_record(file_obj)
        return cls(theta, u)

class WattEnergy(EnergyDistribution):

    def __init__(self, a, b, u):
        super().__init__()
        self.a = a
        self.b = b
        self.u = u

    @property
    def a(self):
        return self._a

    @property
    def b(self):
        return self._b

    @property
    def u(self):
        return self._u

    @a.setter
    def a(self, a):
        cv.check_type('Watt a', a, Tabulated1D)
        self._a = a

    @b.setter
    def b(self, b):
        cv.check_type('Watt b', b, Tabulated1D)
        self._b = b

    @u.setter
    def u(self, u):
        cv.check_type('Watt restriction energy', u, Real)
        self._u = u

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('watt')
        group.attrs['u'] = self.u
        self.a.to_hdf5(group, 'a')
        self.b.to_hdf5(group, 'b')

    @classmethod
    def from_hdf5(cls, group):
        a = Tabulated1D.from_hdf5(group['a'])
        b = Tabulated1D.from_hdf5(group['b'])
        u = group.attrs['u']
        return cls(a, b, u)

    @classmethod
    def from_ace(cls, ace, idx):
        a = Tabulated1D.from_ace(ace, idx)
        a.y *= EV_PER_MEV
        nr = int(ace.xss[idx])
        ne = int(ace.xss[idx + 1 + 2 * nr])
        idx += 2 + 2 * nr + 2 * ne
        b = Tabulated1D.from_ace(ace, idx)
        b.y /= EV_PER_MEV
        nr = int(ace.xss[idx])
        ne = int(ace.xss[idx + 1 + 2 * nr])
        idx += 2 + 2 * nr + 2 * ne
        u = ace.xss[idx] * EV_PER_MEV
        return cls(a, b, u)

    @classmethod
    def from_endf(cls, file_obj, params):
        u = params[0]
        params, a = get_tab1_record(file_obj)
        params, b = get_tab1_record(file_obj)
        return cls(a, b, u)

class MadlandNix(EnergyDistribution):

    def __init__(self, efl, efh, tm):
        super().__init__()
        self.efl = efl
        self.efh = efh
        self.tm = tm

    @property
    def efl(self):
        return self._efl

    @property
    def efh(self):
        return self._efh

    @property
    def tm(self):
        return self._tm

    @efl.setter
    def efl(self, efl):
        name = 'Madland-Nix light fragment energy'
        cv.check_type(name, efl, Real)
        cv.check_greater_than(name, efl, 0.0)
        self._efl = efl

    @efh.setter
    def efh(self, efh):
        name = 'Madland-Nix heavy fragment energy'
        cv.check_type(name, efh, Real)
        cv.check_greater_than(name, efh, 0.0)
        self._efh = efh

    @tm.setter
    def tm(self, tm):
        cv.check_type('Madland-Nix maximum temperature', tm, Tabulated1D)
        self._tm = tm

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('madland-nix')
        group.attrs['efl'] = self.efl
        group.attrs['efh'] = self.efh
        self.tm.to_hdf5(group, 'tm')

    @classmethod
    def from_hdf5(cls, group):
        efl = group.attrs['efl']
        efh = group.attrs['efh']
        tm = Tabulated1D.from_hdf5(group['tm'])
        return cls(efl, efh, tm)

    @classmethod
    def from_endf(cls, file_obj, params):
        params, tm = get_tab1_record(file_obj)
        efl, efh = params[0:2]
        return cls(efl, efh, tm)

class DiscretePhoton(EnergyDistribution):

    def __init__(self, primary_flag, energy, atomic_weight_ratio):
        super().__init__()
        self.primary_flag = primary_flag
        self.energy = energy
        self.atomic_weight_ratio = atomic_weight_ratio

    @property
    def primary_flag(self):
        return self._primary_flag

    @property
    def energy(self):
        return self._energy

    @property
    def atomic_weight_ratio(self):
        return self._atomic_weight_ratio

    @primary_flag.setter
    def primary_flag(self, primary_flag):
        cv.check_type('discrete photon primary_flag', primary_flag, Integral)
        self._primary_flag = primary_flag

    @energy.setter
    def energy(self, energy):
        cv.check_type('discrete photon energy', energy, Real)
        self._energy = energy

    @atomic_weight_ratio.setter
    def atomic_weight_ratio(self, atomic_weight_ratio):
        cv.check_type('atomic weight ratio', atomic_weight_ratio, Real)
        self._atomic_weight_ratio = atomic_weight_ratio

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('discrete_photon')
        group.attrs['primary_flag'] = self.primary_flag
        group.attrs['energy'] = self.energy
        group.attrs['atomic_weight_ratio'] = self.atomic_weight_ratio

    @classmethod
    def from_hdf5(cls, group):
        primary_flag = group.attrs['primary_flag']
        energy = group.attrs['energy']
        awr = group.attrs['atomic_weight_ratio']
        return cls(primary_flag, energy, awr)

    @classmethod
    def from_ace(cls, ace, idx):
        primary_flag = int(ace.xss[idx])
        energy = ace.xss[idx + 1] * EV_PER_MEV
        return cls(primary_flag, energy, ace.atomic_weight_ratio)

class LevelInelastic(EnergyDistribution):

    def __init__(self, threshold, mass_ratio):
        super().__init__()
        self.threshold = threshold
        self.mass_ratio = mass_ratio

    @property
    def threshold(self):
        return self._threshold

    @property
    def mass_ratio(self):
        return self._mass_ratio

    @threshold.setter
    def threshold(self, threshold):
        cv.check_type('level inelastic threhsold', threshold, Real)
        self._threshold = threshold

    @mass_ratio.setter
    def mass_ratio(self, mass_ratio):
        cv.check_type('level inelastic mass ratio', mass_ratio, Real)
        self._mass_ratio = mass_ratio

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('level')
        group.attrs['threshold'] = self.threshold
        group.attrs['mass_ratio'] = self.mass_ratio

    @classmethod
    def from_hdf5(cls, group):
        threshold = group.attrs['threshold']
        mass_ratio = group.attrs['mass_ratio']
        return cls(threshold, mass_ratio)

    @classmethod
    def from_ace(cls, ace, idx):
        threshold = ace.xss[idx] * EV_PER_MEV
        mass_ratio = ace.xss[idx + 1]
        return cls(threshold, mass_ratio)

class ContinuousTabular(EnergyDistribution):

    def __init__(self, breakpoints, interpolation, energy, energy_out):
        super().__init__()
        self.breakpoints = breakpoints
        self.interpolation = interpolation
        self.energy = energy
        self.energy_out = energy_out

    @property
    def breakpoints(self):
        return self._breakpoints

    @property
    def interpolation(self):
        return self._interpolation

    @property
    def energy(self):
        return self._energy

    @property
    def energy_out(self):
        return self._energy_out

    @breakpoints.setter
    def breakpoints(self, breakpoints):
        cv.check_type('continuous tabular breakpoints', breakpoints, Iterable, Integral)
        self._breakpoints = breakpoints

    @interpolation.setter
    def interpolation(self, interpolation):
        cv.check_type('continuous tabular interpolation', interpolation, Iterable, Integral)
        self._interpolation = interpolation

    @energy.setter
    def energy(self, energy):
        cv.check_type('continuous tabular incoming energy', energy, Iterable, Real)
        self._energy = energy

    @energy_out.setter
    def energy_out(self, energy_out):
        cv.check_type('continuous tabular outgoing energy', energy_out, Iterable, Univariate)
        self._energy_out = energy_out

    def to_hdf5(self, group):
        group.attrs['type'] = np.string_('continuous')
        dset = group.create_dataset('energy', data=self.energy)
        dset.attrs['interpolation'] = np.vstack((self.breakpoints, self.interpolation))
        n_pairs = sum((len(d) for d in self.energy_out))
        pairs = np.empty((3, n_pairs))
        offsets = np.empty(len(self.energy_out), dtype=int)
        interpolation = np.empty(len(self.energy_out), dtype=int)
        n_discrete_lines = np.empty(len(self.energy_out), dtype=int)
        j = 0
        for i, eout in enumerate(self.energy_out):
            n = len(eout)
            offsets[i] = j
            if isinstance(eout, Mixture):
                discrete, continuous = eout.distribution
                n_discrete_lines[i] = m = len(discrete)
                interpolation[i] = 1 if continuous.interpolation == 'histogram' else 2
                pairs[0, j:j + m] = discrete.x
                pairs[1, j:j + m] = discrete.p
                pairs[2, j:j + m] = discrete.c
                pairs[0, j + m:j + n] = continuous.x
                pairs[1, j + m:j + n] = continuous.p
                pairs[2, j + m:j + n] = continuous.c
            else:
                if isinstance(eout, Tabular):
                    n_discrete_lines[i] = 0
                    interpolation[i] = 1 if eout.interpolation == 'histogram' else 2
                elif isinstance(eout, Discrete):
                    n_discrete_lines[i] = n
                    interpolation[i] = 1
                pairs[0, j:j + n] = eout.x
                pairs[1, j:j + n] = eout.p
                pairs[2, j:j + n] = eout.c
            j += n
        dset = group.create_dataset('distribution', data=pairs)
        dset.attrs['offsets'] = offsets
        dset.attrs['interpolation'] = interpolation
        dset.attrs['n_discrete_lines'] = n_discrete_lines

    @classmethod
    def from_hdf5(cls, group):
        interp_data = group['energy'].attrs['interpolation']
        energy_breakpoints = interp_data[0, :]
        energy_interpolation = interp_data[1, :]
        energy = group['energy'][()]
        data = group['distribution']
        offsets = data.attrs['offsets']
        interpolation = data.attrs['interpolation']
        n_discrete_lines = data.attrs['n_discrete_lines']
        energy_out = []
        n_energy = len(energy)
        for i in range(n_energy):
            j = offsets[i]
            if i < n_energy - 1:
                n = offsets[i + 1] - j
            else:
                n = data.shape[1] - j
            m = n_discrete_lines[i]
            if m > 0:
                eout_discrete = Discrete(data[0, j:j + m], data[1, j:j + m])
                eout_discrete.c = data[2, j:j + m]
                p_discrete = eout_discrete.c[-1]
            if m < n:
                interp = INTERPOLATION_SCHEME[interpolation[i]]
                eout_continuous = Tabular(data[0, j + m:j + n], data[1, j + m:j + n], interp)
                eout_continuous.c = data[2, j + m:j + n]
            if m == 0:
                eout_i = eout_continuous
            elif m == n:
                eout_i = eout_discrete
            else:
                eout_i = Mixture([p_discrete, 1.0 - p_discrete], [eout_discrete, eout_continuous])
            energy_out.append(eout_i)
        return cls(energy_breakpoints, energy_interpolation, energy, energy_out)

    @classmethod
    def from_ace(cls, ace, idx, ldis):
        n_regions = int(ace.xss[idx])
        n_energy_in = int(ace.xss[idx + 1 + 2 * n_regions])
        idx += 1
        if n_regions > 0:
            breakpoints = ace.xss[idx:idx + n_regions].astype(int)
            interpolation = ace.xss[idx + n_regions:idx + 2 * n_regions].astype(int)
        else:
            breakpoints = np.array([n_energy_in])
            interpolation = np.array([2])
        idx += 2 * n_regions + 1
        energy = ace.xss[idx:idx + n_energy_in] * EV_PER_MEV
        idx += n_energy_in
        loc_dist = ace.xss[idx:idx + n_energy_in].astype(int)
        energy_out = []
        for i in range(n_energy_in):
            idx = ldis + loc_dist[i] - 1
            INTTp = int(ace.xss[idx])
            intt = INTTp % 10
            n_discrete_lines = (INTTp - intt) // 10
            if intt not in (1, 2):
                warn('Interpolation scheme for continuous tabular distribution is not histogram or linear-linear.')
                intt = 2
            n_energy_out = int(ace.xss[idx + 1])
            data = ace.xss[idx + 2:idx + 2 + 3 * n_energy_out].copy()
            data.shape = (3, n_energy_out)
            data[0, :] *= EV_PER_MEV
            eout_continuous = Tabular(data[0][n_discrete_lines:], data[1][n_discrete_lines:] / EV_PER_MEV, INTERPOLATION_SCHEME[intt])
            eout_continuous.c = data[2][n_discrete_lines:]
            if n_discrete_lines > 0:
                eout_discrete = Discrete(data[0][:n_discrete_lines], data[1][:n_discrete_lines])
                eout_discrete.c = data[2][:n_discrete_lines]
                if n_discrete_lines == n_energy_out:
                    eout_i = eout_discrete
                else:
                    p_discrete = min(sum(eout_discrete.p), 1.0)
                    eout_i = Mixture([p_discrete, 1.0 - p_discrete], [eout_discrete, eout_continuous])
            else:
                eout_i = eout_continuous
            energy_out.append(eout_i)
        return cls(breakpoints, interpolation, energy, energy_out)
