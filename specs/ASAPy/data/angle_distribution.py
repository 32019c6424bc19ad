from collections.abc import Iterable
from io import StringIO
from numbers import Real
from warnings import warn
import numpy as np
from . import checkvalue as cv
from .mixin import EqualityMixin
from .univariate import Univariate, Tabular, Uniform, Legendre
from .function import INTERPOLATION_SCHEME
from .data import EV_PER_MEV
from .endf import get_head_record, get_cont_record, get_tab1_record, get_list_record, get_tab2_record

class AngleDistribution(EqualityMixin):

    def __init__(self, energy, mu):
        super().__init__()
        self.energy = energy
        self.mu = mu

    @property
    def energy(self):
        return self._energy

    @property
    def mu(self):
        return self._mu

    @energy.setter
    def energy(self, energy):
        cv.check_type('angle distribution incoming energy', energy, Iterable, Real)
        self._energy = energy

    @mu.setter
    def mu(self, mu):
        cv.check_type('angle distribution scattering cosines', mu, Iterable, Univariate)
        self._mu = mu

    def to_hdf5(self, group):
        dset = group.create_dataset('energy', data=self.energy)
        mu_tabular = [mu_i if isinstance(mu_i, Tabular) else mu_i.to_tabular() for mu_i in self.mu]
        n_pairs = sum([len(mu_i.x) for mu_i in mu_tabular])
        pairs = np.empty((3, n_pairs))
        offsets = np.empty(len(mu_tabular), dtype=int)
        interpolation = np.empty(len(mu_tabular), dtype=int)
        j = 0
        for i, mu_i in enumerate(mu_tabular):
            n = len(mu_i.x)
            offsets[i] = j
            interpolation[i] = 1 if mu_i.interpolation == 'histogram' else 2
            pairs[0, j:j + n] = mu_i.x
            pairs[1, j:j + n] = mu_i.p
            pairs[2, j:j + n] = mu_i.c
            j += n
        dset = group.create_dataset('mu', data=pairs)
        dset.attrs['offsets'] = offsets
        dset.attrs['interpolation'] = interpolation

    @classmethod
    def from_hdf5(cls, group):
        energy = group['energy'][()]
        data = group['mu']
        offsets = data.attrs['offsets']
        interpolation = data.attrs['interpolation']
        mu = []
        n_energy = len(energy)
        for i in range(n_energy):
            j = offsets[i]
            if i < n_energy - 1:
                n = offsets[i + 1] - j
            else:
                n = data.shape[1] - j
            interp = INTERPOLATION_SCHEME[interpolation[i]]
            mu_i = Tabular(data[0, j:j + n], data[1, j:j + n], interp)
            mu_i.c = data[2, j:j + n]
            mu.append(mu_i)
        return cls(energy, mu)

    @classmethod
    def from_ace(cls, ace, location_dist, location_start):
        idx = location_dist + location_start - 1
        n_energies = int(ace.xss[idx])
        idx += 1
        energy = ace.xss[idx:idx + n_energies] * EV_PER_MEV
        idx += n_energies
        lc = ace.xss[idx:idx + n_energies].astype(int)
        idx += n_energies
        mu = []
        for i in range(n_energies):
            if lc[i] > 0:
                idx = location_dist + abs(lc[i]) - 1
                cos = ace.xss[idx:idx + 33]
                pdf = np.zeros(33)
                pdf[:32] = 1.0 / (32.0 * np.diff(cos))
                cdf = np.linspace(0.0, 1.0, 33)
                mu_i = Tabular(cos, pdf, 'histogram', ignore_negative=True)
                mu_i.c = cdf
            elif lc[i] < 0:
                idx = location_dist + abs(lc[i]) - 1
                intt = int(ace.xss[idx])
                n_points = int(ace.xss[idx + 1])
                data = ace.xss[idx + 2:idx + 2 + 3 * n_points]
                data.shape = (3, n_points)
                mu_i = Tabular(data[0], data[1], INTERPOLATION_SCHEME[intt])
                mu_i.c = data[2]
            else:
                mu_i = Uniform(-1.0, 1.0)
            mu.append(mu_i)
        return cls(energy, mu)

    @classmethod
    def from_endf(cls, ev, mt):
        file_obj = StringIO(ev.section[4, mt])
        items = get_head_record(file_obj)
        lvt = items[2]
        ltt = items[3]
        items = get_cont_record(file_obj)
        li = items[2]
        nk = items[4]
        center_of_mass = items[3] == 2
        if lvt > 0:
            warn('Obsolete energy transformation matrix in MF=4 angular distribution.')
            for _ in range((nk + 5) // 6):
                file_obj.readline()
        if ltt == 0 and li == 1:
            energy = np.array([0.0, ev.info['energy_max']])
            mu = [Uniform(-1.0, 1.0), Uniform(-1.0, 1.0)]
        elif ltt == 1 and li == 0:
            params, tab2 = get_tab2_record(file_obj)
            n_energy = params[5]
            energy = np.zeros(n_energy)
            mu = []
            for i in range(n_energy):
                items, al = get_list_record(file_obj)
                temperature = items[0]
                energy[i] = items[1]
                coefficients = np.asarray([1.0] + al)
                mu.append(Legendre(coefficients))
        elif ltt == 2 and li == 0:
            params, tab2 = get_tab2_record(file_obj)
            n_energy = params[5]
            energy = np.zeros(n_energy)
            mu = []
            for i in range(n_energy):
                params, f = get_tab1_record(file_obj)
                temperature = params[0]
                energy[i] = params[1]
                if f.n_regions > 1:
                    raise NotImplementedError('Angular distribution with multiple interpolation regions not supported.')
                mu.append(Tabular(f.x, f.y, INTERPOLATION_SCHEME[f.interpolation[0]]))
        elif ltt == 3 and li == 0:
            params, tab2 = get_tab2_record(file_obj)
            n_energy_legendre = params[5]
            energy_legendre = np.zeros(n_energy_legendre)
            mu = []
            for i in range(n_energy_legendre):
                items, al = get_list_record(file_obj)
                temperature = items[0]
                energy_legendre[i] = items[1]
                coefficients = np.asarray([1.0] + al)
                mu.append(Legendre(coefficients))
            params, tab2 = get_tab2_record(file_obj)
            n_energy_tabulated = params[5]
            energy_tabulated = np.zeros(n_energy_tabulated)
            for i in range(n_energy_tabulated):
                params, f = get_tab1_record(file_obj)
                temperature = params[0]
                energy_tabulated[i] = params[1]
                if f.n_regions > 1:
                    raise NotImplementedError('Angular distribution with multiple interpolation regions not supported.')
                mu.append(Tabular(f.x, f.y, INTERPOLATION_SCHEME[f.interpolation[0]]))
            energy = np.concatenate((energy_legendre, energy_tabulated))
        return AngleDistribution(energy, mu)
