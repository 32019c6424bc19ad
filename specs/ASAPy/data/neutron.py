import sys
from collections import OrderedDict
from collections.abc import Iterable, Mapping, MutableMapping
from io import StringIO
from math import log10
from numbers import Integral, Real
import os
import shutil
import tempfile
from warnings import warn
import numpy as np
import h5py
from .ace import Library, Table, get_table, get_metadata
from .data import ATOMIC_SYMBOL, K_BOLTZMANN, EV_PER_MEV
from .endf import Evaluation, SUM_RULES, get_head_record, get_tab1_record
from .fission_energy import FissionEnergyRelease
from .function import Tabulated1D, Sum, ResonancesWithBackground
from .grid import linearize, thin
from .njoy import make_ace
from .product import Product
from .reaction import Reaction, _get_photon_products_ace
from . import resonance as res
from . import resonance_covariance as res_cov
from .urr import ProbabilityTables
from . import checkvalue as cv
from .mixin import EqualityMixin
from . import HDF5_VERSION, HDF5_VERSION_MAJOR
_RESONANCE_ENERGY_GRID = np.logspace(-3, 3, 61)

class IncidentNeutron(EqualityMixin):

    def __init__(self, name, atomic_number, mass_number, metastable, atomic_weight_ratio, kTs):
        self.name = name
        self.atomic_number = atomic_number
        self.mass_number = mass_number
        self.metastable = metastable
        self.atomic_weight_ratio = atomic_weight_ratio
        self.kTs = kTs
        self.energy = {}
        self._fission_energy = None
        self.reactions = OrderedDict()
        self._urr = {}
        self._resonances = None
        self._resonance_covariance = None

    def __contains__(self, mt):
        return mt in self.reactions

    def __getitem__(self, mt):
        if mt in self.reactions:
            return self.reactions[mt]
        else:
            raise KeyError('No reaction with MT={}.'.format(mt))

    def __repr__(self):
        return '<IncidentNeutron: {}>'.format(self.name)

    def __iter__(self):
        return iter(self.reactions.values())

    @property
    def name(self):
        return self._name

    @property
    def atomic_number(self):
        return self._atomic_number

    @property
    def mass_number(self):
        return self._mass_number

    @property
    def metastable(self):
        return self._metastable

    @property
    def atomic_weight_ratio(self):
        return self._atomic_weight_ratio

    @property
    def fission_energy(self):
        return self._fission_energy

    @property
    def reactions(self):
        return self._reactions

    @property
    def resonances(self):
        return self._resonances

    @property
    def resonance_covariance(self):
        return self._resonance_covariance

    @property
    def urr(self):
        return self._urr

    @property
    def temperatures(self):
        return ['{}K'.format(int(round(kT / K_BOLTZMANN))) for kT in self.kTs]

    @name.setter
    def name(self, name):
        cv.check_type('name', name, str)
        self._name = name

    @property
    def atomic_symbol(self):
        return ATOMIC_SYMBOL[self.atomic_number]

    @atomic_number.setter
    def atomic_number(self, atomic_number):
        cv.check_type('atomic number', atomic_number, Integral)
        cv.check_greater_than('atomic number', atomic_number, 0, True)
        self._atomic_number = atomic_number

    @mass_number.setter
    def mass_number(self, mass_number):
        cv.check_type('mass number', mass_number, Integral)
        cv.check_greater_than('mass number', mass_number, 0, True)
        self._mass_number = mass_number

    @metastable.setter
    def metastable(self, metastable):
        cv.check_type('metastable', metastable, Integral)
        cv.check_greater_than('metastable', metastable, 0, True)
        self._metastable = metastable

    @atomic_weight_ratio.setter
    def atomic_weight_ratio(self, atomic_weight_ratio):
        cv.check_type('atomic weight ratio', atomic_weight_ratio, Real)
        cv.check_greater_than('atomic weight ratio', atomic_weight_ratio, 0.0)
        self._atomic_weight_ratio = atomic_weight_ratio

    @fission_energy.setter
    def fission_energy(self, fission_energy):
        cv.check_type('fission energy release', fission_energy, FissionEnergyRelease)
        self._fission_energy = fission_energy

    @reactions.setter
    def reactions(self, reactions):
        cv.check_type('reactions', reactions, Mapping)
        self._reactions = reactions

    @resonances.setter
    def resonances(self, resonances):
        cv.check_type('resonances', resonances, res.Resonances)
        self._resonances = resonances

    @resonance_covariance.setter
    def resonance_covariance(self, resonance_covariance):
        cv.check_type('resonance covariance', resonance_covariance, res_cov.ResonanceCovariances)
        self._resonance_covariance = resonance_covariance

    @urr.setter
    def urr(self, urr):
        cv.check_type('probability table dictionary', urr, MutableMapping)
        for key, value in urr.items():
            cv.check_type('probability table temperature', key, str)
            cv.check_type('probability tables', value, ProbabilityTables)
        self._urr = urr

    def add_temperature_from_ace(self, ace_or_filename, metastable_scheme='nndc'):
        data = IncidentNeutron.from_ace(ace_or_filename, metastable_scheme)
        strT = data.temperatures[0]
        if strT in self.temperatures:
            warn('Cross sections at T={} already exist.'.format(strT))
            return
        if data.name != self.name:
            raise ValueError('Data provided for an incorrect nuclide.')
        self.kTs += data.kTs
        self.energy[strT] = data.energy[strT]
        for mt in data.reactions:
            if mt in self:
                self[mt].xs[strT] = data[mt].xs[strT]
            else:
                warn("Tried to add cross sections for MT={} at T={} but this reaction doesn't exist.".format(mt, strT))
        if strT in data.urr:
            self.urr[strT] = data.urr[strT]

    def add_elastic_0K_from_endf(self, filename, overwrite=False):
        if '0K' in self.energy and (not overwrite):
            raise ValueError('0 K data already exists for this nuclide.')
        data = type(self).from_endf(filename)
        if data.resonances is not None:
            x = []
            y = []
            for rr in data.resonances:
                if isinstance(rr, res.RMatrixLimited):
                    raise TypeError('R-Matrix Limited not supported.')
                elif isinstance(rr, res.Unresolved):
                    continue
                e_peak = rr.parameters['energy'].values
                if isinstance(rr, res.MultiLevelBreitWigner):
                    gamma = rr.parameters['totalWidth'].values
                elif isinstance(rr, res.ReichMoore):
                    df = rr.parameters
                    gamma = (df['neutronWidth'] + df['captureWidth'] + abs(df['fissionWidthA']) + abs(df['fissionWidthB'])).values
                e_min, e_max = (rr.energy_min, rr.energy_max)
                in_range = (e_peak > e_min) & (e_peak < e_max)
                e_peak = e_peak[in_range]
                gamma = gamma[in_range]
                e_mid = np.concatenate(([e_min], (e_peak[1:] + e_peak[:-1]) / 2, [e_max]))
                energies = []
                for e, g, e_lower, e_upper in zip(e_peak, gamma, e_mid[:-1], e_mid[1:]):
                    e_left = e - g * _RESONANCE_ENERGY_GRID
                    energies.append(e_left[e_left > e_lower][::-1])
                    e_right = e + g * _RESONANCE_ENERGY_GRID[1:]
                    energies.append(e_right[e_right < e_upper])
                energies = np.concatenate(energies)
                e_log = np.logspace(log10(e_min), log10(e_max), 1000)
                energies = np.union1d(e_log, energies)
                xi, yi = linearize(energies, data[2].xs['0K'])
                xi, yi = thin(xi, yi)
                x = np.concatenate((x, xi))
                y = np.concatenate((y, yi))
        else:
            energies = data[2].xs['0K'].x
            x, y = linearize(energies, data[2].xs['0K'])
            x, y = thin(x, y)
        self.energy['0K'] = x
        self[2].xs['0K'] = Tabulated1D(x, y)

    def get_reaction_components(self, mt):
        mts = []
        if mt in SUM_RULES:
            for mt_i in SUM_RULES[mt]:
                mts += self.get_reaction_components(mt_i)
        if mts:
            return mts
        else:
            return [mt] if mt in self else []

    def export_to_hdf5(self, path, mode='a', libver='earliest'):
        if hasattr(self, '_evaluation'):
            raise NotImplementedError('Cannot export incident neutron data that originated from an ENDF file.')
        f = h5py.File(str(path), mode, libver=libver)
        f.attrs['filetype'] = np.string_('data_neutron')
        f.attrs['version'] = np.array(HDF5_VERSION)
        g = f.create_group(self.name)
        g.attrs['Z'] = self.atomic_number
        g.attrs['A'] = self.mass_number
        g.attrs['metastable'] = self.metastable
        g.attrs['atomic_weight_ratio'] = self.atomic_weight_ratio
        ktg = g.create_group('kTs')
        for i, temperature in enumerate(self.temperatures):
            ktg.create_dataset(temperature, data=self.kTs[i])
        eg = g.create_group('energy')
        for temperature in self.temperatures:
            eg.create_dataset(temperature, data=self.energy[temperature])
        if '0K' in self.energy and '0K' not in eg:
            eg.create_dataset('0K', data=self.energy['0K'])
        rxs_group = g.create_group('reactions')
        for rx in self.reactions.values():
            if rx.redundant:
                photon_rx = any((p.particle == 'photon' for p in rx.products))
                transmutation_rx = rx.mt in (16, 103, 104, 105, 106, 107)
                if not (photon_rx or transmutation_rx or rx.mt == 4):
                    continue
            rx_group = rxs_group.create_group('reaction_{:03}'.format(rx.mt))
            rx.to_hdf5(rx_group)
            if len(rx.derived_products) > 0 and 'total_nu' not in g:
                tgroup = g.create_group('total_nu')
                rx.derived_products[0].to_hdf5(tgroup)
        if self.urr:
            urr_group = g.create_group('urr')
            for temperature, urr in self.urr.items():
                tgroup = urr_group.create_group(temperature)
                urr.to_hdf5(tgroup)
        if self.fission_energy is not None:
            fer_group = g.create_group('fission_energy_release')
            self.fission_energy.to_hdf5(fer_group)
        f.close()

    @classmethod
    def from_hdf5(cls, group_or_filename):
        if isinstance(group_or_filename, h5py.Group):
            group = group_or_filename
        else:
            h5file = h5py.File(str(group_or_filename), 'r')
            if 'version' in h5file.attrs:
                major, minor = h5file.attrs['version']
            else:
                raise IOError('HDF5 data does not indicate a version. Your installation of the OpenMC Python API expects version {}.x data.'.format(HDF5_VERSION_MAJOR))
            group = list(h5file.values())[0]
        name = group.name[1:]
        atomic_number = group.attrs['Z']
        mass_number = group.attrs['A']
        metastable = group.attrs['metastable']
        atomic_weight_ratio = group.attrs['atomic_weight_ratio']
        kTg = group['kTs']
        kTs = []
        for temp in kTg:
            kTs.append(kTg[temp][()])
        data = cls(name, atomic_number, mass_number, metastable, atomic_weight_ratio, kTs)
        e_group = group['energy']
        for temperature, dset in e_group.items():
            data.energy[temperature] = dset[()]
        rxs_group = group['reactions']
        for name, obj in sorted(rxs_group.items()):
            if name.startswith('reaction_'):
                rx = Reaction.from_hdf5(obj, data.energy)
                data.reactions[rx.mt] = rx
                if rx.mt in (18, 19, 20, 21, 38) and 'total_nu' in group:
                    tgroup = group['total_nu']
                    rx.derived_products.append(Product.from_hdf5(tgroup))
        for mt_sum in sorted(SUM_RULES, reverse=True):
            if mt_sum not in data:
                rxs = [data[mt] for mt in SUM_RULES[mt_sum] if mt in data]
                if len(rxs) > 0:
                    data.reactions[mt_sum] = rx = Reaction(mt_sum)
                    rx.redundant = True
                    if rx.mt == 18 and 'total_nu' in group:
                        tgroup = group['total_nu']
                        rx.derived_products.append(Product.from_hdf5(tgroup))
                    for T in data.temperatures:
                        rx.xs[T] = Sum([rx_i.xs[T] for rx_i in rxs])
        if 'urr' in group:
            urr_group = group['urr']
            for temperature, tgroup in urr_group.items():
                data.urr[temperature] = ProbabilityTables.from_hdf5(tgroup)
        if 'fission_energy_release' in group:
            fer_group = group['fission_energy_release']
            data.fission_energy = FissionEnergyRelease.from_hdf5(fer_group)
        return data

    @classmethod
    def from_ace(cls, ace_or_filename, metastable_scheme='mcnp'):
        if isinstance(ace_or_filename, Table):
            ace = ace_or_filename
        else:
            ace = get_table(ace_or_filename)
        zaid, xs = ace.name.split('.')
        name, element, Z, mass_number, metastable = get_metadata(int(zaid), metastable_scheme)
        kTs = [ace.temperature * EV_PER_MEV]
        data = cls(name, Z, mass_number, metastable, ace.atomic_weight_ratio, kTs)
        strT = data.temperatures[0]
        n_energy = ace.nxs[3]
        energy = ace.xss[ace.jxs[1]:ace.jxs[1] + n_energy] * EV_PER_MEV
        data.energy[strT] = energy
        total_xs = ace.xss[ace.jxs[1] + n_energy:ace.jxs[1] + 2 * n_energy]
        absorption_xs = ace.xss[ace.jxs[1] + 2 * n_energy:ace.jxs[1] + 3 * n_energy]
        total = Reaction(1)
        total.xs[strT] = Tabulated1D(energy, total_xs)
        total.redundant = True
        data.reactions[1] = total
        if np.count_nonzero(absorption_xs) > 0:
            absorption = Reaction(101)
            absorption.xs[strT] = Tabulated1D(energy, absorption_xs)
            absorption.redundant = True
            data.reactions[101] = absorption
        n_reaction = ace.nxs[4] + 1
        for i in range(n_reaction):
            rx = Reaction.from_ace(ace, i)
            if 200 < rx.mt < 219 or rx.mt == 444:
                continue
            data.reactions[rx.mt] = rx
        n_photon_reactions = ace.nxs[6]
        photon_mts = ace.xss[ace.jxs[13]:ace.jxs[13] + n_photon_reactions].astype(int)
        for mt in np.unique(photon_mts // 1000):
            if mt not in data:
                if mt not in SUM_RULES:
                    warn('Photon production is present for MT={} but no cross section is given.'.format(mt))
                    continue
                mts = data.get_reaction_components(mt)
                if len(mts) == 0:
                    warn('Photon production is present for MT={} but no reaction components exist.'.format(mt))
                    continue
                rx = data._get_redundant_reaction(mt, mts)
                rx.products += _get_photon_products_ace(ace, rx)
                if mt == 3:
                    data.reactions[101] = absorption
                else:
                    data.reactions[mt] = rx
        for mt in (16, 103, 104, 105, 106, 107):
            if mt not in data:
                mts = data.get_reaction_components(mt)
                if len(mts) == 0:
                    continue
                rx = data._get_redundant_reaction(mt, mts)
                data.reactions[mt] = rx
        for rx in data:
            mts = data.get_reaction_components(rx.mt)
            if mts != [rx.mt]:
                rx.redundant = True
        urr = ProbabilityTables.from_ace(ace)
        if urr is not None:
            data.urr[strT] = urr
        return data

    @classmethod
    def from_endf(cls, ev_or_filename, covariance=False):
        if isinstance(ev_or_filename, Evaluation):
            ev = ev_or_filename
        else:
            ev = Evaluation(ev_or_filename)
        atomic_number = ev.target['atomic_number']
        mass_number = ev.target['mass_number']
        metastable = ev.target['isomeric_state']
        atomic_weight_ratio = ev.target['mass']
        temperature = ev.target['temperature']
        element = ATOMIC_SYMBOL[atomic_number]
        if metastable > 0:
            name = '{}{}_m{}'.format(element, mass_number, metastable)
        else:
            name = '{}{}'.format(element, mass_number)
        data = cls(name, atomic_number, mass_number, metastable, atomic_weight_ratio, [temperature * K_BOLTZMANN])
        if (2, 151) in ev.section:
            data.resonances = res.Resonances.from_endf(ev)
        if (32, 151) in ev.section and covariance:
            data.resonance_covariance = res_cov.ResonanceCovariances.from_endf(ev, data.resonances)
        for mf, mt, nc, mod in ev.reaction_list:
            if mf == 3:
                data.reactions[mt] = Reaction.from_endf(ev, mt)
        try:
            if any((isinstance(r, res._RESOLVED) for r in data.resonances)):
                for mt in (2, 102, 18):
                    if mt in data.reactions:
                        rx = data.reactions[mt]
                        rx.xs['0K'] = ResonancesWithBackground(data.resonances, rx.xs['0K'], mt)
        except ValueError:
            pass
        for mt, rx in data.reactions.items():
            if mt in (19, 20, 21, 38):
                if (5, mt) not in ev.section:
                    neutron = data.reactions[18].products[0]
                    rx.products[0].applicability = neutron.applicability
                    rx.products[0].distribution = neutron.distribution
        if (1, 458) in ev.section:
            data.fission_energy = FissionEnergyRelease.from_endf(ev, data)
        data._evaluation = ev
        return data

    @classmethod
    def from_njoy(cls, filename, temperatures=None, **kwargs):
        with tempfile.TemporaryDirectory() as tmpdir:
            ace_file = os.path.join(tmpdir, 'ace')
            xsdir_file = os.path.join(tmpdir, 'xsdir')
            pendf_file = os.path.join(tmpdir, 'pendf')
            make_ace(filename, temperatures, ace_file, xsdir_file, pendf_file, **kwargs)
            lib = Library(ace_file)
            data = cls.from_ace(lib.tables[0])
            for table in lib.tables[1:]:
                data.add_temperature_from_ace(table)
            ev = Evaluation(filename)
            if (1, 458) in ev.section:
                data.fission_energy = FissionEnergyRelease.from_endf(ev, data)
            if '0K' not in data.energy:
                pendf = Evaluation(pendf_file)
                file_obj = StringIO(pendf.section[3, 2])
                get_head_record(file_obj)
                params, xs = get_tab1_record(file_obj)
                data.energy['0K'] = xs.x
                data[2].xs['0K'] = xs
        return data

    def _get_redundant_reaction(self, mt, mts):
        strT = self.temperatures[0]
        energy = self.energy[strT]
        rx = Reaction(mt)
        xss = [self.reactions[mt_i].xs[strT] for mt_i in mts]
        idx = min([xs._threshold_idx if hasattr(xs, '_threshold_idx') else 0 for xs in xss])
        rx.xs[strT] = Tabulated1D(energy[idx:], Sum(xss)(energy[idx:]))
        rx.xs[strT]._threshold_idx = idx
        rx.redundant = True
        return rx
