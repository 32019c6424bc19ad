from collections import OrderedDict
from collections.abc import Mapping, Callable
from copy import deepcopy
from io import StringIO
from numbers import Integral, Real
import os
import h5py
import numpy as np
import pandas as pd
from scipy.interpolate import CubicSpline
from .mixin import EqualityMixin
from . import checkvalue as cv
from . import HDF5_VERSION
from .ace import Table, get_metadata, get_table
from .data import ATOMIC_SYMBOL, EV_PER_MEV
from .endf import Evaluation, get_head_record, get_tab1_record, get_list_record
from .function import Tabulated1D
_SUBSHELLS = ['K', 'L1', 'L2', 'L3', 'M1', 'M2', 'M3', 'M4', 'M5', 'N1', 'N2', 'N3', 'N4', 'N5', 'N6', 'N7', 'O1', 'O2', 'O3', 'O4', 'O5', 'O6', 'O7', 'O8', 'O9', 'P1', 'P2', 'P3', 'P4', 'P5', 'P6', 'P7', 'P8', 'P9', 'P10', 'P11', 'Q1', 'Q2', 'Q3']

def _subshell(i):
    if i == 0:
        return None
    else:
        return _SUBSHELLS[i - 1]
_REACTION_NAME = {501: 'Total photon interaction', 502: 'Photon coherent scattering', 504: 'Photon incoherent scattering', 515: 'Pair production, electron field', 516: 'Total pair production', 517: 'Pair production, nuclear field', 522: 'Photoelectric absorption', 526: 'Electro-atomic scattering', 527: 'Electro-atomic bremsstrahlung', 528: 'Electro-atomic excitation', 534: 'K (1s1/2) subshell photoelectric', 535: 'L1 (2s1/2) subshell photoelectric', 536: 'L2 (2p1/2) subshell photoelectric', 537: 'L3 (2p3/2) subshell photoelectric', 538: 'M1 (3s1/2) subshell photoelectric', 539: 'M2 (3p1/2) subshell photoelectric', 540: 'M3 (3p3/2) subshell photoelectric', 541: 'M4 (3d3/2) subshell photoelectric', 542: 'M5 (3d5/2) subshell photoelectric', 543: 'N1 (4s1/2) subshell photoelectric', 544: 'N2 (4p1/2) subshell photoelectric', 545: 'N3 (4p3/2) subshell photoelectric', 546: 'N4 (4d3/2) subshell photoelectric', 547: 'N5 (4d5/2) subshell photoelectric', 548: 'N6 (4f5/2) subshell photoelectric', 549: 'N7 (4f7/2) subshell photoelectric', 550: 'O1 (5s1/2) subshell photoelectric', 551: 'O2 (5p1/2) subshell photoelectric', 552: 'O3 (5p3/2) subshell photoelectric', 553: 'O4 (5d3/2) subshell photoelectric', 554: 'O5 (5d5/2) subshell photoelectric', 555: 'O6 (5f5/2) subshell photoelectric', 556: 'O7 (5f7/2) subshell photoelectric', 557: 'O8 (5g7/2) subshell photoelectric', 558: 'O9 (5g9/2) subshell photoelectric', 559: 'P1 (6s1/2) subshell photoelectric', 560: 'P2 (6p1/2) subshell photoelectric', 561: 'P3 (6p3/2) subshell photoelectric', 562: 'P4 (6d3/2) subshell photoelectric', 563: 'P5 (6d5/2) subshell photoelectric', 564: 'P6 (6f5/2) subshell photoelectric', 565: 'P7 (6f7/2) subshell photoelectric', 566: 'P8 (6g7/2) subshell photoelectric', 567: 'P9 (6g9/2) subshell photoelectric', 568: 'P10 (6h9/2) subshell photoelectric', 569: 'P11 (6h11/2) subshell photoelectric', 570: 'Q1 (7s1/2) subshell photoelectric', 571: 'Q2 (7p1/2) subshell photoelectric', 572: 'Q3 (7p3/2) subshell photoelectric'}
_COMPTON_PROFILES = {}
_STOPPING_POWERS = {}
_BREMSSTRAHLUNG = {}

class AtomicRelaxation(EqualityMixin):

    def __init__(self, binding_energy, num_electrons, transitions):
        self.binding_energy = binding_energy
        self.num_electrons = num_electrons
        self.transitions = transitions

    @property
    def binding_energy(self):
        return self._binding_energy

    @property
    def num_electrons(self):
        return self._num_electrons

    @property
    def subshells(self):
        return list(sorted(self.binding_energy.keys()))

    @property
    def transitions(self):
        return self._transitions

    @binding_energy.setter
    def binding_energy(self, binding_energy):
        cv.check_type('binding energies', binding_energy, Mapping)
        for subshell, energy in binding_energy.items():
            cv.check_value('subshell', subshell, _SUBSHELLS)
            cv.check_type('binding energy', energy, Real)
            cv.check_greater_than('binding energy', energy, 0.0, True)
        self._binding_energy = binding_energy

    @num_electrons.setter
    def num_electrons(self, num_electrons):
        cv.check_type('number of electrons', num_electrons, Mapping)
        for subshell, num in num_electrons.items():
            cv.check_value('subshell', subshell, _SUBSHELLS)
            cv.check_type('number of electrons', num, Real)
            cv.check_greater_than('number of electrons', num, 0.0, True)
        self._num_electrons = num_electrons

    @transitions.setter
    def transitions(self, transitions):
        cv.check_type('transitions', transitions, Mapping)
        for subshell, df in transitions.items():
            cv.check_value('subshell', subshell, _SUBSHELLS)
            cv.check_type('transitions', df, pd.DataFrame)
        self._transitions = transitions

    @classmethod
    def from_ace(cls, ace):
        binding_energy = {}
        num_electrons = {}
        transitions = {}
        n = ace.nxs[7]
        idx = ace.jxs[11]
        shells = [_subshell(int(i)) for i in ace.xss[idx:idx + n]]
        idx = ace.jxs[12]
        for shell, num in zip(shells, ace.xss[idx:idx + n]):
            num_electrons[shell] = num
        idx = ace.jxs[13]
        for shell, e in zip(shells, ace.xss[idx:idx + n]):
            binding_energy[shell] = e * EV_PER_MEV
        columns = ['secondary', 'tertiary', 'energy (eV)', 'probability']
        idx = ace.jxs[18]
        for i, subi in enumerate(shells):
            n_transitions = int(ace.xss[ace.jxs[15] + i])
            if n_transitions > 0:
                records = []
                for j in range(n_transitions):
                    subj = _subshell(int(ace.xss[idx]))
                    subk = _subshell(int(ace.xss[idx + 1]))
                    etr = ace.xss[idx + 2] * EV_PER_MEV
                    if j == 0:
                        ftr = ace.xss[idx + 3]
                    else:
                        ftr = ace.xss[idx + 3] - ace.xss[idx - 1]
                    records.append((subj, subk, etr, ftr))
                    idx += 4
                transitions[subi] = pd.DataFrame.from_records(records, columns=columns)
        return cls(binding_energy, num_electrons, transitions)

    @classmethod
    def from_endf(cls, ev_or_filename):
        if isinstance(ev_or_filename, Evaluation):
            ev = ev_or_filename
        else:
            ev = Evaluation(ev_or_filename)
        if (28, 533) not in ev.section:
            raise IOError('{} does not appear to be an atomic relaxation sublibrary.'.format(ev))
        file_obj = StringIO(ev.section[28, 533])
        params = get_head_record(file_obj)
        n_subshells = params[4]
        binding_energy = {}
        num_electrons = {}
        transitions = {}
        columns = ['secondary', 'tertiary', 'energy (eV)', 'probability']
        for i in range(n_subshells):
            params, list_items = get_list_record(file_obj)
            subi = _subshell(int(params[0]))
            n_transitions = int(params[5])
            binding_energy[subi] = list_items[0]
            num_electrons[subi] = list_items[1]
            if n_transitions > 0:
                records = []
                for j in range(n_transitions):
                    subj = _subshell(int(list_items[6 * (j + 1)]))
                    subk = _subshell(int(list_items[6 * (j + 1) + 1]))
                    etr = list_items[6 * (j + 1) + 2]
                    ftr = list_items[6 * (j + 1) + 3]
                    records.append((subj, subk, etr, ftr))
                transitions[subi] = pd.DataFrame.from_records(records, columns=columns)
        return cls(binding_energy, num_electrons, transitions)

    def to_hdf5(self, group):
        raise NotImplementedError

class IncidentPhoton(EqualityMixin):

    def __init__(self, atomic_number):
        self.atomic_number = atomic_number
        self._atomic_relaxation = None
        self.reactions = OrderedDict()
        self.compton_profiles = {}
        self.stopping_powers = {}
        self.bremsstrahlung = {}

    def __contains__(self, mt):
        return mt in self.reactions

    def __getitem__(self, mt):
        if mt in self.reactions:
            return self.reactions[mt]
        else:
            raise KeyError('No reaction with MT={}.'.format(mt))

    def __repr__(self):
        return '<IncidentPhoton: {}>'.format(self.name)

    def __iter__(self):
        return iter(self.reactions.values())

    @property
    def atomic_number(self):
        return self._atomic_number

    @property
    def atomic_relaxation(self):
        return self._atomic_relaxation

    @property
    def name(self):
        return ATOMIC_SYMBOL[self.atomic_number]

    @atomic_number.setter
    def atomic_number(self, atomic_number):
        cv.check_type('atomic number', atomic_number, Integral)
        cv.check_greater_than('atomic number', atomic_number, 0, True)
        self._atomic_number = atomic_number

    @atomic_relaxation.setter
    def atomic_relaxation(self, atomic_relaxation):
        cv.check_type('atomic relaxation data', atomic_relaxation, AtomicRelaxation)
        self._atomic_relaxation = atomic_relaxation

    @classmethod
    def from_ace(cls, ace_or_filename):
        if isinstance(ace_or_filename, Table):
            ace = ace_or_filename
        else:
            ace = get_table(ace_or_filename)
        zaid = ace.name.split('.')[0]
        Z = get_metadata(int(zaid))[2]
        data = cls(Z)
        for mt in (502, 504, 515, 522):
            data.reactions[mt] = PhotonReaction.from_ace(ace, mt)
        n_shell = ace.nxs[5]
        if n_shell != 0:
            idx = ace.jxs[6]
            data.compton_profiles['num_electrons'] = ace.xss[idx:idx + n_shell]
            idx = ace.jxs[7]
            e = ace.xss[idx:idx + n_shell] * EV_PER_MEV
            data.compton_profiles['binding_energy'] = e
            profiles = []
            for k in range(n_shell):
                loca = int(ace.xss[ace.jxs[9] + k])
                jj = int(ace.xss[ace.jxs[10] + loca - 1])
                m = int(ace.xss[ace.jxs[10] + loca])
                idx = ace.jxs[10] + loca + 1
                pz = ace.xss[idx:idx + m]
                pdf = ace.xss[idx + m:idx + 2 * m]
                J_k = Tabulated1D(pz, pdf, [m], [jj])
                profiles.append(J_k)
            data.compton_profiles['J'] = profiles
        if ace.nxs[7] > 0:
            data.atomic_relaxation = AtomicRelaxation.from_ace(ace)
            n_subshells = ace.nxs[7]
            idx = ace.jxs[11]
            designators = [int(i) for i in ace.xss[idx:idx + n_subshells]]
            n_energy = ace.nxs[3]
            idx = ace.jxs[1]
            energy = np.exp(ace.xss[idx:idx + n_energy]) * EV_PER_MEV
            idx = ace.jxs[16]
            for d in designators:
                mt = 533 + d
                rx = PhotonReaction(mt)
                data.reactions[mt] = rx
                xs = ace.xss[idx:idx + n_energy].copy()
                nonzero = xs != 0.0
                xs[nonzero] = np.exp(xs[nonzero])
                rx.xs = Tabulated1D(energy, xs, [n_energy], [5])
                idx += n_energy
                shell = _subshell(d)
                e = data.atomic_relaxation.binding_energy[shell]
                rx.subshell_binding_energy = e
        return data

    @classmethod
    def from_endf(cls, photoatomic, relaxation=None):
        if isinstance(photoatomic, Evaluation):
            ev = photoatomic
        else:
            ev = Evaluation(photoatomic)
        Z = ev.target['atomic_number']
        data = cls(Z)
        for mf, mt, nc, mod in ev.reaction_list:
            if mf == 23:
                data.reactions[mt] = PhotonReaction.from_endf(ev, mt)
        if relaxation is not None:
            data.atomic_relaxation = AtomicRelaxation.from_endf(relaxation)
        if not _COMPTON_PROFILES:
            filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
            with h5py.File(filename, 'r') as f:
                _COMPTON_PROFILES['pz'] = f['pz'][()]
                for i in range(1, 101):
                    group = f['{:03}'.format(i)]
                    num_electrons = group['num_electrons'][()]
                    binding_energy = group['binding_energy'][()] * EV_PER_MEV
                    J = group['J'][()]
                    _COMPTON_PROFILES[i] = {'num_electrons': num_electrons, 'binding_energy': binding_energy, 'J': J}
        pz = _COMPTON_PROFILES['pz']
        profile = _COMPTON_PROFILES[Z]
        data.compton_profiles['num_electrons'] = profile['num_electrons']
        data.compton_profiles['binding_energy'] = profile['binding_energy']
        data.compton_profiles['J'] = [Tabulated1D(pz, J_k) for J_k in profile['J']]
        if not _STOPPING_POWERS:
            filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
            with h5py.File(filename, 'r') as f:
                _STOPPING_POWERS['energy'] = f['energy'][()] * EV_PER_MEV
                for i in range(1, 99):
                    group = f['{:03}'.format(i)]
                    _STOPPING_POWERS[i] = {'I': group.attrs['I'], 's_collision': group['s_collision'][()] * EV_PER_MEV, 's_radiative': group['s_radiative'][()] * EV_PER_MEV}
        if Z < 99:
            data.stopping_powers['energy'] = _STOPPING_POWERS['energy']
            data.stopping_powers.update(_STOPPING_POWERS[Z])
        if not _BREMSSTRAHLUNG:
            filename = os.path.join(os.path.dirname(__file__), 'BREMX.DAT')
            brem = open(filename, 'r').read().split()
            _BREMSSTRAHLUNG['electron_energy'] = np.logspace(3, 9, 200)
            log_energy = np.log(_BREMSSTRAHLUNG['electron_energy'])
            n = int(brem[37])
            k = int(brem[38])
            p = 39
            logx = np.log(np.fromiter(brem[p:p + n], float, n) * EV_PER_MEV)
            p += n
            _BREMSSTRAHLUNG['photon_energy'] = np.fromiter(brem[p:p + k], float, k)
            p += k
            for i in range(1, 101):
                dcs = np.empty([len(log_energy), k])
                y = np.reshape(np.fromiter(brem[p:p + n * k], float, n * k), (n, k)) * 0.001
                p += k * n
                for j in range(k):
                    cs = CubicSpline(logx, y[:, j])
                    dcs[:, j] = cs(log_energy)
                _BREMSSTRAHLUNG[i] = {'dcs': dcs}
        data.bremsstrahlung['electron_energy'] = _BREMSSTRAHLUNG['electron_energy']
        data.bremsstrahlung['photon_energy'] = _BREMSSTRAHLUNG['photon_energy']
        data.bremsstrahlung['dcs'] = _BREMSSTRAHLUNG[Z]['dcs']
        return data

    def export_to_hdf5(self, path, mode='a', libver='earliest'):
        f = h5py.File(str(path), mode, libver=libver)
        f.attrs['filetype'] = np.string_('data_photon')
        if 'version' not in f.attrs:
            f.attrs['version'] = np.array(HDF5_VERSION)
        group = f.create_group(self.name)
        group.attrs['Z'] = Z = self.atomic_number
        union_grid = np.array([])
        for rx in self:
            union_grid = np.union1d(union_grid, rx.xs.x)
        group.create_dataset('energy', data=union_grid)
        rx = self.reactions[502]
        coh_group = group.create_group('coherent')
        coh_group.create_dataset('xs', data=rx.xs(union_grid))
        if rx.scattering_factor is not None:
            ff = deepcopy(rx.scattering_factor)
            ff.x *= ff.x
            ff.y *= ff.y / Z ** 2
            int_ff = Tabulated1D(ff.x, ff.integral())
            int_ff.to_hdf5(coh_group, 'integrated_scattering_factor')
        if rx.anomalous_real is not None:
            rx.anomalous_real.to_hdf5(coh_group, 'anomalous_real')
        if rx.anomalous_imag is not None:
            rx.anomalous_imag.to_hdf5(coh_group, 'anomalous_imag')
        rx = self[504]
        incoh_group = group.create_group('incoherent')
        incoh_group.create_dataset('xs', data=rx.xs(union_grid))
        if rx.scattering_factor is not None:
            rx.scattering_factor.to_hdf5(incoh_group, 'scattering_factor')
        if 515 in self:
            pair_group = group.create_group('pair_production_electron')
            pair_group.create_dataset('xs', data=self[515].xs(union_grid))
        if 517 in self:
            pair_group = group.create_group('pair_production_nuclear')
            pair_group.create_dataset('xs', data=self[517].xs(union_grid))
        photoelec_group = group.create_group('photoelectric')
        photoelec_group.create_dataset('xs', data=self[522].xs(union_grid))
        shell_group = group.create_group('subshells')
        designators = []
        for mt, rx in self.reactions.items():
            if mt >= 534 and mt <= 572:
                shell = _SUBSHELLS[mt - 534]
                designators.append(shell)
                sub_group = shell_group.create_group(shell)
                if self.atomic_relaxation is not None:
                    relax = self.atomic_relaxation
                    sub_group.attrs['binding_energy'] = relax.binding_energy[shell]
                    sub_group.attrs['num_electrons'] = relax.num_electrons[shell]
                    if shell in relax.transitions:
                        shell_values = _SUBSHELLS.copy()
                        shell_values.insert(0, None)
                        df = relax.transitions[shell].replace(shell_values, range(len(shell_values)))
                        sub_group.create_dataset('transitions', data=df.values)
                threshold = rx.xs.x[0]
                idx = np.searchsorted(union_grid, threshold, side='right') - 1
                photoionization = rx.xs(union_grid[idx:])
                sub_group.create_dataset('xs', data=photoionization)
                assert len(union_grid) == len(photoionization) + idx
                sub_group['xs'].attrs['threshold_idx'] = idx
        shell_group.attrs['designators'] = np.array(designators, dtype='S')
        if self.compton_profiles:
            compton_group = group.create_group('compton_profiles')
            profile = self.compton_profiles
            compton_group.create_dataset('num_electrons', data=profile['num_electrons'])
            compton_group.create_dataset('binding_energy', data=profile['binding_energy'])
            compton_group.create_dataset('pz', data=profile['J'][0].x)
            J = np.array([Jk.y for Jk in profile['J']])
            compton_group.create_dataset('J', data=J)
        if self.stopping_powers:
            s_group = group.create_group('stopping_powers')
            for key, value in self.stopping_powers.items():
                if key == 'I':
                    s_group.attrs[key] = value
                else:
                    s_group.create_dataset(key, data=value)
        if self.bremsstrahlung:
            brem_group = group.create_group('bremsstrahlung')
            brem = self.bremsstrahlung
            brem_group.create_dataset('electron_energy', data=brem['electron_energy'])
            brem_group.create_dataset('photon_energy', data=brem['photon_energy'])
            brem_group.create_dataset('dcs', data=brem['dcs'])

class PhotonReaction(EqualityMixin):

    def __init__(self, mt):
        self.mt = mt
        self._xs = None
        self._scattering_factor = None
        self._anomalous_real = None
        self._anomalous_imag = None

    def __repr__(self):
        if self.mt in _REACTION_NAME:
            return '<Photon Reaction: MT={} {}>'.format(self.mt, _REACTION_NAME[self.mt])
        else:
            return '<Photon Reaction: MT={}>'.format(self.mt)

    @property
    def anomalous_real(self):
        return self._anomalous_real

    @property
    def anomalous_imag(self):
        return self._anomalous_imag

    @property
    def scattering_factor(self):
        return self._scattering_factor

    @property
    def xs(self):
        return self._xs

    @anomalous_real.setter
    def anomalous_real(self, anomalous_real):
        cv.check_type('real part of anomalous scattering factor', anomalous_real, Callable)
        self._anomalous_real = anomalous_real

    @anomalous_imag.setter
    def anomalous_imag(self, anomalous_imag):
        cv.check_type('imaginary part of anomalous scattering factor', anomalous_imag, Callable)
        self._anomalous_imag = anomalous_imag

    @scattering_factor.setter
    def scattering_factor(self, scattering_factor):
        cv.check_type('scattering factor', scattering_factor, Callable)
        self._scattering_factor = scattering_factor

    @xs.setter
    def xs(self, xs):
        cv.check_type('reaction cross section', xs, Callable)
        self._xs = xs

    @classmethod
    def from_ace(cls, ace, mt):
        rx = cls(mt)
        n = ace.nxs[3]
        idx = ace.jxs[1]
        energy = np.exp(ace.xss[idx:idx + n]) * EV_PER_MEV
        if mt == 502:
            idx = ace.jxs[1] + 2 * n
        elif mt == 504:
            idx = ace.jxs[1] + n
        elif mt == 515:
            idx = ace.jxs[1] + 4 * n
        elif mt == 522:
            idx = ace.jxs[1] + 3 * n
        else:
            raise ValueError('ACE photoatomic cross sections do not have data for MT={}.'.format(mt))
        xs = ace.xss[idx:idx + n].copy()
        nonzero = xs != 0.0
        xs[nonzero] = np.exp(xs[nonzero])
        rx.xs = Tabulated1D(energy, xs, [n], [5])
        new_format = ace.nxs[6] > 0
        if mt == 502:
            idx = ace.jxs[3]
            if new_format:
                n = (ace.jxs[4] - ace.jxs[3]) // 3
                x = ace.xss[idx:idx + n]
                idx += n
            else:
                x = np.array([0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4, 3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 5.8, 6.0])
                n = x.size
            ff = ace.xss[idx + n:idx + 2 * n]
            rx.scattering_factor = Tabulated1D(x, ff)
        elif mt == 504:
            idx = ace.jxs[2]
            if new_format:
                n = (ace.jxs[3] - ace.jxs[2]) // 2
                x = ace.xss[idx:idx + n]
                idx += n
            else:
                x = np.array([0.0, 0.005, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0])
                n = x.size
            ff = ace.xss[idx:idx + n]
            rx.scattering_factor = Tabulated1D(x, ff)
        return rx

    @classmethod
    def from_endf(cls, ev, mt):
        rx = cls(mt)
        if (23, mt) in ev.section:
            file_obj = StringIO(ev.section[23, mt])
            get_head_record(file_obj)
            params, rx.xs = get_tab1_record(file_obj)
            if mt >= 534 and mt <= 599:
                rx.subshell_binding_energy = params[0]
            if mt >= 534 and mt <= 572:
                rx.fluorescence_yield = params[1]
        if (27, mt) in ev.section:
            file_obj = StringIO(ev.section[27, mt])
            get_head_record(file_obj)
            params, rx.scattering_factor = get_tab1_record(file_obj)
        if mt == 502:
            if (27, 506) in ev.section:
                file_obj = StringIO(ev.section[27, 506])
                get_head_record(file_obj)
                params, rx.anomalous_real = get_tab1_record(file_obj)
            if (27, 505) in ev.section:
                file_obj = StringIO(ev.section[27, 505])
                get_head_record(file_obj)
                params, rx.anomalous_imag = get_tab1_record(file_obj)
        return rx
