from collections.abc import Callable
from copy import deepcopy
from io import StringIO
import sys
import h5py
import numpy as np
from .data import EV_PER_MEV
from .endf import get_cont_record, get_list_record, get_tab1_record, Evaluation
from .function import Function1D, Tabulated1D, Polynomial, sum_functions
from . import checkvalue as cv
from .mixin import EqualityMixin
_NAMES = ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos', 'recoverable', 'total')

class FissionEnergyRelease(EqualityMixin):

    def __init__(self, fragments, prompt_neutrons, delayed_neutrons, prompt_photons, delayed_photons, betas, neutrinos):
        self.fragments = fragments
        self.prompt_neutrons = prompt_neutrons
        self.delayed_neutrons = delayed_neutrons
        self.prompt_photons = prompt_photons
        self.delayed_photons = delayed_photons
        self.betas = betas
        self.neutrinos = neutrinos

    @property
    def fragments(self):
        return self._fragments

    @property
    def prompt_neutrons(self):
        return self._prompt_neutrons

    @property
    def delayed_neutrons(self):
        return self._delayed_neutrons

    @property
    def prompt_photons(self):
        return self._prompt_photons

    @property
    def delayed_photons(self):
        return self._delayed_photons

    @property
    def betas(self):
        return self._betas

    @property
    def neutrinos(self):
        return self._neutrinos

    @property
    def recoverable(self):
        components = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas']
        return sum_functions((getattr(self, c) for c in components))

    @property
    def total(self):
        components = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos']
        return sum_functions((getattr(self, c) for c in components))

    @property
    def q_prompt(self):
        funcs = [self.fragments, self.prompt_neutrons, self.prompt_photons, Polynomial((0.0, -1.0))]
        return sum_functions(funcs)

    @property
    def q_recoverable(self):
        return sum_functions([self.recoverable, Polynomial((0.0, -1.0))])

    @property
    def q_total(self):
        return sum_functions([self.total, Polynomial((0.0, -1.0))])

    @fragments.setter
    def fragments(self, energy_release):
        cv.check_type('fragments', energy_release, Callable)
        self._fragments = energy_release

    @prompt_neutrons.setter
    def prompt_neutrons(self, energy_release):
        cv.check_type('prompt_neutrons', energy_release, Callable)
        self._prompt_neutrons = energy_release

    @delayed_neutrons.setter
    def delayed_neutrons(self, energy_release):
        cv.check_type('delayed_neutrons', energy_release, Callable)
        self._delayed_neutrons = energy_release

    @prompt_photons.setter
    def prompt_photons(self, energy_release):
        cv.check_type('prompt_photons', energy_release, Callable)
        self._prompt_photons = energy_release

    @delayed_photons.setter
    def delayed_photons(self, energy_release):
        cv.check_type('delayed_photons', energy_release, Callable)
        self._delayed_photons = energy_release

    @betas.setter
    def betas(self, energy_release):
        cv.check_type('betas', energy_release, Callable)
        self._betas = energy_release

    @neutrinos.setter
    def neutrinos(self, energy_release):
        cv.check_type('neutrinos', energy_release, Callable)
        self._neutrinos = energy_release

    @classmethod
    def from_endf(cls, ev, incident_neutron):
        cv.check_type('evaluation', ev, Evaluation)
        if ev.target['atomic_number'] != incident_neutron.atomic_number:
            raise ValueError('The atomic number of the ENDF evaluation does not match the given IncidentNeutron.')
        if ev.target['mass_number'] != incident_neutron.mass_number:
            raise ValueError('The atomic mass of the ENDF evaluation does not match the given IncidentNeutron.')
        if ev.target['isomeric_state'] != incident_neutron.metastable:
            raise ValueError('The metastable state of the ENDF evaluation does not match the given IncidentNeutron.')
        if not ev.target['fissionable']:
            raise ValueError('The ENDF evaluation is not fissionable.')
        if (1, 458) not in ev.section:
            raise ValueError('ENDF evaluation does not have MF=1, MT=458.')
        file_obj = StringIO(ev.section[1, 458])
        items = get_cont_record(file_obj)
        lfc = items[3]
        nfc = items[5]
        items, data = get_list_record(file_obj)
        npoly = items[3]
        functions = {}
        for i, name in enumerate(_NAMES):
            coeffs = data[2 * i::18]
            if name in ('recoverable', 'total'):
                continue
            if npoly == 2:
                second_order = coeffs[2]
                if abs(second_order) * 5000000.0 ** 2 > 100000000.0:
                    coeffs[2] /= EV_PER_MEV
            if npoly > 0:
                functions[name] = Polynomial(coeffs)
                continue
            zeroth_order = coeffs[0]
            if name in ('delayed_photons', 'betas'):
                func = Polynomial((zeroth_order, -0.075))
            elif name == 'neutrinos':
                func = Polynomial((zeroth_order, -0.105))
            elif name == 'prompt_neutrons':
                if 18 in incident_neutron and (not incident_neutron[18].redundant):
                    nu = [p.yield_ for p in incident_neutron[18].products if p.particle == 'neutron' and p.emission_mode in ('prompt', 'total')]
                elif 19 in incident_neutron:
                    nu = [p.yield_ for p in incident_neutron[19].products if p.particle == 'neutron' and p.emission_mode in ('prompt', 'total')]
                else:
                    raise ValueError('IncidentNeutron data has no fission reaction.')
                if len(nu) == 0:
                    raise ValueError('Nu data is needed to compute fission energy release with the Sher-Beck format.')
                if len(nu) > 1:
                    raise ValueError('Ambiguous prompt/total nu value.')
                nu = nu[0]
                if isinstance(nu, Tabulated1D):
                    func = deepcopy(nu)
                    func.y = zeroth_order + 1.307 * nu.x - 8070000.0 * (nu.y - nu.y[0])
                elif isinstance(nu, Polynomial):
                    if len(nu) == 1:
                        func = Polynomial([zeroth_order, 1.307])
                    else:
                        func = Polynomial([zeroth_order, 1.307 - 8070000.0 * nu.coef[1]] + [-8070000.0 * c for c in nu.coef[2:]])
            else:
                func = Polynomial(coeffs)
            functions[name] = func
        if lfc == 1:
            for _ in range(nfc):
                items, eifc = get_tab1_record(file_obj)
                ifc = items[3]
                name = _NAMES[ifc - 1]
                functions[name] = eifc
        return cls(**functions)

    @classmethod
    def from_hdf5(cls, group):
        fragments = Function1D.from_hdf5(group['fragments'])
        prompt_neutrons = Function1D.from_hdf5(group['prompt_neutrons'])
        delayed_neutrons = Function1D.from_hdf5(group['delayed_neutrons'])
        prompt_photons = Function1D.from_hdf5(group['prompt_photons'])
        delayed_photons = Function1D.from_hdf5(group['delayed_photons'])
        betas = Function1D.from_hdf5(group['betas'])
        neutrinos = Function1D.from_hdf5(group['neutrinos'])
        return cls(fragments, prompt_neutrons, delayed_neutrons, prompt_photons, delayed_photons, betas, neutrinos)

    def to_hdf5(self, group):
        self.fragments.to_hdf5(group, 'fragments')
        self.prompt_neutrons.to_hdf5(group, 'prompt_neutrons')
        self.delayed_neutrons.to_hdf5(group, 'delayed_neutrons')
        self.prompt_photons.to_hdf5(group, 'prompt_photons')
        self.delayed_photons.to_hdf5(group, 'delayed_photons')
        self.betas.to_hdf5(group, 'betas')
        self.neutrinos.to_hdf5(group, 'neutrinos')
        self.q_prompt.to_hdf5(group, 'q_prompt')
        self.q_recoverable.to_hdf5(group, 'q_recoverable')
