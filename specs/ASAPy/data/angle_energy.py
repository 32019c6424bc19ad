from abc import ABCMeta, abstractmethod
from io import StringIO
from .mixin import EqualityMixin

class AngleEnergy(EqualityMixin, metaclass=ABCMeta):

    @abstractmethod
    def to_hdf5(self, group):
        pass

    @staticmethod
    def from_hdf5(group):
        dist_type = group.attrs['type'].decode()
        if dist_type == 'uncorrelated':
            return UncorrelatedAngleEnergy.from_hdf5(group)
        elif dist_type == 'correlated':
            return CorrelatedAngleEnergy.from_hdf5(group)
        elif dist_type == 'kalbach-mann':
            return KalbachMann.from_hdf5(group)
        elif dist_type == 'nbody':
            return NBodyPhaseSpace.from_hdf5(group)
        else:
            raise ValueError('Unknown angle-energy distribution type: {}'.format(dist_type))

    @staticmethod
    def from_ace(ace, location_dist, location_start, rx=None):
        idx = location_dist + location_start - 1
        law = int(ace.xss[idx + 1])
        location_data = int(ace.xss[idx + 2])
        idx = location_dist + location_data - 1
        if law == 2:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = DiscretePhoton.from_ace(ace, idx)
        elif law in (3, 33):
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = LevelInelastic.from_ace(ace, idx)
        elif law == 4:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = ContinuousTabular.from_ace(ace, idx, location_dist)
        elif law == 5:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = GeneralEvaporation.from_ace(ace, idx)
        elif law == 7:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = MaxwellEnergy.from_ace(ace, idx)
        elif law == 9:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = Evaporation.from_ace(ace, idx)
        elif law == 11:
            distribution = UncorrelatedAngleEnergy()
            distribution.energy = WattEnergy.from_ace(ace, idx)
        elif law == 44:
            distribution = KalbachMann.from_ace(ace, idx, location_dist)
        elif law == 61:
            distribution = CorrelatedAngleEnergy.from_ace(ace, idx, location_dist)
        elif law == 66:
            distribution = NBodyPhaseSpace.from_ace(ace, idx, rx.q_value)
        else:
            raise ValueError('Unsupported ACE secondary energy distribution law {}'.format(law))
        return distribution
from .uncorrelated import UncorrelatedAngleEnergy
from .correlated import CorrelatedAngleEnergy
from .kalbach_mann import KalbachMann
from .nbody import NBodyPhaseSpace
from .energy_distribution import ContinuousTabular, Evaporation, WattEnergy, LevelInelastic, DiscretePhoton, MaxwellEnergy, GeneralEvaporation
