from abc import ABCMeta, abstractmethod
from collections.abc import Iterable
from numbers import Real
import sys
from xml.etree import ElementTree as ET
import numpy as np
from . import checkvalue as cv
from .mixin import EqualityMixin
_INTERPOLATION_SCHEMES = ['histogram', 'linear-linear', 'linear-log', 'log-linear', 'log-log']

class Univariate(EqualityMixin, metaclass=ABCMeta):

    def __init__(self):
        pass

    @abstractmethod
    def to_xml_element(self, element_name):
        return ''

    @abstractmethod
    def __len__(self):
        return 0

class Discrete(Univariate):

    def __init__(self, x, p):
        super().__init__()
        self.x = x
        self.p = p

    def __len__(self):
        return len(self.x)

    @property
    def x(self):
        return self._x

    @property
    def p(self):
        return self._p

    @x.setter
    def x(self, x):
        if isinstance(x, Real):
            x = [x]
        cv.check_type('discrete values', x, Iterable, Real)
        self._x = x

    @p.setter
    def p(self, p):
        if isinstance(p, Real):
            p = [p]
        cv.check_type('discrete probabilities', p, Iterable, Real)
        for pk in p:
            cv.check_greater_than('discrete probability', pk, 0.0, True)
        self._p = p

    def to_xml_element(self, element_name):
        element = ET.Element(element_name)
        element.set('type', 'discrete')
        params = ET.SubElement(element, 'parameters')
        params.text = ' '.join(map(str, self.x)) + ' ' + ' '.join(map(str, self.p))
        return element

class Uniform(Univariate):

    def __init__(self, a=0.0, b=1.0):
        super().__init__()
        self.a = a
        self.b = b

    def __len__(self):
        return 2

    @property
    def a(self):
        return self._a

    @property
    def b(self):
        return self._b

    @a.setter
    def a(self, a):
        cv.check_type('Uniform a', a, Real)
        self._a = a

    @b.setter
    def b(self, b):
        cv.check_type('Uniform b', b, Real)
        self._b = b

    def to_tabular(self):
        prob = 1.0 / (self.b - self.a)
        t = Tabular([self.a, self.b], [prob, prob], 'histogram')
        t.c = [0.0, 1.0]
        return t

    def to_xml_element(self, element_name):
        element = ET.Element(element_name)
        element.set('type', 'uniform')
        element.set('parameters', '{} {}'.format(self.a, self.b))
        return element

class Maxwell(Univariate):

    def __init__(self, theta):
        super().__init__()
        self.theta = theta

    def __len__(self):
        return 1

    @property
    def theta(self):
        return self._theta

    @theta.setter
    def theta(self, theta):
        cv.check_type('Maxwell temperature', theta, Real)
        cv.check_greater_than('Maxwell temperature', theta, 0.0)
        self._theta = theta

    def to_xml_element(self, element_name):
        element = ET.Element(element_name)
        element.set('type', 'maxwell')
        element.set('parameters', str(self.theta))
        return element

class Watt(Univariate):

    def __init__(self, a=988000.0, b=2.249e-06):
        super().__init__()
        self.a = a
        self.b = b

    def __len__(self):
        return 2

    @property
    def a(self):
        return self._a

    @property
    def b(self):
        return self._b

    @a.setter
    def a(self, a):
        cv.check_type('Watt a', a, Real)
        cv.check_greater_than('Watt a', a, 0.0)
        self._a = a

    @b.setter
    def b(self, b):
        cv.check_type('Watt b', b, Real)
        cv.check_greater_than('Watt b', b, 0.0)
        self._b = b

    def to_xml_element(self, element_name):
        element = ET.Element(element_name)
        element.set('type', 'watt')
        element.set('parameters', '{} {}'.format(self.a, self.b))
        return element

class Tabular(Univariate):

    def __init__(self, x, p, interpolation='linear-linear', ignore_negative=False):
        super().__init__()
        self._ignore_negative = ignore_negative
        self.x = x
        self.p = p
        self.interpolation = interpolation

    def __len__(self):
        return len(self.x)

    @property
    def x(self):
        return self._x

    @property
    def p(self):
        return self._p

    @property
    def interpolation(self):
        return self._interpolation

    @x.setter
    def x(self, x):
        cv.check_type('tabulated values', x, Iterable, Real)
        self._x = x

    @p.setter
    def p(self, p):
        cv.check_type('tabulated probabilities', p, Iterable, Real)
        if not self._ignore_negative:
            for pk in p:
                cv.check_greater_than('tabulated probability', pk, 0.0, True)
        self._p = p

    @interpolation.setter
    def interpolation(self, interpolation):
        cv.check_value('interpolation', interpolation, _INTERPOLATION_SCHEMES)
        self._interpolation = interpolation

    def to_xml_element(self, element_name):
        element = ET.Element(element_name)
        element.set('type', 'tabular')
        element.set('interpolation', self.interpolation)
        params = ET.SubElement(element, 'parameters')
        params.text = ' '.join(map(str, self.x)) + ' ' + ' '.join(map(str, self.p))
        return element

class Legendre(Univariate):

    def __init__(self, coefficients):
        self.coefficients = coefficients

    def __call__(self, x):
        return self._legendre_polynomial(x)

    def __len__(self):
        return len(self._legendre_polynomial.coef)

    @property
    def coefficients(self):
        poly = self._legendre_polynomial
        l = np.arange(poly.degree() + 1)
        return 2.0 / (2.0 * l + 1.0) * poly.coef

    @coefficients.setter
    def coefficients(self, coefficients):
        cv.check_type('Legendre expansion coefficients', coefficients, Iterable, Real)
        l = np.arange(len(coefficients))
        coeffs = (2.0 * l + 1.0) / 2.0 * np.array(coefficients)
        self._legendre_polynomial = np.polynomial.Legendre(coeffs)

    def to_xml_element(self, element_name):
        raise NotImplementedError

class Mixture(Univariate):

    def __init__(self, probability, distribution):
        super().__init__()
        self.probability = probability
        self.distribution = distribution

    def __len__(self):
        return sum((len(d) for d in self.distribution))

    @property
    def probability(self):
        return self._probability

    @property
    def distribution(self):
        return self._distribution

    @probability.setter
    def probability(self, probability):
        cv.check_type('mixture distribution probabilities', probability, Iterable, Real)
        for p in probability:
            cv.check_greater_than('mixture distribution probabilities', p, 0.0, True)
        self._probability = probability

    @distribution.setter
    def distribution(self, distribution):
        cv.check_type('mixture distribution components', distribution, Iterable, Univariate)
        self._distribution = distribution

    def to_xml_element(self, element_name):
        raise NotImplementedError
