from numbers import Integral
from warnings import warn
import numpy as np
from . import checkvalue as cv

class EqualityMixin(object):

    def __eq__(self, other):
        if isinstance(other, type(self)):
            for key, value in self.__dict__.items():
                if not np.array_equal(value, other.__dict__.get(key)):
                    return False
        else:
            return False
        return True

    def __ne__(self, other):
        return not self.__eq__(other)

class IDWarning(UserWarning):
    pass

class IDManagerMixin(object):

    @property
    def id(self):
        return self._id

    @id.setter
    def id(self, uid):
        try:
            cls = self._id_class
        except AttributeError:
            for cls in self.__class__.__mro__:
                if 'next_id' in cls.__dict__:
                    break
        if uid is None:
            while cls.next_id in cls.used_ids:
                cls.next_id += 1
            self._id = cls.next_id
            cls.used_ids.add(cls.next_id)
        else:
            name = cls.__name__
            cv.check_type('{} ID'.format(name), uid, Integral)
            cv.check_greater_than('{} ID'.format(name), uid, 0, equality=True)
            if uid in cls.used_ids:
                msg = 'Another {} instance already exists with id={}.'.format(name, uid)
                warn(msg, IDWarning)
            else:
                cls.used_ids.add(uid)
            self._id = uid

def reset_auto_ids():
    for cls in IDManagerMixin.__subclasses__():
        cls.used_ids.clear()
        cls.next_id = 1

def reserve_ids(ids, cls=None):
    if cls is None:
        for cls in IDManagerMixin.__subclasses__():
            cls.used_ids |= set(ids)
    else:
        cls.used_ids |= set(ids)

def set_auto_id(next_id):
    for cls in IDManagerMixin.__subclasses__():
        cls.next_id = next_id
