import copy
from collections.abc import Iterable
import numpy as np

def check_type(name, value, expected_type, expected_iter_type=None):
    if not isinstance(value, expected_type):
        if isinstance(expected_type, Iterable):
            msg = 'Unable to set "{0}" to "{1}" which is not one of the following types: "{2}"'.format(name, value, ', '.join([t.__name__ for t in expected_type]))
        else:
            msg = 'Unable to set "{0}" to "{1}" which is not of type "{2}"'.format(name, value, expected_type.__name__)
        raise TypeError(msg)
    if expected_iter_type:
        if isinstance(value, np.ndarray):
            if not issubclass(value.dtype.type, expected_iter_type):
                msg = 'Unable to set "{0}" to "{1}" since each item must be of type "{2}"'.format(name, value, expected_iter_type.__name__)
            else:
                return
        for item in value:
            if not isinstance(item, expected_iter_type):
                if isinstance(expected_iter_type, Iterable):
                    msg = 'Unable to set "{0}" to "{1}" since each item must be one of the following types: "{2}"'.format(name, value, ', '.join([t.__name__ for t in expected_iter_type]))
                else:
                    msg = 'Unable to set "{0}" to "{1}" since each item must be of type "{2}"'.format(name, value, expected_iter_type.__name__)
                raise TypeError(msg)

def check_iterable_type(name, value, expected_type, min_depth=1, max_depth=1):
    tree = [value]
    index = [0]
    while index[0] != len(tree[0]):
        if index[-1] == len(tree[-1]):
            del index[-1]
            del tree[-1]
            index[-1] += 1
            continue
        form = '[' + '{:d}, ' * (len(index) - 1) + '{:d}]'
        ind_str = form.format(*index)
        current_item = tree[-1][index[-1]]
        if isinstance(current_item, expected_type):
            if len(tree) < min_depth:
                msg = 'Error setting "{0}": The item at {1} does not meet the minimum depth of {2}'.format(name, ind_str, min_depth)
                raise TypeError(msg)
            index[-1] += 1
        elif isinstance(current_item, Iterable):
            tree.append(current_item)
            index.append(0)
            if len(tree) > max_depth:
                msg = 'Error setting {0}: Found an iterable at {1}, items in that iterable exceed the maximum depth of {2}'.format(name, ind_str, max_depth)
                raise TypeError(msg)
        else:
            msg = "Error setting {0}: Items must be of type '{1}', but item at {2} is of type '{3}'".format(name, expected_type.__name__, ind_str, type(current_item).__name__)
            raise TypeError(msg)

def check_length(name, value, length_min, length_max=None):
    if length_max is None:
        if len(value) != length_min:
            msg = 'Unable to set "{0}" to "{1}" since it must be of length "{2}"'.format(name, value, length_min)
            raise ValueError(msg)
    elif not length_min <= len(value) <= length_max:
        if length_min == length_max:
            msg = 'Unable to set "{0}" to "{1}" since it must be of length "{2}"'.format(name, value, length_min)
        else:
            msg = 'Unable to set "{0}" to "{1}" since it must have length between "{2}" and "{3}"'.format(name, value, length_min, length_max)
        raise ValueError(msg)

def check_value(name, value, accepted_values):
    if value not in accepted_values:
        msg = 'Unable to set "{0}" to "{1}" since it is not in "{2}"'.format(name, value, accepted_values)
        raise ValueError(msg)

def check_less_than(name, value, maximum, equality=False):
    if equality:
        if value > maximum:
            msg = 'Unable to set "{0}" to "{1}" since it is greater than "{2}"'.format(name, value, maximum)
            raise ValueError(msg)
    elif value >= maximum:
        msg = 'Unable to set "{0}" to "{1}" since it is greater than or equal to "{2}"'.format(name, value, maximum)
        raise ValueError(msg)

def check_greater_than(name, value, minimum, equality=False):
    if equality:
        if value < minimum:
            msg = 'Unable to set "{0}" to "{1}" since it is less than "{2}"'.format(name, value, minimum)
            raise ValueError(msg)
    elif value <= minimum:
        msg = 'Unable to set "{0}" to "{1}" since it is less than or equal to "{2}"'.format(name, value, minimum)
        raise ValueError(msg)

def check_filetype_version(obj, expected_type, expected_version):
    try:
        this_filetype = obj.attrs['filetype'].decode()
        this_version = obj.attrs['version']
        if this_filetype != expected_type:
            raise IOError('{} is not a {} file.'.format(obj.filename, expected_type))
        if this_version[0] != expected_version:
            raise IOError('{} file has a version of {} which is not consistent with the version expected by OpenMC, {}'.format(this_filetype, '.'.join((str(v) for v in this_version)), expected_version))
    except AttributeError:
        raise IOError('Could not read {} file. This most likely means the {} file was produced by a different version of OpenMC than the one you are using.'.format(expected_type))

class CheckedList(list):

    def __init__(self, expected_type, name, items=[]):
        super().__init__()
        self.expected_type = expected_type
        self.name = name
        for item in items:
            self.append(item)

    def __add__(self, other):
        new_instance = copy.copy(self)
        new_instance += other
        return new_instance

    def __radd__(self, other):
        return self + other

    def __iadd__(self, other):
        check_type('CheckedList add operand', other, Iterable, self.expected_type)
        for item in other:
            self.append(item)
        return self

    def append(self, item):
        check_type(self.name, item, self.expected_type)
        super().append(item)

    def insert(self, index, item):
        check_type(self.name, item, self.expected_type)
        super().insert(index, item)
