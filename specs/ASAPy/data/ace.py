from os import SEEK_CUR
from pathlib import PurePath
import struct
import sys
import numpy as np
from .mixin import EqualityMixin
from . import checkvalue as cv
from .data import ATOMIC_SYMBOL, gnd_name
from .endf import ENDF_FLOAT_RE

def get_metadata(zaid, metastable_scheme='nndc'):
    cv.check_type('zaid', zaid, int)
    cv.check_value('metastable_scheme', metastable_scheme, ['nndc', 'mcnp'])
    Z = zaid // 1000
    mass_number = zaid % 1000
    if metastable_scheme == 'mcnp':
        if zaid > 1000000:
            Z = Z % 1000
            if zaid == 1095242:
                metastable = 0
            else:
                metastable = zaid // 1000000
        elif zaid == 95242:
            metastable = 1
        elif zaid == 95642:
            metastable = 0
        else:
            metastable = 1 if mass_number > 300 else 0
    elif metastable_scheme == 'nndc':
        metastable = 1 if mass_number > 300 else 0
    while mass_number > 3 * Z:
        mass_number -= 100
    element = ATOMIC_SYMBOL[Z]
    name = gnd_name(Z, mass_number, metastable)
    return (name, element, Z, mass_number, metastable)

def ascii_to_binary(ascii_file, binary_file):
    ascii = open(str(ascii_file), 'r')
    record_length = 4096
    lines = ascii.readlines()
    ascii.close()
    binary = open(str(binary_file), 'wb')
    idx = 0
    while idx < len(lines):
        if lines[idx].split()[0][1] == '.':
            if lines[idx + 1].split()[3] == '3':
                idx = idx + 3
            else:
                raise NotImplementedError('Only backwards compatible ACEheaders currently supported')
        hz = lines[idx][:10].encode('UTF-8')
        aw0 = float(lines[idx][10:22])
        tz = float(lines[idx][22:34])
        hd = lines[idx][35:45].encode('UTF-8')
        hk = lines[idx + 1][:70].encode('UTF-8')
        hm = lines[idx + 1][70:80].encode('UTF-8')
        binary.write(struct.pack(str('=10sdd10s70s10s'), hz, aw0, tz, hd, hk, hm))
        data = ' '.join(lines[idx + 2:idx + 6]).split()
        iz = list(map(int, data[::2]))
        aw = list(map(float, data[1::2]))
        izaw = [item for sublist in zip(iz, aw) for item in sublist]
        binary.write(struct.pack(str('=' + 16 * 'id'), *izaw))
        nxs = list(map(int, ' '.join(lines[idx + 6:idx + 8]).split()))
        jxs = list(map(int, ' '.join(lines[idx + 8:idx + 12]).split()))
        binary.write(struct.pack(str('=16i32i{0}x'.format(record_length - 500)), *nxs + jxs))
        n_lines = (nxs[0] + 3) // 4
        xss = list(map(float, ' '.join(lines[idx + 12:idx + 12 + n_lines]).split()))
        extra_bytes = record_length - ((len(xss) * 8 - 1) % record_length + 1)
        binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)), *xss))
        idx += 12 + n_lines
    binary.close()

def get_table(filename, name=None):
    lib = Library(filename)
    if name is None:
        return lib.tables[0]
    else:
        for table in lib.tables:
            if table.name == name:
                return table
        else:
            raise ValueError('Could not find ACE table with name: {}'.format(name))

class Library(EqualityMixin):

    def __init__(self, filename, table_names=None, verbose=False):
        if isinstance(table_names, str):
            table_names = [table_names]
        if table_names is not None:
            table_names = set(table_names)
        self.tables = []
        filename = str(filename)
        try:
            fh = open(filename, 'rb')
            sb = b''.join([fh.readline() for i in range(10)])
            sb.decode('ascii')
            fh.close()
            with open(filename, 'r') as fh:
                fh.seek(0)
                self._read_ascii(fh, table_names, verbose)
        except UnicodeDecodeError:
            fh.close()
            with open(filename, 'rb') as fh:
                self._read_binary(fh, table_names, verbose)

    def _read_binary(self, ace_file, table_names, verbose=False, recl_length=4096, entries=512):
        while True:
            start_position = ace_file.tell()
            if len(ace_file.read(1)) == 0:
                return
            ace_file.seek(start_position)
            name, atomic_weight_ratio, temperature, date, comment, mat = struct.unpack(str('=10sdd10s70s10s'), ace_file.read(116))
            name = name.decode().strip()
            data = struct.unpack(str('=' + 16 * 'id'), ace_file.read(192))
            pairs = list(zip(data[::2], data[1::2]))
            nxs = list(struct.unpack(str('=16i'), ace_file.read(64)))
            length = nxs[0]
            n_records = (length + entries - 1) // entries
            if table_names is not None and name not in table_names:
                ace_file.seek(start_position + recl_length * (n_records + 1))
                continue
            if verbose:
                kelvin = round(temperature * 1000000.0 / 8.617342e-05)
                print('Loading nuclide {0} at {1} K'.format(name, kelvin))
            jxs = list(struct.unpack(str('=32i'), ace_file.read(128)))
            ace_file.seek(start_position + recl_length)
            xss = list(struct.unpack(str('={0}d'.format(length)), ace_file.read(length * 8)))
            nxs.insert(0, 0)
            nxs = np.array(nxs, dtype=int)
            jxs.insert(0, 0)
            jxs = np.array(jxs, dtype=int)
            xss.insert(0, 0.0)
            xss = np.array(xss)
            table = Table(name, atomic_weight_ratio, temperature, pairs, nxs, jxs, xss)
            self.tables.append(table)
            ace_file.seek(start_position + recl_length * (n_records + 1))

    def _read_ascii(self, ace_file, table_names, verbose=False):
        tables_seen = set()
        lines = [ace_file.readline() for i in range(13)]
        while len(lines) != 0 and lines[0].strip() != '':
            if lines[0].split()[0][1] == '.':
                words = lines[0].split()
                name = words[1]
                words = lines[1].split()
                atomic_weight_ratio = float(words[0])
                temperature = float(words[1])
                commentlines = int(words[3])
                for i in range(commentlines):
                    lines.pop(0)
                    lines.append(ace_file.readline())
            else:
                words = lines[0].split()
                name = words[0]
                atomic_weight_ratio = float(words[1])
                temperature = float(words[2])
            datastr = ' '.join(lines[2:6]).split()
            pairs = list(zip(map(int, datastr[::2]), map(float, datastr[1::2])))
            datastr = '0 ' + ' '.join(lines[6:8])
            nxs = np.fromstring(datastr, sep=' ', dtype=int)
            n_lines = (nxs[1] + 3) // 4
            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
            if table_names is not None and table_names < tables_seen:
                break
            tables_seen.add(name)
            if table_names is not None and name not in table_names:
                ace_file.seek(n_bytes, SEEK_CUR)
                ace_file.readline()
                lines = [ace_file.readline() for i in range(13)]
                continue
            lines += ace_file.readlines(n_bytes)
            if 12 + n_lines < len(lines):
                goback = sum([len(line) for line in lines[12 + n_lines:]])
                lines = lines[:12 + n_lines]
                ace_file.seek(-goback, SEEK_CUR)
            if verbose:
                kelvin = round(temperature * 1000000.0 / 8.617342e-05)
                print('Loading nuclide {0} at {1} K'.format(name, kelvin))
            datastr = '0 ' + ' '.join(lines[8:12])
            jxs = np.fromstring(datastr, dtype=int, sep=' ')
            datastr = '0.0 ' + ''.join(lines[12:12 + n_lines])
            xss = np.fromstring(datastr, sep=' ')
            if xss.size != nxs[1] + 1:
                datastr = ENDF_FLOAT_RE.sub('\\1e\\2', datastr)
                xss = np.fromstring(datastr, sep=' ')
                assert xss.size == nxs[1] + 1
            table = Table(name, atomic_weight_ratio, temperature, pairs, nxs, jxs, xss)
            self.tables.append(table)
            lines = [ace_file.readline() for i in range(13)]

class Table(EqualityMixin):

    def __init__(self, name, atomic_weight_ratio, temperature, pairs, nxs, jxs, xss):
        self.name = name
        self.atomic_weight_ratio = atomic_weight_ratio
        self.temperature = temperature
        self.pairs = pairs
        self.nxs = nxs
        self.jxs = jxs
        self.xss = xss

    def __repr__(self):
        return '<ACE Table: {}>'.format(self.name)
