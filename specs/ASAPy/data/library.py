import os
import xml.etree.ElementTree as ET
import h5py
from .mixin import EqualityMixin
from ._xml import clean_indentation
from .checkvalue import check_type

class DataLibrary(EqualityMixin):

    def __init__(self):
        self.libraries = []

    def get_by_material(self, name):
        for library in self.libraries:
            if name in library['materials']:
                return library
        return None

    def register_file(self, filename):
        filename = str(filename)
        with h5py.File(filename, 'r') as h5file:
            filetype = h5file.attrs['filetype'].decode()[5:]
            materials = list(h5file)
        library = {'path': filename, 'type': filetype, 'materials': materials}
        self.libraries.append(library)

    def export_to_xml(self, path='cross_sections.xml'):
        root = ET.Element('cross_sections')
        common_dir = os.path.dirname(os.path.commonprefix([lib['path'] for lib in self.libraries]))
        if common_dir == '':
            common_dir = '.'
        if os.path.relpath(common_dir, os.path.dirname(str(path))) != '.':
            dir_element = ET.SubElement(root, 'directory')
            dir_element.text = os.path.realpath(common_dir)
        for library in self.libraries:
            lib_element = ET.SubElement(root, 'library')
            lib_element.set('materials', ' '.join(library['materials']))
            lib_element.set('path', os.path.relpath(library['path'], common_dir))
            lib_element.set('type', library['type'])
        clean_indentation(root)
        tree = ET.ElementTree(root)
        tree.write(str(path), xml_declaration=True, encoding='utf-8', method='xml')

    @classmethod
    def from_xml(cls, path=None):
        data = cls()
        if path is None:
            path = os.environ.get('OPENMC_CROSS_SECTIONS')
        if path is None:
            raise ValueError('Either path or OPENMC_CROSS_SECTIONS environmental variable must be set')
        path = str(path)
        tree = ET.parse(path)
        root = tree.getroot()
        if root.find('directory') is not None:
            directory = root.find('directory').text
        else:
            directory = os.path.dirname(path)
        for lib_element in root.findall('library'):
            filename = os.path.join(directory, lib_element.attrib['path'])
            filetype = lib_element.attrib['type']
            materials = lib_element.attrib['materials'].split()
            library = {'path': filename, 'type': filetype, 'materials': materials}
            data.libraries.append(library)
        return data
