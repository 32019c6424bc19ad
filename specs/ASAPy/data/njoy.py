import argparse
from collections import namedtuple
from io import StringIO
import os
import shutil
from subprocess import Popen, PIPE, STDOUT, CalledProcessError
import sys
import tempfile
from . import endf
ThermalTuple = namedtuple('ThermalTuple', ['name', 'zaids', 'nmix'])
_THERMAL_DATA = {1: ThermalTuple('hh2o', [1001], 1), 2: ThermalTuple('parah', [1001], 1), 3: ThermalTuple('orthoh', [1001], 1), 5: ThermalTuple('hyh2', [1001], 1), 7: ThermalTuple('hzrh', [1001], 1), 8: ThermalTuple('hcah2', [1001], 1), 10: ThermalTuple('hice', [1001], 1), 11: ThermalTuple('dd2o', [1002], 1), 12: ThermalTuple('parad', [1002], 1), 13: ThermalTuple('orthod', [1002], 1), 26: ThermalTuple('be', [4009], 1), 27: ThermalTuple('bebeo', [4009], 1), 31: ThermalTuple('graph', [6000, 6012, 6013], 1), 33: ThermalTuple('lch4', [1001], 1), 34: ThermalTuple('sch4', [1001], 1), 37: ThermalTuple('hch2', [1001], 1), 39: ThermalTuple('lucite', [1001], 1), 40: ThermalTuple('benz', [1001, 6000, 6012], 2), 41: ThermalTuple('od2o', [8016, 8017, 8018], 1), 43: ThermalTuple('sisic', [14028, 14029, 14030], 1), 44: ThermalTuple('csic', [6000, 6012, 6013], 1), 46: ThermalTuple('obeo', [8016, 8017, 8018], 1), 47: ThermalTuple('sio2-a', [8016, 8017, 8018, 14028, 14029, 14030], 3), 48: ThermalTuple('uuo2', [92238], 1), 49: ThermalTuple('sio2-b', [8016, 8017, 8018, 14028, 14029, 14030], 3), 50: ThermalTuple('oice', [8016, 8017, 8018], 1), 52: ThermalTuple('mg24', [12024], 1), 53: ThermalTuple('al27', [13027], 1), 55: ThermalTuple('yyh2', [39089], 1), 56: ThermalTuple('fe56', [26056], 1), 58: ThermalTuple('zrzrh', [40000, 40090, 40091, 40092, 40094, 40096], 1), 59: ThermalTuple('cacah2', [20040, 20042, 20043, 20044, 20046, 20048], 1), 75: ThermalTuple('ouo2', [8016, 8017, 8018], 1)}
_TEMPLATE_RECONR = "\nreconr / %%%%%%%%%%%%%%%%%%% Reconstruct XS for neutrons %%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npendf}\n'{library} PENDF for {zsymam}'/\n{mat} 2/\n{error}/ err\n'{library}: {zsymam}'/\n'Processed by NJOY'/\n0/\n"
_TEMPLATE_BROADR = '\nbroadr / %%%%%%%%%%%%%%%%%%%%%%% Doppler broaden XS %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npendf} {nbroadr}\n{mat} {num_temp} 0 0 0. /\n{error}/ errthn\n{temps}\n0/\n'
_TEMPLATE_HEATR = '\nheatr / %%%%%%%%%%%%%%%%%%%%%%%%% Add heating kerma %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nheatr_in} {nheatr} /\n{mat} 3 /\n302 318 402 /\n'
_TEMPLATE_PURR = '\npurr / %%%%%%%%%%%%%%%%%%%%%%%% Add probability tables %%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npurr_in} {npurr} /\n{mat} {num_temp} 1 20 64 /\n{temps}\n1.e10\n0/\n'
_TEMPLATE_ACER = "\nacer / %%%%%%%%%%%%%%%%%%%%%%%% Write out in ACE format %%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nacer_in} 0 {nace} {ndir}\n1 0 1 .{ext} /\n'{library}: {zsymam} at {temperature}'/\n{mat} {temperature}\n1 1/\n/\n"
_THERMAL_TEMPLATE_THERMR = '\nthermr / %%%%%%%%%%%%%%%% Add thermal scattering data (free gas) %%%%%%%%%%%%%%%\n0 {nthermr1_in} {nthermr1}\n0 {mat} 12 {num_temp} 1 0 {iform} 1 221 1/\n{temps}\n{error} {energy_max}\nthermr / %%%%%%%%%%%%%%%% Add thermal scattering data (bound) %%%%%%%%%%%%%%%%%%\n{nthermal_endf} {nthermr2_in} {nthermr2}\n{mat_thermal} {mat} 16 {num_temp} {inelastic} {elastic} {iform} {natom} 222 1/\n{temps}\n{error} {energy_max}\n'
_THERMAL_TEMPLATE_ACER = "\nacer / %%%%%%%%%%%%%%%%%%%%%%%% Write out in ACE format %%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nthermal_acer_in} 0 {nace} {ndir}\n2 0 1 .{ext}/\n'{library}: {zsymam_thermal} processed by NJOY'/\n{mat} {temperature} '{data.name}' /\n{zaids} /\n222 64 {mt_elastic} {elastic_type} {data.nmix} {energy_max} 2/\n"

def run(commands, tapein, tapeout, input_filename=None, stdout=False, njoy_exec='njoy'):
    if input_filename is not None:
        with open(str(input_filename), 'w') as f:
            f.write(commands)
    with tempfile.TemporaryDirectory() as tmpdir:
        for tape_num, filename in tapein.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            shutil.copy(str(filename), tmpfilename)
        njoy = Popen([njoy_exec], cwd=tmpdir, stdin=PIPE, stdout=PIPE, stderr=STDOUT, universal_newlines=True)
        njoy.stdin.write(commands)
        njoy.stdin.flush()
        lines = []
        while True:
            line = njoy.stdout.readline()
            if not line and njoy.poll() is not None:
                break
            lines.append(line)
            if stdout:
                print(line, end='')
        if njoy.returncode != 0:
            raise CalledProcessError(njoy.returncode, njoy_exec, ''.join(lines))
        for tape_num, filename in tapeout.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            if os.path.isfile(tmpfilename):
                shutil.move(tmpfilename, str(filename))

def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
    make_ace(filename, pendf=pendf, error=error, broadr=False, heatr=False, purr=False, acer=False, stdout=stdout)

def make_ace(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None, error=0.001, broadr=True, heatr=True, purr=True, acer=True, **kwargs):
    ev = endf.Evaluation(filename)
    mat = ev.material
    zsymam = ev.target['zsymam']
    library = '{}-{}.{}'.format(*ev.info['library'])
    if temperatures is None:
        temperatures = [293.6]
    num_temp = len(temperatures)
    temps = ' '.join((str(i) for i in temperatures))
    commands = ''
    nendf, npendf = (20, 21)
    tapein = {nendf: filename}
    tapeout = {}
    if pendf is not None:
        tapeout[npendf] = pendf
    commands += _TEMPLATE_RECONR
    nlast = npendf
    if broadr:
        nbroadr = nlast + 1
        commands += _TEMPLATE_BROADR
        nlast = nbroadr
    if heatr:
        nheatr_in = nlast
        nheatr = nheatr_in + 1
        commands += _TEMPLATE_HEATR
        nlast = nheatr
    if purr:
        npurr_in = nlast
        npurr = npurr_in + 1
        commands += _TEMPLATE_PURR
        nlast = npurr
    commands = commands.format(**locals())
    if acer:
        nacer_in = nlast
        fname = '{}_{:.1f}'
        for i, temperature in enumerate(temperatures):
            nace = nacer_in + 1 + 2 * i
            ndir = nace + 1
            ext = '{:02}'.format(i + 1)
            commands += _TEMPLATE_ACER.format(**locals())
            tapeout[nace] = fname.format(ace, temperature)
            tapeout[ndir] = fname.format(xsdir, temperature)
    commands += 'stop\n'
    run(commands, tapein, tapeout, **kwargs)
    if acer:
        with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
            for temperature in temperatures:
                text = open(fname.format(ace, temperature), 'r').read()
                if ev.target['isomeric_state'] > 0:
                    mass_first_digit = int(text[3])
                    if mass_first_digit <= 2:
                        text = text[:3] + str(mass_first_digit + 4) + text[4:]
                ace_file.write(text)
                text = open(fname.format(xsdir, temperature), 'r').read()
                xsdir_file.write(text)
        for temperature in temperatures:
            os.remove(fname.format(ace, temperature))
            os.remove(fname.format(xsdir, temperature))

def make_ace_thermal(filename, filename_thermal, temperatures=None, ace='ace', xsdir='xsdir', error=0.001, **kwargs):
    ev = endf.Evaluation(filename)
    mat = ev.material
    zsymam = ev.target['zsymam']
    ev_thermal = endf.Evaluation(filename_thermal)
    mat_thermal = ev_thermal.material
    zsymam_thermal = ev_thermal.target['zsymam']
    data = _THERMAL_DATA[mat_thermal]
    zaids = ' '.join((str(zaid) for zaid in data.zaids[:3]))
    library = '{}-{}.{}'.format(*ev_thermal.info['library'])
    if (7, 2) in ev_thermal.section:
        elastic = 1
        mt_elastic = 223
        file_obj = StringIO(ev_thermal.section[7, 2])
        elastic_type = endf.get_head_record(file_obj)[2] - 1
    else:
        elastic = 0
        mt_elastic = 0
        elastic_type = 0
    file_obj = StringIO(ev_thermal.section[7, 4])
    items = endf.get_head_record(file_obj)
    items, values = endf.get_list_record(file_obj)
    energy_max = values[3]
    natom = int(values[5])
    iform = 0
    inelastic = 2
    if temperatures is None:
        file_obj = StringIO(ev_thermal.section[7, 4])
        endf.get_head_record(file_obj)
        endf.get_list_record(file_obj)
        endf.get_tab2_record(file_obj)
        params = endf.get_tab1_record(file_obj)[0]
        temperatures = [params[0]]
        for i in range(params[2]):
            temperatures.append(endf.get_list_record(file_obj)[0][0])
    num_temp = len(temperatures)
    temps = ' '.join((str(i) for i in temperatures))
    commands = ''
    nendf, nthermal_endf, npendf = (20, 21, 22)
    tapein = {nendf: filename, nthermal_endf: filename_thermal}
    tapeout = {}
    commands += _TEMPLATE_RECONR
    nlast = npendf
    nbroadr = nlast + 1
    commands += _TEMPLATE_BROADR
    nlast = nbroadr
    nthermr1_in = nlast
    nthermr1 = nthermr1_in + 1
    nthermr2_in = nthermr1
    nthermr2 = nthermr2_in + 1
    commands += _THERMAL_TEMPLATE_THERMR
    nlast = nthermr2
    commands = commands.format(**locals())
    nthermal_acer_in = nlast
    fname = '{}_{:.1f}'
    for i, temperature in enumerate(temperatures):
        nace = nthermal_acer_in + 1 + 2 * i
        ndir = nace + 1
        ext = '{:02}'.format(i + 1)
        commands += _THERMAL_TEMPLATE_ACER.format(**locals())
        tapeout[nace] = fname.format(ace, temperature)
        tapeout[ndir] = fname.format(xsdir, temperature)
    commands += 'stop\n'
    run(commands, tapein, tapeout, **kwargs)
    with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
        for temperature in temperatures:
            text = open(fname.format(ace, temperature), 'r').read()
            ace_file.write(text)
            text = open(fname.format(xsdir, temperature), 'r').read()
            xsdir_file.write(text)
    for temperature in temperatures:
        os.remove(fname.format(ace, temperature))
        os.remove(fname.format(xsdir, temperature))
