import argparse
from collections import namedtuple
from io import StringIO
import os
import shutil
from subprocess import Popen, PIPE, STDOUT, CalledProcessError
import sys
import tempfile
from collections import OrderedDict
from ASAPy import endf
import numpy as np
ThermalTuple = namedtuple('ThermalTuple', ['name', 'zaids', 'nmix'])
_THERMAL_DATA = {1: ThermalTuple('hh2o', [1001], 1), 2: ThermalTuple('parah', [1001], 1), 3: ThermalTuple('orthoh', [1001], 1), 5: ThermalTuple('hyh2', [1001], 1), 7: ThermalTuple('hzrh', [1001], 1), 8: ThermalTuple('hcah2', [1001], 1), 10: ThermalTuple('hice', [1001], 1), 11: ThermalTuple('dd2o', [1002], 1), 12: ThermalTuple('parad', [1002], 1), 13: ThermalTuple('orthod', [1002], 1), 26: ThermalTuple('be', [4009], 1), 27: ThermalTuple('bebeo', [4009], 1), 31: ThermalTuple('graph', [6000, 6012, 6013], 1), 33: ThermalTuple('lch4', [1001], 1), 34: ThermalTuple('sch4', [1001], 1), 37: ThermalTuple('hch2', [1001], 1), 39: ThermalTuple('lucite', [1001], 1), 40: ThermalTuple('benz', [1001, 6000, 6012], 2), 41: ThermalTuple('od2o', [8016, 8017, 8018], 1), 43: ThermalTuple('sisic', [14028, 14029, 14030], 1), 44: ThermalTuple('csic', [6000, 6012, 6013], 1), 46: ThermalTuple('obeo', [8016, 8017, 8018], 1), 47: ThermalTuple('sio2-a', [8016, 8017, 8018, 14028, 14029, 14030], 3), 48: ThermalTuple('uuo2', [92238], 1), 49: ThermalTuple('sio2-b', [8016, 8017, 8018, 14028, 14029, 14030], 3), 50: ThermalTuple('oice', [8016, 8017, 8018], 1), 52: ThermalTuple('mg24', [12024], 1), 53: ThermalTuple('al27', [13027], 1), 55: ThermalTuple('yyh2', [39089], 1), 56: ThermalTuple('fe56', [26056], 1), 58: ThermalTuple('zrzrh', [40000, 40090, 40091, 40092, 40094, 40096], 1), 59: ThermalTuple('cacah2', [20040, 20042, 20043, 20044, 20046, 20048], 1), 75: ThermalTuple('ouo2', [8016, 8017, 8018], 1)}
energy_groups_238 = [20000000.0, 17333000.0, 15683000.0, 14550000.0, 13840000.0, 12840000.0, 10000000.0, 8187300.0, 6434000.0, 4800000.0, 4304000.0, 3000000.0, 2479000.0, 2354000.0, 1850000.0, 1500000.0, 1400000.0, 1356000.0, 1317000.0, 1250000.0, 1200000.0, 1100000.0, 1010000.0, 920000.0, 900000.0, 875000.0, 861100.0, 820000.0, 750000.0, 679000.0, 670000.0, 600000.0, 573000.0, 550000.0, 499520.0, 470000.0, 440000.0, 420000.0, 400000.0, 330000.0, 270000.0, 200000.0, 150000.0, 128300.0, 100000.0, 85000.0, 82000.0, 75000.0, 73000.0, 60000.0, 52000.0, 50000.0, 45000.0, 30000.0, 25000.0, 17000.0, 13000.0, 9500.0, 8030.0, 6000.0, 3900.0, 3740.0, 3000.0, 2580.0, 2290.0, 2200.0, 1800.0, 1550.0, 1500.0, 1150.0, 950.0, 683.0, 670.0, 550.0, 305.0, 285.0, 240.0, 210.0, 207.5, 192.5, 186.0, 122.0, 119.0, 115.0, 108.0, 100.0, 90.0, 82.0, 80.0, 76.0, 72.0, 67.5, 65.0, 61.0, 59.0, 53.4, 52.0, 50.6, 49.2, 48.3, 47.0, 45.2, 44.0, 42.4, 41.0, 39.6, 39.1, 38.0, 37.0, 35.5, 34.6, 33.75, 33.25, 31.75, 31.25, 30.0, 27.5, 25.0, 22.5, 21.0, 20.0, 19.0, 18.5, 17.0, 16.0, 15.1, 14.4, 13.75, 12.9, 11.9, 11.5, 10.0, 9.1, 8.1, 7.15, 7.0, 6.75, 6.5, 6.25, 6.0, 5.4, 5.0, 4.75, 4.0, 3.73, 3.5, 3.15, 3.05, 3.0, 2.97, 2.87, 2.77, 2.67, 2.57, 2.47, 2.38, 2.3, 2.21, 2.12, 2.0, 1.94, 1.86, 1.77, 1.68, 1.59, 1.5, 1.45, 1.4, 1.35, 1.3, 1.25, 1.225, 1.2, 1.175, 1.15, 1.14, 1.13, 1.12, 1.11, 1.1, 1.09, 1.08, 1.07, 1.06, 1.05, 1.04, 1.03, 1.02, 1.01, 1.0, 0.975, 0.95, 0.925, 0.9, 0.85, 0.8, 0.75, 0.7, 0.65, 0.625, 0.6, 0.55, 0.5, 0.45, 0.4, 0.375, 0.35, 0.325, 0.3, 0.275, 0.25, 0.225, 0.2, 0.175, 0.15, 0.125, 0.1, 0.09, 0.08, 0.07, 0.06, 0.05, 0.04, 0.03, 0.0253, 0.01, 0.0075, 0.005, 0.004, 0.003, 0.0025, 0.002, 0.0015, 0.0012, 0.001, 0.00075, 0.0005, 0.0001, 1e-05]
energy_groups_238 = energy_groups_238[-1::-1]
energy_groups_44 = [1e-11, 3e-09, 7.5e-09, 1e-08, 2.53e-08, 3e-08, 4e-08, 5e-08, 7e-08, 1e-07, 1.5e-07, 2e-07, 2.25e-07, 2.5e-07, 2.75e-07, 3.25e-07, 3.5e-07, 3.75e-07, 4e-07, 6.25e-07, 1e-06, 1.77e-06, 3e-06, 4.75e-06, 6e-06, 8.1e-06, 1e-05, 3e-05, 0.0001, 0.00055, 0.003, 0.017, 0.025, 0.1, 0.4, 0.9, 1.4, 1.85, 2.354, 2.479, 3.0, 4.8, 6.434, 8.1873, 20.0]
energy_groups_44 = [e * 1000000.0 for e in energy_groups_44]
energy_groups_56 = [1e-05, 0.004, 0.01, 0.0253, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.2, 0.25, 0.325, 0.35, 0.375, 0.45, 0.625, 1.01, 1.08, 1.13, 5.0, 6.25, 6.5, 6.875, 7.0, 20.5, 21.2, 21.75, 36.0, 37.13, 65.0, 67.5, 101.2, 105.0, 116.0, 117.5, 187.7, 191.5, 2250.0, 3740.0, 17000.0, 20000.0, 50000.0, 200000.0, 270000.0, 330000.0, 470000.0, 600000.0, 750000.0, 861100.0, 1200000.0, 1500000.0, 1850000.0, 3000000.0, 4304000.0, 6434000.0, 20000000.0]
energy_groups_252 = [20000000.0, 17330000.0, 15680000.0, 14550000.0, 13840000.0, 12840000.0, 10000000.0, 8187000.0, 6434000.0, 4800000.0, 4304000.0, 3000000.0, 2479000.0, 2354000.0, 1850000.0, 1500000.0, 1400000.0, 1356000.0, 1317000.0, 1250000.0, 1200000.0, 1100000.0, 1010000.0, 920000.0, 900000.0, 875000.0, 861100.0, 820000.0, 750000.0, 679000.0, 670000.0, 600000.0, 573000.0, 550000.0, 492000.0, 470000.0, 440000.0, 420000.0, 400000.0, 330000.0, 270000.0, 200000.0, 149000.0, 128300.0, 100000.0, 85000.0, 82000.0, 75000.0, 73000.0, 60000.0, 52000.0, 50000.0, 45000.0, 30000.0, 20000.0, 17000.0, 13000.0, 9500.0, 8030.0, 5700.0, 3900.0, 3740.0, 3000.0, 2500.0, 2250.0, 2200.0, 1800.0, 1550.0, 1500.0, 1150.0, 950.0, 683.0, 670.0, 550.0, 305.0, 285.0, 240.0, 220.0, 209.5, 207.4, 202.0, 193.0, 191.5, 188.5, 187.7, 180.0, 170.0, 143.0, 122.0, 119.0, 117.5, 116.0, 113.0, 108.0, 105.0, 101.2, 97.0, 90.0, 81.7, 80.0, 76.0, 72.0, 67.5, 65.0, 63.0, 61.0, 58.0, 53.4, 50.6, 48.3, 45.2, 44.0, 42.4, 41.0, 39.6, 39.1, 38.0, 37.63, 37.27, 37.13, 37.0, 36.0, 35.5, 35.0, 33.75, 33.25, 31.75, 31.25, 30.0, 27.5, 25.0, 22.5, 21.75, 21.2, 20.5, 20.0, 19.4, 18.5, 17.0, 16.0, 14.4, 12.9, 11.9, 11.5, 10.0, 9.1, 8.1, 7.15, 7.0, 6.875, 6.75, 6.5, 6.25, 6.0, 5.4, 5.0, 4.7, 4.1, 3.73, 3.5, 3.2, 3.1, 3.0, 2.97, 2.87, 2.77, 2.67, 2.57, 2.47, 2.38, 2.3, 2.21, 2.12, 2.0, 1.94, 1.86, 1.77, 1.68, 1.59, 1.5, 1.45, 1.4, 1.35, 1.3, 1.25, 1.225, 1.2, 1.175, 1.15, 1.14, 1.13, 1.12, 1.11, 1.1, 1.09, 1.08, 1.07, 1.06, 1.05, 1.04, 1.03, 1.02, 1.01, 1.0, 0.975, 0.95, 0.925, 0.9, 0.85, 0.8, 0.75, 0.7, 0.65, 0.625, 0.6, 0.55, 0.5, 0.45, 0.4, 0.375, 0.35, 0.325, 0.3, 0.275, 0.25, 0.225, 0.2, 0.175, 0.15, 0.125, 0.1, 0.09, 0.08, 0.07, 0.06, 0.05, 0.04, 0.03, 0.0253, 0.01, 0.0075, 0.005, 0.004, 0.003, 0.0025, 0.002, 0.0015, 0.0012, 0.001, 0.00075, 0.0005, 0.0001, 1e-05]
energy_groups_252 = energy_groups_252[-1::-1]
energy_groups_3 = [1e-05, 0.625, 5500, 20000000.0]
_TEMPLATE_RECONR = "\nreconr / %%%%%%%%%%%%%%%%%%% Reconstruct XS for neutrons %%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npendf}\n'{library} PENDF for {zsymam}'/\n{mat} 2/\n{error}/ err\n'{library}: {zsymam}'/\n'Processed by NJOY'/\n0/\n"
_TEMPLATE_BROADR = '\nbroadr / %%%%%%%%%%%%%%%%%%%%%%% Doppler broaden XS %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npendf} {nbroadr}\n{mat} {num_temp} 0 0 0. /\n{error}/ errthn\n{temps}\n0/\n'
_TEMPLATE_HEATR = '\nheatr / %%%%%%%%%%%%%%%%%%%%%%%%% Add heating kerma %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nheatr_in} {nheatr} /\n{mat} 3 /\n302 318 402 /\n'
_TEMPLATE_PURR = '\npurr / %%%%%%%%%%%%%%%%%%%%%%%% Add probability tables %%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {npurr_in} {npurr} /\n{mat} {num_temp} 1 20 64 /\n{temps}\n1.e10\n0/\n'
_TEMPLATE_ACER = "\nacer / %%%%%%%%%%%%%%%%%%%%%%%% Write out in ACE format %%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nacer_in} 0 {nace} {ndir}\n1 0 1 .{ext} /\n'{library}: {zsymam} at {temperature}'/\n{mat} {temperature}\n1 1/\n/\n"

def _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight=None):
    s = '\ngroupr\n{nendf} {ngroupr_in} 0 {ngroupr_out}/\n{mat} 1 0 {iwt_fluxweight} 1 {num_temp}/ user groups, weight flux\nnu and chi / \n{temps}/\n1e10/ background sigma (need to include "inf")\n{cov_ngroups}/\n{cov_group_bounds}/'
    if user_flux_weight:
        s += user_flux_weight + '/'
    for i in range(num_temp):
        s += "\n3 452 'nu'/\n3 455 'p nu'/\n3 456 'd nu'/\n3 18 'fiss'/\n5 18 'chi'/\n0/\n"
    s += '0/\n'
    return s

def _TEMPLATE_GROUPR_FOR_XSEC(num_temps):
    s = '\ngroupr / %%%%%%%%%%%%%%%%%%%%%%%% Create shielded xsec %%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {ngroupr_in} 0 {ngroupr_out}/\n{mat} 1 0 {iwt_fluxweight} 1 {num_temp}/ user groups, weight flux\nxsec / \n{temps}/\n1e10/ background sigma (need to include "inf")/\n{cov_ngroups}/\n{cov_group_bounds}/\n'
    for t in range(num_temps):
        s += '3/\n0/\n'
    return s + '0/\n'

def _TEMPLATE_GROUPR_FOR_XSEC_USER_FLUX(num_temps):
    s = '\ngroupr / %%%%%%%%%%%%%%%%%%%%%%%% Create shielded xsec %%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {ngroupr_in} 0 {ngroupr_out}/\n{mat} 1 0 1 1 {num_temp}/ user groups, user weight flux\nxsec / \n{temps}/\n1e10/ background sigma (need to include "inf")/\n{cov_ngroups}/\n{cov_group_bounds}/\n{user_flux_weight}/\n'
    for t in range(num_temps):
        s += '3/\n0/\n'
    return s + '0/\n'
_THERMAL_TEMPLATE_THERMR = '\nthermr / %%%%%%%%%%%%%%%% Add thermal scattering data (free gas) %%%%%%%%%%%%%%%\n0 {nthermr1_in} {nthermr1}\n0 {mat} 12 {num_temp} 1 0 {iform} 1 221 1/\n{temps}\n{error} {energy_max}\nthermr / %%%%%%%%%%%%%%%% Add thermal scattering data (bound) %%%%%%%%%%%%%%%%%%\n{nthermal_endf} {nthermr2_in} {nthermr2}\n{mat_thermal} {mat} 16 {num_temp} {inelastic} {elastic} {iform} {natom} 222 1/\n{temps}\n{error} {energy_max}\n'
_TEMPLATE_ERRORR_33 = '\nerrorr / %%%%%%%%%%%%%%%%%%%%%%%%% Calc COV %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} 0 {nerr_in} {nerr}/\n{mat} 1 {iwt_fluxweight}/\n0 {temperature}/\n0 33/\n{cov_ngroups}/\n{cov_group_bounds}/\n'
_TEMPLATE_ERRORR_31 = '\nerrorr / %%%%%%%%%%%%%%%%%%%%%%%%% Calc COV %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nerr_in} {ngroupr_out} {nerr}/\n{mat} 1 {iwt_fluxweight}/ group struct, weight function\n1 {temperature}/\n0 31 1 1 -1/\n{cov_ngroups}/\n{cov_group_bounds}/\n'
_TEMPLATE_ERRORR_35 = '\nerrorr / %%%%%%%%%%%%%%%%%%%%%%%%% Calc COV %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nerr_in} {ngroupr_out} {nerr}/\n{mat} 1 {iwt_fluxweight}/ group struct, weight function\n1 {temperature}/\n0 35 1 1 -1/\n{cov_ngroups}/\n{cov_group_bounds}/\n'

def _TEMPLATE_COVR_FOR_PLOT(mts):
    s = '\ncovr / %%%%%%%%%%%%%%%%%%%%%%%%% Create Cov Info (PLOT) %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{{nerr}} 0 {{covr_plot_out}}/\n1/\n/\n1 {n_mats}/\n'
    num_mts = len(mts) if len(mts) >= 1 else 1
    s = s.format(n_mats=num_mts)
    if not mts:
        s += '{mat}/\n'
    for mt in mts:
        s += '{{mat}} {mt} {{mat}} {mt}/\n'.format(mt=mt)
    return s
_TEMPLATE_COVR_FOR_LIB_COV_OUT = '\ncovr / %%%%%%%%%%%%%%%%%%%%%%%%% Create Cov Info (DATA) %%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{nerr} {covr_out}/\n3/\ncorr/\n/\n{mat}/\n'
_TEMPLATE_VIEWR = '\nviewr / %%%%%%%%%%%%%%%%%%%%%%%%% Create Plots %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%\n{covr_plot_out} {viewr_plot_out}/\n'
_THERMAL_TEMPLATE_ACER = "\nacer / %%%%%%%%%%%%%%%%%%%%%%%% Write out in ACE format %%%%%%%%%%%%%%%%%%%%%%%%\n{nendf} {nthermal_acer_in} 0 {nace} {ndir}\n2 0 1 .{ext}/\n'{library}: {zsymam_thermal} processed by NJOY'/\n{mat} {temperature} '{data.name}' /\n{zaids} /\n222 64 {mt_elastic} {elastic_type} {data.nmix} {energy_max} 2/\n"

def run(commands, tapein, tapeout, input_filename=None, stdout=False, njoy_exec='/Users/veeshy/projects/NJOY2016/bin/njoy'):
    if input_filename is not None:
        with open(input_filename, 'w') as f:
            f.write(commands)
    with tempfile.TemporaryDirectory() as tmpdir:
        for tape_num, filename in tapein.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            shutil.copy(filename, tmpfilename)
        njoy = Popen([njoy_exec], cwd=tmpdir, stdin=PIPE, stdout=PIPE, stderr=STDOUT, universal_newlines=True)
        njoy.stdin.write(commands)
        njoy.stdin.flush()
        lines = []
        while True:
            line = njoy.stdout.readline()
            if not line and njoy.poll() is not None:
                break
            lines.append(line)
            if stdout:
                print(line, end='')
        if njoy.returncode != 0:
            raise CalledProcessError(njoy.returncode, njoy_exec, ''.join(lines))
        for tape_num, filename in tapeout.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            if os.path.isfile(tmpfilename):
                shutil.move(tmpfilename, filename)
_run_njoy = run

def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
    make_njoy_run(filename, pendf=pendf, error=error, broadr=False, heatr=False, purr=False, acer=False, errorr=False, run=True, stdout=stdout)

def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None, error=0.001, broadr=True, heatr=True, purr=True, acer=True, errorr=True, cov_energy_groups=None, run=False, covr_plot_mts=None, chi=False, nu=False, iwt_fluxweight=9, user_flux_weight_vals=None, **kwargs):
    ev = endf.Evaluation(filename)
    mat = ev.material
    zsymam = ev.target['zsymam']
    library = '{}-{}.{}'.format(*ev.info['library'])
    if temperatures is None:
        temperatures = [293.6]
    num_temp = len(temperatures)
    temps = ' '.join((str(i) for i in temperatures))
    commands = ''
    nendf, npendf = (20, 21)
    tapein = OrderedDict()
    tapein[nendf] = filename
    tapeout = OrderedDict()
    if pendf is not None:
        tapeout[npendf] = pendf
    commands += _TEMPLATE_RECONR
    nlast = npendf
    nbroadr = nlast
    if broadr:
        nbroadr = nlast + 1
        commands += _TEMPLATE_BROADR
        nlast = nbroadr
    if errorr:
        if cov_energy_groups is None:
            raise Exception('Please provide a cov_energy_groups input.')
        cov_ngroups = len(cov_energy_groups) - 1
        if iwt_fluxweight == 1:
            if user_flux_weight_vals is None:
                raise Exception('Must provide user_flux_weight_vals flat list of (e, v) pairs')
            user_flux_weight_vals = np.array(user_flux_weight_vals)
            user_flux_weight = '0. 0. 0  0  1  {NP}  {NP}  {INT}\n'.format(NP=int(len(user_flux_weight_vals) / 2), INT=2)
            user_flux_weight_vals_str = [str(e) for e in user_flux_weight_vals]
            user_flux_weight_vals_str = ' \n'.join(user_flux_weight_vals_str)
            user_flux_weight += user_flux_weight_vals_str
        fname = '{}_{}'
        for i, temperature in enumerate(temperatures):
            ngroupr_in = nbroadr
            ngroupr_out = nlast + 1
            nlast += 1
            nerr_in = ngroupr_out
            nerr = nlast + 1
            cov_group_bounds = [str(e) for e in cov_energy_groups]
            cov_group_bounds = ' \n'.join(cov_group_bounds)
            if iwt_fluxweight == 1:
                commands += _TEMPLATE_GROUPR_FOR_XSEC_USER_FLUX(num_temp).format(**locals())
            else:
                commands += _TEMPLATE_GROUPR_FOR_XSEC(num_temp).format(**locals())
            commands += _TEMPLATE_ERRORR_33.format(**locals())
            if iwt_fluxweight == 1:
                commands += user_flux_weight + '/\n'
            nlast += 1
            covr_out = nlast + 1
            tapeout[covr_out] = fname.format('covr', temperature) + '.txt'
            nlast += 1
            commands += _TEMPLATE_COVR_FOR_LIB_COV_OUT.format(**locals())
            if covr_plot_mts:
                covr_plot_out = nlast + 1
                nlast += 1
                viewr_plot_out = nlast + 1
                tapeout[viewr_plot_out] = fname.format('viewr', temperature) + '.eps'
                nlast += 1
                commands += _TEMPLATE_COVR_FOR_PLOT(covr_plot_mts).format(**locals())
                commands += _TEMPLATE_VIEWR.format(**locals())
        if nu or chi:
            commands += '\n-- Nu-bar / Chi groupr\n'
            ngroupr_in = nbroadr
            ngroupr_out = nlast + 1
            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
            commands += s.format(**locals())
            nlast += 1
        if nu:
            nerr_in = nbroadr
            nerr = nlast + 1
            commands += _TEMPLATE_ERRORR_31.format(**locals())
            if iwt_fluxweight == 1:
                commands += user_flux_weight + '/\n'
            nlast += 1
            covr_plot_out = nlast + 1
            nlast += 1
            viewr_plot_out = nlast + 1
            nlast += 1
            commands += _TEMPLATE_COVR_FOR_PLOT([452]).format(**locals())
            commands += _TEMPLATE_VIEWR.format(**locals())
            covr_out = nlast + 1
            tapeout[covr_out] = fname.format('covr_nu', temperature) + '.txt'
            tapeout[viewr_plot_out] = fname.format('viewr_nu', temperature) + '.eps'
            nlast += 1
            commands += _TEMPLATE_COVR_FOR_LIB_COV_OUT.format(**locals())
        if chi:
            commands += '-- Chi info\n'
            nerr_in = nbroadr
            nerr = nlast + 1
            commands += _TEMPLATE_ERRORR_35.format(**locals())
            if iwt_fluxweight == 1:
                commands += user_flux_weight + '/\n'
            nlast += 1
            covr_plot_out = nlast + 1
            nlast += 1
            viewr_plot_out = nlast + 1
            nlast += 1
            commands += _TEMPLATE_COVR_FOR_PLOT([]).format(**locals())
            commands += _TEMPLATE_VIEWR.format(**locals())
            covr_out = nlast + 1
            tapeout[covr_out] = fname.format('covr_chi', temperature) + '.txt'
            tapeout[viewr_plot_out] = fname.format('viewr_chi', temperature) + '.eps'
            nlast += 1
            commands += _TEMPLATE_COVR_FOR_LIB_COV_OUT.format(**locals())
    if heatr:
        nheatr_in = nbroadr
        nheatr = nlast + 1
        commands += _TEMPLATE_HEATR
        nlast = nheatr
    if purr:
        npurr_in = nlast
        npurr = npurr_in + 1
        commands += _TEMPLATE_PURR
        nlast = npurr
    commands = commands.format(**locals())
    if acer:
        nacer_in = nlast
        fname = '{}_{:.1f}'
        for i, temperature in enumerate(temperatures):
            nace = nacer_in + 1 + 2 * i
            ndir = nace + 1
            ext = '{:02}'.format(i + 1)
            commands += _TEMPLATE_ACER.format(**locals())
            tapeout[nace] = fname.format(ace, temperature)
            tapeout[ndir] = fname.format(xsdir, temperature)
    commands += 'stop\n'
    if run:
        _run_njoy(commands, tapein, tapeout, **kwargs)
    else:
        with open('njoy_in.txt', 'w') as f:
            f.write(commands)
    if acer:
        if run:
            with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
                for temperature in temperatures:
                    text = open(fname.format(ace, temperature), 'r').read()
                    if ev.target['isomeric_state'] > 0:
                        mass_first_digit = int(text[3])
                        if mass_first_digit <= 2:
                            text = text[:3] + str(mass_first_digit + 4) + text[4:]
                    ace_file.write(text)
                    text = open(fname.format(xsdir, temperature), 'r').read()
                    xsdir_file.write(text)
            for temperature in temperatures:
                os.remove(fname.format(ace, temperature))
                os.remove(fname.format(xsdir, temperature))
        elif ev.target['isomeric_state'] > 0:
            print('Warning:ACER: You will need to adjust the ACER output because a metastable state is being ran. This means you must add 400 to the ZAID')
    return (commands, tapein, tapeout)

def get_mat_from_endf(filename):
    ev = endf.Evaluation(filename)
    return ev.material

def make_ace_thermal(filename, filename_thermal, temperatures=None, ace='ace', xsdir='xsdir', error=0.001, **kwargs):
    ev = endf.Evaluation(filename)
    mat = ev.material
    zsymam = ev.target['zsymam']
    ev_thermal = endf.Evaluation(filename_thermal)
    mat_thermal = ev_thermal.material
    zsymam_thermal = ev_thermal.target['zsymam']
    data = _THERMAL_DATA[mat_thermal]
    zaids = ' '.join((str(zaid) for zaid in data.zaids[:3]))
    library = '{}-{}.{}'.format(*ev_thermal.info['library'])
    if (7, 2) in ev_thermal.section:
        elastic = 1
        mt_elastic = 223
        file_obj = StringIO(ev_thermal.section[7, 2])
        elastic_type = endf.get_head_record(file_obj)[2] - 1
    else:
        elastic = 0
        mt_elastic = 0
        elastic_type = 0
    file_obj = StringIO(ev_thermal.section[7, 4])
    items = endf.get_head_record(file_obj)
    items, values = endf.get_list_record(file_obj)
    energy_max = values[3]
    natom = int(values[5])
    iform = 0
    inelastic = 2
    if temperatures is None:
        file_obj = StringIO(ev_thermal.section[7, 4])
        endf.get_head_record(file_obj)
        endf.get_list_record(file_obj)
        endf.get_tab2_record(file_obj)
        params = endf.get_tab1_record(file_obj)[0]
        temperatures = [params[0]]
        for i in range(params[2]):
            temperatures.append(endf.get_list_record(file_obj)[0][0])
    num_temp = len(temperatures)
    temps = ' '.join((str(i) for i in temperatures))
    commands = ''
    nendf, nthermal_endf, npendf = (20, 21, 22)
    tapein = {nendf: filename, nthermal_endf: filename_thermal}
    tapeout = {}
    commands += _TEMPLATE_RECONR
    nlast = npendf
    nbroadr = nlast + 1
    commands += _TEMPLATE_BROADR
    nlast = nbroadr
    nthermr1_in = nlast
    nthermr1 = nthermr1_in + 1
    nthermr2_in = nthermr1
    nthermr2 = nthermr2_in + 1
    commands += _THERMAL_TEMPLATE_THERMR
    nlast = nthermr2
    commands = commands.format(**locals())
    nthermal_acer_in = nlast
    fname = '{}_{:.1f}'
    for i, temperature in enumerate(temperatures):
        nace = nthermal_acer_in + 1 + 2 * i
        ndir = nace + 1
        ext = '{:02}'.format(i + 1)
        commands += _THERMAL_TEMPLATE_ACER.format(**locals())
        tapeout[nace] = fname.format(ace, temperature)
        tapeout[ndir] = fname.format(xsdir, temperature)
    commands += 'stop\n'
    run(commands, tapein, tapeout, **kwargs)
if __name__ == '__main__':
    make_njoy_run('/Users/veeshy/projects/ASAPy/data/e71/tape20', temperatures=[300], ace='ace', xsdir='xsdir', pendf=None, error=0.001, broadr=True, heatr=False, purr=False, acer=False, errorr=True, run=False, chi=False, nu=True, **{'input_filename': '../data/e71/input', 'stdout': True})
