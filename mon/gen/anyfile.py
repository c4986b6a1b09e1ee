"""A zoo of valid files of all formats (examples and generated), for the cross-format monitors."""
import importlib
import os
import shutil
from ..core import EXAMPLES
from . import csvtab, fastin, fastout, hawc2, wind
from .htc import Gen

MOD = dict(CSVFile='csv_file', ExcelFile='excel_file', TecplotFile='tecplot_file', BladedFile='bladed_out_file', FASTInputFile='fast_input_file', FASTOutputFile='fast_output_file', FASTWndFile='fast_wind_file',
           FASTLinearizationFile='fast_linearization_file', FASTSummaryFile='fast_summary_file', TurbSimTSFile='turbsim_ts_file', TurbSimFile='turbsim_file', HAWC2DatFile='hawc2_dat_file', HAWC2HTCFile='hawc2_htc_file',
           HAWC2StFile='hawc2_st_file', HAWC2PCFile='hawc2_pc_file', HAWC2AEFile='hawc2_ae_file', HAWCStab2PwrFile='hawcstab2_pwr_file', HAWCStab2IndFile='hawcstab2_ind_file', HAWCStab2CmbFile='hawcstab2_cmb_file',
           MannBoxFile='mannbox_file', FLEXBladeFile='flex_blade_file', FLEXProfileFile='flex_profile_file', FLEXOutFile='flex_out_file', FLEXWaveKinFile='flex_wavekin_file', FLEXDocFile='flex_doc_file',
           BModesOutFile='bmodes_out_file', ROSCOPerformanceFile='rosco_performance_file', NetCDFFile='netcdf_file', VTKFile='vtk_file', TDMSFile='tdms_file', ParquetFile='parquet_file', CactusFile='cactus_file', RAAWMatFile='raawmat_file')


def cls(name):
    return getattr(importlib.import_module('weio.' + MOD[name]), name)


# format of every example file (prefix of the name -> class), the most specific first
PREFIX = [('BHAWC', 'HAWC2DatFile'), ('HAWC2_out', 'HAWC2DatFile'), ('HAWC2_ae', 'HAWC2AEFile'), ('HAWC2_pc', 'HAWC2PCFile'), ('HAWC2_st', 'HAWC2StFile'), ('HAWC2_model', 'HAWC2HTCFile'), ('BModes', 'BModesOutFile'),
          ('Bladed_out', 'BladedFile'), ('CSV', 'CSVFile'), ('RoscoPerf', 'ROSCOPerformanceFile'), ('Excel', 'ExcelFile'), ('FASTLin', 'FASTLinearizationFile'), ('FASTOut', 'FASTOutputFile'), ('FastOut', 'FASTOutputFile'),
          ('FASTSum', 'FASTSummaryFile'), ('FASTWnd', 'FASTWndFile'), ('FASTIn', 'FASTInputFile'), ('FLEXBlade', 'FLEXBladeFile'), ('FLEXDoc', 'FLEXDocFile'), ('FLEXOut', 'FLEXOutFile'), ('FLEXProfile', 'FLEXProfileFile'),
          ('FLEXWaveKin', 'FLEXWaveKinFile'), ('HAWCStab2.pwr', 'HAWCStab2PwrFile'), ('HAWCStab2.cmb', 'HAWCStab2CmbFile'), ('HAWCStab2_', 'HAWCStab2IndFile'), ('Parquet', 'ParquetFile'), ('Tecplot', 'TecplotFile'),
          ('TurbSimTS', 'TurbSimTSFile'), ('TurbSim_', 'TurbSimFile'), ('VTK', 'VTKFile'), ('mann', 'MannBoxFile'), ('Mann', 'MannBoxFile'), ('NetCDF', 'NetCDFFile'), ('TDMS', 'TDMSFile'), ('Cactus', 'CactusFile')]
SKIP = ('FASTIn_arf_coords_', 'Bladed_out_binary_case2_fail', 'HAWC2_model')


def examples(maxsize=3000000):
    L = []
    for f in sorted(os.listdir(EXAMPLES)):
        p = os.path.join(EXAMPLES, f)
        if not os.path.isfile(p) or '_TMP' in f or f.startswith(SKIP) or os.path.getsize(p) > maxsize or os.path.getsize(p) == 0:
            continue
        for pre, c in PREFIX:
            if f.startswith(pre):
                L.append((f, c))
                break
    return L


class Any:
    """fn: file to open; payload: file that holds the bulk of the data; cls: class name; kw: reading options"""

    def __init__(self, kind, clsname, fn, payload=None, kw=None):
        self.kind, self.clsname, self.fn, self.payload, self.kw = kind, clsname, fn, payload or fn, kw or {}

    def read(self):
        return cls(self.clsname)(self.fn, **self.kw)


def example(case, name, clsname, sub=''):
    d = case.path(sub) if sub else case.dir
    os.makedirs(d, exist_ok=True)
    stem = os.path.splitext(name)[0]
    for f in os.listdir(EXAMPLES):
        if f == name or os.path.splitext(f)[0] == stem:
            shutil.copy(os.path.join(EXAMPLES, f), os.path.join(d, f))
    if clsname == 'FASTInputFile':  # polars refer to a file of coordinates
        for f in os.listdir(EXAMPLES):
            if f.startswith('FASTIn_arf_coords'):
                shutil.copy(os.path.join(EXAMPLES, f), os.path.join(d, f))
    return Any('example:' + name, clsname, os.path.join(d, name))


KINDS = ['outb', 'outb', 'out', 'bts', 'mann', 'csv', 'hawc2', 'fastin', 'ae', 'pc', 'st', 'htc', 'summary', 'bladed']
# files generated by the monitors of other properties: (module, workload)
BORROWED = dict(turbsimts=('c23', 'wl_turbsimts'), wnd=('c23', 'wl_wnd'), tecplot=('c23', 'wl_tecplot'), pwr=('c23', 'wl_pwr'), ind=('c23', 'wl_ind'), cmb=('c23', 'wl_cmb'), rosco=('c23', 'wl_rosco'), bmodes=('c23', 'wl_bmodes'), parquet=('c23', 'wl_parquet'),
                excel=('c23', 'wl_excel'), netcdf=('c23', 'wl_netcdf'), tdms=('c23', 'wl_tdms'), vtk=('c22', 'wl_read'), flexoutV3=('c15', 'wl_out'), flexblade=('c15', 'wl_blade'), flexprofile=('c15', 'wl_profile'),
                wavekin=('c15', 'wl_wavekin'), flexdoc=('c15', 'wl_doc'), lin=('c17', 'wl_lin'))
KINDS += list(BORROWED)


class Captured(Exception):
    pass


class Capture:
    """a stand-in for a case: a workload writes its file with it, and is stopped at its first reading"""

    def __init__(self, case, folder):
        self._case, self._folder, self.rnd = case, folder, case.rnd

    def path(self, name):
        return self._case.path(os.path.join(self._folder, name))

    def write(self, name, text):
        return self._case.write(os.path.join(self._folder, name), text)

    def captured(self, clsname, fn):
        raise Captured(clsname, fn)

    def call(self, name, fn, *args, **kw):
        raise Captured(fn.__name__, args[0])

    def __getattr__(self, name):
        if name in ('rng', 'index', 'seed'):
            return getattr(self._case, name)
        raise AttributeError(name)


def borrowed(case, kind, stem):
    mod, wl = BORROWED[kind]
    folder = os.path.dirname(stem) or 'gen'
    os.makedirs(case.path(folder), exist_ok=True)
    for _ in range(20):
        try:
            getattr(importlib.import_module('mon.props.' + mod), wl)(Capture(case, folder))
        except Captured as e:
            return Any(kind, e.args[0], e.args[1])
    raise RuntimeError('nothing generated: ' + kind)


def generated(case, kind=None, stem='g'):
    rnd = case.rnd
    kind = kind or rnd.choice(KINDS)
    if kind in BORROWED:
        return borrowed(case, kind, stem)
    if kind == 'outb':
        b, t = fastout.gen_binary(case)
        return Any(kind, 'FASTOutputFile', case.write(stem + '.outb', b))
    if kind == 'out':
        txt, t = fastout.gen_ascii(case)
        return Any(kind, 'FASTOutputFile', case.write(stem + '.out', txt))
    if kind == 'bts':
        b, t = wind.gen_bts(case, ymin=2, zmin=2, tmin=2)
        return Any(kind, 'TurbSimFile', case.write(stem + '.bts', b))
    if kind == 'mann':
        b, f, N = wind.gen_mann(case)
        return Any(kind, 'MannBoxFile', case.write(stem + '.u', b), kw=dict(N=N, **rnd.choice([{}, {}, dict(zMid=90.0), dict(y0=-3.0, dy=2.0, zMid=50.0, dz=4.0)])))
    if kind == 'csv':
        T = csvtab.gen_table(case)
        return Any(kind, 'CSVFile', case.write(stem + '.csv', csvtab.render(case, T)))
    if kind == 'hawc2':
        h = hawc2.gen(case)
        hawc2.write(case, h, stem)
        return Any(kind, 'HAWC2DatFile', case.path(stem + rnd.choice(['.sel', '.dat'])), payload=case.path(stem + '.dat'))
    if kind == 'fastin':
        d = fastin.make(rnd)
        return Any(kind, 'FASTInputFile', case.write(stem + '.dat', d.text()))
    from ..props import c13, c16, c18
    if kind == 'ae':
        return Any(kind, 'HAWC2AEFile', case.write(stem + '.dat', c13.gen_ae(case)[1]))
    if kind == 'pc':
        return Any(kind, 'HAWC2PCFile', case.write(stem + '.dat', c13.gen_pc(case)[1]))
    if kind == 'st':
        return Any(kind, 'HAWC2StFile', case.write(stem + '.st', c13.gen_st(case)[2]))
    if kind == 'htc':
        g = Gen(case)
        g.style_free = rnd.random() < 0.4
        items = [g.section(1) for _ in range(rnd.randint(1, 4))]
        return Any(kind, 'HAWC2HTCFile', case.write(stem + '.htc', '\n'.join(g.render(items)) + '\n'))
    if kind == 'summary':
        fn, e = c18.structure(case, stem + '.SD.sum.yaml')
        return Any(kind, 'FASTSummaryFile', fn)
    if kind == 'bladed':
        g = c16.group(case, 1, rnd.randint(1, 60), c16.steptime(rnd))
        c16.store(case, g, stem, rnd.choice(['04', '41', '09']))
        return Any(kind, 'BladedFile', rnd.choice([g.hfile, g.dfile]), payload=g.dfile)
    raise KeyError(kind)
