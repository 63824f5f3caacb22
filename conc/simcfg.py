import contextlib
import io
import os
import shutil
import sys
import tempfile

MACHINE = dict(chamb_type='ellip', x_aper=2e-2, y_aper=1.6e-2, track_method='Boris', B=[0., 0., 0.], betafx=85., betafy=90.,
               init_unif_flag=1, Nel_init_unif=1e8, E_init_unif=1., x_max_init_unif=1.5e-2, x_min_init_unif=-1.5e-2,
               y_max_init_unif=1.2e-2, y_min_init_unif=-1.2e-2)
SIM = dict(logfile_path='logfile.txt', progress_path='progress.txt', stopfile='stop', Dt=1e-10, t_end=0., lam_th=1e2, Dx_hist=1e-3,
           r_center=1e-3, Dt_En_hist=5e-9, Nbin_En_hist=50, En_hist_max=2000., t_ion=-1., N_mp_max=3000, N_mp_regen=100000,
           N_mp_regen_low=5, N_mp_after_regen=500, t_ON_regen_low=1e10, fact_split=1.5, fact_clean=1e-6, regen_hist_cut=1e-4,
           N_mp_soft_regen=2000, N_mp_after_soft_regen=1000, nel_mp_ref_0=1e6, Nx_regen=11, Ny_regen=11, Nvx_regen=11, Nvy_regen=11,
           Nvz_regen=11, Dt_sc=.5e-9, Dh_sc=2e-3, t_sc_ON=0., sparse_solver='scipy_slu', flag_movie=0, flag_sc_movie=0,
           save_mp_state_time_file=-1, dec_fact_out=1, extract_sey=False)
SEC = dict(Emax=332., del_max=1.7, R0=.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636, switch_no_increase_energy=0,
           thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution='cosine_3D')
BEAM = dict(energy_eV=4.5e11, sigmax=1e-3, sigmay=.6e-3, Dp_p=0., beam_field_file='field.mat', b_spac=5e-9,
            fact_beam=1e11, coast_dens=0., flag_bunched_beam=1, sigmaz=.06, t_offs=1.2e-9, filling_pattern_file=[1., 0., 1.],
            beam_long_prof_file=-1)


def field(fn, uniform=None):
    """field of a round Gaussian beam on a map"""
    import numpy as np
    import scipy.io as sio
    xx, yy = np.linspace(-3e-2, 3e-2, 41), np.linspace(-3e-2, 3e-2, 43)
    X, Y = np.meshgrid(xx, yy, indexing='ij')
    r2 = X**2 + Y**2 + 1e-12
    f = 1.8e10 * (1 - np.exp(-r2 / 2e-6)) / r2
    Ex, Ey = (f * X, f * Y) if uniform is None else (uniform[0] + 0 * X, uniform[1] + 0 * X)
    sio.savemat(fn, {'Ex': Ex, 'Ey': Ey, 'xx': xx, 'yy': yy}, oned_as='row')


def dump(fn, d):
    with open(fn, 'w') as f:
        for k, v in d.items():
            f.write('%s = %r\n' % (k, v))


def write(folder, machine={}, sim={}, sec={}, beam={}, sec_beams=(), clouds=(), drop=(), uniform=None):
    os.makedirs(folder, exist_ok=True)
    s = dict(SIM, machine_param_file='machine_parameters.input', secondary_emission_parameters_file='secondary_emission_parameters.input',
             beam_parameters_file='beam.beam', **{})
    s.update(sim)
    for k in ('logfile_path', 'progress_path', 'stopfile'):
        if s.get(k) and not os.path.isabs(s[k]):
            s[k] = os.path.join(folder, s[k])
    m, e, b = dict(MACHINE, **machine), dict(SEC, **sec), dict(BEAM, **beam)
    if sec_beams:
        m['secondary_beams_file_list'] = ['sec%d.beam' % i for i in range(len(sec_beams))]
        for i, x in enumerate(sec_beams):
            dump(os.path.join(folder, 'sec%d.beam' % i), dict(BEAM, **x))
    if clouds:
        s['additional_clouds_file_list'] = ['cloud%d.cloud' % i for i in range(len(clouds))]
        for i, x in enumerate(clouds):
            dump(os.path.join(folder, 'cloud%d.cloud' % i), x)
    for x in (s, m, e, b):
        for k in drop:
            x.pop(k, None)
    field(os.path.join(folder, 'field.mat'), uniform)
    dump(os.path.join(folder, 'simulation_parameters.input'), s)
    dump(os.path.join(folder, 'machine_parameters.input'), m)
    dump(os.path.join(folder, 'secondary_emission_parameters.input'), e)
    dump(os.path.join(folder, 'beam.beam'), b)


@contextlib.contextmanager
def quiet():
    # the electromagnetic solver resets sys.stdout to sys.__stdout__
    o, u, b = sys.stdout, sys.__stdout__, io.StringIO()
    sys.stdout = sys.__stdout__ = b
    try:
        yield
    finally:
        sys.stdout, sys.__stdout__ = o, u


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix='pvsim')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def build(d, kw={}, **files):
    """the real simulation object for an input folder written at d (outputs below d)"""
    from PyECLOUD.buildup_simulation import BuildupSimulation
    write(d, **files)
    kw = dict({'filen_main_outp': os.path.join(d, 'Pyecltest.mat')}, **kw)
    with quiet():
        return BuildupSimulation(pyecl_input_folder=d, **kw)


ION = dict(cloud_mass=18 * 1.66e-27, cloud_charge=1.602e-19, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1, Nel_init_unif=5e7,
           E_init_unif=.1, init_unif_edens_flag=0, switch_model='perfect_absorber', nel_mp_ref_0=1e6)


def profile(fn, t, lam):
    import scipy.io as sio
    sio.savemat(fn, {'t': t, 'lam_t_array': lam}, oned_as='row')


def quiet_run(sim, each=None, stop=None):
    b = sim.beamtim
    n = 0
    with quiet():
        while not b.end_simulation() and (stop is None or n < stop):
            b.next_time_step()
            for s in sim.sec_beams_list:
                s.next_time_step()
            sim.sim_time_step()
            n += 1
            if each:
                each(sim, n)
    return n


def scratch(f):
    def g(rng):
        with folder() as d:
            f(rng, d)
    return g
