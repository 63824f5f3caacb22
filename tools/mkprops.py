"""writes /verif/properties.jsonl (kept in one place so that it is easy to keep in step with the checks)"""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


T = 'The 19 scripts run a handful of fixed configurations and random seeds and assert nothing about this; '

p('C01', 'Wall impacts conserve charge and touch only the particles that hit',
  'In one surface-interaction step every macroparticle that is inside the chamber keeps its position, velocity and charge, and every macroparticle that is outside is replaced exactly at its own slot by what the emission model returns for that same impact. '
  'The total charge after the step equals the charge before, minus the charge that hit the wall, plus the charge the emission model emitted (replaced and newly created macroparticles), and newly created macroparticles are appended after the existing ones without overwriting any. '
  'When nothing hits the wall the step changes nothing.',
  ['inputs', 'histories'], 'every number and placement of macroparticles, every chamber and every emission law, with and without lifetime / segment histograms',
  T + 'they cannot cover all mixtures of inside/outside particles, empty clouds, and all emission outcomes.',
  ['impact_management_class.py', 'MP_system.py'],
  [('backtrack_and_second_emiss', 'impact_management_class.py'), ('add_new_MPs', 'MP_system.py')],
  [('live macroparticles', 'first N_mp slots of the particle arrays', 'MP_system.py')], ['macroparticle arrays after the step'])

p('C02', 'Emission splits charge without creating or losing it, within the size limit',
  'For every surface-emission model and every set of impacts, the charge carried by the macroparticles that leave each impact point (the replaced one plus all newly created ones) equals impinging charge times the yield that the model reports for that impact. '
  'A true-secondary emission whose charge exceeds the split size is divided into equal macroparticles, no bigger than the split size up to the rounding of the division count, while elastic and other events never create extra macroparticles, and the new macroparticles carry the charge, position and wall segment of the impact they come from.',
  ['inputs', 'configurations'], 'all impact sets (any number of impacts, energies, angles, charges, normals) and all emission models and their option switches',
  T + 'the splitting arithmetic involves ceilings, repeats and masks whose corner cases (zero yield, no secondaries, exact multiples) a sample does not reach.',
  ['sec_emission_model_ECLOUD.py', 'sec_emission_model_ECLOUD_nunif.py', 'sec_emission_model_accurate_low_ene.py', 'sec_emission_model_cos_low_ener.py',
   'sec_emission_model_flat_low_ener.py', 'sec_emission_model_from_file.py', 'sec_emission_model_perfect_absorber.py'],
  [('impacts_on_surface', 'sec_emission_model_*.py')], [], ['values returned to the impact manager'])

p('C03', 'Impact points lie on or inside the chamber with unit inward normals',
  'For a trajectory segment that starts inside the chamber and ends outside, the reported impact point lies on the segment and on (or just inside) the chamber wall, never outside, and for elliptic, rectangular and polygonal chambers the reported normal is a unit vector pointing into the chamber. '
  'A point is classified as outside exactly when it is outside the chamber cross section, element by element.',
  ['inputs', 'configurations'], 'all chamber sizes and shapes and all segments from an inside point to an outside point, in batches of any length',
  T + 'they do not check a single impact point or normal.',
  ['geom_impact_ellip.py', 'geom_impact_poly_fast_impact.py', 'geom_impact_poly_cython.pyx', 'geom_impact_rect_fast_impact.py'],
  [('is_outside / impact_point_and_normal', 'geom_impact_ellip.py'), ('is_outside_nonconvex, impact_point_and_normal', 'geom_impact_poly_cython.pyx')], [], ['chamber object API'])

p('C04', 'Emitted electrons leave the wall inwards with the energy drawn for them',
  'Every secondary electron is emitted towards the inside of the chamber (non-negative velocity component along the inward normal) with a speed that corresponds exactly to its drawn emission energy, and that energy never exceeds the configured cut (or the impact energy when that limit is selected). '
  'An elastically reflected electron keeps its speed and its velocity tangential to the wall and has the normal component reversed.',
  ['inputs', 'configurations'], 'all impacts, normals, masses, random draws, emission-angle laws (2D and 3D cosine) and energy laws',
  T + 'emission directions and energies are never inspected.',
  ['electron_emission.py', 'sec_emission_model_ECLOUD.py', 'sec_emission_model_accurate_low_ene.py', 'sec_emission_model_cos_low_ener.py', 'sec_emission_model_flat_low_ener.py', 'sec_emission_model_from_file.py'],
  [('velocities_angle_cosine_2D/3D', 'electron_emission.py'), ('sec_energy_hilleret_model2, rest', 'electron_emission.py')], [], ['velocities returned by the emission models'])

p('C05', 'Secondary yield follows its documented law and is physical',
  'The yield computed by each secondary-emission model equals its documented formula at every energy and angle: it is non-negative, the elastic part is the documented reflection curve, the true-secondary part the documented universal curve, the elastic probability lies in [0,1], and an impact is classified either elastic or true secondary. '
  'For a yield read from a table it is the linear interpolation of the table inside the table range and the documented extrapolation above it.',
  ['inputs', 'configurations'], 'all impact energies >= 0, incidence cosines in [0,1], and model parameters in their physical range',
  T + 'no yield value is compared with the law.',
  ['sec_emission_model_ECLOUD.py', 'sec_emission_model_accurate_low_ene.py', 'sec_emission_model_cos_low_ener.py', 'sec_emission_model_flat_low_ener.py', 'sec_emission_model_from_file.py', 'sec_emission_model_ECLOUD_nunif.py'],
  [('yield_fun2, SEY_process', 'sec_emission_model_*.py')], [], ['SEY_process results'])

p('C06', 'The macroparticle container stays well formed under every operation',
  'Removing small macroparticles keeps exactly those at or above the cleaning threshold, in order and with all their coordinates, and drops the others; slots beyond the live macroparticles carry no charge after cleaning, regeneration, or restoring a saved set, and the number of live macroparticles is always consistent with the arrays. '
  'Adding macroparticles never alters existing ones, the thresholds always follow the reference size, and an emptied cloud goes back to the initial reference size. '
  'Saving the macroparticles and restoring them reproduces every one, and position snapshots are not affected by later motion.',
  ['inputs', 'histories'], 'every container content and capacity, with and without last-impact-time tracking',
  T + 'state of dead slots and relative order are never looked at.',
  ['MP_system.py'], [('clean_small_MPs, add_new_MPs, add_from_file, init_from_dict, extract_dict, get_positions, set_nel_mp_ref', 'MP_system.py')],
  [('N_mp', 'number of live macroparticles', 'MP_system.py')], ['macroparticle arrays'])

p('C07', 'Soft regeneration reduces macroparticles and keeps the total charge',
  'A soft or asynchronous regeneration acts exactly when the macroparticle number is above its trigger, keeps a sub-sequence of the existing macroparticles with unchanged positions and velocities, and rescales all surviving charges by one common factor so that the total charge is exactly that before, whenever at least one macroparticle survives. '
  'The new reference size is total charge over target number, but never below the initial one, and the asynchronous variant cleans first and regenerates only if the number is still above the trigger.',
  ['inputs', 'histories'], 'every cloud, target and random selection', T + 'charge totals around a regeneration are not checked.',
  ['MP_system.py'], [('perform_soft_regeneration, check_for_soft_regeneration, check_for_async_regeneration', 'MP_system.py')], [], ['macroparticle arrays'])

p('C08', 'Full regeneration acts on its trigger and rebuilds a valid equal-size cloud',
  'The phase-space regeneration acts exactly when the macroparticle number is above the upper trigger, or below the lower trigger with a reference size above the initial one. '
  'Afterwards all macroparticles lie inside the chamber and carry the same charge, equal to the new reference size, the expected number of macroparticles per phase-space cell is its charge divided by that size (within one), and unused slots carry no charge.',
  ['inputs', 'histories'], 'every cloud distribution and regeneration grid', T + 'the regenerated distribution is not checked.',
  ['MP_system.py'], [('check_for_regeneration', 'MP_system.py')], [], ['macroparticle arrays'])

p('C09', 'Seeding adds the requested charge, inside the chamber, at reference size',
  'Uniform seeding by number or by density, residual-gas ionization and photoemission add a number of macroparticles equal to requested charge over reference size within one (density: at most that, since only points inside are kept), all inside the chamber (and the requested window), of exactly the reference size, and leave existing macroparticles untouched. '
  'Seeded velocities correspond to the configured initial energy, and nothing is added when the requested charge is zero.',
  ['inputs', 'configurations'], 'all chambers, windows, charges, energies and random draws', T + 'only end results of a few seeded runs are printed.',
  ['MP_system.py', 'gas_ionization_class.py', 'gen_photoemission_class.py'],
  [('add_uniform_MP_distrib, add_uniform_ele_density', 'MP_system.py'), ('generate', 'gas_ionization_class.py'), ('generate', 'gen_photoemission_class.py')], [], ['macroparticle arrays'])

p('C10', 'Boris tracking is an exact rotation plus a symmetric electric kick',
  'The Boris tracker updates every macroparticle by the half kick - rotation - half kick scheme: with no electric field the kinetic energy of each particle is exactly conserved, with no magnetic field the motion is exactly the uniform acceleration update, and each sub-step moves positions by the updated velocity. '
  'All macroparticles are updated independently of each other, exactly the configured number of sub-steps is taken, and the Fortran and C implementations compute the same map.',
  ['inputs', 'configurations'], 'all field values, charges, masses, step sizes, particle numbers and sub-step counts', T + 'no tracker invariant is evaluated.',
  ['boris_step.f', 'boris_c_function.c', 'dynamics_Boris_f2py.py', 'dynamics_Boris_multipole.py'],
  [('boris_step', 'boris_step.f'), ('boris_c', 'boris_c_function.c')], [], ['positions and velocities after a step'])

p('C11', 'Strong-field trackers solve the frozen-field equations of motion exactly',
  'The dipole and uniform-strong-field trackers advance each macroparticle by the closed-form solution of motion in a uniform magnetic field and a constant electric field over the time step, including the straight-line (zero field) limit, so that without electric field the kinetic energy is conserved, and motion along the field is uniform acceleration. '
  'Each macroparticle is advanced independently of the others.',
  ['inputs', 'configurations'], 'all uniform fields, electric fields, step sizes and particle states', T + 'no comparison with the solution exists.',
  ['dynamics_dipole.py', 'dynamics_strong_B_generalized.py', 'sincc_cosincc_cubsincc.py'],
  [('step', 'dynamics_dipole.py'), ('step', 'dynamics_strong_B_generalized.py'), ('sincc, cosincc, cubsincc', 'sincc_cosincc_cubsincc.py')], [], ['positions and velocities after a step'])

p('C12', 'Particle-mesh kernels deposit and gather with matching bilinear weights',
  'Depositing macroparticles on a grid adds exactly each particle charge, shared over the four surrounding nodes with non-negative bilinear weights that sum to one and have the particle position as their barycentre; interpolating a field uses the same weights, so a constant or linear field is reproduced exactly. '
  'Particles whose cell is not inside the grid contribute nothing and get zero field, no index leaves the grid, and one-dimensional histogramming adds each weight once, shared linearly over two neighbouring bins.',
  ['inputs'], 'all grids, particle positions and charges', T + 'no sum rule on the kernels is tested.',
  ['compute_rho.f', 'interp_field_for.f', 'compute_hist.f', 'update_seg_impact.f', 'vectsum.f'],
  [('compute_sc_rho', 'compute_rho.f'), ('interp_field', 'interp_field_for.f'), ('compute_hist', 'compute_hist.f'), ('update_seg_impact', 'update_seg_impact.f')], [], ['kernel outputs'])

p('C13', 'Impact diagnostics account for every impact exactly once',
  'In every surface-interaction step the reported impinging charge and energy are the sums over the particles that hit, the emitted charge and energy those over the emitted ones; the position, scrubbing, energy, angle and wall-segment histograms each receive every impact exactly once with its charge (or energy) weight, deposited wall energy being impact minus emission energy. '
  'Diagnostics are zero for a step without impacts, last-impact times are updated exactly for the particles that hit, and bin indices stay inside their histograms.',
  ['inputs', 'configurations'], 'all impact sets and all combinations of the diagnostics switches', T + 'histogram contents are not compared to the impacts.',
  ['impact_management_class.py', 'compute_hist.f', 'update_seg_impact.f'], [('backtrack_and_second_emiss', 'impact_management_class.py')], [], ['histograms and step totals'])

p('C14', 'Beam profile and time stepping follow the configured bunch pattern',
  'The beam density used at each time step is the configured bunch profile at that time: a sum of identically shaped bunches placed at the configured passages with the configured intensities, held at zero far from bunches, and integrating to the configured bunch populations. '
  'Time advances monotonically by the configured step, each step reads the profile sample of its own time, a bunch passage is signalled exactly once per passage, and the simulation ends when the profile ends.',
  ['inputs', 'configurations', 'histories'], 'all filling patterns, bunch lengths, steps and profiles', T + 'they use three filling patterns.',
  ['beam_and_timing.py'], [('next_time_step, end_simulation, get_beam_eq_density', 'beam_and_timing.py')], [], ['beam_tim attributes per step'])

p('C15', 'Each macroparticle is advanced by exactly one time step per simulation step',
  'In every simulation step the motion of all macroparticles covers exactly the time of the step, whatever sub-stepping is chosen, and the sequence field computation, motion, surface interaction, source terms is the same for each cloud. '
  'Space-charge fields are recomputed exactly when the configured interval has elapsed and otherwise held, and cleaning and regeneration happen only at their scheduled passages.',
  ['inputs', 'configurations', 'histories'], 'all time steps, sub-step settings and space-charge intervals', T + 'one sub-step setting is exercised.',
  ['buildup_simulation.py', 'space_charge_class.py', 'dynamics_Boris_f2py.py', 'dynamics_Boris_multipole.py'],
  [('_cloud_motion, sim_time_step', 'buildup_simulation.py'), ('check_for_recomputation', 'space_charge_class.py')], [], ['calls into the tracker'])

p('C16', 'Space charge of several clouds is the sum over clouds',
  'The charge density used for the space-charge solution is the sum of the charge densities of all clouds (each with its own particle charge and its live macroparticles only), every cloud feels the field of that total, and a cloud without macroparticles contributes nothing. '
  'The field seen by a macroparticle is the interpolation of that solution at its position.',
  ['inputs', 'configurations', 'histories'], 'all numbers of clouds, macroparticles and grids', T + 'only one two-cloud run exists and it asserts nothing.',
  ['space_charge_class.py', 'buildup_simulation.py'], [('compute_spchg_efield, recompute_spchg_efield, compute_beamchg_efield', 'space_charge_class.py'), ('sim_time_step', 'buildup_simulation.py')], [], ['rho'])

p('C17', 'Cross-ionization creates paired products where the projectiles are',
  'Cross-ionization creates product macroparticles only at positions of projectile macroparticles, with the expected number set by projectile charge, cross section at the projectile energy, gas density and time step, and each ionization event adds the same charge to every product species. '
  'The interpolated cross section equals the tabulated data at the table points, and is zero outside the table range.',
  ['inputs', 'configurations'], 'all projectile clouds and cross-section tables', T + 'two fixed runs without assertions.',
  ['cross_ionization.py'], [('generate, get_sigma', 'cross_ionization.py')], [], ['returned macroparticles'])

p('C18', 'Step-by-step output records the simulated quantities at each recorded step',
  'The step-by-step record holds, for every recorded step, the time, total charge, energies and impact quantities of that very step, with charge, impact and emission rates summed over the interval between records; nothing is lost or counted twice when records are thinned, when buffers are flushed, or when saving is limited in size. '
  'Per-passage histograms hold the impacts of that passage only.',
  ['inputs', 'histories', 'configurations'], 'all run lengths, decimations and flush points', T + 'outputs are only plotted.',
  ['pyecloud_saver.py'], [('_stepbystep_data_save, _stepbystep_check_for_data_resize', 'pyecloud_saver.py')], [], ['output dictionary'])

p('C19', 'Reloading an output or a checkpoint continues the run it came from',
  'A run restarted from a saved output or checkpoint contains the recorded history up to the restart point unchanged and complete, sample by sample, for every recorded quantity and histogram, and continues recording right after it. '
  'A step taken after the restart overwrites nothing that was recorded.',
  ['histories', 'crash_points', 'configurations'], 'all restart times and all combinations of saved quantities', T + 'one restart example is plotted against a full run.',
  ['pyecloud_saver.py', 'buildup_simulation.py'], [('load_from_output, _stepbystep_data_init', 'pyecloud_saver.py'), ('load_checkpoint, load_state', 'buildup_simulation.py')], [], ['output file contents'])

p('C20', 'Configuration files are validated: nothing unknown, missing or misplaced passes',
  'A configuration is accepted only if every parameter given in each input file is one the program knows for that kind of file, no mandatory parameter is missing, and the same parameter is not given in two files; otherwise it is rejected with an error before the simulation starts. '
  'Every optional parameter not given takes its documented default and every given value reaches the simulation unchanged.',
  ['inputs', 'configurations'], 'all parameter dictionaries', T + 'they only run valid inputs.',
  ['input_parameters_format_specification.py', 'default_input_parameters.py', 'parse_cloud_file.py', 'parse_beam_file.py'],
  [('assert_module_has_parameters, import_module_from_file, update_config_dict, read_parameter_files', 'input_parameters_format_specification.py')], [], ['parsed configuration'])

p('C21', 'Polygonal chambers are validated and their derived data is consistent',
  'Building a polygonal chamber yields edges, normals, bounding box and per-edge data consistent with the vertices in the file (closed contour, one edge per vertex, positive area orientation) and rejects clockwise or malformed polygons. '
  'The chamber bounding box contains every inside point.',
  ['inputs', 'configurations'], 'all vertex lists', T + 'two chamber files are used.',
  ['geom_impact_poly_fast_impact.py', 'geom_impact_poly.py'], [('__init__', 'geom_impact_poly_fast_impact.py')], [], ['chamber attributes'])

p('C22', 'Beam-cloud coupling applies kicks slice by slice and restores the cloud',
  'In the beam-tracking coupling each beam slice receives the transverse kick interpolated from the cloud field at its own particles only, times the slice-independent constants, the cloud evolves for exactly the time of each slice, and the cloud is reset to its initial state before the next turn when so configured. '
  'With the kick disabled the beam is unchanged.',
  ['inputs', 'histories', 'configurations'], 'all bunches, slicings and clouds', T + 'comparison plots only.',
  ['PyEC4PyHT.py'], [('track, _track_single_slice, _reinitialize', 'PyEC4PyHT.py')], [], ['beam momenta, cloud state'])

p('C23', 'Position-dependent yield uses the segment that was hit',
  'With a non-uniform surface, every impact uses the yield parameters of the very wall segment it hit and new macroparticles inherit that segment; insulating-surface charging changes the yield only of insulating segments. '
  'A uniform parameter set gives the same result as the uniform model.',
  ['inputs', 'configurations'], 'all segment maps and impact sets', T + 'one non-uniform run without assertions.',
  ['sec_emission_model_ECLOUD_nunif.py'], [('SEY_process', 'sec_emission_model_ECLOUD_nunif.py')], [], ['SEY_process results'])

p('C24', 'The probabilistic emission model emits consistent events',
  'In the Furman-Pivi model every impact is exactly one of absorbed, elastically reflected, rediffused or true secondary; the number of emitted electrons and the total emitted charge match the event, elastic and rediffused events emit one electron, and every emitted energy lies between zero and the impact energy. '
  'Component yields follow their documented formulas and are non-negative.',
  ['inputs', 'configurations'], 'all impacts, parameter sets and random draws', T + 'only distributions are plotted.',
  ['sec_emission_model_furman_pivi.py'], [('impacts_on_surface, SEY_process', 'sec_emission_model_furman_pivi.py')], [], ['values returned to the impact manager'])

import os
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
