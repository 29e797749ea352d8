"""Transcribe tabulated data (published standards) used as oracles; run once, output is committed."""
import json
import os
import sys
sys.path.insert(0, os.environ.get('FLUIDS_REPO', '/repo'))
HERE = os.path.dirname(os.path.abspath(__file__))
import fluids.piping as piping
import fluids.pump as pump
import fluids.safety_valve as sv

T = {}
T['pipes'] = {k: [list(map(float, x)) for x in v] for k, v in piping.schedule_lookup.items()}
T['gauges'] = {k: [list(map(float, x)) for x in v[:3]] for k, v in piping.wire_schedules.items()}
T['nema_sizes_hp'] = pump.nema_sizes_hp
T['vfd'] = [pump.VFD_efficiency_loads, pump.VFD_efficiency_powers, pump.VFD_efficiencies]
T['nema'] = {k: [pump.nema_high_P if 'high' in k else pump.nema_min_P, list(map(float, v))] for k, v in vars(pump).items() if k.startswith('nema_') and k.endswith('p')}
T['underloaded'] = [pump._efficiency_lists, pump._efficiency_ones]
for n in ('residential_power', 'industrial_power'):
    T[n] = {k: [v.country, v.voltage, v.freq, list(v.plugs) if v.plugs else None] for k, v in getattr(pump, n).items()}
T['api526'] = sv.API526_A_sq_inch
T['KSH7'] = [sv._KSH_tempKs_7E, sv._KSH_Pa_7E, sv._KSH_factors_7E]
T['KSH10'] = [sv._KSH_K_10E, sv._KSH_Pa_10E, sv._KSH_factors_10E]
for n in ('Kb_16_over_x', 'Kb_16_over_y', 'Kb_10_over_x', 'Kb_10_over_y', 'Kw_x', 'Kw_y'):
    T[n] = getattr(sv, n)
import fluids.flow_meter as fm
for n in ('venturi_tube_betas', 'venturi_tube_dP_high', 'venturi_tube_dP_low', 'venturi_logRes_Hollingshead', 'venturi_smooth_Cs_Hollingshead', 'venturi_sharp_Cs_Hollingshead'):
    T[n] = getattr(fm, n)
for n in ('orifice_std', 'cone', 'wedge'):
    t = getattr(fm, n + '_Hollingshead_tck')
    T[n + '_tck'] = [list(map(float, x)) for x in t[:3]] + [int(t[3]), int(t[4])]
import fluids.fittings as ft
sys.path.insert(0, os.path.join(HERE, '..'))
from symx.swap import flat
T['fittings'] = {k: flat(v) for k, v in vars(ft).items() if not k.startswith('__') and isinstance(v, (list, tuple)) and not isinstance(v[0], str) and k not in ('NPS40', 'S40i', 'tck_bend_rounded_Miller_C_os')}
T['Darby'] = {k: list(v) for k, v in ft.Darby.items()}
T['Hooper'] = {k: list(v) for k, v in ft.Hooper.items()}
import fluids.open_flow as of
T['manning'] = {n: {k: {q: list(w) for q, w in v.items()} for k, v in getattr(of, n).items()} for n in ('n_natural', 'n_excavated_dredged', 'n_lined_built', 'n_closed_conduit')}
T['shen'] = [of.angles_Shen, of.Cs_Shen, of.k_Shen]
import fluids.filters as fi
T['filters'] = {k: list(v) for k, v in vars(fi).items() if k.startswith(('round_', 'square_', 'grills_')) and isinstance(v, list) and k != 'grills_rounded_tck'}
import fluids.mixing as mx
T['static_mixers'] = mx.StatixMixers
import fluids.separator as sp
T['splines1'] = {k: [list(map(float, x)) for x in v[:2]] + [int(v[2])] for k, v in dict(tck_Watkins=sp.tck_Watkins, grills_rounded_tck=fi.grills_rounded_tck).items()}
import fluids.particle_size_distribution as psd
T['sieves'] = {k: [s.designation for s in v] for k, v in psd.sieve_spacing_options.items()}
T['sieves']['old'] = {k: s.old_designation for k, s in psd.ASTM_E11_sieves.items()}
p = os.path.join(HERE, '..', 'props', 'tables.json')
old = json.load(open(p)) if os.path.exists(p) else {}
old.update(T)
json.dump(old, open(p, 'w'), sort_keys=True)
