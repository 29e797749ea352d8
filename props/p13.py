"""P13: exchanger, coil, tower and simple shape geometry."""
from math import acos, asin, atan, cos, pi, radians, sin, sqrt, tan

from symx.harness import harness
from symx.formula import cmp, same_formula
import fluids.geometry as G

META = dict(
    title='Coil, plate, fin, air cooler, cooling tower and shape geometry is consistent',
    statement='A HelicalCoil, PlateExchanger, RectangularFinExchanger, RectangularOffsetStripFinExchanger, AirCooledExchanger and HyperbolicCoolingTower hold the attributes their documentation defines, whichever admissible set of parameters they are built from, and equivalent parameter sets give the same object; missing or infeasible parameters raise ValueError. '
              'pitch_angle_solver gives the same angle and pitches from any two of them. The cooling tower diameter passes through the base, inlet, throat and outlet diameters. '
              'Cylinder, hollow and multiple-hole cylinder areas and volumes, sphericity, circularity and aspect ratio equal their formulas for every input.',
    over=['inputs', 'configurations'],
    text='dimensions over two decades, integer counts 1 to 12, every parameter set; elliptic integrals as functions',
    why='classes accept many equivalent parameter sets and derive dozens of attributes; tests build one or two objects of each',
    files=['fluids/geometry.py'],
    mech=['HelicalCoil', 'PlateExchanger, plate_enlargement_factor', 'RectangularFinExchanger, RectangularOffsetStripFinExchanger', 'AirCooledExchanger', 'HyperbolicCoolingTower', 'pitch_angle_solver', 'A_cylinder ... circularity'],
)


@harness('P13', funcs='HelicalCoil', bounds='Dt in [.01,.1], Do in [.15,3], pitch/Dt in [1.01,5], N in [.5,40]; six parameter sets')
def helical_coil(ctx):
    Dt, Do, p, N = ctx.real('Dt', 0.01, 0.1), ctx.real('Do', 0.15, 3.), ctx.real('p', 1.01, 5.), ctx.real('N', 0.5, 40.)
    pitch = p * Dt
    H = N * pitch
    Di = ctx.real('Di', 0.005, 0.009)
    which = ctx.choice('given', ['N pitch', 'N H', 'H pitch', 'H_total pitch', 'H_total N', 'Do_total'])
    kw = {'N pitch': dict(N=N, pitch=pitch), 'N H': dict(N=N, H=H), 'H pitch': dict(H=H, pitch=pitch), 'H_total pitch': dict(H_total=H + Dt, pitch=pitch),
          'H_total N': dict(H_total=H + Dt, N=N), 'Do_total': dict(N=N, pitch=pitch)}[which]
    kw.update(dict(Do_total=Do + Dt) if which == 'Do_total' else dict(Do=Do))
    C = G.HelicalCoil(Dt, Di=Di, **kw)
    T = sqrt((pi * Do * N)**2 + H**2)
    al = pitch / (pi * Do)
    for k, v in dict(Dt=Dt, Do=Do, Do_total=Do + Dt, N=N, pitch=pitch, H=H, H_total=H + Dt, tube_circumference=pi * Do, tube_length=T, surface_area=pi * Dt * T,
                     helix_angle=atan(al), curvature=Dt / Do / (1 + 4 * pi**2 * al**2), inner_surface_area=pi * Di * T, inlet_area=pi / 4 * Di**2,
                     inner_volume=pi / 4 * Di**2 * T, annulus_area=pi / 4 * (Dt**2 - Di**2), annulus_volume=pi / 4 * (Dt**2 - Di**2) * T, total_volume=pi / 4 * Dt**2 * T).items():
        ctx.close(k, getattr(C, k), v, rtol=1e-7)


@harness('P13', funcs='HelicalCoil', bounds='incomplete or colliding coils')
def helical_coil_errors(ctx):
    Dt, Do, p, N = ctx.real('Dt', 0.01, 0.1), ctx.real('Do', 0.15, 3.), ctx.real('p', 0.1, 0.99), ctx.real('N', 0.5, 40.)
    ctx.raises('no diameter', G.HelicalCoil, Dt, N=N, pitch=Dt, exc='ValueError')
    for kw in (dict(N=N), dict(H=N), dict(pitch=2 * Dt), dict()):
        ctx.raises('two of N, pitch, H', G.HelicalCoil, Dt, Do, exc='ValueError', **kw)
    ctx.raises('colliding N H', G.HelicalCoil, Dt, Do, N=N, H=N * p * Dt, exc='ValueError')
    ctx.raises('colliding H pitch', G.HelicalCoil, Dt, Do, H=N * p * Dt, pitch=p * Dt, exc='ValueError')
    ctx.raises('tube larger than the helix', G.HelicalCoil, Do, p * Do, pitch=2 * Do, N=N, exc='ValueError')


@harness('P13', funcs='PlateExchanger, plate_enlargement_factor', bounds='amplitude in [1e-4,1e-2], wavelength in [1e-3,.1]; with and without each optional dimension', domain='assume')
def plate_exchanger(ctx):
    a, lam = ctx.real('a', 1e-4, 1e-2), ctx.real('lam', 1e-3, 0.1)
    phi = 2 / pi * G.ellipe(-4 * a**2 * pi**2 / lam**2)
    ctx.close('enlargement', G.plate_enlargement_factor(a, lam), phi)
    b1, b2 = ctx.choice('angles', [(45, 45), (30, 60), (20, 65)])
    W, L, dp = ctx.real('W', 0.1, 3.), ctx.real('L', 0.1, 3.), ctx.real('dp', 0.02, 0.4)
    n = ctx.choice('plates', [3, 10, 51])
    one = ctx.choice('one angle', [True, False])
    if one and b1 != b2:
        return
    E = G.PlateExchanger(a, lam, width=W, length=L, d_port=dp, plates=n, **(dict(chevron_angle=b1) if one else dict(chevron_angles=(b1, b2))))
    for k, v in dict(amplitude=a, a=a, b=2 * a, wavelength=lam, pitch=lam, chevron_angle=(b1 + b2) / 2, beta=(b1 + b2) / 2, inclination_angle=90 - (b1 + b2) / 2, plate_corrugation_aspect_ratio=4 * a / lam, gamma=4 * a / lam,
                     plate_enlargement_factor=phi, D_eq=4 * a, D_hydraulic=4 * a / phi, length_port=L + dp, A_plate_surface=L * W * phi, A_heat_transfer=(n - 2) * L * W * phi,
                     A_channel_flow=2 * a * W, channels=n - 1, channels_per_fluid=(n - 1) / 2, width=W, length=L, d_port=dp, plates=n).items():
        ctx.close(k, getattr(E, k), v, rtol=1e-7)
    ctx.same('angles', tuple(E.chevron_angles), (b1, b2))
    F = G.PlateExchanger(a, lam, width=W)
    ctx.close('channel area alone', F.A_channel_flow, 2 * a * W)
    ctx.same('45 degrees unless given', F.chevron_angle, 45)


@harness('P13', funcs='RectangularFinExchanger', bounds='s in [2,20] mm, h/s in [.5,5], t/s in [.01,.2]')
def fin_exchanger(ctx):
    s, hs, ts = ctx.real('s', 0.002, 0.02), ctx.real('hs', 0.5, 5.), ctx.real('ts', 0.01, 0.2)
    h, t = hs * s, ts * s
    L, pt = ctx.real('L', 0.1, 3.), ctx.real('pt', 0.0005, 0.005)
    fins, layers = ctx.choice('fins', [10, 47, 200]), ctx.choice('layers', [1, 4, 19])
    W = fins * s
    E = G.RectangularFinExchanger(h, t, s, length=L, width=W, layers=layers, plate_thickness=pt)
    P = 2 * (s - t) + 2 * (h - t)
    H = (pt + h) * layers + pt
    for k, v in dict(h=h, fin_height=h, t=t, fin_thickness=t, s=s, fin_spacing=s, channel_height=h - t, channel_width=s - t, fin_count=1 / s,
                     blockage_ratio=(s * h - s * t - t * (h - t)) / (s * h), A_channel=(s - t) * (h - t), P_channel=P, Dh=4 * (s - t) * (h - t) / P, layer_thickness=pt + h,
                     layer_fin_count=fins, A_HX_layer=P * L * fins, A_HX=P * L * fins * layers, height=H, volume=H * L * W, A_specific_HX=P * L * fins * layers / (H * L * W)).items():
        ctx.close(k, getattr(E, k), v, rtol=1e-7)
    ctx.close('fins alone', G.RectangularFinExchanger(h, t, s).Dh, 4 * (s - t) * (h - t) / P)


@harness('P13', funcs='RectangularOffsetStripFinExchanger', bounds='s in [2,20] mm, h/s in [.5,5], t/s in [.01,.2], l/s in [.3,10]')
def offset_fin_exchanger(ctx):
    s, hs, ts, ls = ctx.real('s', 0.002, 0.02), ctx.real('hs', 0.5, 5.), ctx.real('ts', 0.01, 0.2), ctx.real('ls', 0.3, 10.)
    h, t, l = hs * s, ts * s, ls * s
    E = G.RectangularOffsetStripFinExchanger(l, h, t, s)
    A = 2 * (l * (h - t) + l * (s - t) + t * (h - t)) + t * (s - 2 * t)
    for k, v in dict(fin_length=l, fin_height=h, fin_thickness=t, fin_spacing=s, blockage_ratio=2 * t / s * (1 - t / h) + t / h * (1 - 2 * t / s), blockage_ratio_Kim=t / h + t / s - t**2 / (h * s),
                     alpha=s / h, delta=t / l, gamma=t / s, A_channel=(s - t) * (h - t), A=A, Dh=4 * l * (s - t) * (h - t) / A, P_channel=2 * (s + h - 2 * t), Dh_Kays_London=2 * (s - t) * (h - t) / (s + h - 2 * t)).items():
        ctx.close(k, getattr(E, k), v, rtol=1e-7)


@harness('P13', funcs='pitch_angle_solver', bounds='angle in [2,88] degrees, pitch in [.01,1]; all six pairs', domain='assume')
def pitches(ctx):
    ang, p = ctx.real('angle', 2., 88.), ctx.real('p', 0.01, 1.)
    pn, pp = p * sin(radians(ang)), p * cos(radians(ang))
    which = ctx.choice('given', ['angle pitch', 'angle normal', 'angle parallel'])
    kw = {'angle pitch': dict(angle=ang, pitch=p), 'angle normal': dict(angle=ang, pitch_normal=pn), 'angle parallel': dict(angle=ang, pitch_parallel=pp)}[which]
    cmp(ctx, 'pitches', G.pitch_angle_solver(**kw), (ang, p, pp, pn), rtol=1e-9)
    for one in (dict(angle=ang), dict(pitch=p), dict(pitch_normal=pn), dict(pitch_parallel=pp), {}):
        ctx.raises('one argument', G.pitch_angle_solver, exc='ValueError', **one)


@harness('P13', funcs='pitch_angle_solver', bounds='pitch in [.01,1], sine of the angle in [.03,.99]; pairs without the angle', domain='assume')
def pitches_no_angle(ctx):
    p, s = ctx.real('p', 0.01, 1.), ctx.real('s', 0.03, 0.99)
    pn, pp = p * s, p * sqrt(1 - s**2)
    which = ctx.choice('given', ['normal pitch', 'parallel pitch', 'parallel normal'])
    kw = {'normal pitch': dict(pitch_normal=pn, pitch=p), 'parallel pitch': dict(pitch_parallel=pp, pitch=p), 'parallel normal': dict(pitch_parallel=pp, pitch_normal=pn)}[which]
    a, q, qp, qn = G.pitch_angle_solver(**kw)
    ctx.close('pitch', q, p)
    ctx.close('parallel', qp, pp, rtol=1e-7)
    ctx.close('normal', qn, pn, rtol=1e-7)
    ctx.close('angle', sin(radians(a)), s, rtol=1e-7)


COUNTS = [(4, 4, 20, 1, 1), (4, 3, 17, 2, 3), (6, 2, 8, 3, 1), (1, 1, 1, 1, 2)]
COOLERS = [(COUNTS[(i + j) % 4], a, h, (i + j // 2) % 2 == 0, (i + j) % 3 == 0) for i, a in enumerate([30, 60, 45, 90, 20]) for j, h in enumerate(['pitch', 'ratio', 'parallel', 'normal'])
           if not (a == 90 and h == 'parallel')]


@harness('P13', funcs='AirCooledExchanger', bounds='tube diameters 10 to 60 mm; counts 1 to 12; every parameter alternative', timeout=120, domain='assume')
def air_cooler(ctx):
    # every value of every option meets every other one in one of these
    counts, ang, how, wall, corbels = ctx.choice('cooler', COOLERS)
    rows, passes, tpr, bays, bundles = counts
    D, L = ctx.real('D', 0.01, 0.06), ctx.real('L', 1., 20.)
    ft, dens, hr = ctx.real('ft', 1e-4, 5e-4), ctx.real('dens', 100., 500.), ctx.real('hr', 0.1, 0.8)
    pr = ctx.real('pr', 1.5, 4.)
    th = 0.1 * D if wall else None
    p = pr * D
    pn, pp = p * sin(radians(ang)), p * cos(radians(ang))
    kw = dict(angle=ang)
    kw.update({'pitch': dict(pitch=p), 'ratio': dict(pitch_ratio=pr), 'parallel': dict(pitch_parallel=pp), 'normal': dict(pitch_normal=pn)}[how])
    kw.update(dict(fin_height=hr * D) if how in ('pitch', 'parallel') else dict(fin_diameter=D * (1 + 2 * hr)))
    kw.update(dict(fin_density=dens) if how in ('pitch', 'normal') else dict(fin_interval=1 / dens))
    E = G.AirCooledExchanger(tube_rows=rows, tube_passes=passes, tubes_per_row=tpr, tube_length=L, tube_diameter=D, fin_thickness=ft, parallel_bays=bays, bundles_per_bay=bundles, corbels=corbels, tube_thickness=th, **kw)
    Df, fh = D * (1 + 2 * hr), hr * D
    n1 = rows * tpr
    n2 = n1 * bundles
    n3 = n2 * bays
    bare, show, fin = pi * D * L, pi * D * L * (1 - ft * dens), dens * L * (pi / 2 * (Df**2 - D**2) + pi * Df * ft)
    pd = sqrt(pp**2 + (pn / 2)**2)
    gap = D + 2 * dens * fh * ft
    Ad, An = 2 * tpr * L * (pd - gap), tpr * L * (pn - gap)
    Am = Ad if Ad < An else An
    face = pn * L * (tpr + (0.5 if corbels else 1))
    want = dict(pitch=p, pitch_ratio=pr, pitch_parallel=pp, pitch_normal=pn, pitch_diagonal=pd, fin_height=fh, fin_diameter=Df, fin_density=dens, fin_interval=1 / dens, bare_length=1 / dens - ft,
                tubes_per_bundle=n1, tubes_per_bay=n2, tubes=n3, A_per_fin=pi / 2 * (Df**2 - D**2) + pi * Df * ft,
                A=(show + fin) * n3, A_increase=(show + fin) / bare, A_diagonal_per_bundle=Ad, A_normal_per_bundle=An, A_min_per_bundle=Am, A_min_per_bay=Am * bundles, A_min=Am * bundles * bays,
                A_face_per_bundle=face, A_face_per_bay=face * bundles, A_face=face * bundles * bays, flow_area_contraction_ratio=Am / face, channels=n1 / passes if rows % passes == 0 else tpr)
    for q, v in (('A_bare_tube', bare), ('A_tube_showing', show), ('A_fin', fin), ('A', show + fin)):
        for w, c in (('_per_tube', 1), ('_per_row', tpr), ('_per_bundle', n1), ('_per_bay', n2), ('', n3)):
            want[q + w] = v * c
    if th is not None:
        fl = pi / 4 * (D - 2 * th)**2
        want.update(Di=D - 2 * th, A_tube_flow=fl, A_tube_flow_total=fl * n3, tube_volume=fl * L * n3, tube_volume_per_tube=fl * L)
        for w, c in (('_per_row', tpr), ('_per_bundle', n1), ('_per_bay', n2)):
            want['A_tube_flow' + w] = fl * c
            want['tube_volume' + w] = fl * L * c
    else:
        ctx.same('unknown wall', (E.Di, E.A_tube_flow, E.tube_volume), (None, None, None))
    for k, v in want.items():
        ctx.close(k, getattr(E, k), v, rtol=1e-7, atol=1e-12)
    ctx.same('layout', E.pitch_str, {30: 'triangular', 60: 'rotated triangular', 45: 'rotated square', 90: 'square'}.get(ang, 'custom'))


@harness('P13', funcs='AirCooledExchanger', bounds='missing or repeated parameters')
def air_cooler_errors(ctx):
    D = ctx.real('D', 0.01, 0.06)
    base = dict(tube_rows=4, tube_passes=4, tubes_per_row=20, tube_length=3., tube_diameter=D, fin_thickness=1e-4)
    ok = dict(angle=30, pitch=3 * D, fin_height=D / 2, fin_density=300.)
    ctx.close('complete', G.AirCooledExchanger(**base, **ok).fin_diameter, 2 * D)
    for k in ok:
        ctx.raises('without ' + k, G.AirCooledExchanger, exc='ValueError', **base, **{q: v for q, v in ok.items() if q != k})
    ctx.raises('pitch and ratio', G.AirCooledExchanger, exc='ValueError', pitch_ratio=3., **base, **ok)


@harness('P13', funcs='HyperbolicCoolingTower', bounds='H_outlet in [50,250], other heights and diameters as fractions; base or inlet diameter given; throat default or given', domain='assume')
def tower(ctx):
    H, Hi, Ht = ctx.real('H', 50., 250.), ctx.real('Hi', 0.01, 0.2), ctx.real('Ht', 0.5, 0.9)
    Dt, ri, ro = ctx.real('Dt', 20., 100.), ctx.real('ri', 1.1, 2.5), ctx.real('ro', 1.02, 1.8)
    how = ctx.choice('given', ['inlet', 'base', 'inlet, default throat diameter'])
    if how.endswith('diameter'):
        ri = 1 / 0.63
    dflt = ctx.choice('default throat height', [False, True])
    if dflt:
        Ht = 2 / 3
    kw = dict(H_inlet=Hi * H, D_outlet=ro * Dt, H_outlet=H)
    if not dflt:
        kw['H_throat'] = Ht * H
    if not how.endswith('diameter'):
        kw['D_throat'] = Dt
    kw.update(dict(D_base=ri * Dt) if how == 'base' else dict(D_inlet=ri * Dt))
    T = G.HyperbolicCoolingTower(**kw)
    ctx.close('throat height', T.H_throat, Ht * H)
    ctx.close('throat', T.D_throat, Dt)
    ctx.close('base' if how == 'base' else 'inlet', T.D_base if how == 'base' else T.D_inlet, ri * Dt, rtol=1e-7)
    ctx.close('diameter at the throat', T.diameter(Ht * H), Dt, rtol=1e-7)
    ctx.close('diameter at the outlet', T.diameter(H), ro * Dt, rtol=1e-7)
    ctx.close('diameter at the inlet', T.diameter(Hi * H), T.D_inlet, rtol=1e-7)
    ctx.close('diameter at the base', T.diameter(0.0), T.D_base, rtol=1e-7)
    z = ctx.real('z', 0.01, 0.99)
    y = z * Ht
    # the lower hyperbola through the throat and the given point
    href = 0.0 if how == 'base' else Hi
    b2 = ((Ht - href) * H)**2 / (ri**2 - 1)
    ctx.close('below the throat', T.diameter(y * H), Dt * sqrt(1 + ((Ht - y) * H)**2 / b2), rtol=1e-7)
    y = Ht + z * (1 - Ht)
    b2 = ((1 - Ht) * H)**2 / (ro**2 - 1)
    ctx.close('above the throat', T.diameter(y * H), Dt * sqrt(1 + ((y - Ht) * H)**2 / b2), rtol=1e-7)
    ctx.raises('no inlet or base', G.HyperbolicCoolingTower, Hi * H, ro * Dt, H, D_throat=Dt, exc='ValueError')
    ctx.raises('no throat estimate', G.HyperbolicCoolingTower, Hi * H, ro * Dt, H, D_base=ri * Dt, exc='ValueError')


R = dict(D=(0.01, 10.), L=(0.01, 100.), d=(0.05, 0.95))
same_formula('P13', lambda D, L, d: (G.A_cylinder(D, L), G.V_cylinder(D, L), G.A_hollow_cylinder(d * D, D, L), G.V_hollow_cylinder(d * D, D, L)),
             lambda D, L, d: (pi * D * L + pi / 2 * D**2, pi / 4 * D**2 * L, pi * D * L * (1 + d) + pi / 2 * D**2 * (1 - d**2), pi / 4 * D**2 * L * (1 - d**2)), R, name='cylinders')
HOLES = [(), ((0.1, 2),), ((0.05, 3), (0.2, 1)), ((0.01, 1), (0.02, 5), (0.1, 4))]
same_formula('P13', lambda D, L, holes: (G.A_multiple_hole_cylinder(D, L, [(q * D, n) for q, n in holes]), G.V_multiple_hole_cylinder(D, L, [(q * D, n) for q, n in holes])),
             lambda D, L, holes: (pi * D * L + pi / 2 * D**2 + sum(n * (pi * q * D * L - pi / 2 * (q * D)**2) for q, n in holes), pi / 4 * D**2 * L - sum(n * pi / 4 * (q * D)**2 * L for q, n in holes)),
             dict(D=R['D'], L=R['L']), choices=dict(holes=HOLES), name='multiple_hole_cylinder')
same_formula('P13', lambda A, V, P: (G.sphericity(A, V), G.circularity(A, P), G.aspect_ratio(A, P)), lambda A, V, P: (pi**(1 / 3) * (6 * V)**(2 / 3) / A, 4 * pi * A / P**2, A / P),
             dict(A=(1e-4, 100.), V=(1e-6, 100.), P=(1e-3, 100.)), name='shape_factors')
