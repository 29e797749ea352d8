"""P04: unit and basis conversions are consistent and invert each other."""
from symx.harness import harness
import fluids.core as K
import fluids.fittings as F

META = dict(
    title='Unit, valve-coefficient and loss-basis conversions invert each other',
    statement='Temperature-scale conversions, Kv/Cv/K, friction factor/K/equivalent length, head/pressure, viscosity and loss-coefficient-basis conversions are exact inverses of each other and compose: converting there and back, or through a third form, returns the original value. '
              'Converted quantities keep their physical meaning: the same absolute temperature, the same pressure drop at the same flow.',
    over=['inputs'],
    text='all values in the stated boxes and every pair and triple of scales',
    why='tests convert one value in each direction; inverse and composition laws hold over all values or not at all',
    files=['fluids/core.py', 'fluids/fittings.py'],
    mech=['C2K..R2F', 'Kv_to_Cv family', 'K_from_f family', 'change_K_basis'],
)

SC = 'CKFR'
TOK = {'K': lambda x: x, 'C': lambda x: x + 273.15, 'R': lambda x: x * 5 / 9, 'F': lambda x: (x + 459.67) * 5 / 9}


@harness('P04', funcs='core.C2K..R2F (all 12)', bounds='|T| <= 1e5')
def temperature(ctx):
    x = ctx.real('T', -1e5, 1e5)
    a, b, c = ctx.choice('a', SC), ctx.choice('b', SC), ctx.choice('c', SC)
    if a == b or c == a:
        return ctx.true('n/a', True)
    ab = getattr(K, '%s2%s' % (a, b))(x)
    ctx.close('%s2%s absolute value' % (a, b), TOK[b](ab), TOK[a](x), atol=1e-7)
    ctx.close('%s2%s inverse' % (a, b), getattr(K, '%s2%s' % (b, a))(ab), x, atol=1e-7)
    if c != b:
        ctx.close('%s->%s->%s = %s->%s' % (a, b, c, a, c), getattr(K, '%s2%s' % (b, c))(ab), getattr(K, '%s2%s' % (a, c))(x), atol=1e-7)


@harness('P04', funcs='Kv_to_Cv, Cv_to_Kv, Kv_to_K, K_to_Kv, Cv_to_K, K_to_Cv')
def valve_coeffs(ctx):
    D = ctx.real('D', 1e-3, 5.0)
    x = ctx.real('x', 1e-4, 1e6)
    ctx.close('Kv->Cv->Kv', F.Cv_to_Kv(F.Kv_to_Cv(x)), x)
    ctx.close('Cv->Kv->Cv', F.Kv_to_Cv(F.Cv_to_Kv(x)), x)
    ctx.close('Kv->K->Kv', F.K_to_Kv(F.Kv_to_K(x, D), D), x)
    ctx.close('K->Kv->K', F.Kv_to_K(F.K_to_Kv(x, D), D), x)
    ctx.close('Cv->K->Cv', F.K_to_Cv(F.Cv_to_K(x, D), D), x)
    ctx.close('K->Cv->K', F.Cv_to_K(F.K_to_Cv(x, D), D), x)
    # K -> Kv -> Cv -> K, to the accuracy of the published constants
    ctx.close('K->Kv->Cv->K', F.Cv_to_K(F.Kv_to_Cv(F.K_to_Kv(x, D)), D), x, rtol=1e-4, prove_tol='1/20000')
    # Kv: m^3/h of water (1000 kg/m^3) at 1 bar;  dP = K rho V^2/2
    Kv = F.K_to_Kv(x, D)
    V = (Kv / 3600) / (3.141592653589793 / 4 * D * D)
    ctx.close('Kv is the flow at 1 bar', K.dP_from_K(x, 1000.0, V), 1e5, rtol=5e-3, prove_tol='1/250')


@harness('P04', funcs='K_from_f, f_from_K, L_equiv_from_K, K_from_L_equiv, L_from_K')
def loss_lengths(ctx):
    D, L, fd, Kx = ctx.real('D', 1e-3, 5.0), ctx.real('L', 1e-3, 1e5), ctx.real('fd', 1e-4, 10.), ctx.real('K', 1e-4, 1e5)
    ctx.close('f->K->f', K.f_from_K(K.K_from_f(fd, L, D), L, D), fd)
    ctx.close('K->f->K', K.K_from_f(K.f_from_K(Kx, L, D), L, D), Kx)
    ctx.close('K->L/D->K', K.K_from_L_equiv(K.L_equiv_from_K(Kx, fd), fd), Kx)
    ctx.close('L/D->K->L/D', K.L_equiv_from_K(K.K_from_L_equiv(L, fd), fd), L)
    ctx.close('K->L->K', K.K_from_f(fd, K.L_from_K(Kx, D, fd), D), Kx)
    ctx.close('L->K->L', K.L_from_K(K.K_from_f(fd, L, D), D, fd), L)
    ctx.close('L = (L/D) D', K.L_from_K(Kx, D, fd), K.L_equiv_from_K(Kx, fd) * D)
    ctx.close('default fd K->L/D->K', K.K_from_L_equiv(K.L_equiv_from_K(Kx)), Kx)
    ctx.close('default fd L', K.L_from_K(Kx, D), K.L_equiv_from_K(Kx) * D)


@harness('P04', funcs='head_from_P, P_from_head, head_from_K, dP_from_K, nu_mu_converter')
def heads(ctx):
    rho, g, V, Kx = ctx.real('rho', .01, 2e4), ctx.real('g', .5, 30.), ctx.real('V', 1e-4, 1e3), ctx.real('K', 1e-4, 1e5)
    P = ctx.real('P', -1e8, 1e8)
    ctx.close('P->head->P', K.P_from_head(K.head_from_P(P, rho, g), rho, g), P, atol=1e-6)
    ctx.close('head->P->head', K.head_from_P(K.P_from_head(P, rho, g), rho, g), P, atol=1e-6)
    ctx.close('default gravity', K.P_from_head(K.head_from_P(P, rho), rho), P, atol=1e-6)
    ctx.close('head and pressure of a loss', K.P_from_head(K.head_from_K(Kx, V, g), rho, g), K.dP_from_K(Kx, rho, V))
    ctx.close('head and pressure of a loss, standard gravity', K.P_from_head(K.head_from_K(Kx, V), rho), K.dP_from_K(Kx, rho, V))
    mu = ctx.real('mu', 1e-7, 100.)
    ctx.close('mu->nu->mu', K.nu_mu_converter(rho, nu=K.nu_mu_converter(rho, mu=mu)), mu)
    ctx.close('nu->mu->nu', K.nu_mu_converter(rho, mu=K.nu_mu_converter(rho, nu=mu)), mu)
    ctx.close('nu = mu/rho', K.nu_mu_converter(rho, mu=mu), mu / rho)
    ctx.raises('neither viscosity', K.nu_mu_converter, rho)
    ctx.raises('both viscosities', K.nu_mu_converter, rho, mu, mu)


@harness('P04', funcs='change_K_basis')
def k_basis(ctx):
    K1, D1, D2, D3 = ctx.real('K1', 1e-4, 1e5), ctx.real('D1', 1e-3, 5.), ctx.real('D2', 1e-3, 5.), ctx.real('D3', 1e-3, 5.)
    K2 = F.change_K_basis(K1, D1, D2)
    ctx.close('basis there and back', F.change_K_basis(K2, D2, D1), K1)
    ctx.close('basis chains', F.change_K_basis(K2, D2, D3), F.change_K_basis(K1, D1, D3))
    Q, rho = ctx.real('Q', 1e-4, 100.), ctx.real('rho', .1, 2e4)
    ctx.close('same pressure drop on either basis', K.dP_from_K(K1, rho, Q / D1**2), K.dP_from_K(K2, rho, Q / D2**2))
