"""Properties stated but not claimed: why solver-based checking does not reach them."""
NA = [
    dict(id='N01', title='Vectorized, numba and pint wrappers agree with the scalar functions',
         statement='For every function the package offers, the array (vectorized), compiled (numba) and unit-aware (pint) interfaces return what the scalar function returns for each element.',
         over=['inputs', 'configurations'], text='all functions, argument forms and array shapes',
         why='tests sample a few functions per wrapper', files=['fluids/vectorized.py', 'fluids/numba.py', 'fluids/units.py'],
         mech=['numpy.vectorize wrapping', 'numba source transformation', 'pint wrapper generation from docstrings'],
         reason='the wrappers are numpy C code, numba-generated machine code and reflection over docstrings with pint; none of it can be executed on symbolic numbers or encoded for a solver here (numba and pint are not installed either)'),
    dict(id='N02', title='NRLMSISE-00 atmosphere, solar position and irradiance reproduce their references',
         statement='The NRLMSISE-00 atmosphere, solar position, sunrise/sunset and irradiance functions return the values of their reference implementations for every time and place.',
         over=['inputs'], text='all times, positions and solar activity indices',
         why='tests compare a dozen published cases', files=['fluids/nrlmsise00/nrlmsise_00.py', 'fluids/optional/spa.py', 'fluids/atmosphere.py'],
         mech=['spherical-harmonic and spline tables', 'truncated planetary series'],
         reason='the only oracle is the same thousands of tabulated coefficients; an independent specification to check the encoding against does not exist, and the trigonometric series have hundreds of terms per output'),
    dict(id='N03', title='Iterative solvers converge in floating point within their iteration limit',
         statement='Every iterative solver used by the package converges to the stated tolerance in double precision for every physically valid input.',
         over=['inputs'], text='all inputs of all solver-backed functions',
         why='tests run a few cases', files=['fluids/numerics/__init__.py'], mech=['secant, newton, brenth, ridder, solve_ivp loops'],
         reason='convergence of floating-point iteration over unbounded loops of transcendental functions is outside what an SMT encoding can decide; the checks assume the solver contract (a root is returned) and prove what follows from it'),
]
