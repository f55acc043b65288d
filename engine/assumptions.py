ASSUMPTIONS = [
    "machine arithmetic treated as exact real arithmetic (float rounding, overflow and NaN propagation are outside the proofs; concrete cross-checks use relative tolerance 1e-6)",
    "decimal literals of the source denote the simplest rational that rounds to the double",
    "extraction: the module text is executed as is, except that a / b and a ** b on plain Python numbers are evaluated exactly (rationals, radicals) instead of in binary64",
    "NumPy, astropy.units/constants and the standard library behave as the shims in /verif/engine/npshim.py and unitshim.py state (array algebra on exact terms, unit conversion by scale factor, matrix inverse = adjugate/determinant)",
    "numba-compiled functions behave like the Python functions they are compiled from (the verifier executes the Python source)",
    "tan is defined on every machine input (no binary64 number is an exact odd multiple of pi/2)",
    "plotting and numerical libraries (matplotlib, plotly, scipy) are external: only the arguments they receive are specified",
]
TRUSTED = [
    "symbolic executor /verif/engine/{loader,ctx,terms}.py (runs the unmodified source text of /repo/src compiled on every run)",
    "normal form /verif/engine/alg.py (exact polynomial arithmetic modulo s^2+c^2=1, square-root, root and exponential relations)",
    "Z3 (nonlinear real arithmetic) for path feasibility, inequalities and definedness",
    "CPython 3.12 and the library shims of /verif/engine",
]
