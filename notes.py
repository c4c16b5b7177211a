DEF_T = "symbolic execution of the LLVM IR / Python code, z3"
DEF_N = ("Bounded: holds for all real-valued inputs within the sizes stated in the evidence. Trusts the IR "
         "translation (validated against the real build on a witness of every path), the C-API model and z3.")
NOTES["C07"] = ("symbolic execution of LLVM IR, z3 over ordered values and reals",
                "All node values and queries for up to 10 (thorough 24) nodes; real arithmetic for the straight "
                "line values. Trusts the IR translation (validated on a witness of every path), the C-API model and z3.")
NOTES["C03"] = ("symbolic execution of LLVM IR, z3 over ordered values (all coincidences of inputs)",
                "All values (every order and coincidence) of up to 3 elements per call for every vectorised function; bit-exact.")
NOTES["C04"] = ("symbolic execution of LLVM IR along generic witness paths, z3",
                "All enumerated shapes and layouts; values: those following the paths of generic witnesses, bit-exact.")
NOTES["C01"] = ("symbolic execution of LLVM IR, trigonometric-polynomial normal forms, z3 over bounded monomials",
                "All positions and coefficients for every degree listed in the evidence; real arithmetic (rounding outside the claim).")
NOTES["C02"] = ("symbolic execution of LLVM IR, trigonometric-polynomial normal forms, z3 over bounded monomials",
                "All angles, radii and coefficients for every degree listed in the evidence; real arithmetic.")
NOTES["C05"] = NOTES["C06"] = NOTES["C01"]
P_T = "symbolic execution of the Python and LLVM IR code, trigonometric-polynomial normal forms, z3"
P_N = ("All values within the stated ranges and sizes; real arithmetic (rounding outside the claim). Trusts the "
       "Python/IR symbolic interpreters (validated on witnesses against the real build), the C-API and numpy models and z3.")
for _i in ("C08", "C09", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"):
    NOTES[_i] = (P_T, P_N)
NOTES["C24"] = ("symbolic execution of the Python, LLVM IR and (Fortran) GIMPLE code, apex routines uninterpreted, z3",
                P_N.replace("Python/IR", "Python/IR/GIMPLE") + " The apex routines are uninterpreted functions of their arguments.")
NOTES["C25"] = ("symbolic execution of the Python, LLVM IR and (Fortran) GIMPLE code, normal forms over the reals and z3",
                P_N.replace("Python/IR", "Python/IR/GIMPLE") + " Coefficients, positions, epochs and whole days of a year are symbolic; the "
                "sizes of the expansion and the years are listed; the geocentric to geodetic conversion is uninterpreted.")
NOTES["C11"] = ("symbolic execution of the LLVM IR (and Fortran drivers' GIMPLE) with bounds-checked memory, reference counting and "
                "failing allocations, z3",
                "Argument shapes, layouts and the failing allocation are enumerated as path choices; values, modes, degrees and indices "
                "are symbolic within stated ranges. Memory errors are replayed on sanitized, poisoned or fault-injected builds of the "
                "real code. CPython and NumPy C API functions are modelled.")
