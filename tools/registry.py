#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; not part of any check)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "deltares_coastal_structures_toolbox/functions/"
OT, RU, TR = F + "hydraulic/wave_overtopping/", F + "hydraulic/wave_runup/", F + "hydraulic/wave_transmission/"
RA, CA, RR, TB = F + "structural/stability_rock_armour/", F + "structural/stability_concrete_armour/", F + "structural/stability_rock_rear/", F + "structural/stability_toe_berm/"
FC, FW = F + "structural/forces_caisson/", F + "structural/forces_crestwall/"

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))


TESTS = "The tests compare each function with stored numbers at a handful of points, mostly with default settings; a wrong branch, coefficient, default or rarely used option away from those points is invisible to them."

prop("C01", "Range check warns exactly when a value lies outside its range",
     "The shared range check issues a warning, naming the parameter and method, exactly when the supplied value (or at least one element of a supplied array) is below the lower or above the upper bound; the bounds themselves are inside. It accepts Python and numpy numbers and arrays alike, never changes its input and ignores an input that was not supplied (NaN).",
     "all real values and bounds, scalars and arrays of any length", "Tests sample values inside and far outside; the boundary values, the array case and the not-supplied case for all bounds are not covered.",
     [F + "core_utility.py"], [("check_variable_validity_range", F + "core_utility.py")])
prop("C02", "Validity warnings of every hydraulic formula cover its documented ranges",
     "Every run-up, overtopping and transmission function checks each input it was given, and each documented dimensionless combination of its inputs and of its computed result, against the published range of that method: the user is warned exactly when one of them is out of range. A quantity that was not supplied raises no warning.",
     "all inputs of all hydraulic functions, every combination of supplied optional inputs", "A missing, mis-scaled or wrong-range check only shows for inputs outside the range; most tests do not look at warnings.",
     [OT, RU, TR], [("check_validity_range of each module", OT + "taw2002.py"), ("callers pass their inputs to it", OT + "eurotop2018.py")], ("inputs", "configurations"))
prop("C03", "Validity warnings of every structural formula cover its documented ranges",
     "Every armour, rear-side, toe-berm, crest-wall and caisson function checks each input it was given, and each documented dimensionless combination of its inputs and of its computed result, against the published range of that method: the user is warned exactly when one of them is out of range. A quantity that was not supplied raises no warning.",
     "all inputs of all structural functions, every combination of supplied optional inputs", "As for the hydraulic functions: only out-of-range inputs reveal a missing or wrong check.",
     [RA, CA, RR, TB, FC, FW], [("check_validity_range / check_validity of each module", RA + "vandermeer1988.py")], ("inputs", "configurations"))
prop("C04", "TAW 2002 and EurOtop 2007/2018 overtopping follow the published equations",
     "For TAW (2002), EurOtop (2007) and EurOtop (2018) the overtopping discharge, its dimensionless form, the crest freeboard and every influence factor equal the published equations: breaking and non-breaking branches with the correct switch, mean-value or design coefficients or user-supplied ones, oblique waves, berms, roughness and walls. Optional inputs that are left out take their documented default, and supplied ones are honoured.",
     "all physically meaningful inputs and all option combinations", TESTS, [OT + "taw2002.py", OT + "eurotop2007.py", OT + "eurotop2018.py"],
     [("calculate_overtopping_discharge_q and its parts", OT + "taw2002.py"), ("same", OT + "eurotop2018.py")], ("inputs", "configurations"))
prop("C05", "Van Gent and De Ridder overtopping formulas follow the published equations",
     "For Van Gent (2002, 2021, 2025) and De Ridder et al. (2024, 2026) the discharges, flow quantities, crest freeboards and influence factors equal the published equations for every combination of supplied optional inputs. User-supplied coefficients and gravity are honoured.",
     "all physically meaningful inputs and option combinations", TESTS, [OT + "vangent2002_velocity.py", OT + "vangent2021_caisson.py", OT + "vangent2025.py", OT + "deridder2024.py", OT + "deridder2026.py"],
     [("calculate_* functions", OT + "vangent2025.py")], ("inputs", "configurations"))
prop("C06", "Wave run-up levels follow the published equations",
     "The run-up level and dimensionless run-up of TAW (2002), EurOtop (2018) and Van Gent (2001) equal the published equations, including maxima, influence factors, roughness adjustment and the average slope over a berm or composite profile. Supplied optional inputs are honoured and omitted ones take their documented default.",
     "all physically meaningful inputs and option combinations", TESTS, [RU], [("calculate_wave_runup_height_z2p and influence factors", RU + "taw2002.py")], ("inputs", "configurations"))
prop("C07", "Wave transmission and set-up follow the published equations",
     "Transmission coefficients and set-up of the transmission modules equal the published equations with their lower and upper limits applied, for every choice of structure type and supplied coefficients.",
     "all physically meaningful inputs and options", TESTS, [TR], [("calculate_wave_transmission_Kt and parts", TR + "vangent2023.py")], ("inputs", "configurations"))
prop("C08", "Caisson and crest-wall loads follow Goda and crest-wall formulas",
     "Goda's pressures, forces, moments, uplift and the sliding, overturning and bearing results for caissons, and the forces on crest walls, equal the published equations for all wave and geometry inputs, including overtopped and non-overtopped walls and all pressure-limit branches.",
     "all physically meaningful inputs and branches", TESTS, [FC, FW], [("pressure, force, moment and safety-factor functions", FC)], ("inputs", "configurations"))
prop("C09", "Rock armour stability follows the published equations",
     "Damage number, required rock size and allowable wave height of Hudson, Van der Meer (1988, modified, 2021), Etemad-Shahidi (2020), Jumelet (2024), Scaravaglione (2025) and Kramer and Burcharth (2004) equal the published equations, with the plunging/surging switch, depth-limited variants, supplied coefficients, rock size given as diameter or mass, and documented defaults.",
     "all physically meaningful inputs and option combinations", TESTS, [RA], [("calculate_damage_number_S, _Dn50, _Hs", RA + "vandermeer1988.py")], ("inputs", "configurations"))
prop("C10", "Concrete armour unit stability follows the published guidelines",
     "Unit mass and diameter, allowable wave height, slope and all correction factors of the concrete armour methods (Accropode, Core-Loc, cubes in one or two layers, cubipod, tetrapod, Xbloc, XblocPlus) equal the published equations and tables for every unit property, damage level and option. Supplied coefficients and densities are honoured and omitted ones take their documented default.",
     "all physically meaningful inputs and options", TESTS, [CA], [("calculate_* functions per unit type", CA + "xbloc.py")], ("inputs", "configurations"))
prop("C11", "Rear-side rock and toe-berm stability follow the published equations",
     "Damage, rock size, wave height and water depth over the toe of the rear-side methods (Van Gent 2007, Van Gent and Pozueta 2004) and toe-berm methods (Gerding 1993, Van der Meer 1998, Van Gent and Van der Werf 2014, Etemad-Shahidi 2021, Takahashi 1990) equal the published equations for every option. Supplied coefficients, densities and gravity are honoured and omitted ones take their documented default.",
     "all physically meaningful inputs and options", TESTS, [RR, TB], [("calculate_* functions per method", TB + "etemadshahidi2021.py")], ("inputs", "configurations"),
     note="The table searches of Takahashi (wave height and depth over the toe) are not under contract.")
prop("C12", "Overtopping discharge and crest freeboard are each other's inverse",
     "For every overtopping method that offers both, the discharge computed for the crest freeboard that was computed for a target discharge equals that target, with all the same inputs, options and coefficients. The flag telling that the upper-limit branch was used is the one that belongs to the returned value.",
     "all target discharges and inputs where the inverse exists", "Tests check a few stored freeboards; the round trip over all branches, defaults and options is never exercised.",
     [OT], [("calculate_crest_freeboard_Rc vs calculate_overtopping_discharge_q", OT + "taw2002.py")], ("inputs", "configurations"))
prop("C13", "Stability formulas invert consistently between damage, size and wave height",
     "For every stability method that offers several solved-for quantities (damage, unit size or mass, wave height), feeding one result into the other function with the same inputs returns the original value. Converting between nominal diameter and mass is exact in both directions.",
     "all inputs where the inverse exists", "Tests check stored numbers of each function separately; agreement between the functions for all inputs is not exercised.",
     [RA, CA, RR, TB, F + "core_physics.py"], [("pairs of calculate_* functions per module", RA + "vandermeer1988_modified.py")], ("inputs", "configurations"))
prop("C14", "Iterative solvers stop in time and return a converged iterate",
     "Every function that takes an iteration limit ends after at most that number of iterations, for all inputs. The returned value is an iterate of the documented update rule, and when it stopped before the iteration limit the last two iterates differ by no more than the requested tolerance.",
     "all inputs, tolerances and iteration limits, any number of iterations", "Tests run a few well-behaved cases that converge quickly with default limits.",
     [RA, RR, TB, OT + "vangent2025.py", RU], [("while loops with tolerance and max_iter", RA + "jumelet2024.py")], ("inputs", "histories"))
prop("C15", "Alternative inputs agree and contradictory or missing inputs are refused",
     "Where a quantity may be supplied in alternative ways (diameter or mass, known factor or the inputs it is derived from), equivalent inputs give the same result, with the directly supplied quantity taking precedence. Calls without sufficient inputs, or with an unknown option, are refused with an error instead of returning a number.",
     "all inputs and all choices of which optional inputs are supplied", "Tests exercise one way of supplying each quantity; refusals are mostly untested.",
     [F + "core_physics.py", OT, RU, TR, RA, CA], [("check_usage_Dn50_or_M50 and argument checks", F + "core_physics.py")], ("inputs", "configurations"))
prop("C16", "Results respect physical bounds and directions",
     "Results stay inside their physical range and move in the physical direction: influence factors lie in their documented interval, discharges and run-up are non-negative, overtopping does not increase with crest freeboard, transmission stays within its limits and stability reacts in the right direction to wave height, unit size and damage.",
     "all physically meaningful inputs", "A bound or monotonicity holds for a continuum of inputs (and pairs of inputs); tests sample isolated points.",
     [F], [("limits and clipping in the formulas", OT + "eurotop2018.py")])
prop("C17", "Results obey Froude similarity",
     "Scaling every length by a factor, every time by its square root, every mass by its cube and every discharge accordingly, with gravity and densities unchanged, scales each result exactly as its dimension says; dimensionless results (damage, factors, coefficients, dimensionless discharge) do not change and no branch is chosen differently. Iterations that stop on an absolute tolerance are not meant.",
     "all inputs and all length scales", "Tests only look at prototype-scale numbers; a stray dimensional constant or threshold shows only when the same case is compared at two scales.",
     [F], [("all explicit formulas", F)])
prop("C18", "Array inputs give element by element the scalar result",
     "A function called with arrays returns, at every index, the value the same function returns for the scalars at that index, whichever of the inputs are arrays and whatever the other elements are. Functions documented for scalars only are not meant.",
     "all arrays of any length and content, every choice of array-valued inputs", "Tests call with scalars or arrays whose elements fall in one branch; elements on different sides of a branch are not mixed.",
     [F], [("np.where and element-wise arithmetic", RA + "vandermeer1988.py")], ("inputs", "configurations"))
prop("C19", "Calculations are pure: inputs unchanged, results independent of history",
     "No calculation changes the arrays or other objects passed to it, and none depends on earlier calls: repeating a call with the same inputs returns the same result.",
     "all inputs and call histories", "Tests do not inspect their inputs after the call and call each function once.",
     [F], [("no in-place operation on arguments, no module state", F)], ("inputs", "histories"))
prop("C20", "Exported model input files hold exactly the given inputs",
     "Writing an input file for the XGB-Overtopping or NN-Overtopping model creates exactly one file, with the requested name in the requested directory, replacing an earlier file of that name. It holds one record per input combination in input order, with every input unrounded in its documented column and with the documented separator, preceded only by the documented header or comment lines; a single combination given as plain numbers gives one record. The inputs are not changed.",
     "all input values, array lengths, file names and earlier file contents", "There are no tests of the file writers.",
     [OT + "denbieman2021.py", OT + "vangent2007.py"], [("write_input_file_XGB_Overtopping", OT + "denbieman2021.py"), ("write_input_file_NN_Overtopping", OT + "vangent2007.py")], ("inputs", "histories"),
     note="pandas.DataFrame.to_csv and open are taken by contract (recorded file system).")
prop("C21", "Wave and material basics follow the physics",
     "Wave steepness, surf-similarity number, wavelengths, angular frequency, buoyant density, stability number, wave-height conversions, mass and nominal diameter of the shared physics functions equal their defining equations for every input and option.",
     "all physically meaningful inputs", TESTS, [F + "core_physics.py"], [("calculate_* functions", F + "core_physics.py")])

BUILT = None     # None: all listed


def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in P:
        checks.append(dict(
            property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"], thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
            technique="contract-based deductive verification: contracts on the real functions, verification conditions generated from /repo's source, discharged by normal-form rewriting, z3 and cvc5",
            level="proof",
            level_note="Every obligation of every contract is discharged for all inputs in the stated domain over exact real arithmetic (rounding not modelled); "
                       "numpy/pandas shims and the wave-number solver contract are trusted. A lemma that leaves the engine's reach after a change is replayed on concrete points only and reported as bounded in the evidence." + (" " + note if note else "")))
    json.dump(dict(version=1, setup_cmd="python3-vt check.py --selftest", checks=checks, not_applicable=[],
                   notes="See DESIGN.md. known_findings.json lists repaired and recorded defects."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
