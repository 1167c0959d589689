"""Writes MANIFEST.json from the table below; python3 lib/mkmanifest.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
SAN = " under AddressSanitizer and UndefinedBehaviorSanitizer"
T = {
    "C01": ("online identity monitors over random states of 60 phase models" + SAN,
            "identities between values of one state and against finite differences; no golden values"),
    "C02": ("set-then-read monitors over every state setter and over saved and restored state vectors" + SAN,
            "targets are taken from independent states of the same phase, so they are reachable"),
    "C03": ("differential monitor: a used object against a fresh one given the same saved state, over random histories" + SAN,
            "every thermodynamic, kinetic and transport quantity, read in random order"),
    "C07": ("conservation and bookkeeping monitors over every reaction of 46 mechanisms at random states" + SAN,
            "sums are recomputed from the stoichiometry of the Reaction objects"),
    "C08": ("monitors relating forward and reverse rates to chemical potentials, at random and at equilibrium states" + SAN,
            "bulk and interface mechanisms, with electric potentials"),
    "C10": ("differential monitor of every reported derivative against two-step central differences" + SAN,
            "partial derivatives are combined along paths that can be realized"),
    "C09": ("reference-model monitor: rate constants and rates of progress of generated mechanisms against the published expressions" + SAN,
            "14 rate types, random unit systems, efficiencies, orders, coverage dependencies"),
    "C11": ("differential monitor: mechanisms edited in random order against ones built from the result; rejected edits against the state before" + SAN,
            "additions, replacements, multipliers, 14 kinds of invalid edit, evaluations in between"),
    "C12": ("differential monitor: phases, mechanisms and generated mechanisms against the solution loaded from their own YAML" + SAN,
            "random output units and writer options, definitions and all values at the written and at further states"),
    "C14": ("reference-model monitor: generated unit expressions and unit systems against products of independently tabulated factors" + SAN,
            "prefixes, powers, default systems set in steps, nested input maps, activation energies, written quantities"),
    "C16": ("reference-model monitor: generated valid documents and single-defect mutants, acceptance against the reference validator" + SAN,
            "balance, charge, sites, duplicates, colliders, species, elements and thermo data; also through the editing API"),
    "C13": ("reference-model monitor: random value trees against maps built through the API, read from text written independently, and read back from the map's own output" + SAN,
            "typed access, block and flow style, several generations, files and the file cache"),
    "C06": ("reference-function monitor over every evaluation route of each parameterization and over histories of modifications" + SAN,
            "Monitored executions on generated parameterizations; formulas follow the documentation, tolerances scale with the sum of the magnitudes of the terms."),
    "C04": ("independent composition arithmetic and element-balance monitors over every setter and mixing helper" + SAN,
            "Monitored executions on generated compositions; unnormalized, negative, zero and trace entries included."),
    "C20": ("conservation monitors over reactor networks" + SAN,
            "moves each network along its own right-hand side and compares what each reactor gains with independently computed sources; totals of closed networks over integrations"),
    "C21": ("trajectory differential monitor" + SAN,
            "runs one network under every equivalent formulation, step pattern, interruption, shared phase object and preconditioner"),
    "C22": ("law monitors on flow devices and walls" + SAN,
            "reads every device after steps, advances and parameter changes and compares with the documented law evaluated on the upstream and downstream states"),
    "C27": ("differential monitor against an independent expression evaluator" + SAN,
            "random expression trees built through simplifying operations and the factory, compared with a long double evaluation of value and derivative with rounding-error bounds"),
    "C28": ("runtime monitor: residuals of every solve, product, factorization, fit and quadrature, recomputed in long double from the operands" + SAN,
            "HDF5/SUNDIALS linear solvers are not reached directly"),
    "C05": ("runtime monitor: saturation conditions, Clapeyron relation, lever rule, inverse functions, Maxwell relations and every property pair evaluated on states of each fluid, reached from other states" + SAN,
            "the published equations of state themselves are only checked through normal boiling points, critical compressibility and the ideal-gas limit"),
    "C17": ("runtime monitor: mixing rules, Stefan-Maxwell and dusty-gas equations, flux sums, symmetry, pressure scaling, order and history independence evaluated on calls of the real transport objects" + SAN,
            "collision integral fits are only compared with published correlations"),
    "C18": ("runtime monitor: element and held-property conservation, least-squares element potentials, random feasible perturbations of the Gibbs energy and cross-solver agreement evaluated after each real equilibrate call" + SAN,
            "Random element and species subsets with missing elements, extreme compositions, every property pair and solver; failures that raise are allowed"),
    "C29": ("runtime monitor: ThreadSanitizer happens-before race and lock-order detection on concurrent workloads in fresh processes, and comparison of every result with the same task run alone" + SAN,
            "Every case starts a fresh process, so lazily created state is built under contention; random pauses vary the schedule"),
    "C26": ("runtime monitor: independent Rosenbrock integration of the coverage equations, net production at the steady state, conservation of sites and elements, evaluated after each real solver call" + SAN,
            "Two surfaces, multi-site species, split intervals; solver failures that raise are allowed"),
    "C23": ("run-time monitor: sensitivities compared with central differences of re-run networks, multipliers and enthalpies checked to be restored" + SAN,
            "Forward sensitivities of single and coupled reactors of all types, with gas, surface and species enthalpy parameters, against Richardson-extrapolated central differences; networks with and without sensitivities give the same solution."),
    "C32": ("run-time monitor: conservation and reference fluxes over the paths of every diagram built, drawing and listing parsed back" + SAN,
            "Per-path flux against an independent reference, inflow minus outflow of every species against its element-weighted net production, listing and drawing parsed back."),
}
NA = {}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py --thorough {p}",
           "technique": MON + T[p][0], "level": "exploration", "level_note": T[p][1]} for p in props if p in T]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in T]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
