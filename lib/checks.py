"""What each check runs. Every function returns the exit status of Check.finish."""
from vrun import Check

C = {}
# everything set-up builds ahead of the checks
HARNESS = [("c01_thermo", "asan"), ("c02_state", "asan"), ("c03_history", "asan"),
           ("kin", "asan"), ("c09_rates", "asan"),
           ("c11_edit", "asan"), ("c12_roundtrip", "asan"),
           ("c14_units", "asan"), ("c16_validate", "asan"),
           ("c13_anymap", "asan"),
           ("c06_spthermo", "asan"),
           ("c04_composition", "asan"),
           ("reactor", "asan"),
           ("c27_func", "asan"),
           ("c28_linalg", "asan"),
           ("c05_fluid", "asan"),
           ("c17_transport", "asan"),
           ("c18_equil", "asan"),
           ("c29_threads", "tsan"),
           ("c26_surf", "asan"),
           ("c23_sens", "asan"),
           ("c32_path", "asan")]


def check(f):
    C[f.__name__] = f
    return f


def run(prop):
    return C[prop](Check(prop))


@check
def C01(c):
    c.harness("c01_thermo", 40000 if c.thorough else 4800)
    return c.finish(
        rule="distinct (phase model, T, P, X) states at which the identities were evaluated",
        require=["h=u+Pv", "g=h-Ts", "h=sum", "s=sum", "g=sum", "v=sum", "gk=hk-Tsk", "mu=mu0+RTlna",
                 "a=gamma*X", "cp=dh/dT", "cp=Tds/dT", "v=dg/dP", "cv=du/dT", "mu-diff=dG/dn", "cp0=dh0/dT"],
        assumptions=["finite differences are compared within their own error estimate",
                     "Gibbs-Duhem is not required of models with prescribed activity coefficients"])


@check
def C02(c):
    c.harness("c02_state", 60000 if c.thorough else 8000)
    return c.finish(
        rule="distinct (phase model, state, setter, target) combinations driven through a state setter",
        require=["set-TP-T", "set-TD-D", "set-HP-H", "set-UV-U", "set-SP-S", "set-SV-S", "restore", "restore-identical", "set-composition"],
        assumptions=["a setter may refuse a target by throwing; then the property only bounds the state left behind"])


@check
def C03(c):
    c.harness("c03_history", 60000 if c.thorough else 4000)
    return c.finish(
        rule="distinct histories (sequence of state changes, edits and reads) of a phase or mechanism compared with a fresh object",
        require=["history", "read-keeps-state", "read-twice"],
        assumptions=["numerical derivatives are compared to 1e-4 of their largest entry"])


@check
def C07(c):
    c.harness("kin", 60000 if c.thorough else 4000)
    return c.finish(
        rule="distinct (mechanism, state) at which every reaction and species was accounted for",
        require=["net=fwd-rev", "creation", "destruction", "production", "mass-action", "mass-action-rev", "third-body",
                 "element-balance", "charge-balance", "element-conservation", "mass-conservation", "stoich",
                 "delta-gibbs", "delta-any", "multiplier-fwd", "multiplier-reset", "irreversible"],
        assumptions=["stoichiometry and efficiencies are read from the Reaction objects"])


@check
def C08(c):
    c.harness("kin", 80000 if c.thorough else 2000)
    return c.finish(
        rule="distinct (mechanism, state) at which forward and reverse rates were compared with thermodynamics",
        require=["Kc", "kf/kr", "affinity", "no-net-rate-at-equilibrium", "same-sign", "kr-irreversible"],
        assumptions=["chemical potentials are those of the phases, which C01 monitors"])


@check
def C09(c):
    c.harness("c09_rates", 60000 if c.thorough else 4000)
    kinds = ["elementary", "three-body", "explicit-collider", "falloff", "chemically-activated", "plog", "Chebyshev",
             "Blowers-Masel", "linear-Burke", "two-temperature-plasma", "interface-Arrhenius", "sticking-Arrhenius",
             "interface-Blowers-Masel", "sticking-Blowers-Masel"]
    return c.finish(
        rule="distinct (generated mechanism, state) whose rate constants and rates of progress were compared with the published expressions",
        require=[f"{w}:{k}" for k in kinds for w in ("rate-constant", "rate-of-progress")],
        assumptions=["the reference evaluates each expression from the numbers of the input in kmol-m-s-J units",
                     "rate constants at a vanishing third-body concentration are left out"])


@check
def C10(c):
    c.harness("kin", 16000 if c.thorough else 800)
    return c.finish(
        rule="distinct (mechanism, state) at which reported derivatives were compared with central differences",
        require=["T-at-constant-P-net", "T-at-constant-density-net", "P-at-constant-T-net", "composition-X-net",
                 "composition-Ci-production", "interface-Ci-net", "interface-Ci-production"],
        assumptions=["linear-Burke, Blowers-Masel and plasma rates are documented as approximate and left out",
                     "differences within their own error estimate"])


@check
def C11(c):
    c.harness("c11_edit", 40000 if c.thorough else 1600)
    return c.finish(
        rule="distinct (generated mechanism, sequence of edits) compared with the mechanism built from the resulting definition",
        require=["add-species", "add-reaction", "add-surface-reaction", "modify-reaction", "modify-species", "set-multiplier", "definition",
                 "rejected", "rejected-definition", "rejected-edit:duplicate-species", "rejected-edit:sticking-two-gases",
                 "edited:getNetProductionRates", "edited-in-place:getNetProductionRates", "edited:netProductionRates_ddX"],
        assumptions=["kinetics are resized after a species is added, as the Python interface does",
                     "numerical derivatives within 1e-4 and the rounding of a difference"])


@check
def C12(c):
    c.harness("c12_roundtrip", 30000 if c.thorough else 2400)
    return c.finish(
        rule="distinct documents (phase or mechanism, state, output options) written, loaded and compared with their source",
        require=["value", "value-available", "state-T", "state-X", "equation", "species-names", "efficiency", "default-efficiency",
                 "rate-type", "site-density", "transport-model", "reference-pressure"],
        assumptions=["written with 17 digits", "values after reloading are compared to 1e-8 (mechanisms 1e-7, equations of state of pure fluids 1e-5)"])


@check
def C14(c):
    c.harness("c14_units", 200000 if c.thorough else 12000)
    return c.finish(
        rule="distinct pairs of generated unit expressions with the same dimensions",
        require=["factor", "dimension", "convert", "there-and-back", "incompatible", "product", "power", "printed-factor", "default-to", "default-from",
                 "default-list", "rate-coefficient", "activation", "activation-to", "activation-from", "activation-incompatible", "wrong-default",
                 "map-default", "map-list", "map-activation", "written", "written-activation"],
        assumptions=["a composite expression is converted with the defaults of the units it is written in (pressure and energy units count as such)"])


@check
def C16(c):
    c.harness("c16_validate", 40000 if c.thorough else 2400)
    return c.finish(
        rule="distinct documents that were accepted; each rejected document differs from an accepted one by one defect",
        require=["valid", "unbalanced", "undeclared-species", "skip-exactly", "duplicate-undeclared", "duplicate-declared", "duplicate-unmatched",
                 "duplicate-half-declared", "undeclared-third-body", "unbalanced-charge", "unbalanced-sites", "fewer-species",
                 "printed-reactants", "printed-stable", "equation-products", "equation-third-body"],
        assumptions=["the reference decides balance, duplicates and declared species from the generated mechanism"])


@check
def C13(c):
    c.harness("c13_anymap", 100000 if c.thorough else 8000)
    return c.finish(
        rule="distinct generated trees of values (maps, lists, tables, scalars)",
        require=["read", "read-flow", "built", "write", "write-built", "write-twice", "write-precision", "access-int", "access-double",
                 "access-string", "access-double-list", "access-any-list", "copy-independent", "equality", "update", "file", "file-again", "file-rewritten"],
        assumptions=["numbers are written with 16 digits and rounded at a run of zeros or nines: 6e-15 relative", "lists holding integers and floating point numbers become lists of floating point numbers"])


@check
def C06(c):
    c.harness("c06_spthermo", 400000 if c.thorough else 6000)
    return c.finish(
        rule="random parameterizations of all five models in random units, evaluated singly, as one species of a phase and in bulk with mixed species, at, next to and away from region boundaries, against independently written formulas; rebuilt from reported coefficients, generated input and written text; random histories of heat-of-formation changes, resets and species replacements",
        require=["single", "single-poly", "bulk", "bulk-one", "rebuilt-coeffs", "rebuilt-parameters", "rebuilt-text", "after-set-hf",
                 "after-reset-hf", "after-modify-species", "hf-as-set", "cp-is-dh/dT", "cp-is-Tds/dT"],
        assumptions=["exactly at an interior boundary (within 1e-12) the value of either neighbouring region is accepted", "a reset or change of the heat of formation of NASA9 and piecewise-Gibbs species is documented as unsupported and only has to be refused without side effects"])


@check
def C04(c):
    c.harness("c04_composition", 60000 if c.thorough else 3000)
    return c.finish(
        rule="compositions given in every way to catalogue phases of every model and to generated phases with random formulas; random fuel/oxidizer definitions in both bases and all argument forms, with monitors on every composition getter",
        require=["X-set-X", "X-set-Y", "X-set-X-string", "X-set-Y-map", "X-set-C", "X-set-molalities", "X-molalities-by-name",
                 "sumX-set-X", "Zmass-set-X", "rho-from-set-C", "Z-elements", "Z-Bilger", "Z-by-element", "AFR", "phi-composition",
                 "phi-reported", "phi-elemental", "stoichiometric-balance", "swapped-refused", "unknown-name", "repeated-name"],
        assumptions=["degenerate fuel/oxidizer pairs whose oxygen balance is within 1e-9 of zero are skipped", "the compound lattice phase does not provide concentrations and is excluded"])


@check
def C20(c):
    c.harness("reactor", 12000 if c.thorough else 500)
    return c.finish(
        rule="distinct (network, state) at which the right-hand side was compared with sources computed from kinetics, flow and wall laws",
        require=["species-balance", "element-balance", "energy-balance", "enthalpy-balance", "volume-balance", "surface-balance",
                 "total-elements", "total-energy", "mass-balance"],
        assumptions=["production rates and thermodynamic properties are those of the phases (C01, C08, C09)", "moving walls between different pressures dissipate work, so energy totals are only compared without them"])


@check
def C21(c):
    c.harness("reactor", 2500 if c.thorough else 120)
    return c.finish(
        rule="distinct trajectories compared across formulations and ways of integrating",
        require=["trajectory", "time-as-asked", "time-reported", "limited-advance-time"],
        assumptions=["trajectories that depend on how the solver follows them (checked with several tolerances) decide nothing", "absolute tolerances below 1e-15 are outside the property"])


@check
def C22(c):
    c.harness("reactor", 12000 if c.thorough else 500)
    return c.finish(
        rule="distinct (network, state) at which device laws were read back",
        require=["flow-state", "flow-species-state", "flow-total-state", "expansion-rate-state", "heat-rate-state",
                 "flow-not-reversed-state"],
        assumptions=["laws are those of the documentation"])


@check
def C27(c):
    c.harness("c27_func", 900000 if c.thorough else 90000)
    return c.finish(
        rule="distinct (operation, value) at which functions were compared with the expression they denote",
        require=["value", "derivative", "operands-unchanged", "identical-equal", "derivative-available"],
        assumptions=["ill-conditioned or undefined points decide nothing", "removable singularities may be filled in by simplification"])


@check
def C28(c):
    c.harness("c28_linalg", 600000 if c.thorough else 150000)
    return c.finish(
        rule="distinct results of solves, products, factorizations, fits and quadratures whose defining equations were evaluated in long double",
        require=["solve", "singular-reported", "outside-band-is-zero", "inverse", "mult", "orthogonal", "simpson"],
        assumptions=["operands are generated with modest condition numbers", "the adaptive preconditioner is only held to tridiagonal patterns, whose factors Eigen's ILUT keeps completely"])


@check
def C05(c):
    c.harness("c05_fluid", 100000 if c.thorough else 40000)
    return c.finish(
        rule="distinct states of the eight pure fluids at which saturation, two-phase, property-pair and derivative conditions were evaluated",
        require=["equal-gibbs", "eos-P", "clapeyron", "latent", "sat-inverse", "mixture-h", "mixture-x", "density-increases", "maxwell",
                 "helmholtz-P", "pair-HP-H", "pair-UV-U", "pair-SP-S", "normal-boiling", "ideal-limit", "refused-unchanged-1"],
        assumptions=["heptane below 260 K and within 2 K of its critical point, and R-134a between 374.1 and 374.3 K, are excluded; a reported failure to converge within 1% of their critical temperatures is tolerated", "pairs with several solutions are only required to reach the given values"])


@check
def C17(c):
    c.harness("c17_transport", 40000 if c.thorough else 2400)
    return c.finish(
        rule="distinct (model, species set, state) at which coefficients and fluxes were recomputed",
        require=["wilke", "mix-diff", "mix-diff-mole", "mix-diff-mass", "conductivity-rule", "stefan-maxwell", "multi-diff-flux",
                 "soret-flux", "binary-symmetric", "order-binary", "fresh-conductivity", "returned-conductivity", "dusty-gas",
                 "ion-mobility", "chapman-enskog-diffusion", "pure-viscosity", "liquid-viscosity", "dilute-binary"],
        assumptions=["species transport data are those of GRI-Mech 3.0 (subsets of one to seven species in random order)", "Chapman-Enskog comparisons are within 3 to 10 percent", "high-pressure models are only held to positivity, symmetry and their dilute limit"])


@check
def C18(c):
    c.harness("c18_equil", 12000 if c.thorough else 500)
    return c.finish(
        rule="gas mixtures of random species subsets (and complete mechanisms) equilibrated for every property pair with every solver; elements, held properties, element potentials, second law and agreement of the solvers are evaluated after each call",
        require=["elements", "held", "gibbs-decreases", "helmholtz-decreases", "entropy-increases", "potential-major",
                 "potential-minor", "potential-trace", "no-better-composition", "idempotent", "same-X", "same-T", "same-from-elsewhere",
                 "bad-pair-refused", "converged-element_potential", "converged-gibbs", "converged-vcs", "converged-auto"],
        assumptions=["ideal gases; convergence failures that are reported as errors are counted and not judged", "solvers are compared at 2e-4 relative plus 2e-6 in mole fraction"])


@check
def C29(c):
    c.harness("c29_threads", 1200 if c.thorough else 96, flavor="tsan")
    return c.finish(
        rule="two to six threads run scripts of tasks (creating solutions from files and from generated mechanisms, evaluation, reactor integration, equilibrium, errors and log messages, units, functions, pure fluids, surface solvers, arrays, global queries) in a fresh process under ThreadSanitizer; the same scripts are then run alone and every number and text is compared",
        require=["threads-end", "alone-ends", "same-text", "same-size", "same-value", "task-*", "race-monitored-threads"],
        assumptions=["separate objects only: one object used from two threads is outside the property", "libraries built without instrumentation (yaml-cpp, fmt) are excluded from the race reports"])


@check
def C26(c):
    c.harness("c26_surf", 30000 if c.thorough else 1600)
    return c.finish(
        rule="surface mechanisms of the repository and generated ones (one or two surfaces sharing a gas), random coverages and gas states; advancing in time is compared with an independent stiff integration and with itself in parts, and the pseudo-steady state is put back into the rate laws",
        require=["coverages-read-back", "coverage-ratio", "distribution-sum", "distribution-sign", "advance-law", "advance-in-parts",
                 "steady-net", "steady-stays", "bulk-unchanged", "surface-T-unchanged", "closed-elements"],
        assumptions=["mechanisms whose rates are powers of a coverage are not integrated against the reference (no unique solution near zero)", "solver failures reported as errors are counted, not judged"])


@check
def C23(c):
    c.harness("c23_sens", 1200 if c.thorough else 110)
    return c.finish(
        rule="reactor networks integrated with sensitivity parameters against central differences of two step sizes of networks whose multiplier or heat of formation was changed directly",
        require=["reaction", "enthalpy", "surface-reaction", "same-solution", "multiplier-restored", "enthalpy-restored", "by-name",
                 "bad-parameter-refused"],
        assumptions=["parameters: multipliers of gas and surface reactions and heats of formation; agreement to 1 percent plus 0.05 percent of the component (1 percent with surfaces, 0.5 percent when the energy state is a composition-dependent internal energy)", "integrations that CVODES gives up on are counted, not judged"])


@check
def C32(c):
    c.harness("c32_path", 60000 if c.thorough else 4000)
    return c.finish(
        rule="diagrams built for random states of the catalogue mechanisms and generated mechanisms; fluxes recomputed from stoichiometry and rates of progress",
        require=["flux", "flux-complete", "conservation", "net-production", "path-sum", "flow-lookup", "data-flow", "edge-threshold",
                 "edge-missing", "edge-attributes", "edge-label-value", "display-only", "exclusion", "added", "max-flow"],
        assumptions=["fluxes of reactions whose partition needs the group rule are judged by conservation only", "reactions with fractional net stoichiometry or charged ambiguous partitions are not judged", "the element E is not judged"])
