#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("C01", "Every phase model is thermodynamically self-consistent",
  "At every state a phase model accepts, the properties it reports satisfy the thermodynamic identities: h = u + Pv, g = h - Ts, molar values equal the mole-fraction sums of partial molar values, heat capacities, compressibility, expansion coefficient and sound speed equal the corresponding derivatives of h, s, u and v, and chemical potentials, activities, activity coefficients and standard states agree with each other. Mass-based values are the molar values divided by the mean molecular weight.",
  ["inputs", "configurations"], "all phase models and all temperatures, pressures and compositions in their range of validity",
  "The consistency tests check three or four fixed states of one configuration per phase model; an error that appears only in one temperature region, composition range, pressure range or parameter set is not seen.",
  ["src/thermo", "include/cantera/thermo"],
  [("per-model property methods", "src/thermo/*.cpp"), ("mass/molar conversion", "include/cantera/thermo/ThermoPhase.h")],
  ["ThermoPhase property getters"])
p("C02", "Setting a state by any property pair yields exactly that state",
  "After a successful call that sets a phase's state from a pair of properties (TP, TD, HP, UV, SP, SV, and the other supported pairs, in mass or molar form, with or without composition), reading those properties back returns the requested values and the composition is the requested one. Saving a state and restoring it, in the same or another instance of the phase, reproduces every property; a request that cannot be satisfied raises an error instead of silently leaving another state.",
  ["inputs", "histories"], "all phase models supporting the pair, all target states, starting from any earlier state",
  "The tests set a few pairs near ambient conditions from nearby starting states; the iterative solvers have branches for temperature limits, phase boundaries and distant starting points that no fixed example reaches.",
  ["src/thermo/ThermoPhase.cpp", "src/thermo/PureFluidPhase.cpp", "src/thermo/MixtureFugacityTP.cpp", "src/thermo/Phase.cpp", "src/tpx/Sub.cpp"],
  [("iterative state setters", "ThermoPhase::setState_HPorUV, setState_SPorSV"), ("tpx Set", "Substance::Set")],
  ["ThermoPhase::setState_*", "Phase::saveState/restoreState"])
p("C03", "Results depend on the current state only, not on the call history",
  "Any thermodynamic, kinetic or transport quantity read from an object equals what a freshly created object set to the same state (temperature, pressure or density, composition, and explicitly changed parameters) reports, whatever sequence of state changes, property reads and settings preceded the read. Reading a property never changes the state, and reading it twice gives the same value.",
  ["histories"], "all sequences of state changes, reads, multiplier and mode changes on an object and all quantities",
  "Internal caches are keyed on state numbers and temperatures; a stale value needs a particular order of partial updates and reads, and there are exponentially many orders.",
  ["src/thermo", "src/kinetics", "src/transport", "include/cantera/base/ValueCache.h", "include/cantera/kinetics/MultiRate.h"],
  [("state numbers and cached values", "Phase::stateMFNumber, ValueCache, m_tlast, MultiRate::update")],
  ["public getters of ThermoPhase, Kinetics, Transport"],
  [("m_stateNum", "counts composition changes", "src/thermo/Phase.cpp"), ("m_temp_ok and similar", "cached quantities are current", "src/transport/MixTransport.cpp")])
p("C04", "Composition bookkeeping is exact and conserves mass",
  "However a composition is given (mole fractions, mass fractions, concentrations, molalities, names and strings, with or without normalization), mole fractions, mass fractions, concentrations, mean molecular weight, density and elemental fractions stay mutually consistent, and the normalized fractions sum to one. Mixing helpers (equivalence ratio, mixture fraction, stoichiometric air-fuel ratio) produce the compositions their definitions require and report them back, conserving the elements of fuel and oxidizer.",
  ["inputs"], "all phases, all compositions including unnormalized, zero and tiny entries, and all fuel/oxidizer definitions",
  "Tests use a handful of hand-written compositions, mostly with the species in a fixed order and no zero or trace entries.",
  ["src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp", "src/thermo/MolalityVPSSTP.cpp", "src/base/stringUtils.cpp"],
  [("composition setters", "Phase::setMoleFractions, setMassFractions, setConcentrations"), ("mixture helpers", "ThermoPhase::setEquivalenceRatio, setMixtureFraction")],
  ["Phase composition getters"])
p("C05", "Pure-fluid equations of state give consistent liquid-vapor behaviour",
  "For every pure fluid with liquid and vapor phases, saturated liquid and vapor at the same temperature have equal pressure and equal Gibbs energy, the latent heat obeys the Clausius-Clapeyron relation, two-phase mixtures interpolate linearly in vapor fraction, and saturation temperature and saturation pressure are inverse functions. Density increases with pressure at fixed temperature, and states round-trip through every supported property pair on both sides of the dome and above the critical point.",
  ["inputs"], "all fluids, all temperatures from the triple point upward, all pressures and vapor fractions",
  "Existing tests compare a few tabulated points per fluid; coefficients and branches active only near the dome, near the critical point or at high pressure are not sampled.",
  ["src/tpx", "src/thermo/PureFluidPhase.cpp", "src/thermo/WaterPropsIAPWS.cpp", "src/thermo/WaterSSTP.cpp"],
  [("saturation solver", "tpx::Substance::update_sat"), ("property-pair solver", "tpx::Substance::Set")],
  ["PureFluidPhase, WaterSSTP getters and setters"])
p("C06", "Species thermo parameterizations evaluate their documented functions",
  "For each species parameterization (NASA 7- and 9-coefficient polynomials, Shomate, constant heat capacity, piecewise Gibbs), heat capacity, enthalpy and entropy equal the documented function of the given coefficients in every temperature region, whichever way they are evaluated: singly, through a phase, or in bulk with other species. Heat capacity is the temperature derivative of enthalpy and T times that of entropy, reported parameters rebuild the same function, and changing or resetting a heat of formation shifts enthalpy by exactly that amount.",
  ["inputs", "histories"], "all coefficient sets, temperature regions and temperatures, and all sequences of heat-of-formation changes",
  "Tests evaluate a few species at a few temperatures, rarely at or across region boundaries.",
  ["src/thermo/NasaPoly2.cpp", "src/thermo/Nasa9Poly1.cpp", "src/thermo/Nasa9PolyMultiTempRegion.cpp", "src/thermo/ConstCpPoly.cpp", "src/thermo/Mu0Poly.cpp", "include/cantera/thermo/ShomatePoly.h", "src/thermo/MultiSpeciesThermo.cpp", "src/thermo/SpeciesThermoFactory.cpp"],
  [("polynomial evaluation", "updateProperties, updatePropertiesTemp")], ["SpeciesThermoInterpType", "ThermoPhase reference-state getters"])
p("C07", "Production rates conserve elements, charge and reaction bookkeeping",
  "For every mechanism and state, net production rates conserve every element and the charge, net rates equal forward minus reverse rates and creation minus destruction rates, and both equal the stoichiometric coefficients times the rates of progress. Changing a reaction's multiplier scales exactly that reaction's contribution.",
  ["inputs", "configurations"], "all mechanisms (gas, surface, edge, plasma), all states and all multipliers",
  "Tests compare stored values for a few mechanisms at one state.",
  ["src/kinetics/Kinetics.cpp", "src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "include/cantera/kinetics/StoichManager.h"],
  [("stoichiometry managers", "StoichManagerN"), ("rate of progress assembly", "updateROP")], ["Kinetics getters"])
p("C08", "Reversible reactions obey detailed balance",
  "For every reversible reaction the ratio of forward to reverse rate constants equals the equilibrium constant computed from the species' standard chemical potentials, and forward and reverse rates of progress coincide at chemical equilibrium of the participating species. Irreversible reactions have zero reverse rate.",
  ["inputs", "configurations"], "all reversible reaction types (gas, surface, edge, with electric potentials), thermo models and states",
  "Detailed balance is tested at isolated states for a few reactions.",
  ["src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/kinetics/InterfaceRate.cpp"],
  [("equilibrium constants", "updateKc, getEquilibriumConstants")], ["Kinetics getters"])
p("C09", "Every rate parameterization evaluates its documented rate law",
  "The forward rate constant and rate of progress of every reaction equal the documented formula for its type and parameters: Arrhenius, three-body, falloff and chemically activated (Lindemann, Troe, SRI, Tsang), pressure-dependent Arrhenius, Chebyshev, Blowers-Masel, two-temperature plasma, linear Burke, sticking and coverage-dependent surface rates. This holds for explicit orders, collider efficiencies, declared units and negative pre-exponential factors where allowed.",
  ["inputs", "programs"], "all rate types, parameter values, unit declarations, temperatures, pressures and compositions, including interval edges and out-of-range conditions",
  "Tests hold each rate type to one or two reactions and conditions, usually interior to the parameter tables.",
  ["src/kinetics", "include/cantera/kinetics"],
  [("rate evaluators", "evalFromStruct of each rate class"), ("third bodies", "ThirdBodyCalc")], ["Kinetics::getFwdRateConstants, getFwdRatesOfProgress"])
p("C10", "Analytical rate derivatives equal the derivatives of the rates",
  "Derivatives of rate constants, rates of progress and species production rates with respect to temperature, pressure, molar density and species concentrations or mole fractions equal the numerical derivatives of the same quantities, for the terms the derivative settings do not ask to skip.",
  ["inputs", "configurations"], "all mechanisms and reaction types offering derivatives, all states and derivative settings",
  "Derivative tests use one thermodynamic state per mechanism.",
  ["src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "include/cantera/kinetics/StoichManager.h", "include/cantera/kinetics/MultiRate.h"],
  [("Jacobian assembly", "calculateCompositionDerivatives, process_ddT")], ["Kinetics::*_ddT/ddP/ddC/ddX/ddCi"])
p("C11", "A mechanism edited in place equals the same mechanism built afresh",
  "Adding species or reactions to an existing phase or mechanism, replacing a reaction's rate, replacing a species' thermo data, or changing multipliers gives an object that behaves exactly as one constructed from the resulting definition. A rejected edit raises an error and leaves the behaviour of the object unchanged.",
  ["histories"], "all sequences of additions and modifications, accepted or rejected, interleaved with evaluations",
  "Tests perform a single edit on a fresh object.",
  ["src/kinetics/Kinetics.cpp", "src/kinetics/BulkKinetics.cpp", "src/kinetics/InterfaceKinetics.cpp", "src/thermo/Phase.cpp", "src/thermo/ThermoPhase.cpp"],
  [("incremental construction", "addReaction, addSpecies, modifyReaction, modifySpecies")], ["Kinetics and ThermoPhase getters after edits"])
p("C12", "Writing a solution to YAML and reading it back preserves it",
  "A phase with its thermo, kinetics and transport models, serialized by the YAML writer with any precision-preserving settings and any output units and loaded again, has the same species, elements, reactions and state and evaluates to the same properties, rate constants and transport coefficients.",
  ["inputs", "configurations"], "all phase, reaction and transport models and all output unit systems",
  "Round-trip tests cover selected models in default units at one state.",
  ["src/base/YamlWriter.cpp", "src/base/AnyMap.cpp", "src/kinetics/Reaction.cpp", "src/thermo", "src/kinetics"],
  [("getParameters of every model", "ThermoPhase, Reaction, ReactionRate, SpeciesThermoInterpType")], ["YamlWriter::toYamlString then newSolution"])
p("C13", "Generic data maps survive YAML output and input unchanged",
  "Any value a generic map can hold (numbers of every kind, strings of any content, booleans, nested lists and maps of any shape) is read back from its YAML output with the same type, value and key set. Typed access returns the stored value or raises an error; it never returns a different value.",
  ["inputs"], "all nested values, including empty containers, strings that look like other types, extreme numbers and ragged arrays",
  "Tests round-trip a dozen small maps.",
  ["src/base/AnyMap.cpp", "include/cantera/base/AnyMap.h"], [("YAML emitter/parser", "src/base/AnyMap.cpp")], ["AnyMap::toYamlString, AnyMap::fromYamlString, AnyValue::as*"])
p("C14", "Unit conversion is dimensionally exact",
  "Converting a quantity between any two dimensionally compatible unit expressions multiplies it by the ratio of their SI values, regardless of prefixes, powers, default unit systems or nesting; converting there and back restores the value; incompatible conversions raise an error.",
  ["inputs", "configurations"], "all unit expressions built from the supported units, prefixes and exponents, and all default unit systems",
  "Tests check a few dozen fixed conversions.",
  ["src/base/Units.cpp", "include/cantera/base/Units.h"], [("unit table and parser", "Units::Units(string)"), ("unit system", "UnitSystem::convert")], ["Units, UnitSystem, AnyMap::convert"])
p("C15", "Hostile input ends in an error report, never in memory corruption",
  "Whatever text is supplied as an input file, reaction equation, composition string, unit expression or option value, the library either accepts it and yields a usable object or raises its own error; it never reads or writes out of bounds, dereferences null, loops without end or terminates the process.",
  ["inputs"], "all input texts, especially structurally valid files with one field removed, duplicated, retyped or made extreme",
  "Tests supply a fixed list of malformed files; sanitizers are not run over them.",
  ["src/base/AnyMap.cpp", "src/base/Units.cpp", "src/base/stringUtils.cpp", "src/kinetics/Reaction.cpp", "src/kinetics/KineticsFactory.cpp", "src/thermo/ThermoFactory.cpp", "src/thermo/SpeciesThermoFactory.cpp", "src/transport/TransportData.cpp"],
  [("input validation", "InputFileError, CanteraError")], ["process under AddressSanitizer and UndefinedBehaviorSanitizer"])
p("C16", "Invalid mechanisms are always rejected, valid ones always accepted",
  "Loading a mechanism fails if and only if it contains a reaction that does not balance elements or charge, an undeclared duplicate, an unmatched duplicate declaration, or (unless the skip options ask otherwise) an undeclared species or third body; surface reactions must also balance sites. With skip options, exactly the offending reactions are left out, and equation strings are parsed into and printed from the same stoichiometry.",
  ["inputs", "configurations"], "all small mechanisms, equation spellings, duplicate patterns and skip options",
  "Tests cover ten or so hand-written duplicate patterns.",
  ["src/kinetics/Kinetics.cpp", "src/kinetics/Reaction.cpp", "src/kinetics/KineticsFactory.cpp"],
  [("duplicate search", "Kinetics::checkDuplicates"), ("balance check", "Reaction::checkBalance"), ("equation parser", "parseReactionEquation")], ["newSolution / newKinetics outcome"])
p("C17", "Transport coefficients are physical, symmetric and state-consistent",
  "For every transport model and valid state, viscosity, conductivity and diffusion coefficients are finite and positive, binary diffusion coefficients are symmetric and scale inversely with pressure, diffusive mass fluxes sum to zero, mixture values reduce to the pure-species values in the pure limit and obey the documented mixing rules, and values do not depend on the order in which species are declared.",
  ["inputs", "configurations"], "all transport models, mechanisms, temperatures, pressures and compositions including near-pure and trace mixtures",
  "Tests compare stored numbers at a few states.",
  ["src/transport"], [("mixing rules", "GasTransport, MixTransport, MultiTransport"), ("collision integrals", "MMCollisionInt")], ["Transport getters"])
p("C18", "Gas-phase equilibrium conserves elements and minimizes Gibbs energy",
  "When equilibrate succeeds for any property pair and solver, the element abundances and both held properties are unchanged, species chemical potentials equal the sum of element potentials, and no stoichiometrically allowed change of composition lowers the Gibbs energy. All solvers reach the same state; a failed call raises an error.",
  ["inputs", "configurations"], "all mechanisms, initial compositions (including missing elements), property pairs, solvers and starting guesses",
  "Tests use a few compositions, mostly for one mechanism.",
  ["src/equil/ChemEquil.cpp", "src/equil/MultiPhaseEquil.cpp", "src/equil/vcs_solve_TP.cpp", "src/thermo/ThermoPhase.cpp"],
  [("element potential solver", "ChemEquil"), ("VCS", "VCS_SOLVE")], ["ThermoPhase::equilibrate"])
p("C19", "Multiphase equilibrium conserves elements and satisfies phase stability",
  "Equilibrating a mixture of phases keeps total moles of every element and the specified pair of properties, makes the chemical potential of every species in present phases consistent with common element potentials, and leaves no absent phase that would lower the Gibbs energy. Both multiphase solvers agree, and mixture totals equal the sums over phases.",
  ["inputs", "configurations"], "all combinations of gas, solution and stoichiometric phases, element amounts, temperatures and pressures",
  "Tests cover a handful of mixtures.",
  ["src/equil"], [("phase pop/drop", "vcs_popPhaseID"), ("mixture bookkeeping", "MultiPhase")], ["MultiPhase::equilibrate"])
p("C20", "Reactor networks conserve mass, elements and energy",
  "In any network of reactors, walls and flow devices, mass, each element and, where the energy equation is on, energy (with wall work, heat transfer and enthalpy flows accounted for) are conserved by the time integration to within its tolerances; volume lost by one side of a wall is gained by the other. This holds for every reactor type, including reacting surfaces.",
  ["inputs", "histories", "configurations"], "all network topologies, reactor types, mechanisms, initial states and event sequences",
  "Tests integrate a few two-reactor networks.",
  ["src/zeroD"], [("governing equations", "Reactor::eval and overrides"), ("connector terms", "Wall, FlowDevice")], ["ReactorNet::advance/step, reactor contents"])
p("C21", "Reactor formulations and integration modes agree",
  "Mass- and mole-based, general and ideal-gas reactor formulations, with or without preconditioning, stepping or advancing, in one call or many, and after reinitialization, compute the same trajectory within tolerance. advance(t) ends exactly at t, time never goes backwards, and reading the reactor or network state does not disturb the integration.",
  ["inputs", "histories"], "all equivalent formulations, integrator settings and sequences of step, advance, reinitialize and state changes",
  "Tests compare pairs of formulations for single cases.",
  ["src/zeroD", "src/numerics/CVodesIntegrator.cpp", "src/numerics/AdaptivePreconditioner.cpp"], [("integration loop", "ReactorNet, CVodesIntegrator")], ["ReactorNet API"])
p("C22", "Flow devices and walls follow their defining laws",
  "At every time the mass flow through a mass flow controller, valve or pressure controller, and the expansion rate and heat flux of a wall, equal their defining functions of time, pressure and temperature difference, with flow never reversed where the device forbids it; each side sees the same magnitude. The laws hold for user-supplied functions of time and pressure.",
  ["inputs", "histories"], "all parameters, functions, states on both sides and times",
  "Tests use constant coefficients and simple functions.",
  ["src/zeroD/flowControllers.cpp", "src/zeroD/FlowDevice.cpp", "src/zeroD/Wall.cpp"], [("device laws", "updateMassFlowRate, Wall::expansionRate, heatRate")], ["FlowDevice::massFlowRate, Wall getters"])
p("C23", "Reactor sensitivities equal perturbed-parameter responses",
  "Sensitivity coefficients computed during integration equal the response of the solution to a small change of the corresponding reaction rate multiplier or species enthalpy, for every state component, and enabling sensitivities does not change the solution.",
  ["inputs", "configurations"], "all reactor types supporting sensitivities, parameters and times",
  "Tests compare a few parameters in one configuration.",
  ["src/zeroD/ReactorNet.cpp", "src/zeroD/Reactor.cpp", "src/numerics/CVodesIntegrator.cpp"], [("sensitivity parameters", "Reactor::applySensitivity/resetSensitivity")], ["ReactorNet::sensitivity"])
p("C24", "Converged one-dimensional flames satisfy the conservation laws",
  "A converged one-dimensional flow satisfies overall mass continuity, species summing to one, elemental and energy flux balance between boundaries to within discretization error, and the boundary conditions that were imposed; re-evaluating the residual of the returned solution gives values within tolerance. Refinement leaves a strictly increasing grid within the limits requested.",
  ["inputs", "configurations"], "all flame configurations, inlet states, transport models and refinement criteria",
  "Tests solve a few flames and compare stored profiles.",
  ["src/oneD"], [("residual", "Flow1D::eval"), ("Newton", "MultiNewton"), ("grid refinement", "Refiner")], ["Sim1D, Flow1D"])
p("C25", "Saved simulations restore to the same simulation",
  "Saving a one-dimensional simulation or an array of states to any supported format and restoring it gives the same grid, values, settings and metadata, and slices, appended entries and extra columns of state arrays always refer to the states they were given.",
  ["inputs", "histories"], "all flames, solution arrays, shapes, extra columns and sequences of edit, save and restore",
  "Tests save and restore a few fixed arrays.",
  ["src/base/SolutionArray.cpp", "src/oneD/Sim1D.cpp", "src/oneD/Domain1D.cpp"], [("serialization", "SolutionArray::save/restore")], ["SolutionArray, Sim1D::save/restore"])
p("C26", "Surface coverages stay a valid distribution and reach steady state",
  "Advancing surface coverages in time or solving for their pseudo-steady state keeps coverages non-negative and summing to one, conserves the elements on closed surfaces, and the steady state found has zero net production for every surface species. Site-occupancy of multi-site species is respected.",
  ["inputs"], "all surface mechanisms, gas states, initial coverages and times",
  "Tests run one mechanism at one state.",
  ["src/kinetics/ImplicitSurfChem.cpp", "src/kinetics/solveSP.cpp", "src/thermo/SurfPhase.cpp"], [("surface solvers", "ImplicitSurfChem, solveSP")], ["InterfaceKinetics::advanceCoverages, solvePseudoSteadyStateProblem"])
p("C27", "Function objects evaluate, differentiate and combine exactly",
  "Any function object built from the provided primitives and operations evaluates to the mathematical expression it denotes, its derivative object evaluates to the derivative, and the simplifications applied while combining never change its value.",
  ["programs"], "all expression trees and arguments in their domain",
  "Tests check each operation on one or two operands.",
  ["src/numerics/Func1.cpp", "src/numerics/Func1Factory.cpp", "include/cantera/numerics/Func1.h"], [("algebraic simplification", "newSumFunction and related")], ["Func1::eval, derivative"])
p("C28", "Linear algebra solves the system it was given",
  "Dense, banded and sparse solvers, products, factorizations, polynomial fits and interpolation return results satisfying their defining equations to working precision for any well-conditioned operand, report singular systems as errors, and leave operands unchanged where documented.",
  ["inputs", "histories"], "all shapes, bandwidths and values; sequences of modification, factorization and solution",
  "Tests use a few small fixed matrices.",
  ["src/numerics"], [("LAPACK wrappers", "DenseMatrix, BandMatrix"), ("sparse Jacobians", "EigenSparseJacobian")], ["matrix classes"])
p("C29", "Independent objects may be used from different threads",
  "Threads that create, use and destroy their own solutions, reactors and equilibrium problems concurrently neither race on shared state nor influence each other: every thread computes what it would compute alone.",
  ["schedules"], "all interleavings of object creation, evaluation, error reporting and destruction on separate objects",
  "The tests are single threaded.",
  ["src/base/application.cpp", "src/base/global.cpp", "src/thermo/ThermoFactory.cpp", "src/base/AnyMap.cpp", "src/base/Units.cpp"],
  [("mutexes around singletons", "Application, factories, AnyMap file cache")], ["process under ThreadSanitizer", "values per thread"])
p("C30", "The C interface is safe for every handle, index and buffer",
  "Every C-interface call returns its documented error value and records a message when given an invalid handle, index, name or undersized buffer, never corrupts memory or terminates, and never writes beyond the length given. Valid calls return what the underlying object reports, and handles stay valid until deleted, whatever the order of creation and deletion.",
  ["inputs", "histories"], "all functions, handles (valid, stale, negative, huge), indices, buffer lengths and call sequences",
  "CLib tests make valid calls and a few invalid ones.",
  ["src/clib"], [("handle tables", "Cabinet"), ("error trapping", "handleAllExceptions")], ["ct* functions under sanitizers"])
p("C31", "Objects may be released in any order without dangling references",
  "Creating, sharing, cloning and destroying phases, kinetics, transport, interfaces, reactors, networks, flames and arrays in any legal order never touches freed memory; a phase in use by a reactor or array refuses changes to its species, and callbacks and locks are removed when their owner dies.",
  ["histories"], "all creation and destruction orders and sharing patterns",
  "Tests destroy objects in reverse order of creation.",
  ["src/base/Solution.cpp", "src/base/Interface.cpp", "src/kinetics/Kinetics.cpp", "src/kinetics/Reaction.cpp", "src/zeroD", "src/oneD"], [("ownership", "shared_ptr/weak_ptr, species locks, change callbacks")], ["process under AddressSanitizer"])
p("C32", "Reaction path diagrams account for every element flux",
  "The fluxes of a reaction path diagram equal the element-weighted rates of progress of the reactions that transfer the element: for each species, inflow minus outflow equals its element-weighted net production rate, and removing or thresholding affects display only.",
  ["inputs", "configurations"], "all mechanisms, elements and states",
  "Tests render a few diagrams.",
  ["src/kinetics/ReactionPath.cpp", "src/kinetics/Group.cpp"], [("flux builder", "ReactionPathBuilder::build")], ["ReactionPathDiagram data"])
p("C33", "Converted Chemkin mechanisms behave as the Chemkin input defines",
  "A mechanism converted from Chemkin format has exactly the species, reactions, third-body efficiencies, pressure dependence, thermo and transport data of the source, with its units, so that rate constants and properties equal those computed directly from the Chemkin definitions; malformed input is reported as an error.",
  ["inputs"], "all mechanisms expressible in the format: unit options, auxiliary keywords, duplicate and pressure-dependent forms",
  "Tests convert a fixed collection of files.",
  ["interfaces/cython/cantera/ck2yaml.py"], [("parser", "Parser.read_kinetics_entry")], ["ck2yaml output loaded by Cantera"])
p("C34", "Python objects reflect and control the underlying objects faithfully",
  "Everything set or read through the Python interface (states, slices, arrays of states, custom rates, extensible reactors and rate types, quantities, pickled solutions) has the same effect and value as the underlying operation, and user callbacks are called with the documented arguments, with their exceptions propagated to the caller.",
  ["inputs", "histories"], "all property tuples, slices, array shapes, callbacks and exceptions raised in callbacks",
  "Tests sample a few of each.",
  ["interfaces/cython/cantera", "src/extensions"], [("wrappers", "interfaces/cython/cantera/*.pyx"), ("delegation", "include/cantera/base/Delegator.h")], ["Python API"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
