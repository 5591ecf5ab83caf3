#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props below and checks.py)."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from checks import CHECKS
V = pathlib.Path(__file__).resolve().parent.parent
P = {}


def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, na=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state, na=na)


ENG = "ThermoFun/ThermoEngine.cpp"
MEMO = "ThermoFun/OptimizationUtils.h"

p("P01", "Property calculations are memory safe and free of undefined behaviour",
  "Whatever temperature, pressure, symbol and parameter vectors (missing, short, long, NaN or infinite coefficients) a query is made with, it returns a result or raises std::exception. It never reads or writes outside an object, uses a dead one, converts an unrepresentable number, hangs or ends the process.",
  ["inputs", "configurations"], "all records, all models and reaction methods, all T and P including hostile values",
  "The stable test loads one file; no test runs the models under a sanitizer or with incomplete records.",
  ["ThermoFun/Substances", "ThermoFun/Reactions", ENG], [("size checks of parameter vectors", "each model's thermoProperties"), ("interval search of Cp integration", "ThermoFun/Substances/EmpiricalCpIntegration.cpp"), ("gas equation of state work arrays", "ThermoFun/Substances/Gases/s_solmod_.cpp")],
  ["sanitizer reports", "outcome of every query"], "AddressSanitizer and UndefinedBehaviorSanitizer under hostile workloads, with hang and crash monitors",
  "Exploration: sanitizers judge every access on the executed paths; coverage is by model x mutation x T,P sampling, not exhaustive.")

p("P02", "Malformed data, units and equations never corrupt the process",
  "Any text given as database, record, unit or reaction equation is either accepted or rejected by a std::exception or a log message. It never causes an invalid memory access, undefined behaviour, a hang or the end of the process, and rejected or incomplete records leave what was loaded before usable.",
  ["inputs"], "all byte strings; explored: structured mutations of shipped records, unit expressions and equations",
  "Tests load well-formed files only; the space of malformed ones is unbounded.",
  ["ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/Database.cpp", "ThermoFun/Common/Units.cpp", "ThermoFun/Reaction.cpp", "ThermoFun/Element.cpp"],
  [("field readers", "ThermoFun/Common/ParseJsonToData.cpp"), ("unit expression parser", "ThermoFun/Common/Units.cpp"), ("equation parser", "ThermoFun/Reaction.cpp")],
  ["sanitizer reports", "exceptions"], "structured mutation fuzzing under AddressSanitizer and UndefinedBehaviorSanitizer",
  "Exploration: sanitizers judge executed paths; inputs are sampled mutations.")

p("P03", "Results depend on the data and the query only",
  "The same data and the same query give bit-identical results (values, derivatives, errors, status) in every process. In particular no result depends on memory that was never written, on the address layout, or on what the process did before.",
  ["inputs", "configurations"], "all records and queries; two builds and heaps that fill fresh memory differently",
  "A test run sees one memory image, in which stale memory is usually zero.",
  ["ThermoFun/ThermoProperties.h", "ThermoFun/ThermoParameters.h", "ThermoFun/Substances", "ThermoFun/Common/ParseJsonToData.cpp"],
  [("initialisation of every local and member before use", "all models and record readers")],
  ["bit images of all results"], "differential execution: the same workload with pattern-filled, zero-filled and perturbed stack and heap memory, compared bit by bit",
  "Exploration: any use of unwritten memory that reaches a result on the executed paths shows as a difference.")

p("P04", "An answer does not depend on earlier queries",
  "For fixed data and settings, an engine answers each query with exactly the same result (including error estimate, status, pressure written back, or failure) whatever was asked before, in whatever order, and whether or how much it caches.",
  ["histories", "configurations"], "all sequences of queries, all cache settings",
  "Tests ask each question once, in one order, with the default cache.",
  [ENG, MEMO], [("memoization by value of all arguments", MEMO), ("per-query work preferences", ENG)],
  ["every answer of the engine"], "history monitor: every answer compared bit by bit with an engine that has no history",
  "Exploration of random histories with colliding and neighbouring queries; the oracle is the same code without history.")

p("P05", "Changed settings and appended data take effect at the next query",
  "After preferences, conventions or the solvent symbol are changed, or records are appended, the next query is answered exactly as by a new engine constructed with that data and those settings. Nothing answered before the change shows through.",
  ["histories", "configurations"], "all interleavings of changes and queries",
  "Tests set an engine up once and never change it between queries.",
  [ENG, "ThermoFun/Database.cpp"], [("invalidation of cached functions when settings differ", ENG), ("appendData", ENG)],
  ["answers after each change"], "history monitor with a model of the settings and data in force",
  "Exploration of random interleavings; the oracle is a new engine per answer.")

p("P06", "Copies of engines, databases and records are independent values",
  "A copied or assigned engine, database, substance or reaction equals its original at the time of copying, and later changes to, queries of, or destruction of one never affect the other.",
  ["histories"], "all sequences of copy, assign, change, query and destroy",
  "No test copies an engine and keeps using both.",
  [ENG, "ThermoFun/Database.cpp", "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp"], [("deep copy in copy constructor and assignment", "each class's pimpl")],
  ["answers of each engine", "record fields"], "history monitor over families of copies, each with its own model of data and settings",
  "Exploration of random histories of up to five engines.")

p("P07", "Independent engines can be used from different threads",
  "Threads that each use their own engine, database and batch calculator run without data races and obtain exactly the results of a serial run, also when their engines are copies of one another or were built from the same database object.",
  ["schedules"], "all interleavings of threads each with its own objects",
  "The tests are single-threaded.",
  [ENG, "ThermoFun/Common/Units.cpp", "ThermoFun/Substances", "ThermoFun/GlobalFunctions.cpp"], [("no shared mutable state between engines", "whole library"), ("immutable global tables", "ThermoFun/Common/Units.cpp, ThermoFun/GlobalVariables.h")],
  ["race reports", "results by thread"], "ThreadSanitizer with randomised schedules, and comparison with a serial run",
  "Exploration: the race detector generalises over the happens-before order of the executed schedules.")

p("P08", "Failures are reported, leave the engine usable, and fall back only as asked",
  "A query that cannot be answered (unknown symbol, missing reactant, a substance defined only by itself, missing parameters) raises std::exception and never returns a number; afterwards the engine and its settings are as before. With the fallback to reference properties on, exactly the properties the models leave undefined take the values of the record; with it off none does.",
  ["histories", "inputs", "fault_sequences"], "all mixes of valid and invalid queries",
  "Tests exercise valid queries only.",
  [ENG, "ThermoFun/Database.cpp", "ThermoFun/Common/Exception.cpp"], [("errorNonExistent / errorMethodNotFound", "ThermoFun/Database.cpp, ThermoFun/Common/Exception.cpp"), ("fallbackThermoPropertiesSubstance", ENG), ("scoped switches", ENG)],
  ["exceptions", "answers after failures", "property status"], "fault-sequence monitor: invalid queries injected between valid ones, all judged against a fresh engine",
  "Exploration of random sequences.")

RE = "ThermoFun/Reactions"
p("P09", "Reactions computed from reactants obey stoichiometry and Hess' law",
  "A reaction without its own model, or asked for 'from reactants', has for each of G, A, U, H, S, V, Cp, Cv the sum of the coefficients times the substances' properties (gases with pressure correction), derivatives included, ln K = -G/RT, log K = ln K/ln 10, and is defined only where all its substances are. So reversing, scaling and adding reactions does the same to their properties, and a reaction given as an equation in text equals the same reaction given by its reactants, however it is written.",
  ["inputs", "configurations"], "all sets of substances and coefficients, all T and P",
  "Tests sample a few reactions at a few points.",
  [ENG, "ThermoFun/Reaction.cpp"], [("summation over reactants", ENG + " thermoPropertiesReactionFromReactants"), ("equation parser", "ThermoFun/Reaction.cpp fromEquation")],
  ["properties of reactions and substances"], "runtime oracle: stoichiometric sums of independently queried substances; metamorphic relations (Hess, notation)",
  "Exploration: random reactions over all shipped and synthetic records.")

p("P10", "Properties reported for a reaction are mutually consistent",
  "Whatever model a reaction uses, ln K = ln 10 log K and G = -RT ln K; where the model gives enthalpy and entropy as functions of T, also G = H - TS, U = H - PV, A = U - TS, d lnK/dT = H/RT^2, S = -dG/dT, Cp = dH/dT, and where it describes pressure, d lnK/dP = -V/RT.",
  ["inputs"], "all reactions of the models log K(T), van 't Hoff, constant heat capacity, density models (Dolejs-Manning, Franck-Marshall, Ryzhenko-Bryzgalin), with or without constant volume correction",
  "Tests compare single values, not relations between them over T and P.",
  [RE, ENG], [("log K function of T", RE + "/LogK_function_of_T.cpp"), ("density models", RE), ("constant volume correction", ENG + " thermoPropertiesReaction")],
  ["all properties of a reaction at neighbouring T and P"], "online relation monitor (algebraic identities and finite differences of the reported functions)",
  "Exploration over recorded and random reactions. Not promised and not checked: constant log K and one-term extrapolation take H, S, Cp from the record; volume functions of T are not implemented upstream (empty result).")

p("P11", "Reaction models evaluate their published functions",
  "The properties of a reaction with its own model equal the published function of its coefficients: 7-term log K(T) or its heat capacity form (also when only some or only one kind of coefficients are given), 1, 2 and 3-term extrapolations with the method chosen by the reference data available, the Dolejs-Manning, Franck-Marshall and Ryzhenko-Bryzgalin density models, and the constant reaction volume correction.",
  ["inputs"], "all coefficients, reference data, T and P",
  "Tests cover recorded reactions at a few points.",
  [RE, ENG], [("coefficient conversion", RE + "/LogK_function_of_T.cpp"), ("choice of extrapolation", RE + "/LogK_function_of_T.cpp determineMethod"), ("density models", RE)],
  ["all properties of a reaction"], "runtime oracle: independent second implementation of each model, compared on random coefficients, T and P",
  "Exploration; agreement to 2e-8 of the energies involved.")

p("P12", "Substances defined through a reaction close that reaction",
  "A substance defined by a reaction has, for each property, (property of the reaction - sum of coefficient times property over the other reactants) / its own coefficient, corrected for pressure by its constant molar volume if so recorded. Computing the reaction from its reactants gives the reaction's own properties back, in whatever order things are asked.",
  ["inputs", "histories"], "all substances defined by reactions, all T and P",
  "The tests look at few such substances at single points.",
  [ENG], [("reacDCthermoProperties", ENG), ("ConMolVol", "ThermoFun/ThermoModelsSubstance.cpp")],
  ["properties of the substance, its reaction and the other reactants"], "runtime oracle over independently queried reaction and substances",
  "Exploration over all recorded and random synthetic definitions.")

p("P22", "Property arithmetic carries exact derivatives, errors and status",
  "Adding, subtracting, multiplying, dividing, powers, roots, exponentials and logarithms of properties (also in place, also with plain numbers) give the exact value, the temperature and pressure derivative by the rules of calculus, and the first order propagated error of independent operands; errors are never negative or invalid where the value is valid. A result is defined only if its operands are.",
  ["inputs"], "all operations and operands; all results an engine computes",
  "No test looks at derivatives, errors or status; faults there change no value.",
  ["ThermoFun/Common/ThermoScalar.hpp"], [("operators of ThermoScalarBase", "ThermoFun/Common/ThermoScalar.hpp")],
  ["value, ddt, ddp, err and sta of results"], "runtime oracle: extended precision dual numbers with error propagation, compared after every operation",
  "Exploration of random operation chains. Not promised: derivatives of powers and roots at value zero.")

p("P23", "Unit conversions are exact, consistent and reject what does not match",
  "Converting a number between any two units or unit expressions of the same dimension multiplies it by the ratio of their definitions (temperatures: by their scales), so converting there and back, or by way of a third unit, changes nothing. Units of different dimension, unknown units and malformed expressions are reported and convert to nothing.",
  ["inputs"], "all units known to the library, all expressions of them with products, quotients and brackets",
  "Tests convert a handful of units.",
  ["ThermoFun/Common/Units.cpp"], [("table of units", "ThermoFun/Common/Units.cpp derivedUnitsMap"), ("expression parser", "ThermoFun/Common/Units.cpp parseUnit"), ("dimension check", "ThermoFun/Common/Units.cpp checkConvertibleUnits")],
  ["convert", "convertible"], "runtime oracle: second unit table and expression semantics; metamorphic relations",
  "All pairs of units, random expressions. 'gal' is taken as the imperial gallon, as in the library.")

p("P26", "Reaction equations in text mean what they say",
  "Reading an equation 'a A + b B = c C' gives exactly the substances named, reactants negative and products positive, with the coefficients written (1 if none, also fractions and signs), whatever the blanks; substances named several times add up. It replaces what the reaction held before; text and symbol are kept, and recorded equations agree with the recorded reactants.",
  ["inputs", "histories"], "all equations whose terms are separated by ' + '",
  "Tests parse a few equations.",
  ["ThermoFun/Reaction.cpp"], [("fromEquation, extractCoef", "ThermoFun/Reaction.cpp")],
  ["reactants, equation and symbol of a reaction"], "runtime oracle: equations generated from known coefficients",
  "Exploration. Names that begin like the end of a number (E.., X..) are only used without coefficient.")

p("P24", "Records load as written, whatever their units and the way they are loaded",
  "Loading a substance, reaction or element record gives an object whose names, formula, charge, class, state, reference T and P, temperature and pressure limits, calculation methods, reference properties with errors and all model coefficients are those of the record, converted exactly from the units it names to the library's; fields a record lacks get their documented default. It does not matter whether it came from a file, a text, a list of texts, was appended or added singly, or is wrapped in 'properties'.",
  ["inputs"], "all shipped records; all records of the documented format",
  "Tests load a few records and look at one or two fields; a field that is dropped, mixed up with another or converted wrongly shows only in some model at some T, P.",
  ["ThermoFun/Common/ParseJsonToData.cpp", "ThermoFun/Database.cpp", "ThermoFun/ThermoParameters.h"], [("convert and read functions", "ThermoFun/Common/ParseJsonToData.cpp"), ("ways of loading", "ThermoFun/Database.cpp")],
  ["all fields of loaded records that can be read back"], "runtime oracle: second reader of the JSON with a second unit table",
  "All shipped data sets and random records. Shipped HKF records with swapped units, and swapped units of expansivity and compressibility, are read as the library documents.")

p("P25", "A database is a faithful collection of records",
  "After any sequence of adding, setting, appending, replacing, renaming through references, copying and assigning: add keeps what is there, set and append replace; exactly the records put in are listed, counted, contained and found, in their latest version; looking up what is missing raises an error; formulas are parsed with the database's elements and raise an error if one is missing. Orderings used for records are strict weak orders.",
  ["histories"], "all sequences of operations on all databases",
  "Tests add and fetch a few records once.",
  ["ThermoFun/Database.cpp", "ThermoFun/Element.cpp", "ThermoFun/Substance.cpp"], [("Database::Impl", "ThermoFun/Database.cpp"), ("operator<", "ThermoFun/Element.cpp")],
  ["lists, counts, maps, lookups and errors after every operation"], "runtime oracle: model-based comparison of random histories",
  "Exploration; looking up through non-const references creates records, as in the library.")

SUB = "ThermoFun/Substances"
WSRC = "ThermoFun/Substances/Solvent"
p("P16", "Water follows its published equations of state, in the phase asked for",
  "For every T and P inside its range, and at saturation, each water model returns the density that solves its published equation (Wagner and Pruss 1995, Haar-Gallagher-Kell 1984, its Levelt Sengers form near the critical point, Zhang and Duan 2005) in the asked phase, and energies, entropy, heat capacities, volume, expansivity, compressibility and the derivatives of density and pressure are those of that equation at that density, offset by the selected triple point values.",
  ["inputs"], "all waters, T, P including saturation and metastable states next to it, both phases, all triple point references",
  "Tests sample few states; sign, unit and derivative mistakes show only elsewhere, and iterations fail only in narrow regions.",
  [WSRC, ENG], [("density iteration", WSRC + "/Reaktoro/WaterUtils.cpp"), ("HGK and Levelt Sengers (gems)", WSRC + "/WaterHGK-JNgems.cpp"), ("thermodynamic properties from Helmholtz energy", WSRC + "/Reaktoro/WaterThermoStateUtils.cpp"), ("Zhang and Duan", WSRC + "/WaterZhangDuan2005.cpp")],
  ["solvent and substance properties of water", "Helmholtz energies and their derivatives to third order", "pressure written back at saturation"],
  "runtime oracle: independent implementation of the equations of state with exact derivatives (truncated Taylor arithmetic, extended precision) at the observed density",
  "Exploration over T, P, phase. Near the critical point the gems water uses another equation; there its functions are judged by the relations between them (1.5 %). Transport properties are only compared between runs (P03).")

p("P17", "The dielectric constant and Born functions belong to one published function",
  "For each electrostatic model (Johnson and Norton 1991, Sverjensky 2014, Fernandez 1997), the dielectric constant equals the published function of temperature and the density of the chosen water, and its derivatives and the Born functions Z, Q, Y, X (U, N where given) are those of that function along the water's equation of state, in 1/K and 1/Pa.",
  ["inputs"], "all combinations of water and electrostatic model, T, P, saturation, both phases",
  "Tests compare a few values; derivative and unit mistakes in single Born functions pass them.",
  [WSRC, ENG], [("Johnson and Norton", WSRC + "/Reaktoro/WaterElectroStateJohnsonNorton.cpp"), ("gems form", WSRC + "/WaterHGK-JNgems.cpp Born92"), ("Sverjensky, Fernandez", WSRC)],
  ["electro-chemical properties of the solvent"], "runtime oracle: independent implementation of the dielectric functions composed with the equations of state in Taylor arithmetic",
  "Exploration. SV14 and F97 differentiate numerically over 0.1 % (tolerance 2e-4 and what such differences cut off; not judged next to the critical point and across the phase boundary).")

p("P18", "Minerals follow the published heat capacity and volume models",
  "For every mineral record the apparent Gibbs energy at T and P is the integral of its heat capacity polynomials through the intervals, with the recorded transitions, plus the pressure term of its volume model (constant, Berman 1988, Murnaghan after Holland and Powell 1998 with or without Landau transition, Birch-Murnaghan after Gottschalk 1997), and entropy, enthalpy, heat capacity, volume, internal and Helmholtz energies are its derivatives.",
  ["inputs"], "all coefficients, intervals, transitions, reference states, T in and outside the intervals, P",
  "Tests compare rounded values of few minerals; a wrong power, sign, interval or derivative shows only for records that use it, away from the reference state.",
  [SUB + "/Solids", SUB + "/EmpiricalCpIntegration.cpp", ENG], [("heat capacity integration", SUB + "/EmpiricalCpIntegration.cpp"), ("volume models", SUB + "/Solids"), ("dispatch by method codes", ENG + " thermoPropertiesSubstance")],
  ["thermoPropertiesSubstance for random records"], "runtime oracle: independent Gibbs energy of each model differentiated exactly (truncated Taylor arithmetic, extended precision)",
  "Exploration over random records and states. Berman and Birch-Murnaghan numerical derivatives are given their own tolerance.")

p("P19", "Solutes follow the published HKF and density models in the chosen water",
  "For every aqueous solute record the Gibbs energy is that of its published model (HKF in both codes, Akinfiev-Diamond, Anderson 1991, Holland-Powell 1998) at the density, dielectric constant and g function of the solvent asked for, including neutral species, H+ and charged gas-like solutes, and all other properties are its derivatives along the equation of state of that water.",
  ["inputs"], "all parameters, charges, waters, T and P including saturation",
  "Tests sample few species at few states; omega and g function derivatives matter only for charged species at low density, and mistakes there pass.",
  [SUB + "/Solute", ENG], [("HKF", SUB + "/Solute"), ("Akinfiev-Diamond, Anderson, Holland-Powell", SUB + "/Solute"), ("solvent selection", ENG)],
  ["thermoPropertiesSubstance for random solutes"], "runtime oracle: independent Gibbs energy of each model composed with the water reference in Taylor arithmetic",
  "Exploration. States of water that the independent reference cannot place are counted and not judged (P16 judges them).")

p("P20", "Gases follow the published equations of state",
  "For every gas record the volume, residual enthalpy and residual entropy at T and P are those of its published equation of state (ideal gas, PRSV, PR 1978, SRK, CORK with its forms for CO2, H2O and corresponding states, Sterner-Pitzer, Churakov-Gottschalk) at the stable root, added to the ideal gas heat capacity integral; the Gibbs energy stays at 1 bar; outside the range of the equation the gas is ideal.",
  ["inputs"], "critical parameters, T and P including the critical point, two-phase region, limits of the range",
  "The regression test covers no gas at critical temperature, in the two-phase region, or with optional parameters, where divisions by zero and wrong roots appear.",
  [SUB + "/Gases", ENG], [("cubic equations and CORK", SUB + "/Gases/s_solmod2_.cpp"), ("increments on the ideal gas", SUB + "/Gases/Gas*.cpp")],
  ["thermoPropertiesSubstance for random gas records"], "runtime oracle: independent solution of each equation of state, exact derivatives; for STP and CGF the relation between residual Gibbs energy and volume",
  "Exploration. Not judged: PRSV k2, k3 (the code states that it ignores them in the derivative), CORK enthalpies above the pressure where its virial terms start and of liquid water, CGF outside dense supercritical states.")

p("P13", "Energies of one answer belong together",
  "For every substance record (except gases with an equation of state and substances defined by a reaction) and all T and P the internal and Helmholtz energies of an answer are U = H - PV and A = U - TS of the same answer, G - H + TS is the same constant at all states of the record, and all properties of the hydrogen ion are zero.",
  ["inputs"], "all substance records of the shipped databases; T 275-1500 K, P 0.1-500 MPa",
  "Tests compare G, H, S and V of some records at few states; the identities must hold at every state of every model.",
  [SUB, ENG], [("U, A of each model", SUB + "/*/*.cpp"), ("order of the models", ENG)],
  ["thermoPropertiesSubstance of every record"], "runtime oracle: thermodynamic identities within one answer and between answers of one record",
  "Exploration. Waters are excluded from U and A (each equation has its own convention for PV) but not from G - H + TS.")
p("P14", "Entropy, heat capacity and volume are derivatives of the energies",
  "For every substance record and state off phase boundaries the answered entropy is -dG/dT, the heat capacity dH/dT and the volume dG/dP of the answers at neighbouring states (for gases with an equation of state the Gibbs energy stays at 1 bar by convention, and only the volume of condensed phases, solutes and water is judged).",
  ["inputs"], "all substance records of the shipped databases; T 275-1500 K, P 0.1-500 MPa",
  "Holds between answers of different calls; a wrong coefficient in one derivative leaves tested single values intact.",
  [SUB, ENG], [("derivatives coded separately in each model", SUB + "/*/*.cpp")],
  ["thermoPropertiesSubstance of every record at neighbouring states"], "runtime oracle: finite differences of the program's own answers, with their measured error",
  "Exploration. Tolerance 1e-6 (S), 1e-5 (Cp, V), 30 times that where the model itself iterates to 1e-5 (HGK gems, HKF).")
p("P15", "At its reference state a substance has the properties of its record",
  "Queried at its reference temperature and pressure every substance record answers the Gibbs energy, enthalpy, entropy and volume stored in the record (gases with an equation of state: only G; HKF: not V; solvents and reaction-defined substances excluded).",
  ["inputs"], "all substance records of the shipped databases",
  "Every record of every database is concerned; tests look at a handful.",
  [SUB, ENG], [("integration from the reference state", SUB + "/*/*.cpp"), ("reference values", "ThermoFun/Substance.cpp")],
  ["thermoPropertiesSubstance at Tr, Pr of every record"], "runtime oracle: the record itself",
  "Exploration over all shipped records. HKF within rounding of the Born functions at the reference state, Landau minerals within 1 bar of volume.")
p("P21", "Conventions shift properties by their definition and nothing else",
  "With water_properties = STEAM_TABLES the energies and entropy of the solvent are those relative to liquid water at the triple point of the selected source (so G = H - TS), with apparent_properties = BERMAN_BROWN the Gibbs energy of every other substance is lower by Tr times the entropy of its elements; all other properties, statuses, substances, solvent and dielectric properties stay the same, and switching conventions back and forth leaves no trace.",
  ["inputs", "histories"], "all substance records, triple point sources, histories of conventions",
  "No test sets a convention.",
  [ENG, "ThermoFun/Database.h"], [("toSteamTables, toBermanBrown", ENG), ("triple points", "ThermoFun/GlobalVariables.h")],
  ["ThermoEngine::conventions, Database::conventions, thermoPropertiesSubstance"], "runtime oracle: definition of the conventions applied to the answers of an engine without them",
  "Exploration. Reaction-defined substances are excluded (their reactants include the unconverted solvent).")

p("P27", "Batch results are the engine's answers at the requested states",
  "For any list of symbols, properties and states given to ThermoBatch (single, lists, pairs, grids or increments from a minimum in steps up to but not beyond a maximum, in any units) there is one result per symbol and state in the documented order, equal to what ThermoEngine answers at the state converted to K and Pa; with P = 0 all results of a state belong to the same saturation pressure; a call fails exactly when the engine does, and earlier calls and settings on the same batch have no influence.",
  ["inputs", "histories"], "symbols, properties, T-P lists, increments, units, loop orders, sequences of calls",
  "Regression tests compare four files of fixed calls; orders, increments, units, saturation and repeated use combine freely.",
  ["ThermoFun/Batch/ThermoBatch.cpp", ENG], [("loops and index of results", "ThermoFun/Batch/ThermoBatch.cpp calculate"), ("increments", "ThermoFun/Batch/ThermoBatch.cpp addTPpairs")],
  ["ThermoBatch::thermoPropertiesSubstance/Reaction, Output::to2DVectorDouble, toDouble, toThermoScalar"], "runtime oracle: a second engine asked state by state",
  "Exploration. The results of a call are judged before the next call: an Output shares the state of its batch by design.")
p("P28", "Result files show the results, states and units asked for",
  "The CSV, transposed CSV and property grid files of a batch calculation have a header with the selected units and one line or cell per symbol, state and property in the documented order; states and values are those of the calculation converted to the units of the header, printed with the selected digits and notation, undefined values as NaN, separators inside symbols replaced; states that form no grid give no grid. The plain writer of properties puts each property below the column its header names.",
  ["inputs"], "calculations, units, digits, notations, separators, loop orders, file formats and folders",
  "Tests write four files with default layout; transposed files, grids, saturation pressures, other units are not read by any test.",
  ["ThermoFun/Batch/OutputBatch.cpp", "ThermoFun/Common/OutputToCSV.cpp"], [("order of lines and cells", "ThermoFun/Batch/OutputBatch.cpp foutResults, foutResultsTransposed, foutPropertyGrid")],
  ["Output::toCSV, toCSVTransposed, toCSVPropertyGrid"], "runtime oracle: files read back and compared with the engine's answers and a second table of units",
  "Exploration.")

p("P29", "Answers tell when they lie outside recorded limits or lack components",
  "If T or P lies outside the limits recorded for a substance, every property its model calculates (HKF in both codes, Akinfiev-Diamond, the volume models of minerals, the gas equations of state; for HKF also water outside 600-1400 kg/m3) carries the model's warning in its status message, by default conventions; inside the limits, or where none are recorded, it carries none. Each property of a reaction calculated from its reactants carries the warnings of all of them and names each reactant for which the property is not defined, in whatever order they come.",
  ["inputs"], "all records, limits, states and sets of reactants",
  "No test reads a status message; whether one survives depends on which later operation on the same number clears it, in each model and for each order of reactants.",
  ["ThermoFun/Substance.cpp", "ThermoFun/Common/Exception.cpp", ENG], [("limits", "Substance::checkCalcMethodBounds"), ("messages of a sum", "ThermoFun/ThermoEngine.cpp thermoPropertiesReactionFromReactants")],
  ["status and message of every property of ThermoPropertiesSubstance and ThermoPropertiesReaction"], "runtime oracle: the limits of the record and the messages of the single substances",
  "Exploration. Not judged: the message of heat capacity intervals (later steps of some models rightly replace it) and messages under other conventions (their corrections clear them).")

p("P30", "Memory in use is bounded: only the caches keep, within their limit",
  "A query, answered or failed, keeps no memory when memoization is off, and asking the same again keeps none in any case; a cache limited to N answers holds at most N of each kind of answer, whatever is asked in whatever order; switching memoization off, and destroying copies, engines, databases, records and batch calculators, gives back all memory they held. The same holds for loading or failing to load data, appending records, and parsing formulas, equations and units, any number of times.",
  ["histories", "inputs"], "all sequences of queries, failures, settings, copies and destructions; all models",
  "A test ends before a leak or an unbounded cache matters; a long-running simulation makes millions of queries at ever new T and P.",
  ["ThermoFun/OptimizationUtils.h", ENG, "ThermoFun/Substances/Gases", "ThermoFun/Batch", "ThermoFun/Database.cpp"],
  [("caches with a limit", "ThermoFun/OptimizationUtils.h memoizeN; ThermoFun/ThermoEngine.cpp"), ("work arrays of the gas models", "ThermoFun/Substances/Gases/s_solmod*.cpp")],
  ["bytes live between operations"], "exact count of live heap bytes by replaced operator new, with bounds from the history",
  "Exploration. Memory kept once per process (tables, loggers) is not counted: the first history warms up.")

CHECK_ORDER = sorted(P)
if __name__ == "__main__":
    with open(V / "properties.jsonl", "w") as f:
        for k in sorted(P):
            x = P[k]
            assert len(x["title"]) <= 80, (k, len(x["title"]))
            d = dict(id=k, title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                     anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]], observe_at=x["observe"], hook_needed=None))
            if x["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in x["state"]]
            f.write(json.dumps(d) + "\n")
    checks = []
    na = []
    for k in sorted(P):
        if k in CHECKS:
            x = P[k]
            checks.append(dict(property=k, quick_cmd="python3 tools/check.py " + k, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + k, evidence_file="evidence/%s.json" % k,
                               technique=x["technique"], level="exploration", level_note=x["note"]))
        else:
            na.append(dict(property=k, reason=P[k]["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="python3 tools/vbuild.py fast h_engine.cpp", checks=checks, not_applicable=na,
             notes="Checks build /repo's working tree (all sources under ThermoFun) with tools/vbuild.py in the variants they need; no hooks in /repo are needed, everything is observed through the public headers. "
                   "known_findings.txt lists repaired and recorded defects.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties", len(checks), "checks")
