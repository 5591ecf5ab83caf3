"""The checks: which harness runs in which build, and what its evidence means."""


def step(variant, harness, *args, name=None, **kw):
    return dict(variant=variant, harness=harness, args=list(args), name=name or "-".join([harness.split(".")[0], *args, variant]), **kw)


def same_images(runs):
    """Every process has to have answered the same (runs: step name -> processes, in the order of the shards)."""
    names = list(runs)
    viols, n, diff = [], 0, {}

    def read(r):
        d = {}
        for p in r.images:
            if p.exists():
                for l in p.read_text(errors="replace").splitlines():
                    k, _, v = l.rpartition("\t")
                    d[k] = v
        return d
    for shard in range(len(runs[names[0]])):
        first = read(runs[names[0]][shard])
        for other in names[1:]:
            d = read(runs[other][shard])
            for k in first.keys() & d.keys():
                n += 1
                if first[k] != d[k]:
                    diff.setdefault(k, []).append(other)
            if len(first.keys() ^ d.keys()) and not any(r.viols for r in (runs[names[0]][shard], runs[other][shard])):
                viols.append({"key": "other questions: " + other, "detail": {"missing": sorted(first.keys() ^ d.keys())[:5]}, "step": other})
    for k, others in sorted(diff.items()):
        # what was asked, without the number of the case and the state
        w = k.split(" ", 2)
        kind = " ".join(x for x in w[2].split() if not x.startswith(("T=", "P=", "state=")) and not (x[0] == "q" and x[1:].isdigit()) and not x.isdigit())
        viols.append({"key": "differs: %s %s" % (w[1], kind), "case": int(w[0]), "what": k, "step": others[0], "detail": {"asked": k, "first": names[0], "differs in": others}})
    return viols, {"evaluations": n, "counts": {"answers compared between processes": n, "answers that differ": len(diff)}}


CHECKS = {
    "P04": dict(
        steps=[step("fast", "h_engine.cpp", "history")], min_evaluations=5000,
        rule="A case is a random history of 30-70 queries (substances, reactions, solvent, equations; neighbouring T and P) to one engine with random "
             "memoization settings; every answer (value, derivatives, error, status, output pressure) is compared bit by bit with a new engine that caches nothing. "
             "Distinct: answered (data set, query, cache setting) combinations."),
    "P05": dict(
        steps=[step("fast", "h_engine.cpp", "settings")], min_evaluations=3000,
        rule="A case is a random history in which preferences, conventions, solvent symbol and records change between repeated queries; oracle as for P04 with the settings in force. "
             "Distinct: answered (data set, query, preceding change) combinations."),
    "P06": dict(
        steps=[step("fast", "h_engine.cpp", "copies"), step("fast", "h_data.cpp", "values")], min_evaluations=3000,
        rule="A case is a random history of copying, assigning, destroying, changing and querying up to five engines; each answer is compared with a new engine built from that member's own data and settings; "
             "records and databases are compared field by field after their copies change; further cases do the same with families of elements, substances and reactions (copied, assigned, moved, swapped, held in collections), "
             "each member compared after every operation with the fields its own history gives it. Distinct: answered queries by number of living engines; kinds of operations on records."),
    "P08": dict(
        steps=[step("fast", "h_engine.cpp", "failures")], min_evaluations=5000,
        rule="A case interleaves invalid queries (unknown symbols, missing reactants, self-defined and parameterless records) with valid ones on one engine; invalid ones have to raise std::exception, valid ones to answer as a new engine; "
             "each property is compared with and without the fallback. Distinct: kinds of failed queries and fallback values."),
    "P09": dict(
        steps=[step("fast", "h_react.cpp", "stoichiometry")], min_evaluations=3000,
        rule="A case takes random and recorded reactions of a random data set: each is asked of an engine (by symbol, as an object, as text in varied notation, cached or not) and compared, property by property with derivatives, "
             "errors and status, with the stoichiometric sum of answers for its substances from another engine; linear combinations of reactions are compared (Hess). Distinct: (data set, reactants, way of asking, T, P)."),
    "P10": dict(
        steps=[step("fast", "h_react.cpp", "relations")], min_evaluations=5000,
        rule="Every recorded reaction and random reactions of every method at random T, P: algebraic relations between the reported properties, and finite differences of the reported functions (van 't Hoff, S, Cp, V). "
             "Distinct: (data set, reaction, method, T, P)."),
    "P11": dict(
        steps=[step("fast", "h_react.cpp", "models")], min_evaluations=5000,
        rule="Every recorded reaction and reactions with random coefficients and reference properties: all properties compared with a second, independent implementation of the published function. Distinct: (reaction, T, P)."),
    "P12": dict(
        steps=[step("fast", "h_react.cpp", "defined")], min_evaluations=2000,
        rule="Every recorded substance defined by a reaction and random synthetic ones: compared with (reaction - sum over the others)/coefficient from another engine, and the reaction recovered from its substances. Distinct: (substance, methods, T, P)."),
    "P22": dict(
        steps=[step("fast", "h_base.cpp", "algebra")], min_evaluations=60000,
        rule="A case is a chain of 300 random operations on scalars (all operators, compound assignments and functions; zero, negative, large and undefined operands): each result's value, derivatives, error and status "
             "is compared with the rules of calculus and first order error propagation in extended precision; further cases judge the error estimates of everything engines compute from records with errors. "
             "Distinct: (operation, signs and zeros of operands, which are defined, which have errors)."),
    "P23": dict(
        steps=[step("fast", "h_base.cpp", "units")], min_evaluations=60000,
        rule="All pairs of units; random temperatures in all pairs of scales; random unit expressions (products, quotients, brackets) and the same rewritten in other units of the same kinds, or of other kinds; malformed expressions. "
             "Compared with a second table of units and parser of meaning; there-and-back and by way of a third unit. Distinct: pairs of units and expressions."),
    "P26": dict(
        steps=[step("fast", "h_base.cpp", "equations")], min_evaluations=15000,
        rule="A case is 60 random equations written with varied names, coefficients, signs and blanks, each read into a new or used reaction: reactants, text and symbol are compared with what was written; all recorded equations against recorded reactants. Distinct: equations."),
    "P24": dict(
        steps=[step("fast", "h_data.cpp", "records")], min_evaluations=6000,
        rule="All records of all shipped data sets, and random records of every method with random units, missing fields and errors, loaded in six ways: every field that can be read back is compared with a second reader of the JSON. Distinct: records."),
    "P25": dict(
        steps=[step("fast", "h_data.cpp", "collections")], min_evaluations=60000,
        rule="A case is a history of 60 random operations on up to four databases; after each one database is compared with plain maps (lists, counts, vectors, lookups, missing records, formulas). "
             "Further cases check the orderings of records on random triples. Distinct: (operation, what existed before, number of databases and records)."),
    "P16": dict(
        steps=[step("fast", "h_water.cpp", "eos")], min_evaluations=9000,
        rule="A case takes random waters, T, P and phases (liquid, next to saturation, vapour, saturated, supercritical, just above the critical temperature, dense): each reported number is compared with an independent implementation of the published equation, "
             "all derivatives exact; also the library's Helmholtz, pressure, density and saturation functions, both phases at saturation, and the relations between functions near the critical point. Distinct: (water, region, 10 K, ln P/4)."),
    "P17": dict(
        steps=[step("fast", "h_water.cpp", "dielectric")], min_evaluations=3000,
        rule="A case takes random combinations of water and electrostatic model, T, P and phases: the dielectric constant, its derivatives and the Born functions are compared with an independent implementation, derivatives exact along the equation of state. Distinct: (combination, region, 10 K, ln P/4)."),
    "P18": dict(
        steps=[step("fast", "h_models.cpp", "minerals")], min_evaluations=30000,
        rule="A case is a random mineral record (heat capacity polynomials in 1-3 intervals with transitions or constant, and one of constant volume, Berman, Murnaghan, Murnaghan with Landau, Birch-Murnaghan) queried at up to a dozen states: every property is compared with the Gibbs energy of the published model and its exact derivatives. Distinct: (model, 20 K, ln P/2)."),
    "P19": dict(
        steps=[step("fast", "h_models.cpp", "solutes")], min_evaluations=10000,
        rule="A case is a random solute record (HKF in both codes, Akinfiev-Diamond, Anderson, Holland-Powell) in one of several waters, queried at up to ten states: every property is compared with the Gibbs energy of the published model and its exact derivatives at the density and dielectric constant of an independent water. Distinct: (model, water, charge, 20 K, ln P/4)."),
    "P20": dict(
        steps=[step("fast", "h_models.cpp", "gases")], min_evaluations=15000,
        rule="A case is a random gas record (ideal, PRSV, PR78, SRK, CORK in its three forms; STP and CGF by the relation between residual Gibbs energy and volume) queried at several states: volume, residual enthalpy and entropy are compared with an independent solution of the published equation. Distinct: (model, 20 K, ln P/4)."),
    "P13": dict(
        steps=[step("fast", "h_phys.cpp", "identities")], min_evaluations=5000,
        rule="A case is a record of a shipped data set, or of random ones of all models, queried at 6 states (60 when thorough): U = H - PV, A = U - TS, and G - H + TS equal at all states of the record; H+ zero throughout. Distinct: (record, 100 K)."),
    "P14": dict(
        steps=[step("fast", "h_phys.cpp", "derivatives")], min_evaluations=2000,
        rule="A case is a record of a shipped data set, or of random ones of all models, at 2 states (30 when thorough) off phase boundaries: the answer's S, Cp and V against fourth order differences of its own G and H at 4 neighbouring temperatures and pressures, with the difference of two step widths as error bar. Distinct: (record, 100 K)."),
    "P15": dict(
        steps=[step("fast", "h_phys.cpp", "reference")], min_evaluations=1200,
        rule="A case is a record of a shipped data set, or of random ones of all models, queried at its reference T and P: G, H, S, V are those of the record. Distinct: records."),
    "P21": dict(
        steps=[step("fast", "h_phys.cpp", "conventions")], min_evaluations=2500,
        rule="A case is a record queried in an engine with default conventions and in another one that is switched through 0-2 other conventions before the wanted one, with one of three triple points of water: the difference of every property against the definition of the convention. Distinct: (record, conventions, triple point)."),
    "P27": dict(
        steps=[step("fast", "h_batch.cpp", "results")], min_evaluations=8000,
        rule="A case is 1-4 calls to one ThermoBatch over a random small database with random units, loop order, entry point (single value, lists, increments, T-P pairs, grids), P = 0 included: number, order and value of every result against another engine asked at the converted states, and failure exactly when the engine fails. Distinct: (source, call, first symbol, first property)."),
    "P28": dict(
        steps=[step("fast", "h_batch.cpp", "files"), step("fast", "h_batch.cpp", "writer")], min_evaluations=12000,
        rule="A case is 1-3 batch calculations whose CSV, transposed CSV or property grid is read back: header, units, labels, states, order, digits, notation, separator and every value against the engine's answers converted with a second table of units. Distinct: (format, call, source, symbol, separator)."),
    "P29": dict(
        steps=[step("fast", "h_phys.cpp", "warnings")], min_evaluations=5000,
        rule="A case is a record of one model with random limits around, above or below a random state in one of nine waters, queried there: each calculated property has the warning exactly when the state is outside; or a reaction of up to six such substances, "
             "some lacking properties: each message of each reactant and each missing component is found in the message of the reaction's property. Distinct: (model, water, which limits, inside or outside) and (reactants, warnings, missing)."),
    "P30": dict(
        steps=[step("fast", "h_memory.cpp", "histories"), step("fast", "h_memory.cpp", "lives")], min_evaluations=20000,
        rule="All memory from operator new is counted exactly. A case is a random history of queries to an engine (answered and failing; substances, reactions, equations, solvent, changed records and settings, copies, batches): without memoization nothing more is held after than before, "
             "asking again holds nothing more, a cache of N holds at most N answers of each kind, and switching off and destroying give everything back; or repeated lives of one object (loading, loading what is broken, appending, formulas, equations, units, random records, batches, files). Distinct: (data set, kind of query) and lives."),
    "P01": dict(
        steps=[step("asan", "h_calc.cpp", "substances", case_timeout=60), step("asan", "h_calc.cpp", "reactions", case_timeout=60)], min_evaluations=20000,
        rule="A case is a record (of every model, of every shipped database) changed in up to three places (parameter vectors missing, cut, lengthened, NaN, infinite, huge, negative; methods, class, formula, reference state) in a water that may be changed too, "
             "queried at ordinary, boundary and hostile T and P; further cases take every parameter vector of every model at every length from 0 to two more than it has; in a build with address, undefined-behaviour and float-cast sanitizers and library assertions. Distinct: (record, methods, damage)."),
    "P02": dict(
        steps=[step("asan", "h_loader.cpp", "records", case_timeout=60), step("asan", "h_loader.cpp", "places", case_timeout=60), step("asan", "h_loader.cpp", "units", case_timeout=60), step("asan", "h_loader.cpp", "equations", case_timeout=60)], min_evaluations=40000,
        rule="A case is a file or records from a shipped data set with up to four changes of structure, values, units, keys or bytes, given in one of eight ways, after which all that was loaded is read and calculated, and what was loaded before is asked again (bit by bit); "
             "or a record with each of some thirty replacements in turn at one of its places (every place of every record format); or 40 unit expressions, or 40 equations and 10 formulas, damaged likewise; in a build with address, undefined-behaviour and float-cast sanitizers and library assertions. Distinct: (way, kind, damage) and texts."),
    "P03": dict(
        steps=[step("pat", "h_determ.cpp", "forwards", env={"MALLOC_PERTURB_": "85"}), step("zero", "h_determ.cpp", "backwards", env={"MALLOC_PERTURB_": "255"}),
               step("fast", "h_determ.cpp", "forwards", env={})],
        compare=same_images, min_evaluations=20000,
        rule="The same records (complete and with values taken away), queries and batch files in three processes: automatic variables and fresh heap memory filled with one pattern; filled with another, the work of each case done backwards; and not filled. "
             "A hash of all that can be seen of each answer is compared. Distinct: (data set, kind of query, symbol)."),
    "P07": dict(
        steps=[step("tsan", "h_threads.cpp", shards=4, case_timeout=240), step("fast", "h_threads.cpp", "fast", shards=4)], min_evaluations=5000,
        rule="A case starts 2-6 threads at once, each with its own engine (copies of one engine or engines from one database, made before or by the threads), which query, convert units, read records and equations, copy, change settings and write batch files; "
             "run under the thread sanitizer and again at full speed, each answer compared bit by bit with a serial run. Distinct: (data set, origin of the engines, job)."),
}
