"""writes properties.jsonl and MANIFEST.json (the texts of the properties live here)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note))


F = "bcause/factors/"
V = "bcause/factors/values/"
I = "bcause/inference/"
M = "bcause/models/"
L = "bcause/learning/"
U = "bcause/util/"
STORES = [V + x for x in ("store.py", "operations.py", "numpystore.py", "numpyops.py", "liststore.py", "listops.py", "treedictstore.py", "treedictops.py")]

prop("C01", "Factor arithmetic is pointwise",
     "Multiplying, dividing, adding or subtracting two factors, or a factor and a number on either side, gives the factor over the union of their variables whose value at every "
     "assignment is that operation on the operands' values at that assignment, with 0/0 equal to 0. Variables are matched by name and states by label, whatever the order in which "
     "each operand lists them and whatever the storage backend.",
     ["inputs", "programs", "configurations"], "all pairs of factors (variables, domains, values, orders), all operators and scalar operands, all backends, and all chains of operations",
     "Tests combine a few fixed factors, all listing variables and states in one order; the claim is over every overlap pattern, order, value and backend.",
     [F + "mulitnomial.py", F + "factor.py"] + STORES,
     [("domain alignment before combining", V + "operations.py"), ("operator dispatch", F + "mulitnomial.py")], ["result of each operator, read cell by cell"],
     "reference-model monitor on factor operations (generated + organic calls)", "pointwise oracle on generated operands and on every factor operation executed inside inference and learning")

prop("C02", "Summing out, maximising out and restricting are exact",
     "Summing or maximising a factor over variables, and restricting it to states of some variables, gives the factor over the remaining variables with the sum, maximum or selected value at every "
     "assignment; removing names it does not contain changes nothing. Every way of reading a factor (cell lookup, flat list, dictionary, array, per-configuration) denotes the same table.",
     ["inputs", "programs", "configurations"], "all factors, all sets of removed variables, all partial assignments, all backends",
     "Tests check few small factors per backend; the reductions must be exact for every axis position, cardinality and label type.",
     [F + "mulitnomial.py"] + STORES, [("sum/max marginalisation, restriction", V + "operations.py"), ("index arithmetic", U + "domainutils.py")],
     ["results and read views"], "reference-model monitor on reductions and read views", "brute-force oracle on generated factors and organic calls inside inference and learning")

prop("C03", "Conditioning sides and normalisation are tracked correctly",
     "Every factor records which of its variables are conditioned on which, and products, quotients, reductions, restrictions and renamings give results whose two sides follow from those of the operands. "
     "The answer of a probabilistic query is a distribution over the targets for every possible configuration of its conditioning variables.",
     ["inputs", "programs"], "all splits of the variables into conditioned and conditioning, all operations and compositions, all queries",
     "Tests look at sides for a couple of factors; queries are checked for a few numbers, not for being distributions in every configuration.",
     [F + "mulitnomial.py", F + "factor.py", I + "probabilistic/elimination.py"], [("left/right variables of results", F + "mulitnomial.py")],
     ["left and right variables of results", "sums over targets"], "trace contract on every factor operation plus invariant on query results", "sides recomputed from the operands for each observed operation")

prop("C04", "Operations, queries, learning and I/O do not modify their inputs",
     "No arithmetic, query, conversion, sampling, saving or learning changes the factors, models, data, evidence or interventions it is given, and a result shares no mutable state with them: "
     "later changes to a result, a copy or a caller-owned array are not visible elsewhere. Only the methods that are in-place by name (filling factors, setting a factor, writing a value) change their receiver, and nothing else.",
     ["inputs", "histories", "programs"], "all sequences of public calls on all models, factors and data",
     "Tests check return values; none compares inputs before and after, nor writes through one object and reads another.",
     [F + "mulitnomial.py", F + "deterministic.py", M + "pgmodel.py", M + "cmodel.py", M + "bnet.py", L + "parameter/expectation_maximization.py", I + "inference.py", V + "store.py"],
     [("copies of stores, models and data", "bcause/")], ["snapshots before/after each action", "writes through one alias, reads through others"],
     "snapshot invariant monitor over random action histories + operand contract on internal calls", "bit-exact snapshots of everything held by the caller after every action")

prop("C05", "The storage backend never changes an answer",
     "The same model or factor stored in any of the available backends gives the same answer, by variable and state, to every query, causal query, likelihood, learning step, sampling and reading/writing. "
     "Results of operands in one backend stay in that backend, and choosing the backend explicitly or through the library-wide default is equivalent.",
     ["inputs", "configurations", "programs"], "all models and pipelines, each backend and way to choose it",
     "Tests run operations per backend on the same small fixture; pipelines are exercised with the default backend only.",
     STORES + [F + "values/__init__.py", F + "mulitnomial.py"], [("store registry and default", V + "__init__.py")], ["answers of the same pipeline per backend"],
     "differential monitor: same pipeline per backend", "answers compared with one another and with the backend recorded")

prop("C06", "Variable elimination returns the exact posterior",
     "For every discrete network, target set, evidence of positive probability and conditioning set, the inference engine returns exactly the conditional distribution implied by the product of the network's factors. "
     "The result ranges over the requested variables only.",
     ["inputs", "configurations"], "all networks, queries and evidence",
     "Tests check a handful of numbers on fixed networks; exactness is over every structure, table (zeros included), ordering and evidence position.",
     [I + "probabilistic/elimination.py", I + "probabilistic/probabilistic.py", I + "inference.py"], [("variable elimination", I + "probabilistic/elimination.py")],
     ["answers of queries"], "reference-model monitor (full joint summation)", "brute-force summation oracle on random networks of up to 14 variables")

prop("C07", "Elimination heuristics are valid and do not affect answers",
     "Each elimination heuristic returns an ordering of exactly the variables to remove, choosing at each step one of minimal cost in the current graph, without changing its inputs. "
     "The answer of any query is the same under every built-in heuristic and every user-supplied ordering function.",
     ["inputs", "configurations"], "all graphs, sets to remove, heuristics and queries",
     "Tests use one or two orderings of one graph.", [I + "ordering.py", I + "probabilistic/elimination.py"], [("greedy orderings", I + "ordering.py")],
     ["orderings returned", "answers per heuristic"], "trace checker of orderings + metamorphic query monitor", "greedy-step validity replayed on an independent moral graph")

prop("C08", "Reducing a network for a query preserves the query",
     "Pruning a network for given targets and evidence removes only what cannot affect the query: the reduced network contains the targets, uses only original variables, and yields the same posterior. "
     "The original network is left unchanged.",
     ["inputs"], "all networks, targets and evidence", "Tests check two examples of pruning; correctness is over every graph position of targets and evidence (colliders, descendants, other components).",
     [I + "inference.py", I + "probabilistic/elimination.py", U + "graphutils.py", M + "transform/"], [("barren and disconnected removal", U + "graphutils.py")],
     ["reduced model and its distribution"], "reference-model monitor on reduced models", "posterior recomputed from the reduced model's factors")

prop("C09", "Interventional queries follow truncated factorisation",
     "An interventional query returns the distribution of the targets, given evidence, in the model where the intervened variables are set to the given values and no longer listen to their causes; everything upstream keeps its distribution. "
     "With no intervention it equals the ordinary conditional query.",
     ["inputs", "configurations"], "all structural causal models, interventions, targets and evidence", "Tests compare a few numbers on two or three models.",
     [I + "causal/causal.py", I + "causal/elimination.py", M + "cmodel.py"], [("mutilation of the model", M + "cmodel.py")], ["answers and intervened models"],
     "reference-model monitor (enumeration of exogenous configurations)", "equations solved for every exogenous configuration")

prop("C10", "Counterfactual queries share the exogenous variables",
     "A counterfactual query returns the joint distribution of variables across the factual and hypothetical worlds, all worlds sharing one realisation of the exogenous variables, given the evidence. "
     "Intervening with the value that was observed changes nothing.",
     ["inputs", "configurations"], "all models, numbers of worlds, interventions per world, targets and evidence", "Tests have a few two-world queries on fixed models.",
     [I + "causal/causal.py", I + "causal/elimination.py", M + "cmodel.py"], [("counterfactual network", M + "cmodel.py")], ["answers"],
     "reference-model monitor (world-by-world enumeration)", "equations solved once per world for each exogenous configuration")

prop("C11", "Probabilities of causation are exact",
     "The probabilities of necessity, of sufficiency, and of both equal their counterfactual definitions for the given (or label-inferred) true and false states of cause and effect. "
     "For lists of models the result is the per-model values or their minimum and maximum; labels that do not identify true and false are refused.",
     ["inputs", "configurations"], "all models, cause/effect pairs, state labels and orders", "Tests check three numbers of one model with one label style.",
     [I + "causal/causal.py", I + "causal/multi.py", U + "domainutils.py"], [("true/false identification", U + "domainutils.py")], ["values returned"],
     "reference-model monitor (enumeration of exogenous configurations)", "definition evaluated by enumeration")

prop("C12", "C-components and the q-decomposition reconstruct the distribution",
     "The c-components partition the endogenous variables by chains of shared exogenous causes, and the decomposition assigns each endogenous variable a conditional such that the product of all of them is the observational distribution, "
     "and the product over one component is the distribution of that component under intervention on the rest. Estimated from data, they are the empirical conditional frequencies.",
     ["inputs"], "all structural causal models and data sets", "Tests check fixed examples with one or two components.",
     [M + "cmodel.py", M + "bnet.py"], [("c-components and q-factorisation", M + "cmodel.py")], ["components, graph, factors"],
     "reference-model monitor", "definitions evaluated by enumeration")

prop("C13", "Probability and likelihood of data are exact and bounded",
     "The log-likelihood of data equals the sum over rows of the log-probability of the observed values, irrespective of row and column order, repetition or index; it never exceeds the maximum log-likelihood reported for the same data and structure. "
     "The probability of a row or data set under a network is the product of its conditional probabilities.",
     ["inputs"], "all models and data sets", "Tests compare with stored numbers on one model.",
     [M + "cmodel.py", M + "bnet.py", I + "probabilistic/probabilistic.py", U + "datautils.py"], [("likelihood by q-factors and counts", M + "cmodel.py")], ["returned numbers"],
     "reference-model monitor + bound invariant", "row-by-row recomputation")

prop("C14", "Each EM iteration is an exact step and likelihood never drops",
     "Every iteration replaces each trained distribution by the normalised expected counts given the data under the current model and leaves all other distributions untouched; consequently the likelihood of the data never decreases. "
     "The recorded evolution starts at the given prior and ends at the result.",
     ["inputs", "histories"], "all models, data sets, starting points and numbers of iterations", "Tests run EM on a fixed model and compare a final number.",
     [L + "parameter/expectation_maximization.py", L + "parameter/__init__.py"], [("expected counts and normalisation", L + "parameter/expectation_maximization.py")], ["recorded sequence of models"],
     "offline trace checker over recorded model evolution", "each recorded transition compared with an exact E+M step by enumeration")

prop("C15", "Learning from incomplete data counts each row once",
     "When cells of the data are missing, each row contributes exactly one unit of expected count, distributed over the states compatible with what it observes; observed states count as observed. "
     "With complete rows the learnt distributions are the relative frequencies.",
     ["inputs", "histories"], "all patterns of missing cells, models and states", "Tests contain no data set with missing cells.",
     [L + "parameter/expectation_maximization.py"], [("expected counts with missing cells", L + "parameter/expectation_maximization.py")], ["recorded sequence of models"],
     "offline trace checker over recorded model evolution", "as C14, with per-row missingness")

prop("C16", "Multi-model queries return the envelope of the models",
     "A query over a list of models returns, per state, the minimum and maximum of the models' individual exact answers, or the list of answers in model order; adding or replacing models or switching the form of the result takes effect from the next query. "
     "Asking with no models is refused.",
     ["inputs", "histories"], "all lists of models, queries and histories of changes", "Tests use one list of models and a few queries.",
     [I + "causal/multi.py", F + "imprecise.py"], [("multi-model engine and interval construction", I + "causal/multi.py")], ["bounds and lists returned"],
     "history monitor with per-model reference answers", "per-model enumeration oracle over interleaved histories")

prop("C17", "Learning several models gives the requested number of valid fits",
     "Learning-based bounding returns exactly the requested number of models, each with the equations of the input and exogenous distributions learnt from its own random start; queries give the envelope over them. "
     "This holds for sequential, incremental and threaded execution alike, and leaves the model and the data of the caller unchanged.",
     ["inputs", "schedules", "histories"], "all models, data, numbers of runs and thread interleavings", "Tests run one model, sequentially, with a fixed seed.",
     [I + "causal/multi.py", L + "aggregator/aggregator.py", L + "parameter/expectation_maximization.py"], [("threaded aggregation of learners", L + "aggregator/aggregator.py")],
     ["models produced, learner traces, completion order"], "concurrency stress with injected delays + trace checker", "held on the interleavings counted in the evidence")

prop("C18", "Gradient learning yields valid distributions and fits",
     "Gradient learning of exogenous distributions returns proper distributions, changes nothing else in the model, never ends below the likelihood of its start, and approaches the maximum likelihood when run without an iteration limit at the default tolerance.",
     ["inputs"], "all quasi-Markovian models, data and starting points", "Tests run it once and compare a number.",
     [L + "parameter/gradient.py"], [("constrained optimisation per c-component", L + "parameter/gradient.py")], ["learnt tables and likelihoods"],
     "invariant monitor + independent optimum by EM", "numerical optimiser: optimum gap tolerance")

prop("C19", "Samples follow the distribution they are drawn from",
     "Samples drawn from a factor or a model contain only assignments of positive probability, satisfy the structural equations, have the requested size, variables and form, and their frequencies follow the exact distribution.",
     ["inputs"], "all models and factors, all sample sizes and forms", "Tests only check shapes, or compare frequencies once with a loose margin.",
     [F + "mulitnomial.py", F + "deterministic.py", M + "bnet.py", M + "cmodel.py"], [("ancestral and conditional sampling", M + "bnet.py")], ["samples drawn"],
     "support invariant + goodness-of-fit monitor", "exact support alarms; statistical alarms only below p=1e-9")

prop("C20", "UAI files round-trip and conform to the format",
     "Saving a model as a UAI file and reading it back gives the same structure, cardinalities and probabilities (or equations), and the file itself denotes that model under the public UAI format. "
     "Any well-formed UAI file, whatever its white space, number notation or variable order, is read as what it denotes.",
     ["inputs"], "all models and all well-formed files", "Tests read two files from disk.",
     ["bcause/readwrite/bnread.py", "bcause/readwrite/bnwrite.py", "bcause/readwrite/scmread.py", "bcause/readwrite/scmwrite.py"], [("reader and writer", "bcause/readwrite/")], ["files written and models read"],
     "differential monitor with an independent parser and writer", "relative precision 1e-12")

prop("C21", "Exchange with BIF, XMLBIF and pgmpy preserves the network",
     "Converting a network to pgmpy or from it, and writing or reading BIF and XMLBIF files, preserves variables, arcs, states and every conditional probability, for any number and order of parents and any state labels the format can represent.",
     ["inputs"], "all networks, all parent orders and state types", "Tests convert one network.",
     ["bcause/conversion/pgmpy.py", "bcause/readwrite/bnread.py", "bcause/readwrite/bnwrite.py"], [("conversion of tables", "bcause/conversion/pgmpy.py")], ["pgmpy's own accessors; models read back"],
     "differential monitor against pgmpy", "cell-by-cell through pgmpy's accessors")

prop("C22", "Ill-formed input is refused and leaves everything unchanged",
     "Factors that do not match the model's structure or domains, cyclic graphs, non-degenerate equations, unknown or overlapping query variables and states outside the domain are refused with an error. "
     "After a refusal the model and the engine are as before and keep answering correctly.",
     ["inputs", "fault_sequences"], "all ill-formed items on all models", "Tests check a few refusals, none checks the state afterwards.",
     [M + "pgmodel.py", M + "bnet.py", M + "cmodel.py", F + "mulitnomial.py", F + "deterministic.py", I + "inference.py"], [("validation before mutation", M + "pgmodel.py")], ["exceptions and snapshots"],
     "fault-injection monitor with snapshots", "one ill-formed item at a time, then a valid query judged exactly")

prop("C23", "Structural equations mean the function they tabulate",
     "A degenerate factor denotes one function of its arguments: lookup, evaluation, conversion to a probability table and back, constants, renaming and tabulation from data frames all agree with it. "
     "The canonical equation of a variable enumerates every function of its endogenous parents exactly once.",
     ["inputs", "configurations"], "all functions, argument orders, state types and backends", "Tests check one equation and two canonical specifications.",
     [F + "deterministic.py", M + "cmodel.py"], [("degenerate factors", F + "deterministic.py")], ["all read views"],
     "reference-model monitor", "function evaluated point by point")

prop("C24", "Transformed models denote what the transformation says",
     "Renaming, copying, taking submodels, intervening, casting between equations and tables, converting between networks and causal models, and fusing models each give a model whose graph, domains, endogenous variables and every distribution are those of the original under that transformation. "
     "Transformations compose.",
     ["inputs", "programs"], "all models and compositions of transformations", "Tests apply each transformation to one model at most.",
     [M + "pgmodel.py", M + "bnet.py", M + "cmodel.py", M + "transform/"], [("builders of derived models", M + "cmodel.py")], ["graph, domains and tables of the result"],
     "reference-model monitor over random compositions", "transformed reference computed independently")

prop("C25", "Graph utilities agree with their definitions",
     "Parsing DAG strings, barren nodes, d-separation, arc surgery, connectivity, moralisation and Markov blankets return exactly what their definition says, for every DAG and every set of targets and evidence.",
     ["inputs"], "all DAGs, targets and evidence", "Tests check one or two small graphs.",
     [U + "graphutils.py"], [("graph utilities", U + "graphutils.py")], ["returned sets and graphs"],
     "reference-model monitor (path enumeration)", "definitions by enumeration on graphs of up to 9 nodes")

prop("C26", "Queries on data are the relative frequencies of the data",
     "A query answered from a data set equals the relative frequency of each combination of states among the rows that match conditioning values and evidence; counting gives, for every combination of the domains, "
     "the number of matching rows, including combinations that never occur and missing values; filtering keeps exactly the matching rows. The data stay unchanged.",
     ["inputs", "histories"], "all data sets, domains, queries and sequences of queries to one engine", "Tests query one data set a few times.",
     [I + "probabilistic/datainference.py", U + "datautils.py", I + "probabilistic/probabilistic.py"], [("counts by pandas and normalisation", U + "datautils.py")], ["answers, counts and filtered rows"],
     "reference-model monitor (recount row by row)", "recount of every cell")

prop("C27", "Observations kept from data are sufficient, minimal, counted once",
     "Summarising incomplete data for one target keeps, for each row, an observation that determines the posterior of the target and its parents exactly as the whole row does, contains nothing irrelevant to it, "
     "and is counted once per row; equal observations are merged and their counts add up to the number of rows.",
     ["inputs"], "all graphs, data sets and patterns of missing cells", "Tests check stored numbers for one data set.",
     [U + "datadeps.py", U + "graphutils.py", L + "parameter/expectation_maximization.py"], [("minimal relevant observations", U + "datadeps.py")], ["kept observations and their counts"],
     "reference-model monitor (d-separation and enumeration)", "d-connection oracle and exact posteriors")

prop("C28", "Seeded runs are reproducible; only random operations draw",
     "After seeding, every random operation (random models, sampling, learning) gives the same result again, in this and any other process, whatever queries run in between; a different seed gives a different result. "
     "Deterministic operations do not consume or change the state of the random generators.",
     ["inputs", "schedules", "configurations"], "all seeds, programs and processes (hash seeds)", "Tests seed once and run in one process.",
     [U + "randomUtil.py", F + "mulitnomial.py", M + "bnet.py", M + "cmodel.py", L + "aggregator/aggregator.py"], [("use of the global generators", U + "randomUtil.py")], ["digests of results; generator states"],
     "repeat-and-compare monitor across processes with different hash seeds", "exact equality of digests (1e-6 for learnt parameters)")

prop("C29", "Randomly generated factors and models are valid and vary",
     "Random, uniform and deterministic tables, and models filled or randomised with them, have the requested domains and sides, one proper distribution (or one state) per configuration, positive cells where requested, "
     "leave what was not selected unchanged, differ between draws, and can be queried like any other model.",
     ["inputs", "configurations"], "all domains, splits, structures, backends and selections of variables", "Tests generate a few and check shapes.",
     [F + "mulitnomial.py", F + "deterministic.py", M + "bnet.py", M + "cmodel.py", M + "pgmodel.py", U + "domainutils.py"], [("generators", F + "mulitnomial.py")], ["every generated table"],
     "invariant monitor on generated tables", "cell by cell; two draws never equal")

prop("C30", "Answers and fits do not depend on what ran before",
     "What an engine answers, and what a learner fits, depends only on its model, its data and the question: the same query gives the same answer whatever was asked, refused, compiled or learnt before on that engine or another, "
     "results already returned stay as they were, and a learner run again equals a new learner.",
     ["histories", "programs"], "all sequences of queries, refusals, compilations and runs", "Tests use an engine for one or two queries.",
     [I + "inference.py", I + "probabilistic/probabilistic.py", I + "probabilistic/elimination.py", I + "probabilistic/datainference.py", I + "causal/causal.py", I + "causal/elimination.py", I + "causal/multi.py",
      L + "parameter/expectation_maximization.py", L + "parameter/gradient.py", L + "aggregator/aggregator.py"], [("state kept by engines and learners", I + "inference.py")], ["answers of long-lived and of new engines"],
     "history monitor: long-lived engine compared with a new one at every step", "equality within 1e-9 (1e-7 for learnt parameters)")

prop("C31", "Interval factors keep a lower and an upper table",
     "An interval factor is over the domain and sides given, holds the lower and upper value of every cell (the minimum and maximum when built from precise factors, matched by name and state), and reading or restricting it "
     "gives both bounds of exactly the selected cells, in every storage backend. Operands of different shape are refused.",
     ["inputs", "configurations"], "all domains, sides, tables, restrictions and backends", "Tests build one factor with the default backend.",
     [F + "imprecise.py"] + STORES, [("pair of stores", F + "imprecise.py")], ["both bounds of every cell"],
     "reference-model monitor", "cell by cell within 1e-12")

prop("C32", "Enumeration and index arithmetic follow one layout",
     "State spaces, assignments, strides, index sets and coordinates all describe one layout: row-major over the domain in its order, which is also that of a factor's flat values. Restricted domains, domains of families, "
     "power sets, trees, normalisation and reordering equal their definitions, and arguments are not modified.",
     ["inputs"], "all domains and partial assignments", "Tests check fixed examples of two or three variables.",
     [U + "domainutils.py", U + "arrayutils.py", U + "treesutil.py"], [("row-major index arithmetic", U + "domainutils.py")], ["returned values"],
     "reference-model monitor (enumeration)", "recounted by enumeration")

prop("C33", "A data store is a table under every history of operations",
     "A data store holds one value per configuration of its domain in every backend: after any sequence of writes, copies, restrictions, reductions and combinations each store, whether operand, copy or result, reads as the table it denotes "
     "(cells, lists, dictionaries, totals, text), stores do not affect each other, and stores of different backends or tables of the wrong size are refused. Trees may cut branches whose values are constant.",
     ["inputs", "programs", "histories", "configurations"], "all domains, layouts of the data, backends and programs", "Tests build a few stores and apply single operations.",
     STORES + [U + "treesutil.py"], [("storage backends", V + "store.py")], ["every live store after every step"],
     "model-based history monitor", "every live store compared with a reference table after every step")

prop("C34", "Learnt bounds lie within the exact bounds of the data",
     "Bounds of interventional and counterfactual quantities learnt from observational data lie within the exact bounds over all models with the given equations compatible with the data: identifiable quantities get their value, "
     "unidentifiable ones an interval inside the exact one, which only grows as models are added. Fits approach the maximum likelihood at the rate EM guarantees.",
     ["inputs", "schedules", "histories"], "all structures with one hidden common cause, compatible data, queries and learning modes", "Tests compare stored numbers for fixed seeds.",
     [I + "causal/multi.py", I + "causal/causal.py", L + "parameter/expectation_maximization.py", L + "parameter/gradient.py", L + "aggregator/aggregator.py", F + "imprecise.py"],
     [("learning followed by causal queries over all fits", I + "causal/multi.py")], ["intervals returned; learnt distributions"],
     "reference monitor by linear programming over compatible models", "exact bounds by linear programs, relaxed by the measured residual of the fits")

prop("C35", "Threads sharing models, factors and data do not interfere",
     "Engines and learners of different threads that share models, factors and data give each thread the answers it would get alone, and leave the shared objects unchanged.",
     ["schedules", "programs"], "all interleavings of all read-only operations on shared objects", "No test runs two queries at the same time; learning in threads is run once.",
     [I + "probabilistic/elimination.py", I + "causal/causal.py", V + "operations.py", M + "pgmodel.py", M + "cmodel.py", L + "aggregator/aggregator.py"],
     [("absence of shared mutable state between engines", I + "inference.py")], ["answers of every thread"],
     "concurrency stress with injected preemption, differential against sequential runs", "held on the interleavings counted in the evidence")

# --- more


def main():
    props = [dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                  anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)) for p in P]
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing anchor", p["id"], f)
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique="runtime monitoring: " + p["tech"], level="exploration",
               level_note="held on the executions counted in the evidence; " + p["note"]) for p in P], not_applicable=[],
               notes="No hooks in /repo: the monitors wrap the public classes from the harness. ./check ID tier --replay FILE reproduces a reported case.")
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
