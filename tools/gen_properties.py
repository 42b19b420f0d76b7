#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe_at, hook_needed="none"):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism],
                    "observe_at": observe_at, "hook_needed": hook_needed},
    })

D = "src/driver/"
S = "src/simulator/"
G = "src/data_generators/"
F = "src/filesystem_wrappers/"
M = "src/models/"

prop("C01", "A crashed run that is re-run reports what an uninterrupted run reports",
     "If the experiment driver is killed at any instant, any number of times, and then re-run on the same data design, experimental design, seed and intermediates directory, the first run that is left alone completes. Its output holds exactly one row for every pair of data set and distinct trial configuration, and every row equals the one an uninterrupted run from an empty intermediates directory reports, up to the order of rows and the rounding of numbers stored as text. Nothing left behind by a killed run (an empty, truncated or half-written file, a stale marker) is ever reported as a result or keeps the re-run from completing.",
     ["crash_points", "histories", "schedules"],
     "every kill instant (including inside a write), every number of kills, every execution mode (serial, process pool, Beam) and every mixture of modes over the runs",
     "The driver tests evaluate to completion in one process and then at most re-read a finished file; no test kills a run, and most of the driver is not even importable in the test environment.",
     [D + "experimental_trial.py", D + "experimental_design.py", D + "experiment_driver.py", F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py"],
     ["a trial stores its row in a file of its own and returns the stored row when the file exists", "an unreadable stored row is discarded and the trial evaluated again"],
     ["output CSV and the data frame returned by the driver", "files in the intermediates directory after each run"])

prop("C02", "A trial's result does not depend on how, where or next to what it is run",
     "For a fixed seed, data design and trial configuration, the reported row is the same whether trials run serially, in a pool of any number of processes, or on Beam with any number of threads, processes and bundles, in any interleaving, with any work item retried or executed twice, and whatever other trials run before, after or at the same time in the same process. Every such execution reports each trial exactly once.",
     ["schedules", "configurations", "histories"],
     "every execution mode, worker count, bundling, interleaving, retry and duplicate execution, and every subset and order of the other trials",
     "Tests evaluate one or two trials in one thread, never compare execution modes, and run no Beam or pool code here.",
     [D + "experimental_design.py", D + "experimental_trial.py", D + "experiment.py", S + "system_parameters.py", S + "halo_simulator.py", D + "latin_hypercube_random_test_point_generator.py", M + "restricted_pairwise_union_reach_surface.py", G + "data_set.py"],
     ["every trial is initialised with the same seed", "workers exchange results only through per-trial files or the Beam combiner"],
     ["output CSV", "data frame returned by the driver"])

prop("C03", "A completed trial is never computed again, and its stored result never changes",
     "Once a trial's result is completely stored, no later run with the same intermediates directory fits its model or requests measurements for it again, and the stored result stays readable and unchanged, as long as storage reads it back without an error. This holds however the storing run ended, in whatever mode later runs execute, and when experiments are added to or removed from the design between runs: only the trials that have no stored result are computed.",
     ["histories", "crash_points", "configurations"],
     "every history of runs over one intermediates directory with crashes, mode changes and growing or shrinking designs",
     "Tests look at one trial evaluated twice in one process; reuse across processes, modes, crashes and design changes is never exercised.",
     [D + "experimental_trial.py", D + "experimental_design.py", D + "trial_descriptor.py", D + "modeling_strategy_descriptor.py", D + "experiment_parameters.py", S + "system_parameters.py"],
     ["result file name is derived from the data set and the trial description", "existing result file short-circuits evaluation"],
     ["model fits and measurement requests per run", "bytes of stored result files over time"])

prop("C04", "Storage faults are loud: a run fails or its output is complete and correct",
     "When reads, writes, directory operations or object-store requests fail during a run (I/O error, disk full after part of the data, refused or lost request), the run either ends with an error or reports exactly the rows a fault-free run reports; it never reports missing, duplicated, truncated or altered rows, and never records a storage fault as a property of a model. After the faults stop, the next run on the same directories completes with the correct output.",
     ["fault_sequences", "histories", "schedules"],
     "every placement of transient and partial storage failures in a run, in every execution mode and on both storage back ends",
     "Tests run on a healthy local disk; no test makes any file operation fail.",
     [D + "experimental_trial.py", D + "experimental_design.py", D + "experiment_driver.py", G + "data_set.py", G + "data_design.py", F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py"],
     ["only reading a stored row and model evaluation are guarded; every other storage error propagates", "a row that was only partly written is not accepted"],
     ["exit of the driver", "output CSV", "stored result files"])

prop("C05", "The pending directory tells which trials are executing",
     "While a trial is being evaluated, the pending directory next to the intermediates directory holds an entry naming that data set and trial, and the entry is gone as soon as the evaluation has returned. After a run has completed without error, whatever crashes and failures earlier runs met, no entry is left for any trial of the design.",
     ["schedules", "crash_points", "histories"],
     "every interleaving of concurrently executing trials, every crash point of earlier runs, modeling failures and every execution mode",
     "No test looks at the pending directory while a trial executes or after a crash.",
     [D + "experimental_trial.py"],
     ["entry is written before evaluation and removed after the result is stored"],
     ["files in the pending directory, at every model fit and after every run"])

prop("C06", "A failing model costs exactly its own row",
     "When a model fails in any way while it is fitted or evaluated for a trial, the run still completes, and that trial's row has the same columns as every other row, is marked as failed, carries the reason, and has no metric values. Every other trial's row is the same as if the failing trial were not there, and the failed row is stored and reused like any other.",
     ["fault_sequences", "schedules", "histories", "configurations"],
     "every kind of model error at every call a model makes or receives, any set of failing trials, every execution mode, and re-runs",
     "Tests raise one exception from one place in one trial; contamination of other rows, other phases, modes and re-runs are not covered.",
     [D + "experimental_trial.py", D + "test_point_aggregator.py", D + "experimental_design.py"],
     ["model exceptions are turned into a row of missing values"],
     ["output CSV", "stored result files"])

prop("C07", "Reported privacy use equals the noise actually released, per trial",
     "Every row reports as used privacy budget the sum of the budgets of all noisy measurements released to that trial's model, including those released before a model failure, together with the mechanisms used; it never includes measurements made for another trial, and never exceeds the trial's budget for the supplied strategies. For measurements confined to sampling buckets the reported total is the largest sum over any user, whatever the order, overlap or wrap-around of the buckets.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence of measurement requests, every failure point between them, every interleaving of concurrently executing trials, every set of sampling buckets",
     "Tests record a few events by hand; nothing compares the account with the noise that was drawn, under failure or concurrency.",
     [S + "privacy_tracker.py", S + "halo_simulator.py", S + "m3_strategy.py", S + "single_publisher_strategy.py", D + "experimental_trial.py"],
     ["each measurement appends its noising events to the trial's tracker", "strategies split the trial's budget over their requests"],
     ["privacy columns of the output", "noise draws at the estimator boundary"])

prop("C08", "All models are judged at the same test points",
     "For a fixed seed and test-point configuration, every modeling strategy evaluated against the same data set is compared with the truth at the same sequence of spend vectors, no matter how much randomness the strategy, the measurements or other trials consume, whether the data set was already loaded, and how trials interleave. The points lie within each publisher's maximum spend.",
     ["schedules", "configurations", "histories"],
     "every pair of strategies and system parameters, every consumption of any random source by model code or concurrent trials, every cache state and interleaving",
     "Tests check generators one at a time for range and count; none compares the points seen by two strategies.",
     [D + "experimental_trial.py", D + "experiment_parameters.py", D + "test_point_generator.py", D + "latin_hypercube_random_test_point_generator.py", D + "uniformly_random_test_point_generator.py", D + "grid_test_point_generator.py", M + "restricted_pairwise_union_reach_surface.py"],
     ["a generator seeded per trial drives the test-point generators"],
     ["spend vectors at which fitted models are queried"])

prop("C09", "A data set added to a data design is read back unchanged, always",
     "After a data set has been added to a data design, that design and every later process that opens the directory list it and read back the same publishers with the same impressions and spends, on local and cloud storage, through any history of other additions, lookups, failed reads, copies into other designs and restarts. Adding a name that already exists is refused and leaves the stored data as it was, and a failed or early lookup never makes a later lookup return wrong or missing data.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of additions, lookups and copies over several designs and processes with storage faults and restarts",
     "Tests write one data set and read it once on a healthy disk; caching, copies, failures, restarts and the cloud back end are not combined.",
     [G + "data_design.py", G + "data_set.py", G + "publisher_data.py", F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py"],
     ["one directory per data set and one text file per publisher", "reads are cached per path"],
     ["data set names and contents returned by lookups", "query results on the data read back"])

prop("C10", "Local and cloud storage behave alike to the rest of the system",
     "Any sequence of file operations performed through the two storage back ends yields the same observations: what was last written to a path is what every client reads, paths exist exactly when written and not removed, listings hold exactly the existing entries, removal of a missing path is refused or tolerated as asked. An operation that fails because of a fault reports an error and changes at most the path it was given, which in the object store then holds its old or its new content.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence of operations by several clients on several paths, with transient failures of single requests and restarts of clients",
     "The wrapper tests call each operation once on one path, the cloud ones against a mock, with no failures and no second client.",
     [F + "filesystem_pathlib_wrapper.py", F + "filesystem_cloudpath_wrapper.py", F + "filesystem_wrapper_base.py"],
     ["both wrappers expose one path API"],
     ["return values and exceptions of wrapper operations"])

prop("C11", "Different trials never share a stored result",
     "Two trials that differ in any parameter of the experimental design - data set, modeling strategy, single- or multi-publisher model, any of their options, spend fractions, sketch parameters, privacy budget, replica, maximum frequency, test-point strategy or its options - are both evaluated and reported, each with its own configuration's result. This holds within one run and across any history of runs over one intermediates directory in which the design is edited.",
     ["histories", "configurations"],
     "every pair of configurations differing in one or more parameters, and every history of edited designs over one intermediates directory",
     "Tests name a handful of configurations; they never store the results of one design and run a neighbouring one on top of them.",
     [D + "trial_descriptor.py", D + "modeling_strategy_descriptor.py", D + "experiment_parameters.py", S + "system_parameters.py", D + "experimental_design.py", D + "experimental_trial.py"],
     ["the textual trial description is the key both for removing duplicates and for stored results"],
     ["output CSV", "model fits per configuration"])

prop("C12", "Everything random is determined by the seed alone",
     "Generating a data design, or evaluating an experimental design, twice from the same configuration and seed gives the same data sets and the same rows, whatever the clock, process identity, hash randomisation, directory listing order, state of global random number generators and working directory. A generation repeated into another directory yields files with equal contents; one with another seed yields other data.",
     ["configurations", "schedules", "histories"],
     "every ambient state of the process and machine at the start of and during a run",
     "Tests run each generator once or twice in one process with one ambient state.",
     [G + "synthetic_data_design_generator.py", G + "data_set.py", G + "publisher_data.py", G + "overlap_data_set.py", G + "independent_overlap_data_set.py", G + "sequentially_correlated_overlap_data_set.py", G + "homogeneous_impression_generator.py", G + "heterogeneous_impression_generator.py", G + "heavy_tailed_impression_generator.py", D + "experimental_trial.py", D + "experimental_design.py"],
     ["all generators draw from one seeded generator", "listings are sorted before use"],
     ["files written by the generator", "output CSV"])

prop("C13", "Every row compares its own model with the truth of its own data set",
     "A row whose model succeeded reports the documented error statistics between the reach that this trial's fitted model predicts and the reach that the stored impressions of the row's data set really give, at all of the trial's test points and up to its maximum frequency (a statistic that does not apply is missing); the single-publisher analysis does so at its multiples of the campaign spend. The descriptive columns are those of the trial's configuration and data set: models, strategy, sketch parameters, budget, replica, maximum frequency, spend fraction, number of campaigns, maximum reach and largest publisher. A model that did not fail is not reported as failed. All this holds in every execution mode, for any interleaving with other trials, and for rows that are read back after crashes.",
     ["schedules", "histories", "configurations", "crash_points"],
     "every design, impression log, execution mode, interleaving and crash history",
     "Tests check the aggregation on a few hand-made lists; no test follows a row from stored impressions to the output, let alone with several trials in flight.",
     [D + "experimental_trial.py", D + "test_point_aggregator.py", D + "grid_test_point_generator.py", S + "halo_simulator.py", G + "data_set.py", G + "publisher_data.py", M + "reach_point.py"],
     ["true and fitted reach are computed for the same list of test points and aggregated", "independent variables are taken from the trial's own descriptor and data set"],
     ["output CSV", "predictions of the fitted models"])

prop("C14", "Measurements are well-formed and of the right data whatever the noise",
     "Whatever noise is drawn, every reach measurement handed to a model is for the spends asked for, with their true numbers of impressions and as many frequencies as asked for; its reaches are non-negative whole numbers that do not increase with the frequency and stay below the number of impressions (but for a reach of one); apart from that they are the noisy estimate from the sketches of the impressions bought, at most up to the campaign's spend, under the trial's own sketch parameters. A Venn diagram measurement has one non-negative point for every set of active publishers, larger sets reach no fewer people, two sets together no more than the sum, and all of them together the noisy estimate of the total. This holds whichever other trials measure the same data set at the same time.",
     ["schedules", "configurations", "fault_sequences"],
     "every sequence of noise values, every spend vector, sketch configuration and interleaving of trials",
     "Tests of the simulator use a handful of seeds with small noise, and most of them cannot be imported in the test environment.",
     [S + "halo_simulator.py", S + "publisher.py", S + "system_parameters.py", G + "publisher_data.py", G + "data_set.py"],
     ["estimates are clipped, made monotone and capped by the impressions", "regions of the Venn diagram are clipped before they are added up"],
     ["reach points returned to modeling strategies"])

prop("C15", "A generated data design holds exactly what its configuration asks for",
     "A generation that reports success leaves one data set for every entry of the configuration, under its own name, next to what was in the directory before. Each has the configured number of publishers, whose sizes fall geometrically from the configured largest size to the configured ratio of it; a publisher of size n reaches exactly n users. Its impressions and prices are the ones that the configured impression and pricing generators returned for it, whatever overlap is configured: creating overlap only renames the users of a publisher one to one, within the configured universe or sharing the configured proportion with the earlier publishers. A storage fault makes the generation fail or does no harm; a generation into a directory that already has one of its data sets, even an incomplete one left by a killed generation, fails, and never changes a data set that is completely stored.",
     ["configurations", "histories", "crash_points", "fault_sequences"],
     "every configuration, seed, kill point, storage fault and sequence of generations",
     "Tests generate one or two configurations into an empty directory and look at the number of data sets.",
     [G + "synthetic_data_design_generator.py", G + "data_set_parameters.py", G + "overlap_data_set.py", G + "independent_overlap_data_set.py", G + "sequentially_correlated_overlap_data_set.py", G + "homogeneous_impression_generator.py", G + "heterogeneous_impression_generator.py", G + "heavy_tailed_impression_generator.py", G + "fixed_price_generator.py", G + "publisher_data.py", G + "data_design.py", G + "data_set.py"],
     ["the generated publishers are handed to the overlap generator and added to the data design one data set at a time", "bijective relabelling per publisher", "a data set that exists is not added"],
     ["files written by the generator", "exceptions raised by the generator"])

# Properties that are pure functions of their input: listed, not claimed.
prop("C20", "Reach and frequency conversions are consistent",
     "For every histogram or per-user impression count, conversions between user counts, frequencies and at-least-k reach are mutually inverse, monotone in k and capped at the maximum frequency.",
     ["inputs"], "every multiset of user impression counts and every maximum frequency",
     "Tests use a few small vectors.",
     [M + "reach_point.py", G + "data_set.py"], ["suffix sums of histograms"], ["returned reach points"])

prop("C21", "Ground truth reach is monotone and bounded",
     "For every data set, true reach does not decrease when any publisher's spend or impressions increase, never exceeds the sum over publishers nor falls below the largest single publisher, and spend and impression queries agree with each other.",
     ["inputs"], "every data set and every pair of comparable spend vectors",
     "Tests use a few small data sets.",
     [G + "publisher_data.py", G + "data_set.py"], ["prefix of the impressions sorted by spend"], ["returned reach points"])

prop("C22", "Fitted reach curves and surfaces are sane",
     "Every fitted single- or multi-publisher model predicts reach that is non-negative, non-decreasing in spend, bounded by the modeled audience, and reproduces its training point where the model form allows it.",
     ["inputs"], "every admissible training point and every query",
     "Tests fit a few parameter sets.",
     [M + "goerg_model.py", M + "gamma_poisson_model.py", M + "kinflated_gamma_poisson_model.py", M + "dirac_mixture_single_publisher_model.py", M + "pairwise_union_reach_surface.py", M + "restricted_pairwise_union_reach_surface.py", M + "generalized_mixture_reach_surface.py"],
     ["closed forms and numerical optimisation"], ["predicted reach points"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
