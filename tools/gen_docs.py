"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "templatefitter/"
HIST = [T + "histograms/abstract_hist.py", T + "histograms/hist1d.py", T + "histograms/hist2d.py"]
TEMPL = [T + "templates/abstract_template.py", T + "templates/template1d.py", T + "templates/template2d.py"]
MODEL = [T + "templates/channel.py", T + "templates/multi_channel_template.py"]
FIT = [T + "fitter.py", T + "minimizer.py"]
TOY = [T + "toy_study.py"]
LEGACY = [T + "templates_legacy.py", T + "nll.py", T + "histogram_legacy.py"]

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism
PROPS = [
 ("P01", "Histogram contents are exact for every history of fills",
  "After any sequence of fills, in any chunking and with any order of histograms, with or without weights, each bin of "
  "a one- or two-dimensional histogram holds the sum of the weights of the entries that fall into it and the sum of "
  "their squared weights as squared uncertainty; the last bin includes its upper edge and entries outside the range "
  "are counted nowhere. Histograms made from bin contents hold these contents and uncertainties, with Poisson "
  "uncertainties if none are given.",
  ["histories", "inputs", "schedules"],
  "all sequences of fills of any number of coexisting histograms, equal and variable binnings, weighted and unweighted entries",
  "the tests fill one histogram once; interleaved, repeated and mixed weighted/unweighted fills and entries on bin edges are never reached",
  HIST, [("accumulation of sums of weights and squared weights", T + "histograms/hist1d.py: fill"),
         ("two-dimensional accumulation", T + "histograms/hist2d.py: fill")]),
 ("P02", "A fill that fails leaves no trace in the histogram",
  "A fill that raises, for whatever reason and at whatever point (bad input, failing binning, failing allocation, "
  "interrupt), leaves bin contents and uncertainties of the histogram exactly as they were, and later fills give what "
  "they would have given without the failure.",
  ["fault_sequences", "histories"],
  "all points at which a fill can fail and all histories around it",
  "the tests inject no failures; a failure between the update of contents and of uncertainties needs fault injection",
  HIST, [("both sums are calculated before either is stored", T + "histograms/hist1d.py: fill"),
         ("the same in two dimensions", T + "histograms/hist2d.py: fill")]),
 ("P03", "Values handed in and handed out are independent of the model",
  "Arrays handed to the library (data, weights, bin edges, bin contents, parameters, covariance matrices, variations, "
  "starting values) are never changed by it, and overwriting them later changes no histogram, template, likelihood or "
  "minimizer. Results handed out earlier (fit results, profiles, toys, Asimov data, toy study results) are not changed "
  "by any later operation.",
  ["histories", "inputs", "fault_sequences"],
  "all arguments of all operations, all later operations and points of overwriting, also after failing calls",
  "the tests never overwrite an argument or keep an old result over later operations",
  HIST + TEMPL + FIT + TOY, [("copies on the way in", T + "histograms/abstract_hist.py: from_binned_data"),
                             ("snapshot of a minimisation", T + "minimizer.py: MinimizeResult")]),
 ("P04", "A template predicts its yield times a normalised shape",
  "After any history of changes of yield, nuisance parameters and systematics, the expected bin contents of a template "
  "are its yield times fractions that add up to one (non-negative for non-negative contents) and follow from the nominal contents, the relative "
  "uncertainties and the nuisance parameters as documented; they add up to the yield, and an empty template predicts "
  "nothing. (Nuisance parameters are assumed to keep the sum of the shape positive.)",
  ["histories", "inputs"],
  "all templates (1d, 2d, with empty bins, completely empty) and all histories of updates",
  "the tests look at one template right after its construction with zero nuisance parameters",
  TEMPL, [("shape normalisation", T + "templates/abstract_template.py: fractions, values")]),
 ("P05", "Systematic uncertainties accumulate consistently across failures and orders",
  "The covariance matrix of a template is its statistical covariance plus the sum of all systematics added "
  "successfully so far (given as matrix or as up/down variation in the binning of the template), independent of their "
  "order, and its uncertainties, correlation matrix and inverse always belong to that covariance; the total "
  "uncertainty of a process is the quadratic sum over its bins in all channels. A systematic that cannot be added, for whatever reason, leaves all of them unchanged and can be added later.",
  ["histories", "fault_sequences"],
  "all sequences of additions, failing additions and retries over all templates of a model",
  "the tests add one variation to one one-dimensional template and never let an addition fail",
  TEMPL + [T + "utility.py"], [("all-or-nothing update of the covariance", T + "templates/abstract_template.py: _add_cov_mat"),
                               ("symmetrised variation", T + "utility.py: get_systematic_cov_mat")]),
 ("P06", "Reset restores the original parameters after any history",
  "After any history of parameter changes, fits, failing fits, toys and systematics, a reset on template, channel or "
  "model level gives the templates it covers the parameters they had right after construction, leaves their "
  "systematics and data and all other templates alone, and works any number of times.",
  ["histories", "fault_sequences"],
  "all histories before the reset, on all three levels",
  "no test calls reset after a history of changes",
  TEMPL + MODEL, [("original yield kept by the template", T + "templates/abstract_template.py: reset")]),
 ("P07", "The likelihood is the documented function of the current model",
  "Whenever a likelihood is evaluated, however long ago it was created, its value at a given parameter vector is the "
  "negative logarithm of the binned Poisson likelihood of the current data in all channels plus the Gaussian terms of "
  "the nuisance parameters with the current correlations and of the current yield constraints (each counted once), up "
  "to the documented constants, and infinite where a bin with data has a negative expectation. Evaluations do not "
  "depend on earlier evaluations.",
  ["histories", "inputs", "configurations"],
  "all models (channels, processes missing in channels, orders), all histories of changes between creation and evaluation, all points, also those without positive expectations",
  "the tests only check that the likelihood is a scalar; stale caches show only for a likelihood that is older than a change",
  MODEL + TEMPL, [("sum over the channels and constraint terms", T + "templates/multi_channel_template.py: NegLogLikelihood"),
                  ("Poisson and nuisance terms of one channel", T + "templates/channel.py: nll_contribution")]),
 ("P08", "Parameters are addressed consistently by name, index and order",
  "In every model and after every history the same parameter is meant by its name, its index in the parameter vector, "
  "the starting values, the process yields and the parameters of the templates: changing it through one interface is "
  "seen through all others and affects exactly its own process or its own bin. (Full vectors round-trip if the "
  "efficiencies of each process add up to one over the channels.)",
  ["configurations", "histories"],
  "all orders in which channels, processes and templates are defined, processes missing in some channels, all interfaces",
  "the tests use channels which all list the same processes in the same order",
  MODEL + TEMPL + FIT, [("distribution of the parameter vector to the channels", T + "templates/multi_channel_template.py: generate_per_channel_parameters"),
                        ("process indices of a channel", T + "templates/channel.py: process_indices"),
                        ("names and indices", T + "minimizer.py: Parameters, param_id_to_index")]),
 ("P09", "Rejected operations leave the model exactly as it was",
  "Every operation that does not fit the model (unknown or duplicate names, other binning, range, bin edges or "
  "dimension, wrong lengths or types, data of which only one channel is bad) is refused with an exception at any point "
  "of any history, and leaves the state of the whole model as if it had not been attempted.",
  ["fault_sequences", "histories", "inputs"],
  "all kinds of invalid operations at every point of a history",
  "the tests try a few invalid operations on fresh objects and never look at the state afterwards",
  MODEL + TEMPL + FIT, [("compatibility checks before any change", T + "templates/channel.py: add_template, check_data"),
                        ("all channels checked first", T + "templates/multi_channel_template.py: add_data")]),
 ("P10", "Looking at a model does not change it",
  "Reading properties, evaluating likelihoods, generating toys or Asimov data, drawing, propagating uncertainties and "
  "copying, at any point of a history and also during a fit and also when they fail, change neither the state of the "
  "model nor the result of any later operation.",
  ["histories", "schedules", "fault_sequences"],
  "all insertions of observing operations into all histories (twin executions with and without them)",
  "needs the comparison of two executions of the same history; the tests run each history once",
  MODEL + TEMPL + HIST + FIT, [("parameters are passed, not stored, during evaluations", T + "templates/channel.py: nll_contribution")]),
 ("P11", "Analyses leave model and data alone however they end",
  "Fits without update, profile scans, significances and toy studies leave parameters, systematics, data and "
  "constraints of the model as they were, whether they succeed, fail at any point or are interrupted. The same "
  "analysis repeated afterwards gives the result of a fresh model that never saw the failure.",
  ["fault_sequences", "crash_points", "histories"],
  "all analyses, all points at which they can fail, all histories of changes in between",
  "the tests contain no fit, profile, significance or toy study, and no injected failure",
  FIT + TOY + MODEL, [("restoring of the datasets", T + "toy_study.py: _preserve_data"),
                      ("restoring of the yield", T + "fitter.py: get_significance")]),
 ("P12", "A fit returns the minimum of the likelihood or says that it did not",
  "With either minimizer a fit that reports success returns parameters at a minimum of the likelihood of the current "
  "model and data, the likelihood value there, and (where the curvature is well defined) uncertainties and covariance "
  "from its second derivatives; with update it sets the templates to exactly the returned parameters. A fit that "
  "fails raises, leaving the templates unchanged, or reports no success, and never spoils the next fit.",
  ["inputs", "histories", "fault_sequences"],
  "all models and datasets, starting values including zero, histories of earlier fits and failures; any separate local minimum is accepted",
  "the tests contain no fit; faults inside of a minimisation are unreachable for them",
  FIT + MODEL, [("minimisation and update", T + "fitter.py: do_fit"), ("both minimizers", T + "minimizer.py: minimize")]),
 ("P13", "Fixed and bounded parameters are respected by every analysis",
  "A parameter fixed or bounded on a fitter, by name or by index, keeps its starting value or stays inside its bounds "
  "in every later fit, profile scan and significance of this fitter with either minimizer, and the remaining "
  "parameters are at the constrained minimum; fixed parameters have zero uncertainty and the last bounds given for a parameter count. Only the scanned or tested "
  "parameter itself may leave its own bounds.",
  ["configurations", "histories", "fault_sequences"],
  "all sets of fixed, bounded and nuisance parameters, all orders of setting them and all sequences of analyses, with failures",
  "the tests contain no fit with fixed or bounded parameters",
  FIT, [("settings handed to the minimizer", T + "fitter.py: set_parameter_fixed, set_parameter_bounds"),
        ("limits and fixes of the minimizers", T + "minimizer.py: IMinuitMinimizer, ScipyMinimizer")]),
 ("P14", "A profile scan is the constrained minimum at every point",
  "Every point of a profile scan is the likelihood minimum with the scanned parameter fixed to that value, relative to "
  "the nominal minimum, independent of the number of workers and of how the points are scheduled on them. Points "
  "whose minimisation fails are marked without disturbing the others, and a scan that cannot be done raises, releases "
  "its workers and leaves model and later scans unaffected.",
  ["schedules", "fault_sequences", "configurations"],
  "all worker schedules, numbers of workers and points, failing tasks, failing pool creation",
  "the tests contain no profile scan; worker schedules and failures of single tasks are uncontrolled there",
  FIT, [("distribution over a worker pool", T + "fitter.py: profile"), ("one point of the scan", T + "fitter.py: _profile_helper")]),
 ("P15", "The significance is the square root of the likelihood ratio",
  "The significance of a process is the square root of twice the difference between the minimal likelihood with its "
  "yield fixed to zero and the unconstrained minimal likelihood, zero for a negative fitted yield, never undefined or "
  "negative if the likelihood is defined where the fits start, and infinite only if the data are impossible without "
  "the process. It is reproducible and respects fixed nuisance parameters and constraints, also after failing calls.",
  ["inputs", "histories", "fault_sequences"],
  "all models and datasets (present, absent and negative signals), both minimizers, failures at all points of both fits",
  "the tests contain no significance",
  FIT, [("nominal fit and null fit", T + "fitter.py: get_significance")]),
 ("P16", "A toy study fits one fresh toy per experiment and keeps its books",
  "A toy study with n experiments completes n fits, each to a toy generated for that attempt from the model as "
  "it was at the start, and reports for each the parameters and uncertainties of exactly that fit; attempts that fail "
  "are repeated with a new toy up to the allowed number of tries and leave nothing in the results. A study that cannot "
  "be completed says so, and afterwards the channels have their datasets back.",
  ["fault_sequences", "histories"],
  "all subsets of failing attempts, numbers of experiments and tries, repeated studies, early ends",
  "the tests contain no toy study; failing attempts need fault injection",
  TOY + MODEL, [("experiments with retries", T + "toy_study.py: do_experiments, _experiment")]),
 ("P17", "Toys are independent Poisson draws, Asimov data the expectation itself",
  "Each bin of a toy dataset is an independent Poisson variable whose mean is the current expectation of its channel, "
  "controlled by the global random seed (same seed, same toys; consecutive toys differ); an Asimov dataset equals the "
  "current expectation, rounded to integers if asked for. Both have the binning of their channel and follow every "
  "change of parameters immediately.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of parameter changes before the generation, all models, failing draws in between",
  "the tests look at the type of one toy; distribution, independence and staleness need many controlled draws",
  MODEL + TEMPL, [("generation per channel", T + "templates/channel.py: generate_toy_dataset, generate_asimov_dataset")]),
 ("P18", "A linearity test reports what its own toys say and cleans up",
  "For each tested yield a linearity test fits toys generated from the otherwise original model with the tested "
  "process at this yield, and reports mean and spread of the fitted yields of exactly these toys; failing attempts are "
  "repeated with new toys. However it ends, the channels have their datasets back.",
  ["fault_sequences", "histories"],
  "all histories before the test, all tested ranges, all subsets of failing attempts and early ends",
  "the tests contain no linearity test",
  TOY + MODEL, [("tested points and experiments", T + "toy_study.py: do_linearity_test")]),
 ("P19", "Fit uncertainties are propagated correctly to the bins of every channel",
  "For any fit result, current or old, the propagated covariance of the bins of a channel is the parameter covariance "
  "transformed with the derivatives of the expected bin contents at the parameters of that result, using the "
  "parameters of this channel only; the propagated uncertainties are its diagonal, and drawn post-fit bands show them "
  "around the expectation.",
  ["configurations", "histories", "inputs"],
  "all models with several channels and missing processes, all results over a history of changes",
  "the tests contain no propagation",
  [T + "templates/channel.py"] + FIT, [("Jacobian propagation", T + "templates/channel.py: propagate_parameter_uncertainties, plot_post_fit_stacked_on")]),
 ("P20", "Every minimizer call stands on its own and is right about its minimum",
  "Each minimisation with a long-lived minimizer returns the minimum of its function under the fixes and bounds in "
  "force at that moment, with the uncertainties of this minimisation only, whatever calls, failing calls and changes "
  "of settings came before; fixes and bounds set by name or index act on that parameter only until released. Results "
  "returned earlier never change.",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of minimisations, settings and failures over several coexisting minimizers of both kinds; smooth convex functions",
  "the tests contain no minimisation",
  [T + "minimizer.py"], [("parameter book-keeping", T + "minimizer.py: Parameters, param_id_to_index"),
                         ("fixes and bounds", T + "minimizer.py: set_param_fixed, release_params, set_param_bounds")]),
 ("P21", "Legacy histograms, stacked templates and likelihood agree with their model",
  "After any history of fills, parameter updates, systematics, resets and failing operations, the legacy histograms, "
  "templates and stacked templates hold what was put into them, the legacy likelihood is the documented function of "
  "the current templates and its data, fits to it return its minimum, and toys and Asimov data follow the current "
  "expectation. Failing operations leave no trace.",
  ["histories", "fault_sequences", "inputs"],
  "all histories over stacked templates of 1-3 templates and legacy histograms in one and two dimensions",
  "the legacy modules have no tests",
  LEGACY + [T + "minimizer.py"], [("stacked likelihood", T + "nll.py: StackedTemplateNegLogLikelihood"),
                                  ("legacy templates", T + "templates_legacy.py"), ("legacy histograms", T + "histogram_legacy.py")]),
 ("P22", "Drawings show the current state of what is drawn",
  "Whenever templates, projections of two-dimensional templates or stacked channels (also the legacy ones) are drawn, "
  "on new or used axes and after any history of changes and failed drawings, the shapes in the figure are the current "
  "expected contents stacked in the order of the templates, the band around their sum is the current uncertainty, and "
  "the points are the current data with their uncertainties, all at the bins of the channel. Optional colors and labels "
  "may be missing. Stacks of two-dimensional channels are refused with an error. Drawing changes no model.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of changes, drawings and failing drawings over models with one- and two-dimensional channels",
  "the tests draw nothing",
  TEMPL + [T + "templates/channel.py", T + "templates_legacy.py"],
  [("stacked drawing of a channel", T + "templates/channel.py: plot_stacked_on"),
   ("drawing of templates", T + "templates/template1d.py: plot_on"), ("projections", T + "templates/template2d.py: plot_x_projection_on")]),
 ("P23", "Models in one process do not influence each other",
  "Several models used in one process, with identical channel and process names and interleaved operations in any "
  "order, including failing ones, behave exactly as each of them would alone.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of the operations of two or three models and their fitters",
  "needs interleavings of several models and comparison with isolated executions; hidden global or class-level state is invisible otherwise",
  MODEL + TEMPL + FIT, [("state kept per object, not per class or module", T + "templates/multi_channel_template.py: MultiChannelTemplate"),
                        ("no caches shared between channels", T + "templates/channel.py: Channel")]),
 ("P30", "Goodness-of-fit statistics and p-values are the documented ones",
  "At any point of an analysis, for the current data, toys or Asimov data (empty bins included) of one or many channels and "
  "any number of degrees of freedom, the chi-square and likelihood-ratio statistics of the agreement with the expectation "
  "are the documented sums and their p-values the upper tail of the chi-square distribution, whatever tests or failing "
  "tests came before, and testing changes neither the tested values nor the model.",
  ["inputs", "histories", "fault_sequences"],
  "all data, positive expectations and degrees of freedom that histories of a model produce; all points where a test fails",
  "the functions have no tests; numerical failures appear for many degrees of freedom or special data only",
  [T + "stats.py"], [("test statistics", T + "stats.py"), ("p-values", T + "stats.py")]),
 ("P31", "Covariance and correlation conversions are inverse to each other",
  "Converting a covariance matrix of a template or fit, at any point of an analysis and also with parameters of zero "
  "variance, to correlations gives the elementwise normalised matrix, converting it back with the standard deviations gives "
  "the original, whatever conversions or failing conversions came before, and no input or model changes.",
  ["inputs", "histories", "fault_sequences"],
  "all covariance matrices that histories of a model and fits produce; all points where a conversion fails",
  "the functions have no tests of their own", [T + "utility.py"], [("conversions", T + "utility.py: cov2corr, corr2cov")]),
]

NOT_APPLICABLE = {
}

ORACLE = {
 "P01": "sums over all entries handed in so far (own bin search)",
 "P02": "bit-wise comparison with the state before the failing fill, and the sums of P01",
 "P03": "bit-wise comparison of arguments, model states and held results before and after",
 "P04": "explicit formula of the reference model; sum of the fractions",
 "P05": "statistical covariance plus sum of the accepted systematics; inverse times correlation is the identity; twin in another order",
 "P06": "parameters recorded right after construction",
 "P07": "explicit likelihood formula on the reference model; differences of likelihood values where constants are open",
 "P08": "names, indices and vectors of the reference model; a single parameter moves exactly its own bins",
 "P09": "public state of the whole model before the rejected operation",
 "P10": "the same history executed without the observers",
 "P11": "public state before the analysis; a control model that receives the changes only",
 "P12": "own minimisation of the reference likelihood, started from the returned point; analytic second derivatives",
 "P13": "every evaluated point respects the settings; constrained reference minimum",
 "P14": "constrained reference minimum at every scan point; repetition with other workers and schedules",
 "P15": "likelihood ratio of the reference minima",
 "P16": "model of the retry logic fed with the observed toys; reference minimum of each toy",
 "P17": "Poisson moments and correlations; equality for equal seeds",
 "P18": "model of the retry logic; mean and spread of the reference minima of the observed toys",
 "P19": "analytic Jacobian of the reference model",
 "P20": "analytic minimum and curvature of generated objectives under the fixes and bounds in force",
 "P21": "reference model of histograms, templates and likelihood",
 "P22": "contents and uncertainties of the reference model; shapes read back from the figure in data coordinates",
 "P30": "documented sums (math.fsum) and the incomplete gamma function",
 "P31": "elementwise definition; the original matrix after the way back",
 "P23": "the same history executed alone in a fresh process",
}

NOTES = {
 "P14": "The worker pool is replaced by forked processes in lockstep under the seeded scheduler; a worker killed outright is not simulated.",
 "P17": "Distributions are judged by tests with a false alarm probability below 1e-9 per run.",
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for pid, title, statement, over, text, why, files, mech in PROPS:
            assert len(title) <= 80, title
            fh.write(json.dumps({
                "id": pid, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
            }) + "\n")
    checks = []
    for p in PROPS:
        pid = p[0]
        if pid in NOT_APPLICABLE:
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid} quick",
            "thorough_cmd": f"./check {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection: seeded histories, schedules and faults against a reference model",
            "level": "exploration",
            "level_note": "Seeded search over simulated runs of the real code, each checked after every operation; nothing is "
                          "claimed beyond the runs executed. Trusts the reference model (dst/ref.py), numpy and the seams. "
                          + NOTES.get(pid, "")})
    manifest = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
                "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
                "notes": "No hooks in /repo: all seams are library boundaries (numpy, scipy, iminuit, multiprocessing, stdout) "
                         "wrapped from /verif. See DESIGN.md; genuine defects are listed in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")

    design()


def design():
    import importlib
    import sys

    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    lines = []
    for p in PROPS:
        pid, title = p[0], p[1]
        if pid in NOT_APPLICABLE:
            continue
        mod = importlib.import_module(f"dst.props.{pid.lower()}")
        lines += [f"### {pid} {title}", "", f"*Explored:* {mod.RULE}", "", f"*Oracle:* {ORACLE[pid]}.", "",
                  f"*Tests cannot:* {p[5]}.", "",
                  f"*Runs:* quick {mod.RUNS['quick']}, thorough {mod.RUNS['thorough']}."]
        if mod.ASSUMPTIONS:
            lines += ["", "*Assumes:* " + "; ".join(mod.ASSUMPTIONS) + "."]
        lines.append("")
    text = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
    text = text.replace("@@PROPS@@", "\n".join(lines).rstrip())
    text = text.replace("@@SEEDED@@", seeded_table())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as fh:
        fh.write(text)


def seeded_table():
    """What tools/catch.sh found out about the changes in seeded/."""
    caught = {}
    path = os.path.join(ROOT, "tools", "caught.txt")
    for line in open(path) if os.path.exists(path) else ():
        bug, prop, code, *kind = line.split()
        caught.setdefault(bug, []).append((prop, code, kind[0] if kind else ""))
    rows = ["| change | needs | caught by |", "|---|---|---|"]
    for bug in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        meta = json.load(open(os.path.join(ROOT, "seeded", bug, "meta.json")))
        found = [f"{p} ({k})" for p, code, k in caught.get(bug, []) if code == "1"]
        text = ", ".join(found) if found else "not caught" if bug in caught else "not run"
        rows.append(f"| {bug} | {meta['needs']} | {text} |")
    return "\n".join(rows)


main()
