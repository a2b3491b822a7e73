"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md.  /opt/venv/bin/python tools/meta.py"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/chainconsumer/"
TESTS = "The suite (114 tests) fixes "

# id: title, statement, over, quantifier text, why, files, mechanism [(what, where)], oracle/technique, level note
P = {}


def p(pid, title, statement, over, text, why, files, mechanism, technique, note=""):
    assert len(title) <= 80, title
    P[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=[S + f for f in files.split()], mechanism=mechanism, technique=technique, note=note)


# ------------------------------------------------------------------------------------------------ chains
p("C01", "A chain owns a faithful copy of the samples and rejects unusable input",
  "Building a chain keeps every value, column and row of the data frame it is given (adding only unit weights when there are none), and later changes to the caller's frame do not reach the chain nor "
  "the other way round. Empty frames, non-finite values in any column, non-positive weights, missing weight or colour columns, row counts that the walkers do not divide, multimodal chains with a "
  "statistic other than HDI, and settings out of range are refused with an error.",
  "inputs configurations", "all data frames (any column names, order, dtype, row labels), all chain settings",
  TESTS + "a handful of well-formed frames and a few rejections at one position; a bad value in an arbitrary row or column, odd dtypes, labels or an aliasing between caller and chain is not sampled.",
  "chain.py base.py", [("model validators copy the frame, add weights and reject bad input", "chain.py: _copy_df, _validate_model")],
  "random data frames with planted faults, value-by-value comparison and mutation of both sides")
p("C02", "Weight and posterior columns are never treated as parameters",
  "Whatever the weight and posterior columns are called (default, configured or one of the recognised alternative names in any letter case) and wherever they stand in the frame, they never appear as "
  "parameters in summaries, tables, covariances, maximum-posterior points or plots, even where another chain has a parameter of that name, and every other column does, in frame order.",
  "inputs configurations", "all column names and positions, all products that list parameters",
  TESTS + "the default names at the end of a frame; the rule quantifies over names, cases, positions and every product.",
  "chain.py plotter.py analysis.py", [("one rule selects parameter columns for every product", "chain.py: data_columns, plotting_columns")],
  "random column layouts, every product compared with the documented rule")
p("C03", "Shifting parameters subtracts the weighted mean and changes nothing else",
  "A chain with shifted parameters holds, for each parameter, the sample minus its weighted mean, with weights and log posteriors untouched; its summaries are those of the unshifted chain moved by that mean.",
  "inputs", "all weighted samples, offsets, column names and dtypes",
  TESTS + "one chain with unit weights; the shift of weight or posterior columns and the use of weights are not sampled.",
  "chain.py", [("mean shift in the validator", "chain.py: _validate_model")], "random weighted chains against a column-by-column model")
p("C04", "Dividing a chain by walkers yields each walker's rows in their order",
  "Dividing a chain of w walkers gives w single-walker chains that hold consecutive equal blocks of the rows in their original order, with the weights, posteriors and settings of the parent (but for its colour; what the parent leaves to automatic choice, the parts do too) and distinct "
  "names; together they are exactly the parent, also when its parameters were shifted. A chain of a single walker and a grid are refused.",
  "inputs configurations", "all walker counts, lengths, row labels, weights and settings",
  TESTS + "two and four walkers of one array; blocks by label, lost settings or reordering under unusual row labels are not sampled.",
  "chain.py", [("split by walker", "chain.py: divide")], "random chains, parts compared block by block with the parent")
p("C05", "The maximum posterior point is the row with the largest log posterior",
  "The maximum posterior point of a chain reports the largest log posterior and the coordinates of the first row that attains it, for any row labels, ties, column names and row order; chains without a "
  "posterior report none, and a collection reports exactly the chains that have one.",
  "inputs", "all samples with log posteriors, all row labels and tie patterns",
  TESTS + "default row labels with unique maxima; label/position confusion only shows for other labels.",
  "chain.py analysis.py", [("row of the maximum", "chain.py: max_posterior_row, get_max_posterior_point"), ("collection", "analysis.py: get_max_posteriors")],
  "random chains with ties and odd row labels against a linear scan")
p("C06", "Covariance and correlation are the weighted moments of the requested columns",
  "The covariance of a chain is the reliability-weighted covariance of the requested columns in the requested order (all parameters by default), symmetric, unchanged by scaling the weights or permuting "
  "rows; the correlation is the covariance divided by the standard deviations, with a unit diagonal, also for a single column.",
  "inputs", "all weighted samples, column subsets and orders",
  TESTS + "two or three fixed samples; the weighting, order and single-column cases quantify over inputs.",
  "chain.py analysis.py", [("weighted moments", "chain.py: get_covariance, get_correlation")], "random weighted samples against an explicit double loop, metamorphic relations")
p("C07", "Chains from emcee, numpyro and arviz hold each sampler's draws in order",
  "Chains made from an emcee sampler, a numpyro sampler or arviz inference data hold every retained draw (after discarding and thinning) of every selected parameter once, in the order in which "
  "the sampler hands them out flattened (steps of all walkers for emcee, chain after chain for the others), each value under the name of its own parameter and next to the other values of its draw, each element of a variable that is a vector or an array being a parameter of its own; other settings reach the chain. "
  "Variables may be named or excluded; a mixture of both is refused.",
  "inputs configurations", "all sampler shapes, subsets and exclusions of variables, discards and thinnings",
  TESTS + "one run of each sampler and mostly check moments, which do not notice a transposition of walkers and steps or a wrong pairing.",
  "chain.py", [("constructors", "chain.py: from_emcee, from_numpyro, from_arviz")], "synthetic sampler outputs of random shape against explicit loops over step and walker")
p("C08", "Generated samples have the requested moments and are reproducible by seed",
  "A chain built from a mean and covariance has these moments, within statistical error, under the given names in the given order. The example generator returns the requested number of points and "
  "dimensions, the same for the same seed, with a log posterior that is the log density of the distribution it draws from.",
  "inputs", "all means, covariances and names; all seeds, sizes and dimensions",
  TESTS + "one covariance and one seed, without reproducibility.",
  "chain.py examples.py", [("sampling", "chain.py: from_covariance"), ("example data", "examples.py: make_sample")], "random distributions, moment tests at seven standard errors, exact repetition",
  "Statistical tolerance of seven standard errors; a bias smaller than that is not seen.")

# ------------------------------------------------------------------------------------------------ registry
p("R01", "A collection of chains behaves like an insertion-ordered dictionary",
  "After any sequence of adding, removing (by name or object), re-adding, marking and looking up chains, the collection holds exactly the chains a dictionary would, in insertion order; adding a name twice, "
  "removing or asking for an unknown name is refused and leaves the collection unchanged. Every mutator returns the collection so that calls can be chained.",
  "histories", "all sequences of operations with valid and invalid arguments",
  TESTS + "single calls; order and rejection after arbitrary histories are not explored.",
  "chainconsumer.py", [("registry", "chainconsumer.py: add_chain, remove_chain, get_chain, get_names, add_marker")], "stateful histories against a dictionary model")
p("R02", "Settings obey override, then explicit, then automatic choices",
  "Each setting of a chain of the collection shown in a plot or used in a summary or table, however the chain is asked for (by default, name or object), is the collection override if it names it, else the value given to the chain, else the automatic one; automatic colours are distinct for up "
  "to the length of the colour cycle and the stored chains are never changed. Automatically, up to four contour chains are shaded, with opacity one over the root of their number and half of it "
  "with contour labels. (The shift of parameters takes place when a chain is built and cannot be overridden.)",
  "configurations histories", "all mixtures of explicit settings, overrides and numbers of chains",
  TESTS + "a few single-attribute overrides.",
  "chainconsumer.py chain.py base.py color_finder.py", [("merge of overrides and defaults into copies", "chainconsumer.py: _get_final_chains, set_override"), ("record of explicit settings", "base.py")],
  "random collections, settings read back from drawn figures; summaries, tables and plots under an override against those of chains given the same settings")
p("R03", "Queries are pure: results do not depend on what was computed or plotted before",
  "Summaries, tables, criteria, diagnostics and plots neither change the samples and settings of chains nor depend on earlier calls: the same call gives the same result before and after any other calls, and "
  "on a freshly built equal collection. Frames, lists and other arguments passed in stay as they were.",
  "histories", "all sequences of queries and plots on one collection",
  TESTS + "one call on a fresh object.",
  "analysis.py comparisons.py diagnostic.py plotter.py helpers.py", [("queries work on copies", "chainconsumer.py: _get_final_chains")], "random call histories compared with fresh collections")

# ------------------------------------------------------------------------------------------------ summaries
p("S01", "Every summary is finite, ordered, inside the data and grows with the area",
  "For every chain and parameter there is exactly one summary, whose numbers are finite and lie in the range of the samples (for the HDI, widened by the padding of its histogram), with the lower bound not above the upper "
  "one; only the maximum-likelihood statistic may leave both bounds out. For the statistics built from quantiles, a larger area never gives a narrower interval.",
  "inputs configurations", "all samples, weights, statistics, areas, bins, smoothing, bandwidths, powers and selections",
  TESTS + "smooth unimodal samples of one size; crashes and disorder show for small, discrete, skewed or extreme inputs.",
  "analysis.py helpers.py kde.py", [("five statistics over one smoothed histogram", "analysis.py: get_summary, get_parameter_summary*")], "random chains and settings, invariants of the result")
p("S02", "Quantile summaries are the quantiles of the blurred sample",
  "With area A, the cumulative, mean and max-central statistics put probability (1-A)/2 of the weighted sample, blurred by the configured smoothing, below the lower and above the upper bound; the centre is "
  "the median, the midpoint of the bounds or the point of highest density respectively.",
  "inputs configurations", "all weighted samples whose lowest value does not carry a large part of the mass; all areas, bins, smoothing",
  TESTS + "normal and skewed samples of one size at the default area within loose tolerances.",
  "analysis.py helpers.py", [("quantiles of the cumulative histogram", "analysis.py: get_parameter_summary_mean, _cumulative, _max_central")],
  "random samples of 14 families against a reference model of the blurred distribution",
  "Tolerance of one to two percent of probability; mass lost to the recorded finding about the lowest raw bin is left out.")
p("S03", "The maximum-likelihood summary is the mode with an equal-density interval",
  "The maximum-likelihood statistic reports the point of highest blurred density; its interval, when reported, contains that point, encloses the configured area and has equal density at both ends, unless one is the end of the distribution. A "
  "parameter whose distribution is cut off at an end may be reported without bounds, a unimodal one that decays on both sides may not.",
  "inputs configurations", "all weighted samples and settings",
  TESTS + "two or three fixed samples.",
  "analysis.py helpers.py", [("equal-density interval", "analysis.py: get_parameter_summary_max")], "random samples against a reference model of the blurred distribution", "Tolerance of about one percent of probability.")
p("S04", "The HDI summary is the narrowest interval of the configured area",
  "The HDI statistic reports an interval that encloses the configured area of the blurred sample and is, within resolution, no wider than any other such interval; its centre splits the enclosed mass in halves.",
  "inputs configurations", "all weighted samples and settings",
  TESTS + "a handful of samples.",
  "analysis.py helpers.py", [("narrowest window", "analysis.py: get_parameter_summary_hdi")], "random samples, search over all windows of the reference model")
p("S05", "Multimodal bands are the highest-density regions of the configured area",
  "For a chain marked multimodal the summary lists one band per separate region in which the blurred density exceeds the level that encloses the configured area, in increasing order, disjoint, each with its "
  "centre at its highest density; with a single region the summary is the ordinary HDI.",
  "inputs", "all mixtures of separated humps, weights, widths, areas, bins, smoothing, bandwidths",
  TESTS + "one two-hump mixture.",
  "analysis.py", [("level set of the density", "analysis.py: get_parameter_hdi_intervals, get_parameter_multimodal_bounds")], "random mixtures against the level set of the reference density")
p("S06", "Summaries depend only on the weighted distribution",
  "Replacing a row of integer weight by repetitions or splitting its weight over copies leaves the summaries of chains without kernel estimate and the correlations unchanged; multiplying all weights by a constant or permuting rows "
  "leaves all summaries, covariances and correlations unchanged.",
  "inputs", "all weighted samples and statistics",
  TESTS + "unit weights almost everywhere.",
  "analysis.py helpers.py chain.py", [("all histograms are weighted", "helpers.py: get_smoothed_bins")], "metamorphic relations on random weighted samples")
p("S07", "Summaries follow changes of units, origin and sign",
  "Multiplying a parameter by a constant, adding a constant or reversing its sign maps its summary in the same way (lower and upper bounds swap under reversal), at any magnitude.",
  "inputs", "all samples, scales from 1e-90 to 1e90, shifts, reflections, statistics and settings",
  TESTS + "parameters of order one; absolute tolerances only show at other scales.",
  "analysis.py helpers.py kde.py", [("no absolute tolerances", "analysis.py: get_parameter_summary_*")], "metamorphic relations over 600 powers of two")
p("S08", "The power of a chain raises its density to that power",
  "With power p the summaries are those of the p-th power of the density (so a normal becomes narrower by the square root of p), for histograms and kernel estimates; a power of one changes nothing.",
  "inputs configurations", "all powers, families with a closed form, statistics, histogram and KDE",
  TESTS + "that the option is accepted.",
  "analysis.py helpers.py", [("power of the density", "analysis.py: _get_smoothed_histogram")], "random samples of families whose powers are known in closed form")
p("S09", "Kernel density estimates are weighted sums of Gaussian kernels",
  "The kernel density estimate at any point is the weighted sum of Gaussian kernels shaped by the weighted covariance of the sample with bandwidth 2 f n^(-1/(d+4)), apart from kernels beyond the truncation "
  "distance (of which the nearest few are kept where hardly any sample is within it); summaries of chains with KDE are those of this density.",
  "inputs configurations", "all weighted samples in one to three dimensions (five or more distinct samples), bandwidth factors, truncations, targets",
  TESTS + "a two-dimensional normal within loose bounds.",
  "kde.py analysis.py", [("tree-based kernel sum", "kde.py: MegKDE"), ("KDE branch", "analysis.py: _get_smoothed_histogram")], "random samples against a direct kernel sum")
p("S10", "Grid chains are summarised by their marginal weights",
  "For a chain on a uniform grid, summaries are those of the piecewise linear density through the weights summed over each grid value, for any number of dimensions, order of the grid points and scale of the weights.",
  "inputs", "all uniform grids in one to three dimensions, likelihood shapes, orders",
  TESTS + "one or two grids.",
  "helpers.py analysis.py", [("grid bins", "helpers.py: get_grid_bins")], "random grids against the exact marginal")
p("S11", "A parameter's summary does not depend on other parameters or chains",
  "The summary of a parameter is unchanged when other chains are added, other columns are added or reordered, the column or chain is renamed, or only part of the summary is requested.",
  "inputs histories", "all chains, neighbours, column orders, names and selections with explicitly set settings",
  TESTS + "single chains.",
  "analysis.py helpers.py", [("per-column marginals", "analysis.py: get_parameter_summary")], "metamorphic relations on random collections")

# ------------------------------------------------------------------------------------------------ tables
p("T01", "Parameter text states the bound to the precision of its errors",
  "The text of a bound reads back as its centre and errors to within half of its last printed digit, the smaller error keeps at least one significant digit, equal printed errors use a single plus-minus, and "
  "a common power of ten multiplies all of them; lists of bands and wrapped or labelled text state the same numbers. A bound without errors gives empty text.",
  "inputs", "all bounds over 400 decades, lists of bands, wrapping and labels",
  TESTS + "about twenty bounds.",
  "analysis.py", [("formatting", "analysis.py: get_parameter_text, _format_single_bound")], "random bounds, text parsed back into numbers")
p("T02", "The LaTeX parameter table holds every summary in its own cell",
  "The table of parameters has one row per model (or per parameter when transposed) and one column per requested parameter, with labels, caption and identifier as given; each cell holds the text of that chain's "
  "summary of that parameter, or the blank fill when the chain lacks it (nothing when it is unconstrained). Blinded parameters do not appear. A file, if given, holds exactly the returned text.",
  "inputs configurations", "all collections, selections, labels, transposition, blinding, captions",
  TESTS + "two or three complete tables of fixed chains.",
  "analysis.py helpers.py", [("table", "analysis.py: get_latex_table")], "random collections, table parsed and compared cell by cell")
p("T03", "Covariance and correlation tables state the weighted moments",
  "The LaTeX tables of covariance and correlation list the parameters, in order and by label, on both axes, with each entry the weighted moment rounded to two decimals, and with caption and identifier as given, for the chain named or, if none is, the only one.",
  "inputs", "all weighted chains, column selections, labels and captions",
  TESTS + "one table.",
  "analysis.py helpers.py", [("matrix table", "analysis.py: get_covariance_table, get_correlation_table, _get_2d_latex_table")], "random chains, table parsed back into a matrix")
p("T04", "The comparison table lists each model's criteria, sorted",
  "The comparison table has one row per chain with any of the criteria and the columns that were asked for, in order; values are the criteria of each chain, missing ones are shown as such and sorted last, and rows are sorted by the "
  "chosen criterion in the chosen direction.",
  "inputs configurations", "all collections with partly missing information, all column choices and sort keys",
  TESTS + "two or three fixed tables.",
  "comparisons.py", [("table", "comparisons.py: comparison_table")], "random models, table parsed and compared with the criteria")
p("M01", "AIC and BIC follow their definitions relative to the best model",
  "The reported AIC (with small-sample correction) and BIC of each chain follow the definitions from the maximum log posterior, the number of free parameters and of data points, as differences to the best "
  "model; chains that lack one of these report none and do not influence the others.",
  "inputs", "all collections, except where the data points exceed the parameters by exactly one and the correction is undefined",
  TESTS + "three fixed models.",
  "comparisons.py", [("criteria", "comparisons.py: aic, bic")], "random models against the definitions")
p("M02", "DIC follows its definition relative to the best model",
  "With the deviance being minus twice the log posterior, the reported DIC of each chain is twice its weighted mean deviance minus the deviance at its weighted mean point, taken from the sample nearest to that "
  "point, as a difference to the best model; chains without log posterior report none and do not influence the others.",
  "inputs", "all collections of chains with or without posteriors",
  TESTS + "three fixed models.",
  "comparisons.py", [("criterion", "comparisons.py: dic")], "random models against the definition")
p("D01", "Gelman-Rubin compares variance between and within walkers",
  "The Gelman-Rubin diagnostic accepts a chain only if, for each parameter, the potential scale reduction over its walkers deviates from one by less than the threshold, and rejects it otherwise; its verdict does not depend on units "
  "or origin, covers all chains when none is named, and a chain of a single walker is refused.",
  "inputs", "all ensembles, thresholds, units, origins and numbers of chains",
  TESTS + "one converged and one unconverged ensemble.",
  "diagnostic.py", [("ratio", "diagnostic.py: gelman_rubin")], "random ensembles against the definition", "Verdicts within a small band of the threshold are not judged.")
p("D02", "Geweke compares the start and end of the chain",
  "The Geweke diagnostic accepts a chain only if the z scores between the first and last parts of its walkers are compatible with a standard normal at the threshold, and rejects it otherwise; its verdict does not "
  "depend on units or origin and covers all chains when none is named.",
  "inputs", "all ensembles, fractions, thresholds, units and origins",
  TESTS + "one stationary and one drifting ensemble.",
  "diagnostic.py", [("z scores", "diagnostic.py: geweke")], "random ensembles against the definition", "Verdicts within a small band of the threshold are not judged.")
p("K01", "Colours resolve to valid, faithful hex codes",
  "Every name, alias, hex code and RGB(A) array resolves to a hex code of that colour; scaling a colour darkens or brightens it and stays a valid code; colour maps and the default cycle give as many valid colours "
  "as asked for, distinct while the cycle lasts; unknown colours are refused.",
  "inputs", "all names, aliases, codes, arrays, scale factors and counts",
  TESTS + "three or four colours.",
  "color_finder.py", [("lookup and scaling", "color_finder.py: format, scale_colour, get_colormap")], "random colours and factors, enumeration of all names")

# ------------------------------------------------------------------------------------------------ plots
p("V01", "A triangle plot shows each parameter pair once, with the chains that have both",
  "The triangle plot has one panel per pair of shown parameters and, unless switched off, one per parameter on the diagonal, in the order of the parameters (of the requested columns if given), with labels on the "
  "outer panels and nothing above the diagonal. A panel shows a contour, cloud or point of exactly those requested chains that have both parameters and draw such a thing, and the diagonal a curve of each contour "
  "chain that has the parameter.",
  "configurations inputs", "all collections, selections of chains and columns, flips and labels with something that spans a range in every parameter",
  TESTS + "nothing in figures: plots are smoke-tested at best.",
  "plotter.py plotting/contours.py", [("triangle", "plotter.py: plot, _get_triangle_figure"), ("panel", "plotting/contours.py: plot_surface")], "random scenes, artists of the figure counted by kind and colour")
p("V02", "Axes cover the data, agree between panels and respect configured extents",
  "The axis of a parameter is the same in every panel of a plot and equals the configured extent, if any; otherwise it covers all but a negligible fraction of the weighted samples of the shown chains and every "
  "point chain's best point, without reaching beyond the data. Configured logarithmic parameters have logarithmic axes.",
  "inputs configurations", "all scenes, extents and log scales in triangle, distribution, walk and summary plots",
  TESTS + "the extents of a few samples.",
  "plotter.py helpers.py", [("extents", "plotter.py: _get_custom_extents, _get_parameter_extents; helpers.py: get_extents")], "random scenes, mass outside the limits computed from the samples",
  "The mass of the lowest of 2000 raw bins is a recorded finding and left out.")
p("V03", "Each contour encloses the probability of its level",
  "The contour and the shaded band of every sigma level enclose that level's share (by the one- or two-dimensional convention, as configured) of the weighted sample blurred by the configured smoothing or kernel, at any "
  "scale of parameters and weights; equivalent weightings give the same contours and a power sharpens the density.",
  "inputs configurations", "all weighted two-parameter samples, levels, bins, smoothing, bandwidths, powers",
  TESTS + "the list of levels only.",
  "plotting/contours.py helpers.py kde.py", [("levels", "plotting/contours.py: plot_contour, _convert_to_stdev, _get_levels"), ("density", "helpers.py: get_smoothed_histogram2d")],
  "random samples, mass inside the drawn polygons", "Tolerance of four to five percent of probability.")
p("V04", "Marginal curves are normalised densities, shaded over the reported intervals",
  "The curve of a chain on the diagonal, in distribution and in summary plots is its marginal density (histogram, smoothed histogram, kernel estimate or grid weights) with area equal to its relative height, the density "
  "axis starts at zero and holds all curves, and the shaded regions are exactly the intervals of its summary under the curve, one per band, or absent when shading is off or the parameter unconstrained.",
  "inputs configurations", "all marginals and settings, upright and flipped",
  TESTS + "one plain histogram's maximum.",
  "plotter.py analysis.py", [("curve and shading", "plotter.py: _plot_bars")], "random chains, drawn curves compared with a reference model, shading with the summaries")
p("V05", "Truths are drawn at their values, in every plot, with their style",
  "Each truth shows a line at its value in every panel that has one of its parameters on an axis (vertical or horizontal as that axis is), or its marker where both axes are its parameters and it has one, with its colour, "
  "width, style, transparency and order; parameters it does not mention show none.",
  "inputs configurations", "all truths, styles, selections and plots (triangle, flipped, distributions, walks, summary)",
  TESTS + "the construction of truths only.",
  "plotting/truth.py plotter.py truth.py", [("truth lines and markers", "plotting/truth.py: plot_truths; plotter.py: plot_walks, plot_summary")], "random truths and scenes, reference lines and markers read back")
p("V06", "Points sit at the maximum posterior sample, markers at their location",
  "A chain that draws its point shows it, in each panel of two of its parameters, at the coordinates of its sample of largest log posterior, with the configured marker, size and transparency, in its colour or darker than "
  "its contour; chains without posterior show none, and added markers stand at the given location.",
  "inputs configurations", "all chains, row labels, ties, marker settings",
  TESTS + "none of it.",
  "plotting/contours.py chainconsumer.py chain.py", [("point", "plotting/contours.py: plot_point"), ("marker", "chainconsumer.py: add_marker")], "random scenes, coordinates looked up in the samples")
p("V07", "Clouds show the chain's own samples, each with its own colour value",
  "A cloud shows distinct samples of its chain spread over the whole chain, all of them if there are no more than the requested number and otherwise about that many, each coloured by its own value of the colour column "
  "or by the chain's colour; every colour column gets one labelled colour bar and is not a plotted parameter of the chain.",
  "inputs configurations", "all chains, colour columns (also weights and posteriors), cloud sizes, colour maps",
  TESTS + "none of it.",
  "plotting/contours.py plotter.py chain.py", [("cloud", "plotting/contours.py: plot_cloud"), ("colour bars", "plotter.py: plot")], "random scenes, every drawn point looked up in the samples")
p("V08", "Blinded parameters reveal no numbers in any plot",
  "When a parameter is blinded no tick, tick label, title, offset, axis label or colour bar of any plot shows a number for it, on linear and logarithmic axes and at any magnitude; parameters that are not blinded keep their "
  "ticks on the outer panels.",
  "configurations inputs", "all blinding choices, plots, log scales, magnitudes, colour bars",
  TESTS + "none of it.",
  "plotter.py", [("tick suppression", "plotter.py: _get_triangle_figure, plot, plot_walks, plot_distributions, plot_summary")], "random scenes, visible ticks and texts collected after a full draw")
p("V09", "Walk plots show every sample at its step",
  "The walk plot shows, for each requested parameter and chain that has it, the samples in order against the step (regularly thinned beyond a hundred thousand), after panels of the log posterior relative to its maximum and "
  "of the (log) weights where asked for, with an optional centred moving average of the given width; the step axis covers the longest chain.",
  "inputs configurations", "all chains, lengths, windows, selections",
  TESTS + "none of it.",
  "plotter.py", [("walks", "plotter.py: plot_walks, _plot_walk")], "random chains, drawn points compared with the samples")
p("V10", "Distribution plots show one labelled panel per parameter with each chain's curve",
  "The distribution plot has one panel per shown parameter in order, wrapped at the given number of columns with unused panels hidden, each with its label, no density ticks, and the curve of exactly those requested contour "
  "chains that have the parameter, all inside the density axis.",
  "configurations inputs", "all collections, selections, wraps, labels and figure sizes",
  TESTS + "none of it.",
  "plotter.py", [("distributions", "plotter.py: plot_distributions")], "random scenes, panels and curves counted")
p("V11", "Summary plots show each chain's summaries in its own row",
  "The summary plot has one row per requested chain with its name and one column per parameter with its label; error bars span the chain's summary (none when unconstrained or missing), curves are its marginal, and all rows of "
  "a column share their limits.",
  "configurations inputs", "all collections, selections, statistics; centres inside their interval for error bars",
  TESTS + "none of it.",
  "plotter.py", [("summary plot", "plotter.py: plot_summary")], "random scenes, bars and names compared with the summaries")
p("V12", "Figures are saved, sized and marked as asked, and plotting leaves no trace",
  "A plot writes exactly the files it is given (string, path or list) in the format of their names, has the requested figure size, shows the watermark once, and can restore the font settings it changed; it alters neither "
  "chains, truths, settings nor other rc parameters, so a plot is the same whatever was plotted or computed before.",
  "configurations histories", "all file names, sizes, watermarks, font settings and sequences of plots",
  TESTS + "none of it.",
  "plotter.py plotting/watermark.py", [("saving and sizes", "plotter.py: _save_fig, FigSize, restore_rc_params"), ("watermark", "plotting/watermark.py")], "random sequences of plots, files and figures inspected")
p("V13", "The legend names the shown chains in their colours",
  "The legend, shown by default with more than one chain, lists exactly the requested chains that are not hidden from it, in order, with their colours, lines and markers as drawn, coloured text unless switched off, in the "
  "configured panel and with the configured legend arguments.",
  "configurations", "all collections, kinds of chains, legend settings, line styles",
  TESTS + "none of it.",
  "plotter.py", [("legend", "plotter.py: get_artists_from_chains, plot")], "random scenes, legends read back")
p("V14", "Titles on marginals state the summary of the only chain",
  "With a single contour chain and summaries on, the panel of each of its constrained parameters is titled with the parameter's label and the text of its summary (all bands of a multimodal one); there is no title for "
  "blinded or unconstrained parameters, with several contour chains, or when switched off.",
  "configurations inputs", "all scenes, statistics, labels, blinding in triangle and distribution plots with shaded marginals",
  TESTS + "none of it.",
  "plotter.py analysis.py", [("title", "plotter.py: _plot_bars")], "random scenes, titles compared with summaries")
p("V15", "Standalone panel functions draw what the triangle plot draws",
  "Contours, clouds, points, truths and marginal distributions drawn on a user's axes with the standalone functions are the same as in the triangle plot for the same chains and settings, and their optional title states "
  "the summary.",
  "configurations inputs", "all chains with explicit settings, configurations and truths",
  TESTS + "none of it.",
  "plotting/contours.py plotting/truth.py", [("standalone functions", "plotting/contours.py: plot_surface, plot_contour, plot_cloud, plot_point, plot_dist")], "differential: standalone panel against triangle panel")

p("V16", "Font sizes, tick settings and spacing of the configuration take effect",
  "The font sizes, the number and the rotation of tick labels and the spacing of the plot configuration take effect on every text, axis and gap they describe: axis labels, summary names and titles, legend entries and "
  "colour-bar labels have the label font size, tick labels of triangle and distribution plots the tick font size and rotation, contour labels and parameter summaries theirs; a linear axis shows at most max_ticks "
  "labels; panels of a triangle are 0.05 times the spacing of a panel apart (automatic: 1 below six panels a side, otherwise 0) and unused panels show no frame.",
  "configurations inputs", "all values of the settings in all figures, chains, log axes, flips and panel numbers",
  TESTS + "no figure's texts or positions.",
  "plotter.py plotting/config.py plotting/contours.py", [("settings applied while panels are set up", "plotter.py: _get_triangle_figure, plot_distributions, plot_summary, _plot_walk")],
  "random settings; texts, ticks and positions of the drawn figures are measured")
p("V17", "Tick labels read as the values at which their ticks stand",
  "In every plot each visible tick label is a number that, together with the exponent or offset stated in the label of the axis or at its end, equals the position of its tick, on linear and logarithmic axes and at "
  "any magnitude; no exponent is stated twice or for an axis without labels, and the panels of a parameter have their ticks at the same places.",
  "inputs configurations", "all magnitudes, offsets, tick settings, log axes and plots",
  TESTS + "no figure's axes; a lost exponent only shows for values far from one.",
  "plotter.py", [("exponents moved into the axis labels after a draw", "plotter.py: plot"), ("tick locators and labels set up per panel", "plotter.py: _get_triangle_figure, plot_distributions, plot_summary, _plot_walk")],
  "random magnitudes and settings; the labels of the drawn figures are parsed and compared with the tick positions")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for pid, q in P.items():
            fh.write(json.dumps({
                "id": pid, "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": S + b} for a, b in q["mechanism"]]},
            }) + "\n")
    checks = []
    for pid, q in P.items():
        checks.append({
            "property": pid, "quick_cmd": f"./run.sh {pid} quick", "thorough_cmd": f"./run.sh {pid} thorough", "technique": "property-based testing: " + q["technique"], "level": "exploration",
            "level_note": "Holds on the generated cases only; the generators, oracle and tolerances are described in DESIGN.md. " + q["note"],
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [], "notes": "No hooks: the checks use the public API and read matplotlib figures."}, fh, indent=1)
        fh.write("\n")


def design():
    """The per-property part of DESIGN.md, from the table above and the registered facets."""
    import sys

    sys.path.insert(0, ROOT)
    import vf.boot  # noqa: F401
    import importlib
    import pkgutil

    import vf.props as props
    from vf import core

    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)):
        importlib.import_module(f"vf.props.{m}")
    assert set(P) == set(core.PROPS), set(P) ^ set(core.PROPS)
    out = []
    for pid, q in P.items():
        r = core.PROPS[pid]
        out.append(f"### {pid} {q['title']}\n")
        out.append(f"* Method: {q['technique']}.")
        out.append(f"* Generated and compared: {r.rule}")
        out.append("* Facets (cases quick/thorough): " + "; ".join(f"`{f.name}` {f.quick}/{f.thorough}" + (f" + {len(f.enumerate)} enumerated" if f.enumerate else "") for f in r.facets if f.quick) + ".")
        if r.assumptions:
            out.append("* Assumes: " + "; ".join(r.assumptions) + ".")
        if q["note"]:
            out.append("* Bounds: " + q["note"])
        out.append(f"* Beyond the tests: {q['why']}\n")
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- properties:begin -->\n", "<!-- properties:end -->"
    s = s[: s.index(a) + len(a)] + "\n".join(out) + s[s.index(b):]
    open(path, "w").write(s)


if __name__ == "__main__":
    main()
    design()
