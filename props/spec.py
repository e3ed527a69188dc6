"""Titles, statements, anchors, bounds and assumptions of the properties.

tools/gen.py writes properties.jsonl, MANIFEST.json and props/meta.json from
this table.
"""

P = []


def prop(id, title, statement, over, text, why, files, mech, bounds,
         assumptions=(), note="", na=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mech=mech, bounds=bounds,
        assumptions=list(assumptions), note=note, na=na))


G = "src/MuyGPyS/gp/"
SG = "src/MuyGPyS/_src/gp/"
SO = "src/MuyGPyS/_src/optimize/"
O = "src/MuyGPyS/optimize/"

prop(
    "C01", "Difference, distance and target tensors pick the right points",
    "For every feature matrix, index set and neighbor table, the crosswise "
    "and pairwise tensors, the isotropic distances (l2 or squared l2) and the "
    "target tensors made for prediction or training hold, at every position, "
    "exactly the difference, distance or target of the points the indices "
    "name, for any number of features, including one-dimensional data. "
    "Anisotropic and isotropic deformations then divide each feature "
    "difference (or the distance) by its own length scale, and never change "
    "their inputs.",
    ["inputs", "configurations"],
    "all feature values, targets, length scales and index values, over "
    "shapes with repeated indices, single points and single features",
    "Tests compare a few seeded random arrays of one shape with the same "
    "library routines; wrong pairing that keeps shapes, or that needs equal "
    "or unit dimensions, passes them.",
    [SG + "tensors/numpy.py", SG + "tensors/torch.py", G + "deformation",
     G + "muygps.py", G + "tensors.py"],
    [("indexing and broadcasting", SG + "tensors/numpy.py"),
     ("metrics and length scales", G + "deformation")],
    "up to 3 batch points, 3 neighbors, 3 features, 5 training points, 2 "
    "responses, and one dimension at a time up to 200 batch points, 70 "
    "neighbors, 70 features, 40 responses; index values symbolic in one case and fixed patterns "
    "(repeats included) in the others; numpy and torch",
)
prop(
    "C02", "Kernels evaluate the documented covariance functions",
    "For every tensor of differences or distances, the RBF and Matern kernels "
    "return the documented closed form of the scaled distance: RBF, Matern "
    "with smoothness 1/2, 3/2, 5/2 and infinity, and the Bessel form for any "
    "other smoothness, with value one at distance zero. Hyperparameters "
    "given by keyword replace exactly the stored ones they name, one length "
    "scale per feature in the anisotropic case, and nothing else changes the "
    "result or the inputs.",
    ["inputs", "configurations"],
    "all feature values, length scales and smoothness values, every subset "
    "of overridden hyperparameters",
    "Tests check positivity, shapes and agreement of two backends on random "
    "samples, and closed forms only against the same formula or for one "
    "smoothness; they do not fix which length scale goes to which feature.",
    [SG + "kernels/numpy.py", SG + "kernels/torch.py", G + "kernels",
     G + "deformation", G + "hyperparameter"],
    [("closed forms", SG + "kernels/numpy.py"),
     ("embedding of length scales", G + "hyperparameter"),
     ("choice of the form", G + "kernels/matern.py")],
    "up to 2 batch points, 3 neighbors, 3 features, and one dimension at a "
    "time up to 66 batch points, 24 neighbors, 24 features; all four half-integer "
    "forms and symbolic smoothness in (0.6, 2.9) on up to 3 points; numpy "
    "and torch",
    ["gamma and the Bessel function K are uninterpreted except at "
     "half-integer order, where their closed forms are used"],
)
prop(
    "C03", "Posterior mean solves the perturbed kriging system",
    "For every covariance tensor, cross-covariance, response and noise model, "
    "the posterior mean of each batch element is its cross-covariance times "
    "the inverse of its own noisy covariance times its own neighbors' "
    "responses, response by response and output by output. It holds whatever "
    "the batch size, neighbor count, response count and structure of the "
    "covariance (including equal or unit sizes), and with the noise given by "
    "name to the objective's mean function.",
    ["inputs", "configurations"],
    "all symmetric diagonally dominant covariances, cross-covariances, "
    "responses and noise values; neighbor tables into a training set",
    "Tests compare with a reference on seeded data of a few shapes in which "
    "the dimensions differ, and accept tolerances on predictions.",
    [SG + "muygps/numpy.py", SG + "muygps/torch.py", G + "mean.py",
     G + "muygps.py"],
    [("flattening and solve", SG + "muygps/numpy.py"),
     ("noise perturbation wrapper", G + "mean.py")],
    "up to 3 batch points, 3 neighbors, 3 responses (thorough: 5 neighbors), "
    "and one dimension at a time up to 300, 51 and 70; "
    "structured covariances up to 3 inputs, 2 neighbors, 3 outputs; numpy "
    "and torch",
)
prop(
    "C04", "Posterior variance is the scaled Schur complement",
    "For every covariance tensor, cross-covariance and noise model, the "
    "posterior variance of each batch element is the current scale times the "
    "prior variance minus the quadratic form of its cross-covariance with "
    "the inverse of its noisy covariance, so that it lies between zero and "
    "the scaled prior variance when the joint covariance is positive "
    "definite. The scale is applied exactly once, also after a scale "
    "optimization and however often the variance was asked for, and never in "
    "the variance function used by optimization objectives.",
    ["inputs", "histories"],
    "all covariances, cross-covariances, noise and scale values; histories "
    "of variance queries and scale optimizations up to length five",
    "Tests check shapes and signs on samples and recompute the same formula "
    "on one data set; the history of a model object is not varied.",
    [SG + "muygps/numpy.py", SG + "muygps/torch.py", G + "variance.py",
     G + "muygps.py", G + "hyperparameter/scale.py"],
    [("Schur complement", SG + "muygps/numpy.py"),
     ("scaling wrapper", G + "hyperparameter/scale.py")],
    "up to 3 batch points, 3 neighbors (thorough: 5), and one at a "
    "time up to 300 and 51; structured covariances up to 2 inputs, 2 neighbors, 3 outputs; positivity for up to 3 points "
    "through a symbolic Cholesky factor; numpy and torch",
)
prop(
    "C05", "Noise models perturb exactly the covariance diagonal",
    "For every covariance tensor, homoscedastic noise adds its variance to "
    "each diagonal entry, heteroscedastic noise adds to each neighbor's entry "
    "that neighbor's own measured variance, shear noise doubles the variance "
    "on the convergence block, and null noise adds nothing. Off-diagonal "
    "entries and the input are unchanged, a variance given by name replaces "
    "the stored one, and negative measured variances and negative "
    "optimization bounds are rejected.",
    ["inputs", "configurations"],
    "all covariance entries and noise values, flat and structured shapes",
    "Tests sample fixed sizes and random noise, mostly through shapes and "
    "one comparison per model.",
    [G + "noise", SG + "noise/numpy.py", SG + "noise/torch.py",
     G + "tensors.py"],
    [("diagonal updates", SG + "noise/numpy.py"),
     ("argument handling", G + "noise")],
    "up to 3 batch points and 3 neighbors (thorough: 5), one at a time up to "
    "200 and 60, structured inputs up to 3; numpy and torch",
)
prop(
    "C06", "Fast posterior mean uses each test point's nearest training point",
    "For every training set and neighbor table, the precomputed coefficients "
    "of a training point are the inverse of the noisy covariance of the point "
    "together with its nearest neighbors but the farthest, applied to their "
    "responses. The fast posterior mean of a test point is the product of "
    "those coefficients of its nearest training point with its "
    "cross-covariance to that same neighborhood, for single and multivariate "
    "models, through the stepwise functions and the one-call driver, and "
    "keeps one row per test point for any batch, neighbor and response "
    "count.",
    ["inputs", "configurations"],
    "all features, responses, covariances, noise values and neighbor tables",
    "Tests check shapes, and accuracy within loose tolerances on smooth data "
    "where a wrong neighborhood or doubled noise still predicts well.",
    [SG + "muygps/numpy.py", SG + "muygps/torch.py", G + "multivariate_muygps.py",
     G + "fast_precompute.py", "src/MuyGPyS/examples/fast_posterior_mean.py"],
    [("coefficient solve and product", SG + "muygps/numpy.py"),
     ("neighbor table update", SG + "tensors/numpy.py"),
     ("driver", "src/MuyGPyS/examples/fast_posterior_mean.py")],
    "up to 5 training points, 3 neighbors, 3 test points and 3 responses "
    "(thorough: 5 neighbors, 6 in matrices), and one dimension at a "
    "time up to 300 points, 51 neighbors, 40 responses; symbolic neighbor tables in the "
    "table update; neighbor queries answered by a fixed table; numpy, and "
    "torch except for the drivers",
)
prop(
    "C07", "Multivariate models act as independent univariate models",
    "For every list of models and every difference tensors and responses, "
    "column j of a multivariate posterior mean is the posterior mean of model "
    "j on response j, column j of the variance is the variance of model j "
    "with its own scale applied once (before and after a scale "
    "optimization), and scale optimization sets each model's scale from its "
    "own response only. The model is fixed exactly when all its models are, "
    "and a response count different from the model count is refused without "
    "changing anything.",
    ["inputs", "configurations", "histories"],
    "all features, responses, length scales, noise and scale values",
    "Tests use unit scales and check shapes or nonzero predictions; a scale "
    "applied twice or a response sent to another model passes them.",
    [G + "multivariate_muygps.py", G + "muygps.py"],
    [("per-model loops", G + "multivariate_muygps.py")],
    "up to 3 models, 3 batch points, 3 neighbors, 2 features, and one dimension at "
    "a time up to 40, 20 and 14; numpy and torch",
)
prop(
    "C08", "Loss functions evaluate their documented formulas",
    "For every prediction, target, variance and scale, mse is the mean "
    "squared difference, pseudo-Huber, lool, its unscaled form and looph are "
    "the sums of their documented terms (lool with a full covariance per "
    "prediction: residual^T S^-1 residual + log det S), with the variance "
    "multiplied by the scale or by each response's own scale, and cross "
    "entropy is minus the summed log softmax probability of the true class, "
    "for any number of classes. The boundary scale default and a given one "
    "are honoured, every loss is one number, and inputs are not changed.",
    ["inputs", "configurations"],
    "all predictions, targets, variances, scales and boundary scales; "
    "one-dimensional, two-dimensional and full-covariance shapes",
    "Tests evaluate each loss on a few random arrays and mostly compare "
    "backends with each other, so a wrong term common to both or one that "
    "vanishes for small shapes is not seen.",
    [SO + "loss/numpy.py", SO + "loss/torch.py", O + "loss.py"],
    [("loss formulas", SO + "loss/numpy.py"),
     ("scaled and unscaled wrappers", O + "loss.py")],
    "up to 8 predictions and 4 responses, and one of them up to 300 and 30, "
    "covariances up to 3 outputs; numpy "
    "and torch",
    note="looph takes one-dimensional variances",
)
prop(
    "C09", "The leave-one-out objective scores the model with its parameters",
    "For every model, batch and value of the free parameters, the objective "
    "built by make_loo_crossval_fn is minus the loss of the leave-one-out "
    "posterior means (and, where the loss uses them, variances and "
    "optimized scale) of the model holding exactly those values and the "
    "stored values of the fixed parameters. Arguments may be given by name "
    "in any order, an evaluation does not depend on earlier ones and changes "
    "neither the model nor the tensors, and loss arguments reach the loss.",
    ["inputs", "configurations", "histories"],
    "all features, responses, stored and tried parameter values; every "
    "subset of free length scales, smoothness and noise; up to three "
    "consecutive evaluations",
    "Tests check that optimization on synthetic data lands near the true "
    "parameter; an objective using a stored value in one place does so too.",
    [O + "objective.py", SO + "chassis/numpy.py", O + "loss.py",
     G + "muygps.py", G + "kernels", G + "hyperparameter/scale.py"],
    [("objective assembly", O + "objective.py"),
     ("parameter-free kernels", G + "kernels/kernel_fn.py"),
     ("predict-and-loss closures", O + "loss.py")],
    "up to 3 batch points, 3 neighbors, 2 features, 3 responses, and one "
    "dimension at a time up to 40, 9, 12 and 20; losses mse, "
    "huber, lool, unscaled lool, looph and cross entropy; analytic scale with "
    "up to 3 iterations; numpy and torch",
)
prop(
    "C10", "Optimizers return a new model at the best point inside its bounds",
    "For every model with free parameters and every answer of the underlying "
    "optimizer, the optimization starts at the stored values with each "
    "parameter's own bounds, the function it minimizes (L-BFGS-B) or "
    "maximizes (Bayesian) is the leave-one-out loss or minus it at exactly "
    "the point tried, and the result is a new model holding the returned "
    "values clamped to their bounds, whose predictions use them. Fixed "
    "parameters and the original model do not change, the Bayesian run "
    "probes the start, and optimizer arguments are passed on.",
    ["inputs", "configurations", "histories"],
    "all features, responses, stored values and optimizer answers, inside "
    "and outside the bounds; every subset of free length scales and noise; "
    "an optimization of an optimized model",
    "Tests run real optimizers on a few data sets and accept any result "
    "within a loose tolerance of the truth.",
    [SO + "chassis/numpy.py", O + "chassis.py", O + "objective.py",
     G + "muygps.py", G + "hyperparameter/scalar.py",
     G + "hyperparameter/vector.py"],
    [("optimizer adapters and model update", SO + "chassis/numpy.py"),
     ("free parameter lists", G + "muygps.py")],
    "2 batch points, 2 neighbors, up to 3 features (one case 12); four losses; numpy; the "
    "SciPy minimizer and the Bayesian optimizer are replaced by one that "
    "tries the start and one arbitrary point and returns either",
    assumptions=["the numerical optimizer returns one of the points it tried"],
)
prop(
    "C11", "Hyperparameters stay valid and the free ones are listed correctly",
    "A parameter with bounds keeps its value and bounds exactly, rejects "
    "values outside them and disordered or malformed bounds, and sampled "
    "values are drawn uniformly, or log-uniformly, between them. A model "
    "lists exactly its free parameters, each with its own value and bounds, "
    "and models and vectors are fixed exactly when nothing is free. Setting "
    "kernel parameters changes that kernel's values and its optimization "
    "function, and nothing made from the same parameters. Scales are "
    "positive and remember whether they were set.",
    ["inputs", "configurations", "histories"],
    "all values and bounds; all subsets of free parameters of RBF and Matern "
    "kernels with isotropic or up to three anisotropic length scales; "
    "sequences of parameter updates",
    "Tests construct a few valid and invalid literals; combinations of free "
    "parameters and updates after construction are sampled thinly.",
    [G + "hyperparameter", G + "kernels", G + "muygps.py", G + "noise"],
    [("bounds and values", G + "hyperparameter/scalar.py"),
     ("vectors", G + "hyperparameter/vector.py"),
     ("update of kernels", G + "kernels/kernel_fn.py")],
    "one parameter with symbolic bounds; up to 4 free parameters (one "
    "case 13); values "
    "within a rounding tolerance of 1e-5 outside the bounds may be kept; "
    "numpy and torch",
)
prop(
    "C12", "Scale optimization computes the documented closed form",
    "For every covariance, noise and response tensor, the analytic scale is "
    "the average over batch points and neighbors of y^T (K + eps)^-1 y, also "
    "for structured outputs, and its iteration halves the sum of the current "
    "value and the value for the covariance scaled by it. The downsampled "
    "scale is the median over its iterations of the same average on a common "
    "sample of neighbors drawn without replacement, and refuses samples as "
    "large as the neighborhood. A fixed scale never changes, optimizing "
    "replaces an earlier scale whatever it was, and inputs are not changed.",
    ["inputs", "configurations", "histories"],
    "all covariance, noise and response values, every sample of neighbors, "
    "and repeated optimizations",
    "Tests compare with the same formula on one random problem per setting, "
    "or check that the scale is near the truth.",
    [G + "hyperparameter/scale.py", SO + "scale/numpy.py",
     SO + "scale/torch.py", G + "muygps.py"],
    [("closed form", SO + "scale/numpy.py"),
     ("iteration and downsampling", G + "hyperparameter/scale.py")],
    "up to 4 batch points and 4 neighbors, one at a time up to 70 and 17, structured outputs up to 3, up to "
    "4 analytic iterations, samples up to 2 of 3 neighbors and 3 iterations; "
    "numpy and torch",
    note="one response per model, as the code supports",
)
SRC = "src/MuyGPyS/_src/"
MPI_NOTE = ("ranks are threads of one process over a model of mpi4py in "
            "which a send waits for its receive; counterexamples are replayed "
            "under mpirun")
prop(
    "C13", "Distributed tensors are the serial ones split over the ranks",
    "For every number of ranks and of elements, also when some ranks get "
    "none, the tensors each rank holds in the distributed mode (crosswise and "
    "pairwise differences and distances, prediction and training tensors, "
    "targets, noise, kernels, and any scattered array) are consecutive pieces "
    "of the serial tensors in rank order. Every element is on exactly one "
    "rank and the piece sizes differ by at most one. Making them never blocks "
    "or fails on some ranks only.",
    ["inputs", "configurations", "schedules"],
    "all feature, response, length scale and noise values, and every count of "
    "elements up to 2^40 for the sizes of the pieces",
    "The test suite is run on one process; the few distributed tests compare "
    "shapes or gathered values for one count that the ranks divide evenly.",
    [SRC + "mpi_utils.py", SG + "tensors/mpi.py", SG + "noise/mpi.py",
     SG + "kernels/mpi.py", G + "tensors.py", G + "deformation"],
    [("sizes and offsets", SRC + "mpi_utils.py"),
     ("scattering of tensors", SG + "tensors/mpi.py")],
    "1 to 4 ranks (sizes alone: up to 8 ranks, symbolic count), up to 7 "
    "batch points, 3 neighbors, 2 features; 5 and 7 ranks with up to 70 "
    "elements",
    assumptions=[MPI_NOTE],
)
prop(
    "C14", "Distributed results equal the serial ones on every rank",
    "For every number of ranks and batch size, also with fewer elements than "
    "ranks, each loss, objective, scale optimization and hyperparameter "
    "optimization computed from the ranks' pieces returns on every rank the "
    "value of the serial computation over the whole batch; so do downsampled "
    "scales and multivariate models. The posterior means and variances of the "
    "ranks, put together, are the serial ones. No rank blocks or fails alone, and all ranks choose the "
    "same optimized model.",
    ["inputs", "configurations", "schedules"],
    "all prediction, target, variance, feature, response and hyperparameter "
    "values, and all optimizer answers",
    "The test suite is run on one process, where a wrong count, weight or "
    "missing reduction has no effect.",
    [SO + "loss/mpi.py", SO + "scale/mpi.py", SO + "chassis/mpi.py",
     SG + "muygps/mpi.py", SRC + "mpi_utils.py"],
    [("global sums and counts", SO + "loss/mpi.py"),
     ("scale sums", SO + "scale/mpi.py"),
     ("optimizer broadcast", SO + "chassis/mpi.py")],
    "1 to 3 ranks with up to 5 batch points, 3 neighbors, 2 features, 2 "
    "responses; 5 ranks with up to 41 predictions, 30 batch points, 12 "
    "responses",
    assumptions=[MPI_NOTE,
                 "the numerical optimizer returns one of the points it tried"],
)
KNN_NOTE = ("the search library returns the nearest points in order of their "
            "true distances, ties in any order")
prop(
    "C15", "Neighbor queries return the nearest points, never the point itself",
    "For every training set, also with coinciding points, a query of new "
    "points returns for each of them the requested number of distinct "
    "training points, none farther than any other, nearest first, with their "
    "squared distances (or the chosen metric's distances). A query of "
    "training points does the same among the other training points, so that "
    "no point is ever its own neighbor. One-dimensional data may come without "
    "a feature axis, and arguments reach the search library.",
    ["inputs", "configurations", "histories"],
    "all training and query features, including coinciding and equidistant "
    "points in every tie order, both libraries",
    "Tests query random data, in which points never coincide, and check "
    "shapes and distances of a few samples.",
    ["src/MuyGPyS/neighbors.py"],
    [("self exclusion, metric", "src/MuyGPyS/neighbors.py")],
    "up to 4 training points (thorough: 5), 3 neighbors, 3 features, 2 "
    "queries; nearly fixed points up to 130, 20 neighbors, 20 features, 70 "
    "queries; numpy and torch",
    assumptions=[KNN_NOTE],
)
prop(
    "C16", "Sampled batches are distinct, qualified and balanced",
    "For every labelling of the training points and every random choice, the "
    "sampled batch holds distinct training points with their own nearest "
    "neighbors. A filtered batch holds exactly the points whose neighbors' "
    "labels are not all equal; a balanced one holds only such points and, of "
    "each class, as many as there are up to an equal share of the batch. A "
    "plain batch has the requested size or is the whole training set.",
    ["inputs", "configurations"],
    "all labellings with up to three classes and all answers of the random "
    "number generator",
    "Tests draw a few random data sets with two or more classes and check "
    "counts; unlucky label patterns and small classes are rare there.",
    [O + "batch.py"],
    [("filtering and balancing", O + "batch.py")],
    "up to 4 training points (thorough: 5), 3 neighbors, batches of 1 to 7; "
    "up to 40 points with one open label; numpy and torch",
)
prop(
    "C17", "Hierarchical length scales follow each element's own features",
    "A model with a hierarchical length scale computes, for every batch "
    "element, its covariances with the length scale that the upper kernel "
    "interpolates at that element's features from the knot values, stored or "
    "given by name for any of the knots. The free knots are the model's free "
    "parameters with their names, values and bounds; the leave-one-out "
    "objective and optimization use the candidate knots, return them in a "
    "new model and leave the original as it was.",
    ["inputs", "configurations", "histories"],
    "all features, knots, knot values, bounds, upper length scales and noise",
    "Tests check only the shapes of the resulting tensors.",
    [G + "hyperparameter/experimental/hierarchical.py",
     G + "deformation/isotropy.py", O + "objective.py"],
    [("interpolation", G + "hyperparameter/experimental/hierarchical.py"),
     ("length scale per element", G + "deformation/isotropy.py")],
    "up to 4 knots (11 for their order), 3 batch elements, 3 neighbors, 3 "
    "features, one dimension at a time up to 40, 17 and 12; numpy and torch",
)
prop(
    "C18", "Shear kernels are covariances of derivatives of one potential",
    "For all points, the covariances of convergence and the two shears are "
    "those of half the sum, half the difference and the mixed second "
    "derivative of a potential with squared exponential covariance: among the "
    "neighbors, between neighbors and element, and at the element itself. "
    "Predictions from all three or from the two shears alone are the Gaussian "
    "process posterior, with twice the noise on the convergence where it is "
    "observed. The leave-one-out objective and optimization use all of it at "
    "the candidate length scale and noise.",
    ["inputs", "configurations"],
    "all features, targets, length scales, noise and scale values",
    "Tests compare one grid of points under numpy; unit batches and "
    "neighborhoods, objectives with variances and torch are not run.",
    [SG + "kernels/shear/numpy.py", SG + "kernels/shear/torch.py",
     G + "kernels/experimental/shear.py", SG + "noise/numpy.py",
     G + "variance.py"],
    [("covariance blocks", SG + "kernels/shear/numpy.py"),
     ("Kin, Kcross and Kout", G + "kernels/experimental/shear.py"),
     ("shear noise", SG + "noise/numpy.py")],
    "up to 3 batch elements, 3 neighbors (one of them up to 20 or 5); numpy, and torch for the "
    "three-output kernel; objectives with 1 neighbor",
)
prop(
    "C19", "Torch layers predict with the model's current parameters",
    "For all features, responses and parameters, calling a torch layer gives "
    "the posterior means and scaled variances of its batch given its "
    "neighborhoods among the features passed in, at the parameters, batch "
    "and neighborhoods it holds at that moment: after an optimizer step "
    "changed the length scale in place, or other features or another batch "
    "were given. A univariate layer trains exactly its model's length scale "
    "and refuses models without an isotropic scalar one; predictions of "
    "embedded test features use the embedded neighbors they were found "
    "among.",
    ["inputs", "configurations", "histories"],
    "all features, embeddings, responses, length scales, noise and scale "
    "values",
    "Tests train one network on random data and bound its error; a stale "
    "length scale or neighborhood passes.",
    ["src/MuyGPyS/torch/muygps_layer.py",
     "src/MuyGPyS/torch/multivariate_muygps_layer.py",
     "src/MuyGPyS/examples/muygps_torch.py", G + "kernels/kernel_fn.py"],
    [("forward pass", "src/MuyGPyS/torch/muygps_layer.py"),
     ("model refresh", G + "muygps.py")],
    "up to 3 batch elements, 3 neighbors, 3 responses, and one at a time up "
    "to 40, 17 and 12; torch",
)
prop(
    "C20", "Mini-batch optimization fits each epoch's batch and neighborhoods",
    "In every epoch the optimizer is given the leave-one-out objective of "
    "that epoch's batch (distinct training points, or all of them) given "
    "their neighbors, which are found among the features divided by the best "
    "length scales so far when the model is anisotropic. The stored values "
    "are probed first, and again with all previous bests if asked to; the "
    "optimizer is kept or replaced as asked. The result is a new model at "
    "the best point, with the scale of the last batch, the lookup of the "
    "training features and the true counts of probes and steps; the "
    "original model stays as it was.",
    ["inputs", "configurations", "histories"],
    "all features, targets, stored values and candidates; every choice of the "
    "best point",
    "Tests run one epoch of an isotropic model and bound an error.",
    [O + "experimental/chassis.py", "src/MuyGPyS/neighbors.py",
     O + "objective.py"],
    [("epochs, probes and neighborhoods", O + "experimental/chassis.py")],
    "up to 3 epochs, 4 training points, 2 neighbors; numpy",
)
prop(
    "C21", "Calls leave their arguments alone and objects share no state",
    "For all values, no public function changes the arrays passed to it or "
    "those an earlier call returned. Kernels and models built with default "
    "or with the same given parameters are independent: setting parameters "
    "of one, or its scale, changes neither the others, nor the parameter "
    "objects passed in, nor the defaults of later ones; a deep copy that "
    "was rebuilt is independent of its original. A model whose kernel "
    "parameters were set predicts means and variances with the new values "
    "at once.",
    ["inputs", "configurations", "histories"],
    "all features, targets, differences, covariances, hyperparameter values",
    "Tests build each object once and read its results once; shared or "
    "overwritten state shows only in later calls.",
    [G + "muygps.py", G + "kernels/", G + "hyperparameter/scalar.py", SG,
     SO + "loss/", G + "noise/"],
    [("defaults", G + "muygps.py"),
     ("default deformations", G + "kernels/rbf.py"),
     ("copies of parameters", G + "hyperparameter/scalar.py"),
     ("arithmetic on arguments", SG)],
    "up to 3 batch elements, 3 neighbors; the bounds of C01 to C20 for the "
    "arguments of the calls they make",
)
prop(
    "C22", "Regression and classification workflows use the model they return",
    "For all features and responses, a regression workflow predicts every "
    "test point with the returned model from that point's nearest training "
    "points. A model with free parameters is optimized once, on distinct "
    "training points and their own neighbors and responses, and then "
    "rescaled on the same batch; a model without is left as it is. A "
    "classifier gives a test point the class all its neighbors share and "
    "otherwise the posterior mean of their one-hot labels, is trained on "
    "points with mixed neighborhoods, and reports counts and accuracies of "
    "ambiguous predictions as defined.",
    ["inputs", "configurations", "histories"],
    "all features, targets, predictions and parameters; all labelings",
    "Tests run workflows on one data set and bound an error.",
    ["src/MuyGPyS/examples/regress.py", "src/MuyGPyS/examples/classify.py",
     "src/MuyGPyS/examples/from_indices.py",
     "src/MuyGPyS/examples/two_class_classify_uq.py",
     "src/MuyGPyS/neighbors.py", O + "batch.py"],
    [("regression", "src/MuyGPyS/examples/regress.py"),
     ("classification", "src/MuyGPyS/examples/classify.py"),
     ("uncertainty", "src/MuyGPyS/examples/two_class_classify_uq.py")],
    "up to 4 training and 3 test points, 3 neighbors, 3 classes; numpy",
)
prop(
    "C23", "Torch predictions and losses carry their gradients",
    "With the torch backend, differentiating a prediction or a loss gives its "
    "true derivative, finite also where points coincide (as every point does "
    "with itself): of layer means and variances, of fast coefficients and "
    "means, of every loss and of the leave-one-out objective, by features, "
    "targets, predictions, variances, scales, noise and isotropic length "
    "scales. Nothing on the way is detached, copied out of the graph or "
    "replaced by a number, in the first call or in later ones.",
    ["inputs", "histories"],
    "all features, targets, parameters, predictions and variances",
    "Tests train for a few steps and bound an error; a lost gradient only "
    "trains worse.",
    ["src/MuyGPyS/torch/muygps_layer.py",
     "src/MuyGPyS/torch/multivariate_muygps_layer.py",
     "src/MuyGPyS/_src/gp/tensors/torch.py",
     "src/MuyGPyS/_src/gp/muygps/torch.py",
     "src/MuyGPyS/_src/gp/kernels/torch.py",
     "src/MuyGPyS/_src/gp/noise/torch.py",
     "src/MuyGPyS/_src/optimize/loss/torch.py",
     "src/MuyGPyS/gp/muygps.py", O + "loss.py"],
    [("layers", "src/MuyGPyS/torch/muygps_layer.py"),
     ("losses", "src/MuyGPyS/_src/optimize/loss/torch.py"),
     ("distances", "src/MuyGPyS/_src/gp/tensors/torch.py")],
    "batches up to 3, 2 neighbors, 3 features, 3 responses (losses: "
    "20 and 9); torch",
)
