"""How each property is decided (for DESIGN.md)."""

HOW = {
"C01": "The tensor functions and deformations run on symbolic features; each "
"output entry is compared with the difference or distance of the points its "
"indices name, computed by the harness from the input terms.  Index arrays are "
"fixed patterns (repeats, unit sizes, as many queries as training points) and, "
"in one case, symbolic (paths fork on their values).",
"C02": "The kernels run on symbolic distances or on tensors made from symbolic "
"features; the oracle is the closed form written over the harness's terms.  For "
"general smoothness gamma and K are uninterpreted, so the code must apply them "
"to equal arguments.  Stored and overriding hyperparameters are both symbolic, "
"for every subset overridden.",
"C03": "Covariances are symbolic and the oracle is Kcross (K+eps)^-1 y with the "
"same opaque inverse entries; equal systems normalise to equal terms, different "
"ones are separated by Z3 with A X = I, or by exact inverses.",
"C04": "As C03 for the Schur complement; the range claim uses K = L L^T with a "
"symbolic Cholesky factor.  Histories interleave variance queries, scale "
"optimizations and objective construction on one model.",
"C05": "Entrywise comparison of the perturbed tensors; rejection of negative "
"values is a goal on each forked path.",
"C06": "Coefficients and fast means against products written from the neighbour "
"table; the table update also with symbolic tables.  The drivers run with the "
"neighbour search stubbed by a fixed table.",
"C07": "The multivariate methods against the univariate ones built from the "
"same hyperparameters, run in the same symbolic execution (a differential "
"goal), before and after scale optimization.",
"C08": "Each loss against its formula written term by term; log and exp are "
"atoms, log-softmax uses exp laws.",
"C09": "The objective is evaluated at a symbolic point and compared with a loss "
"computed by the harness from its own kernel, noise, solve and scale formulas; "
"then again for a second and third point, with the model's values checked to be "
"unchanged.",
"C10": "The optimizer stub evaluates the function it is given at the start and "
"at one arbitrary symbolic point and returns either; goals: start, bounds, "
"value of the function at the points, values of the returned model and its "
"predictions, and the original model.",
"C11": "Construction, update and listing of hyperparameters with symbolic "
"values and bounds; each accepted or rejected path carries its goal.  Sampling "
"uses a stub whose answer is any number in the interval it is asked for.",
"C12": "As C03 for the quadratic forms; sampled neighbour sets are symbolic "
"choices of the stub, medians fork on the order of the values.",
"C13": "Each rank's tensor is compared with a slice of the harness's serial "
"formula; the slices must be consecutive, complete and balanced.  The sizes are "
"also decided for a symbolic element count.  A blocked or mismatched "
"collective is a failure.",
"C14": "The distributed functions run on the ranks' pieces of one symbolic "
"serial input and every rank's result is compared with the serial formula.",
"C15": "The search library is a stand-in that sorts the training points by "
"their symbolic distances and breaks ties by a symbolic priority, so every "
"order of coinciding or equidistant points is a path; goals compare the "
"returned points with all others.  Some numeric runs use the real "
"scikit-learn, which validates the stand-in.",
"C16": "Labels are symbolic integers, random choices are symbolic picks; "
"each path is one sample and the goals are counting formulas over the labels.",
"C17": "Knots, features and values are symbolic; the oracle interpolates with "
"the inverse of its own upper kernel matrix and divides distances by the "
"result, one element at a time.  The objective and optimizer stub are those "
"of C09 and C10.",
"C18": "The oracle differentiates the squared exponential by the Hermite "
"recurrence for each pair of symbolic points; entries must agree as "
"polynomials times the same exponential.  A user-defined loss records the "
"predictions, covariances and scale that the objective passes on.",
"C19": "Layers are called over symbolic features, then again after the "
"trained parameter is overwritten in place and the batch replaced; the "
"embedding is a symbolic matrix and the neighbor lookup a stand-in that "
"records its queries.",
"C20": "The Bayesian optimizer is a stand-in that evaluates its probes and "
"one symbolic point and reports any of them as the best; neighbor search is "
"a stand-in whose answers depend on which index is asked, and which checks "
"the symbolic points it indexes.",
"C21": "The harnesses of C01 to C20 are run again with their own goals "
"switched off; every array they handed to the package must still hold the "
"terms it held.  Pipelines, defaults, shared parameters, copies and updates "
"have harnesses of their own, judged by the oracles of C01 to C04 and C18.",
"C22": "The workflows run over symbolic features with a stand-in for the "
"search that recognises the symbolic point it is asked about, and a "
"user-written optimizer that checks the tensors it is given and returns a "
"model with other symbolic parameters.  Labels are symbolic integers; every "
"labeling is a path.",
"C23": "While the real functions run, the torch stand-in adds a fresh "
"unknown to every value that leaves the graph (detach, item, float, a copy "
"by tensor(), a new Parameter, anything computed under no_grad) and depends "
"on what is differentiated, and asks the solver whether a square root's "
"argument can be zero.  The results must equal those of an undisturbed run "
"of a fresh model for all unknowns: then the derivative automatic "
"differentiation computes is that of the function.  The replay compares "
"torch's gradients with central differences.",
}
