VG = 'static value-graph (gated SSA) normal forms of MIR, compared with the required forms'
TRUST = 'Trusts rustc, the MIR exporter, the stated meaning of library functions, and reading floats as reals.'
PROPS = []
NA = []


def P(id, title, statement, over, quant, tests, files, mech, technique=VG, level='proof', note='', **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                      technique=technique, level=level, note=(note + ' ' if note else '') + TRUST, **k))


def N(id, title, statement, over, quant, tests, files, mech, reason, **k):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, reason=reason, **k))


P('P01', 'Shuffles are uniform permutations and reservoir samples are uniform subsets',
  'Shuffling a sequence, copied or in place, yields every ordering of its elements with equal probability: nothing is lost, duplicated or invented, for every length including zero and one. '
  'Sampling k of n elements returns k distinct positions of the pool, every k-subset with equal probability, for all 0 <= k <= n, and asking for more elements than there are is refused by a panic. '
  'No length makes these functions panic or read unset memory.',
  ['inputs', 'configurations'], 'every length n >= 0, every sample size k, every sequence of random draws',
  'The tests shuffle one ten-element array and check membership only; probabilities, small and large lengths, k = 0 and k = n are never looked at.',
  ['src/learning/toolkit/rand_utils.rs'], [('reservoir_sample', 'src/learning/toolkit/rand_utils.rs'), ('fisher_yates', 'src/learning/toolkit/rand_utils.rs'), ('in_place_fisher_yates', 'src/learning/toolkit/rand_utils.rs')],
  note='Loop folds (draw range, index, value, rounds) equal those of the textbook algorithms; other folds are refuted by their exact distribution at small lengths and by divisibility at larger ones.')
P('P02', 'Activation functions, gradients and inverses belong together',
  'For every activation function the gradient is the derivative of the function, the gradient computed from the output agrees with the gradient computed from the input, and the inverse undoes the function, at every point of the domain. '
  'The sigmoid, linear, exponential and hyperbolic tangent activations are the functions they are named after. No input makes any of them panic.',
  ['inputs'], 'every real input of each of the four functions of every activation',
  'No stable test evaluates an activation function at all; sampling points could not establish an identity of functions.',
  ['src/learning/toolkit/activ_fn.rs'], [('ActivationFunc implementations', 'src/learning/toolkit/activ_fn.rs')],
  note='Identities of real functions decided on normal forms, all inputs.')
P('P03', 'Probability distributions: density, log density, cdf and samples agree',
  'For a Gaussian built from mean and variance, from mean and standard deviation, or by default, the density is the normal density of those parameters, the log density is its logarithm, the cdf is within 0.004 of the normal cdf, and a sample is the mean plus the standard deviation times one standard normal variate drawn from the caller\'s generator. '
  'For an exponential with rate l the density is l exp(-lx), the log density its logarithm, the cdf 1-exp(-lx), all three refuse negative points, and a sample is one unit exponential variate divided by l. '
  'The mathematical constants the module exposes are the true ones to double precision.',
  ['inputs', 'configurations'], 'every mean, every positive scale or rate, every point, every generator state',
  'The doc tests look at one or two points of one or two parameter sets; samplers are not tested.',
  ['src/stats/dist/gaussian.rs', 'src/stats/dist/exponential.rs', 'src/stats/dist/mod.rs'],
  [('Gaussian', 'src/stats/dist/gaussian.rs'), ('Exponential', 'src/stats/dist/exponential.rs'), ('Distribution', 'src/stats/dist/mod.rs')])
P('P04', 'Finite inputs never produce NaN or a value outside the mathematical range',
  'For every finite input the activation functions and their gradients return a number, never NaN, and stay in their range: the sigmoid in [0,1] and its gradient in [0,1], the hyperbolic tangent in [-1,1] and its gradient in [0,1], the exponential at least 0. '
  'For every finite point and moderate parameters a density is at least 0, a cumulative probability lies in [0,1] and neither is NaN. Log densities stay finite where the parameters are moderate, even where the density itself underflows to 0.',
  ['inputs', 'configurations'], 'every finite double, overflow and underflow included',
  'The stable tests evaluate nothing beyond a few points near 0; overflow and underflow need extreme inputs.',
  ['src/learning/toolkit/activ_fn.rs', 'src/stats/dist/gaussian.rs', 'src/stats/dist/exponential.rs'],
  [('activation functions', 'src/learning/toolkit/activ_fn.rs'), ('Gaussian', 'src/stats/dist/gaussian.rs'), ('Exponential', 'src/stats/dist/exponential.rs')],
  technique='static interval analysis with a NaN flag over MIR', note='Interval domain with outward rounding, value numbering and branch refinement; covers the whole finite range by subdivision.')
P('P05', 'Each cost function is the mean entry loss and its gradient belongs to it',
  'The mean squared error of outputs against targets is half the sum of squared differences divided by the number of rows (or elements of a vector), the cross entropy is minus the sum of t ln o + (1-t) ln(1-o) divided by the same number. '
  'The gradient of either, for matrices and vectors, has in every entry the derivative of that entry\'s loss by its output.',
  ['inputs'], 'all shapes and all real entries (strictly between 0 and 1 for the cross entropy)',
  'No stable test evaluates a cost function; the gradient identity is a statement about every entry of every shape.',
  ['src/learning/toolkit/cost_fn.rs'], [('CostFunc implementations', 'src/learning/toolkit/cost_fn.rs')])
P('P06', 'Regularization cost and gradient are the stated penalties',
  'For every weight matrix and coefficient, the L1 cost is x times the sum of absolute weights over twice the rows and its gradient the sign of each weight times x over twice the rows; the L2 gradient is x times each weight over the rows and the L2 cost the matching penalty. '
  'The elastic net is the L1 term with its first coefficient plus the L2 term with its second, and no regularization means cost 0 and a zero gradient of the same shape.',
  ['inputs', 'configurations'], 'all shapes, all real weights and coefficients, every variant',
  'The stable tests do not compile this module; its own tests look at one 3 x 4 matrix.',
  ['src/learning/toolkit/regularization.rs'], [('Regularization::reg_cost', 'src/learning/toolkit/regularization.rs'), ('Regularization::reg_grad', 'src/learning/toolkit/regularization.rs')],
  note='Known finding: the L2 cost uses the norm, not its square.')
P('P07', 'Kernels compute their documented formula and are symmetric',
  'Linear, polynomial, squared exponential, exponential, hyperbolic tangent, multiquadric and rational quadratic kernels, built with any parameters or by default, return the documented function of the two points, for every dimension. '
  'Exchanging the two points never changes the value. Adding or multiplying two wrapped kernels gives the sum or product of their values.',
  ['inputs', 'configurations'], 'all parameters, all dimensions, all real points',
  'No stable test evaluates a kernel.',
  ['src/learning/toolkit/kernel.rs'], [('Kernel implementations', 'src/learning/toolkit/kernel.rs'), ('KernelArith', 'src/learning/toolkit/kernel.rs')])
P('P08', 'Generalised linear models: link, variance, weights and prediction fit together',
  'Each link function has as gradient its derivative and as inverse its inverse; each family pairs with its canonical link, and its starting means lie strictly inside the domain of that link for every target the family admits. '
  'Away from the degenerate means the working weight of a mean u is 1/(Var(u) g\'(u)^2) and the adjustment g\'(u)(y-u), for the shipped families and for a family that only states its variance and link. '
  'A trained model predicts the inverse link of the intercept plus the weighted inputs, row by row.',
  ['inputs', 'configurations'], 'all data lengths, all means strictly inside the domain, all families, all input shapes',
  'No stable test compiles the module; its own tests train on two small data sets.',
  ['src/learning/glm.rs'], [('LinkFunc and Criterion implementations', 'src/learning/glm.rs'), ('GenLinearModel::predict', 'src/learning/glm.rs')],
  note='The family Binomial cannot be constructed by a user and is left out.')
P('P16', 'Training a generalised linear model is reweighted least squares',
  'For every family the trained coefficients are those of at most eight rounds of iteratively reweighted least squares: the working response starts as the link of the family\'s starting mean, every round solves X\'WX b = X\'Wz for the inputs X after a column of ones with the weights of the current mean, '
  'then takes as mean the inverse link of Xb and as response Xb plus the adjustment of that same mean; a round that moves the coefficients by less than 1e-10 in total ends the training. '
  'Inputs and targets of different length and a singular weighted system are reported as errors, never as a panic, and leave the model as it was; an untrained model refuses to predict.',
  ['inputs', 'configurations', 'histories'], 'every family, all data shapes and values, every earlier state of the model',
  'No stable test compiles the module; its own tests only check that two small trainings do not fail.',
  ['src/learning/glm.rs'], [('GenLinearModel::train', 'src/learning/glm.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='The methods of the family are uninterpreted and give one value per observation; which coefficients are fitted is compared where no weighted system is singular.')
P('P23', 'Neural network layers compute their output and its derivatives',
  'A linear layer outputs the inputs, after a column of ones where it has a bias, times its parameters, and reports inputs with the wrong number of columns as an error. Its parameter gradient and input gradient are, entry by entry, the derivative of the outputs weighted with the given gradient; an activation layer applies its function to every entry and multiplies the gradient with the slope that belongs to the output. '
  'A layer has exactly as many starting parameters as its shape says, each its own normal draw with mean 0 and variance 2/(inputs + outputs).',
  ['inputs', 'configurations'], 'all layer sizes, row counts, parameters, inputs and gradients; the input gradient of a layer with bias at the listed shapes up to fifteen gradient entries, for all values',
  'The stable tests do not compile the module; its own tests only train whole networks.',
  ['src/learning/nnet/net_layer.rs'], [('NetLayer implementations', 'src/learning/nnet/net_layer.rs')],
  note='Activation functions are uninterpreted here (P02 decides them). The loop that drops the bias column from the input gradient is written out, so that one obligation is bounded: shapes 1x1 to 6x1, 1x2 to 5x2, 1x3, 1x4, 3x4.')
P('P09', 'Scores are the defining ratios and refuse malformed labels',
  'Accuracy is the number of equal positions (or equal rows) divided by the number of positions; precision, recall and f1 of 0/1 labels are TP/(TP+FP), TP/(TP+FN) and 2TP/(2TP+FP+FN); the regression score is minus the sum of squared errors divided by the rows. '
  'Sequences of different length, and labels other than 0 and 1 anywhere for the two-class scores, are refused by a panic, and nothing else is.',
  ['inputs'], 'all lengths, all label sequences, all matrices',
  'No stable test compiles the module; its own tests look at one or two label vectors.',
  ['src/analysis/score.rs'], [('accuracy', 'src/analysis/score.rs'), ('precision', 'src/analysis/score.rs'), ('recall', 'src/analysis/score.rs'), ('f1', 'src/analysis/score.rs'), ('neg_mean_squared_error', 'src/analysis/score.rs')])
P('P10', 'Linear and logistic regression: objective, gradient, training and prediction',
  'The objective a linear or logistic regression hands to an optimiser has as gradient the derivative of its cost by every parameter, the cost being half the mean squared error or the mean cross entropy of the sigmoid outputs. '
  'Closed form linear training stores the solution of the normal equations of the inputs after a column of ones, reports a singular system as an error and then leaves the earlier parameters as they were; logistic training stores what the optimiser returns for those inputs, and training by gradient descent what the descent reaches from zero. '
  'Prediction is the intercept plus the weighted inputs, through the sigmoid for the logistic model, for every row.',
  ['inputs', 'histories'], 'all shapes, all real data, any optimiser, any earlier state of the model',
  'No stable test compiles the modules; their own tests train on three or four rows.',
  ['src/learning/lin_reg.rs', 'src/learning/logistic_reg.rs'], [('LinRegressor', 'src/learning/lin_reg.rs'), ('LogisticRegressor', 'src/learning/logistic_reg.rs')])
P('P12', 'Cross validation tests every row exactly once on a model that did not see it',
  'With k folds of n rows the shuffled rows are cut into k consecutive folds, n % k of them one row larger: in round i the model is trained on the inputs and targets of every row outside fold i and no other, and its predictions of fold i are scored against the targets of fold i, the i-th score returned. '
  'Inputs and targets always stay paired, for any model and score. Fewer than two folds, more folds than rows, and inputs and targets of different length are refused by a panic, and a training or prediction that fails in any round is reported as an error.',
  ['inputs', 'configurations'], 'every n >= k >= 2, every width of inputs and targets, every shuffle, model and score',
  'No stable test compiles the module; its own tests enumerate folds for four sizes and never train.',
  ['src/analysis/cross_validation.rs', 'src/learning/toolkit/rand_utils.rs'], [('k_fold_validate', 'src/analysis/cross_validation.rs')],
  note='The model is an uninterpreted one that records what it was last trained on (k_fold_validate is generic in it).')
P('P13', 'Fitted scalers map data to the requested range and back, or refuse it',
  'A min-max scaler fitted to data maps each column linearly so that the smallest value becomes the requested minimum and the largest the requested maximum; a standardizer maps a column to the requested mean and standard deviation; the normalizer divides every row by its norm, leaving rows of norm zero alone. '
  'Applying the inverse of a fitted scaler undoes it, entry by entry, and neither direction alters the scaler; the default fitters are those for 0 and 1. '
  'Data that is not finite, constant columns (min-max), fewer than two rows (standardizer) and matrices of another number of columns are reported as an invalid-data error, never by a panic.',
  ['inputs', 'configurations'], 'every shape of the fitted and of the transformed matrix, every real entry, every requested range',
  'No stable test compiles the transformers; their own tests use one or two 2x2 matrices, none with an all-negative column or a single-element row.',
  ['src/data/transforms/minmax.rs', 'src/data/transforms/standardize.rs', 'src/data/transforms/normalize.rs'],
  [('MinMaxFitter / MinMaxScaler', 'src/data/transforms/minmax.rs'), ('StandardizerFitter / Standardizer', 'src/data/transforms/standardize.rs'), ('Normalizer', 'src/data/transforms/normalize.rs')],
  note='Real arithmetic; the largest finite number as starting value of the minimum is symbolic.')
P('P14', 'The shuffling transformer permutes whole rows uniformly with its own generator',
  'Shuffling a matrix returns one of the same shape whose rows are the rows of the input, each exactly once and with its entries unmixed, every order of the rows with equal probability. '
  'The only randomness consumed is that of the generator given to the shuffler, so a seeded shuffler is reproducible. No matrix, not even an empty one, is refused or makes it panic.',
  ['inputs', 'configurations'], 'every number of rows and columns, every sequence of random draws',
  'The module is not compiled by the stable tests; its own test shuffles one small matrix with a fixed seed.',
  ['src/data/transforms/shuffle.rs'], [('Shuffler::transform', 'src/data/transforms/shuffle.rs')])
P('P15', 'Optimizers follow their published update rule and stopping rule',
  'Gradient descent, stochastic descent with Nesterov momentum, AdaGrad and RMSProp return the parameters their published update rule gives for any objective: each round every row is visited once in a fresh uniformly random order with its own target, state (velocity, gradient averages) is carried across rows and rounds, and a round whose mean cost differs from the previous by less than the threshold ends the run. '
  'No more than the configured number of rounds is made, zero rounds return the starting point, and the default settings are the documented ones. '
  'The constructors refuse by a panic exactly the settings outside their documented range.',
  ['inputs', 'configurations', 'histories'], 'every objective, starting point, data, number of rounds and admissible setting, every sequence of random draws',
  'The stable tests do not compile the module; its own tests check constructors and a one-parameter parabola within a tolerance.',
  ['src/learning/optim/grad_desc.rs', 'src/learning/toolkit/rand_utils.rs'], [('OptimAlgorithm implementations', 'src/learning/optim/grad_desc.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='compute_grad is uninterpreted and returns one derivative per parameter; the mean cost is taken over at least one row.')
P('P11', 'The confusion matrix counts every sample once in its class pair',
  'Entry (i, j) of the confusion matrix is the number of samples whose target is the i-th label and whose prediction is the j-th, for every label type and every sequence. '
  'Without given labels the rows and columns are the distinct labels of predictions and targets in increasing order; with given labels they are those in the given order and samples with any other label are left out. '
  'Different lengths and repeated given labels are refused by a panic, and nothing else is.',
  ['inputs'], 'every length, every label sequence, given labels or none',
  'No stable test compiles the module; its own tests look at four small sequences.',
  ['src/analysis/confusion_matrix.rs'], [('confusion_matrix', 'src/analysis/confusion_matrix.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run')
P('P19', 'Gaussian process: posterior of the training data, refused before training',
  'A Gaussian process trained on inputs X and targets y predicts at any query the mean function plus K(q, X)(K(X, X) + noise I)^-1 (y - mean(X)), and its posterior covariance is K(q, q) - K(q, X)(K(X, X) + noise I)^-1 K(X, q), for every kernel, mean function, noise and data. '
  'A kernel matrix without Cholesky factor and queries of another width are reported as errors, and so is any prediction before training. '
  'Training replaces all that was learnt earlier, and a failed training changes nothing.',
  ['inputs', 'configurations', 'histories'], 'all shapes, all real data and noise, any symmetric kernel, any mean function, any earlier state of the model',
  'No stable test compiles the module; its own tests are two constructions and one doc example.',
  ['src/learning/gp.rs'], [('GaussianProcess', 'src/learning/gp.rs'), ('ConstMean', 'src/learning/gp.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='The triangular solves of a Cholesky factor are taken to succeed.')
P('P20', 'Support vector machine: Pegasos training and its decision rule',
  'Training a support vector machine runs kernelised Pegasos: in round t (from 1) one row is drawn uniformly and its coefficient raised by one exactly if its margin under the current coefficients, divided by lambda t, is below one. '
  'Prediction is the sign of the kernel expansion over the training rows with those coefficients and targets, with a leading one added to every row, for any kernel, lambda > 0, number of rounds and data. '
  'Prediction before training and queries of another width are reported as errors, training always succeeds on at least one row and replaces what was learnt earlier.',
  ['inputs', 'configurations', 'histories'], 'all shapes, all real data, any symmetric kernel, any number of rounds, every sequence of draws, any earlier state',
  'No stable test compiles the module, and it has no tests of its own beyond one doc example.',
  ['src/learning/svm.rs'], [('SVM', 'src/learning/svm.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='The training rule was repaired (fix commit).')
P('P17', "k-means: Lloyd's iteration from the chosen start, nearest-centroid prediction",
  "Training runs Lloyd's iteration from the matrix the initialiser returns: assign every row to the first nearest centroid, move each centroid to the mean of its rows (a class without rows keeps its centroid), at most the configured number of times, stopping once the total cost repeats; a prediction is the index of the first nearest centroid. "
  'Forgy starts from distinct uniformly drawn rows, random partition from the means of a uniform partition without empty classes, k-means++ from a uniform row followed by rows drawn with the squared distance to the nearest centroid as weight. '
  'More classes than rows, a start of the wrong shape, a failing initialiser, data without enough different rows and prediction before training are reported as errors, a refused training changes nothing and a retrained model forgets the earlier data.',
  ['inputs', 'configurations', 'histories'], 'all shapes, all real data, any initialiser, any number of classes and iterations, every sequence of draws, any earlier state',
  'No stable test compiles the module; its own tests train four points from fixed starts and look at error cases of the initialiser.',
  ['src/learning/k_means.rs'], [('KMeansClassifier', 'src/learning/k_means.rs'), ('Initializer implementations', 'src/learning/k_means.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='Empty classes and too few different rows were repaired (fix commits).')
P('P18', 'Naive Bayes: smoothed estimates per class, first most probable class predicted',
  'Training gives every class the distribution of exactly its rows, a row belonging to the column of the first entry of its target that is 1, and as prior its share of the rows; the Gaussian uses sample mean and variance per feature, the Bernoulli and multinomial Laplace smoothing. '
  'The log probability of a query is log prior plus log likelihood, minus infinity for a class without rows; the prediction has a one in the column of the first most probable class and zeros elsewhere. '
  'A target row without a 1, a distribution that refuses its rows and prediction before training are reported as errors, a refused training changes nothing and a retrained model forgets the earlier data.',
  ['inputs', 'configurations', 'histories'], 'all shapes, all real data, any class distribution, any target matrix, any earlier state',
  'No stable test compiles the module; its own tests train a few points of two classes and look at the predictions.',
  ['src/learning/naive_bayes.rs'], [('NaiveBayes', 'src/learning/naive_bayes.rs'), ('Distribution implementations', 'src/learning/naive_bayes.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR, compared with those of a reference implementation that is never run',
  note='Failed retraining and classes without rows were repaired (fix commits).')
P('P21', 'Gaussian mixtures: posterior probabilities, maximisation and EM iteration',
  'The prediction of a query is the posterior probability of each component: mixture weight times normal density with its mean and covariance, over the sum of these. '
  'Training draws distinct rows as means and the sample covariance as covariances, then alternates posterior and maximisation (mean responsibilities, weighted means, weighted covariances around the new means, diagonal ones without the other entries, regularized ones with the constant added to the diagonal) until the log-likelihood stands still or the iterations are used up. '
  'A single row, bad mixture weights, a singular covariance and prediction before training are reported as errors.',
  ['inputs', 'configurations'], 'all shapes, all real data, any weights, means and invertible covariances, any number of components, every draw of the rows; two rounds of the iteration',
  'No stable test compiles the module; its own tests look at untrained models and refused weights.',
  ['src/learning/gmm.rs'], [('GaussianMixtureModel', 'src/learning/gmm.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR against closed forms; the rounds of training against the two halves of a round taken as uninterpreted functions',
  note='The starting covariances of the diagonal kind are left open. The handling of singular covariances and of the regularization constant was repaired (fix commits).')
P('P22', 'Principal components: projection on the singular vectors of the centred data',
  'Training keeps the right singular vectors of the data, minus its column means when centring is asked for, and only the first n of them when n is given; a prediction is the query, minus the same means, times these vectors. '
  'This holds for data with more columns than rows as well, and a retrained model depends on the latest data only. '
  'Asking for more components than columns, a failing decomposition, a query of another width and use before training are reported as errors, and a refused training changes nothing.',
  ['inputs', 'configurations', 'histories'], 'all shapes, all real data, any number of components, any earlier state',
  'No stable test compiles the module; its own tests compare a few matrices with recorded results.',
  ['src/learning/pca.rs'], [('PCA', 'src/learning/pca.rs')],
  technique='static value-graph (gated SSA) normal forms of MIR against closed forms over an uninterpreted singular value decomposition',
  note='Wide data, retraining and failing decompositions were repaired (fix commits).')
