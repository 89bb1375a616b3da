NA = {}
NOTES = ("One Go harness (module in /verif/harness, linked against /repo through a replace directive; exported API only, no hooks "
         "in /repo) runs every check: generated workloads execute the real code, monitors compare what is observed with shadow "
         "models. check.sh rebuilds it from /repo's working tree each time (plain, -race or -asan builds as a check needs). "
         "known-findings.txt holds the recorded defects and the repaired ones.")
LVL = ("exploration of generated executions, seeded and repeatable; assurance is limited to the cases run. Trusted: the Go tool "
       "chain and this harness's independent reference models. ")

prop('C01', 'Dense grids return exactly what was stored',
     'A dense grid built through the public API returns, for every row and attribute, exactly the value last stored there (zero if nothing was stored), whatever the mix of float, categorical and binary attributes, the grouping of attributes, the order and number of Extend calls and the choice of class attributes; storing one cell never changes another. Schema changes that would disturb existing storage are refused without effect, and a dense copy equals its source and shares nothing with it. Size, AllAttributes, AllClassAttributes, GetAttribute, Get and MapOverRows always agree with each other.',
     ['inputs', 'histories'], 'every schema and every history of schema, Extend, Set, Get and class-attribute operations',
     'The tests store a handful of cells in two or three fixed layouts; bit packing, growth in several steps and late schema changes only go wrong for particular combinations.',
     ['base/dense.go', 'base/fixed.go', 'base/binary.go', 'base/group.go', 'base/spec.go', 'base/data.go', 'base/conversion.go'],
     [('attribute groups with fixed-width or bit storage', 'base/fixed.go, base/binary.go'), ('schema, class set and Extend', 'base/dense.go')],
     ['DenseInstances.Get/Set/Extend/MapOverRows/Size', 'NewDenseCopy, NewStructuralCopy'],
     'runtime monitoring: random histories against a shadow table', LVL)

prop('C02', 'Views show exactly the mapped rows and attributes',
     'A view of a grid, or a stack of views, shows exactly the rows and attributes it was built from: reading a cell through the view yields the cell of the mapped row of the source, and Size, AllAttributes, AllClassAttributes, GetAttribute, Get, MapOverRows and RowString agree with each other about that. Attributes outside the view cannot be resolved through it, class attributes added to or removed from the view affect only the view, and building or using a view never changes the source.',
     ['inputs', 'configurations'], 'every source grid and every stack of row maps (also non-injective), row masks and attribute selections',
     'The tests look at three views of the iris data; mapping errors appear only with particular maps, stacking and grouping.',
     ['base/view.go', 'base/util_instances.go'],
     [('row map, attribute map and class map of the view', 'base/view.go')],
     ['InstancesView methods', 'NewInstancesViewFromRows, NewInstancesViewFromVisible, NewInstancesViewFromAttrs'],
     'runtime monitoring: stacked views against a shadow table', LVL)

prop('C03', 'Filtered grids show the filter applied to exactly the chosen columns',
     'A lazily filtered grid shows, for every row, the filter\'s transformation of the columns the filter was applied to and the unchanged values of every other column, under the attributes the filter declares, and Get and MapOverRows agree. The class attributes of the filtered grid are those made from the source\'s class attributes, the row count is unchanged, and reading never changes the source.',
     ['inputs', 'configurations'], 'every source grid, every filter and choice of filtered attributes, and stacks of filters',
     'The tests apply three filters to two data sets and mostly look at the first rows.',
     ['base/filtered.go', 'filters/binary.go', 'filters/float.go'],
     [('translation of attributes old to new', 'base/filtered.go')],
     ['LazilyFilteredInstances.Get/MapOverRows/AllAttributes/AllClassAttributes/Size'],
     'runtime monitoring: recording filters and shadow tables', LVL)

prop('C04', 'Sorting orders rows by value and keeps every row intact',
     'Sorting a grid on any list of attributes, ascending or descending, eagerly or lazily, yields a grid whose rows are in lexicographic order of those attributes\' values (numeric order for floats including negative, tiny, huge and infinite ones; value-index order for categoricals; false before true for binaries) and which holds exactly the original rows, whole, each once. Lazy sorting leaves the source grid untouched.',
     ['inputs'], 'every grid without NaN keys, every list of sort attributes and both directions',
     'The tests sort the (positive) iris columns; order by value for signs, magnitudes and mixed key kinds is not sampled.',
     ['base/sort.go', 'base/lazy_sort_test.go', 'base/util.go'],
     [('radix sort over order-preserving byte keys', 'base/sort.go')],
     ['Sort, LazySort'],
     'runtime monitoring: order and row-conservation monitor', LVL)

prop('C05', 'Shuffling, splitting, sampling and decomposing lose or invent nothing',
     'Shuffling (eager or lazy) yields a permutation of the whole rows; a train/test split puts every row in exactly one of the two parts; sampling with replacement yields exactly the requested number of rows, each a whole row of the source; decomposing on attribute or class values yields parts that together hold every row exactly once, each part holding only rows with its value and without the decomposed attribute. None of the non-in-place operations changes the source grid.',
     ['inputs', 'histories'], 'every grid or view, every size and split proportion, every sequence of random numbers',
     'The tests run a few seeds on iris and check sizes more than contents.',
     ['base/util_instances.go'],
     [('row maps over a source grid', 'base/util_instances.go')],
     ['Shuffle, LazyShuffle, InstancesTrainTestSplit, SampleWithReplacement, DecomposeOnAttributeValues, DecomposeOnNumericAttributeThreshold'],
     'runtime monitoring: row-identity conservation monitor', LVL)

prop('C10', 'Class distributions count every row exactly once',
     'The class distribution of a grid maps each class value to the number of rows that carry it, for categorical, binary and float classes and for rows seen through views or split on another attribute; the counts add up to the number of rows. Distributions after a split count exactly the rows of each branch.',
     ['inputs'], 'every grid or view with one class attribute',
     'The tests count one or two fixed data sets.',
     ['base/util_instances.go'],
     [('counting passes over MapOverRows', 'base/util_instances.go')],
     ['GetClassDistribution and its variants'],
     'runtime monitoring: counts against the shadow table', LVL)

prop('C11', 'Confusion matrices and metrics equal their definitions',
     'A confusion matrix counts, for each pair of reference class and predicted class, exactly the rows with that pair, whatever the order of values inside the two class attributes, and refuses grids of different length. Accuracy, true/false positives and negatives, precision, recall, F1, micro averages (over every row) and macro averages (over the classes present in the reference), cross-validated mean and variance, and the printed matrix and summary all equal their textbook definitions computed from the raw pairs.',
     ['inputs'], 'every pair of reference and prediction grids',
     'The tests use one 2x2 matrix.',
     ['evaluation/confusion.go'],
     [('counting over class values as text', 'evaluation/confusion.go')],
     ['GetConfusionMatrix, GetAccuracy, GetPrecision, GetRecall, GetF1Score, GetMicro*/GetMacro*, GetSummary, ShowConfusionMatrix, GetCrossValidatedMetric'],
     'runtime monitoring: metrics recomputed from raw pairs', LVL)

prop('C12', 'Cross validation tests every row exactly once on a model that never saw it',
     'Cross validation with k folds fits and evaluates k times; over the k folds every row is tested exactly once, in each fold the training rows are exactly the rows not tested in it, and each returned matrix is that of the fold\'s predictions against the true classes. A classifier error ends it with that error, and the data is not changed.',
     ['inputs', 'histories'], 'every grid or view, every number of folds from 2 up, every classifier',
     'The test runs one classifier on iris and looks only at the mean accuracy.',
     ['evaluation/cross_fold.go'],
     [('fold assignment and visible-row views', 'evaluation/cross_fold.go')],
     ['GenerateCrossFoldValidationConfusionMatrices'],
     'runtime monitoring: recording classifier, exactly-once log checker', LVL)

prop('C13', 'Pairwise distances and kernels equal their definitions',
     'Euclidean, Manhattan, Chebyshev, Canberra and cosine distance, the inner products, the RBF kernel and the polynomial kernel return the value of their mathematical definition for every pair of equally shaped vectors or matrices, stored contiguously or as slices of larger matrices; the four metrics are symmetric, zero exactly on equal arguments and obey the triangle inequality; arguments of different shape are refused by the metrics, and no argument is ever changed. The helpers that sort a map by value and make row matrices of slices and vectors keep every element.',
     ['inputs'], 'every pair of real vectors or matrices, every kernel parameter',
     'The tests evaluate each on one or two pairs of small positive vectors.',
     ['metrics/pairwise/euclidean.go', 'metrics/pairwise/manhattan.go', 'metrics/pairwise/chebyshev.go', 'metrics/pairwise/cranberra.go', 'metrics/pairwise/cosine.go', 'metrics/pairwise/rbf_kernel.go', 'metrics/pairwise/poly_kernel.go', 'utilities/utilities.go'],
     [('loops over the elements of two matrices', 'metrics/pairwise/*.go')],
     ['Distance, InnerProduct, Dot', 'utilities.SortIntMap, FloatsToMatrix, VectorToMatrix'],
     'runtime monitoring: values recomputed from the definition, metric axioms', LVL)

prop('C32', 'Matrices and data frames convert without changing a value',
     'A matrix seen as instances shows exactly its elements under one distinct float attribute per column, and obeys the same grid rules as dense instances (class attributes, MapOverRows, copies); rows of any grid converted to matrices hold exactly the values of the requested attributes in the requested order, and conversion of a non-float attribute is refused; a complete data frame of text, integer and float columns becomes a grid with the same rows and exact values and the chosen class column.',
     ['inputs'], 'every matrix, every grid or view and attribute order, every complete data frame',
     'The tests convert one iris data set and one small frame.',
     ['base/mat.go', 'base/conversion.go', 'base/dataframe_go.go'],
     [('element-wise copies between layouts', 'base/mat.go, base/conversion.go, base/dataframe_go.go')],
     ['InstancesFromMat64, Mat64Instances methods', 'ConvertRowToMat64, ConvertAllRowsToMat64', 'ConvertDataFrameToInstances'],
     'runtime monitoring: every value compared across the conversion', LVL)

prop('C33', 'Float and binary conversion filters encode exactly the original values',
     'A float or binary conversion filter turns a categorical attribute of more than two values into one attribute per value, of which exactly the one of the row\'s value is 1; a two-valued (or smaller) categorical into one attribute holding the value\'s index; binary attributes into 0/1 floats and back; floats under the float filter are unchanged and under the binary filter become 1 exactly when non-zero. Attributes not given to the filter pass through untouched, and every converted attribute can be traced to its source by name.',
     ['inputs', 'configurations'], 'every grid and every choice of attributes to convert',
     'The tests convert two fixed data sets and look at a few rows.',
     ['filters/float.go', 'filters/binary.go', 'base/filtered.go'],
     [('one-hot expansion', 'filters/float.go, filters/binary.go')],
     ['FloatConvertFilter, BinaryConvertFilter through LazilyFilteredInstances'],
     'runtime monitoring: every cell recomputed through the filtered grid', LVL)

prop('C06', 'CSV files are read and written without losing or changing values',
     'Reading a CSV file yields one row per data record and one attribute per column, named by the header (or the column number), float exactly when the column\'s first data field is a number and categorical otherwise, holding exactly the number or the trimmed text of each field (an empty field leaves the cell zero), with the last column as class; the template and attribute-group variants hold the same values under the template\'s or the requested attributes, groups and classes. Writing any grid, view or filtered grid as CSV and reading it back gives the same rows in the same order, the same columns with the class last, and every value to its attribute\'s precision, replacing whatever the file held. A writer that fails is reported; malformed, empty or missing files are errors, never panics.',
     ['inputs', 'fault_sequences'], 'every CSV text, every grid, every place a write can fail',
     'The tests read a few clean example files and write one small grid.',
     ['base/csv.go', 'base/filewrapper.go', 'base/serialize_instances.go', 'base/util_instances.go', 'base/view.go'],
     [('type sniffing and row building', 'base/csv.go'), ('CSV writing', 'base/serialize_instances.go')],
     ['ParseCSVToInstances, ParseCSVToTemplatedInstances, ParseCSVToInstancesWithAttributeGroups and their FromReader forms', 'SerializeInstancesToCSV, SerializeInstancesToCSVStream'],
     'runtime monitoring: cell-by-cell comparison with the generator\'s table, fault injection', LVL)

prop('C07', 'ARFF files are read and written without losing or changing values',
     'Reading a dense ARFF file yields one row per data line and one attribute per declaration, in order: real ones hold exactly the number written, nominal ones have exactly the listed values in the listed order and hold the value written, however keywords are capitalised and however the text is spaced, with comments and blank lines ignored and the last attribute as class. Writing any grid as ARFF and reading it back gives the same rows, attributes (in the requested order, or class last), nominal values and floats to their precision, replacing whatever the file held. Rows with too many or too few values, values outside the declaration, unsupported types and missing files are errors, never panics; a writer that fails is reported.',
     ['inputs', 'fault_sequences'], 'every ARFF text whose names and values need no quoting, every grid, every place a write can fail',
     'The tests read two example files and write one of them back.',
     ['base/arff.go'],
     [('declaration parser and data reader', 'base/arff.go'), ('ARFF writer', 'base/arff.go')],
     ['ParseDenseARFFToInstances, ParseARFFGetRows, ParseARFFGetAttributes', 'SerializeInstancesToDenseARFF and its WithAttributes and Writer forms'],
     'runtime monitoring: cell-by-cell comparison with the generator\'s table, fault injection', LVL)

prop('C08', 'Saved grids and classifier containers come back exactly, or as an error',
     'A grid (dense, view or filtered, of any size and mix of attributes) serialised in golearn\'s binary format and read back has exactly the same attributes (names, types, values, precision), class attributes, rows in order and cell bytes; so has everything put into a classifier container (bytes, numbers, JSON, attributes, attribute lists, grids with or without their data, metadata, under any prefix), in whatever order it is read. A truncated or corrupted file is refused with an error or read as what is there, never a crash; a key that was not written, a number that does not take eight bytes and a container of another format version are errors; a failing writer or a disk that fills up is reported; no file stays open once reader or writer is closed.',
     ['inputs', 'fault_sequences'], 'every grid, every container, every truncation or corruption, every place a write can fail',
     'The tests save two small data sets and read them back intact.',
     ['base/serialize.go', 'base/serialize_instances.go', 'base/serialize_attributes.go'],
     [('tar-in-gzip container with named members', 'base/serialize.go'), ('grid layout MANIFEST/DIMS/CATTRS/ATTRS/DATA', 'base/serialize_instances.go')],
     ['SerializeInstances, DeserializeInstances, SerializeInstancesToFile', 'CreateSerializedClassifierStub, ReadSerializedClassifierStub and their methods'],
     'runtime monitoring: byte-exact round trips, fault injection, open-file monitor', LVL)

prop('C09', 'Attributes, attribute sets and grid comparisons mean what they say',
     'An attribute turns text into a system value and back without loss (categoricals number their values by first appearance and never renumber, floats to their precision, binaries 0/1) and survives JSON serialisation exactly; malformed attribute JSON is an error, never a panic. Equals and Compatible compare exactly name, type and values; set intersection and difference, the non-class selections, attribute resolution (in the order asked), lookup by name, CheckCompatible, CheckStrictlyCompatible and InstancesAreEqual return what a set or table model says, also for grids equal up to column order or value numbering; prediction vectors and structural copies carry exactly the right attributes and rows; GetClass and SetClass read and write the class of the given row.',
     ['inputs'], 'every attribute, attribute list, JSON text, grid and pair of grids',
     'The tests check single fixed attributes and one or two grids.',
     ['base/attributes.go', 'base/categorical.go', 'base/float.go', 'base/binary.go', 'base/util.go', 'base/util_attributes.go', 'base/util_instances.go', 'base/serialize_attributes.go'],
     [('value numbering', 'base/categorical.go'), ('set operations', 'base/util_attributes.go'), ('JSON forms', 'base/serialize_attributes.go')],
     ['Attribute methods', 'AttributeIntersect, AttributeDifference, NonClassAttributes, ResolveAttributes', 'CheckCompatible, CheckStrictlyCompatible, InstancesAreEqual', 'SerializeAttribute, DeserializeAttribute', 'GetClass, SetClass, GeneratePredictionVector'],
     'runtime monitoring: results compared with set and table models', LVL)

prop('C14', 'Nearest-neighbour search over a k-d tree finds the true nearest rows',
     'A k-d tree built from any set of points answers every k-nearest query with k distinct rows, ordered by distance, whose distances are exactly the k smallest of all rows under the queried metric, for any query point and any supported distance. Building refuses empty input, rows of unequal length and a k outside the number of rows with an error, never a panic or an endless loop.',
     ['inputs'], 'every point set (ties, duplicates, collinear), every query, every k and distance',
     'The tests query one tree of a handful of points.',
     ['kdtree/kdtree.go', 'kdtree/heap.go'],
     [('recursive median build and branch-and-bound search', 'kdtree/kdtree.go'), ('bounded max-heap of candidates', 'kdtree/heap.go')],
     ['Tree.Build, Tree.Search'],
     'runtime monitoring: every answer compared with a scan over all rows', LVL)

prop('C15', 'KNN predictions follow from the true nearest neighbours',
     'The label KNN predicts for a row is the majority (or the distance-weighted majority) label of its k nearest training rows under the chosen distance, computed over the numeric non-class attributes both grids share, and is the same whether the optimised, the linear or the k-d tree path computes it; the regressor predicts the mean of the k nearest values. Inputs it cannot work with (no rows, k out of range, no numeric attributes, unknown distance, incompatible grid) are errors, never panics.',
     ['inputs', 'configurations'], 'every training and test grid, k, distance, algorithm, weighting and optimisation switch',
     'The tests classify iris-like data with two settings and check accuracy.',
     ['knn/knn.go', 'knn/knn_opt_euclidean.go', 'knn/knn_kdtree.go'],
     [('scan, optimised and tree neighbour search with voting', 'knn/*.go')],
     ['KNNClassifier.Fit/Predict', 'KNNRegressor.Fit/Predict'],
     'runtime monitoring: votes recomputed by an independent scan', LVL)

prop('C16', 'Binning and ChiMerge discretise values into the right interval',
     'The binning filter maps every float to the bin of the trained range it falls in (values outside the range to the nearest bin), with as many distinct labels as bins; the ChiMerge filter merges exactly the adjacent intervals whose class frequencies do not differ significantly, maps every value to the interval containing it and yields the same intervals however the rows or maps are ordered. Attributes not given to the filter, and the class, pass through unchanged.',
     ['inputs', 'configurations'], 'every grid, every number of bins, significance and interval limit, rows inside and outside the trained range',
     'The tests discretise one fixed file each.',
     ['filters/binning.go', 'filters/chimerge.go', 'filters/chimerge_funcs.go', 'filters/disc.go', 'base/filtered.go'],
     [('equal-width bins', 'filters/binning.go'), ('chi-squared interval merging', 'filters/chimerge.go, filters/chimerge_funcs.go')],
     ['BinningFilter, ChiMergeFilter through LazilyFilteredInstances'],
     'runtime monitoring: bins and intervals recomputed from the training column', LVL)

prop('C17', 'ID3 and random trees are the trees their training rows determine',
     'In a grown tree every node holds the class counts of exactly the training rows routed to it, predicts one of their most frequent classes, is split on an attribute and threshold of best gain (or gain ratio, or Gini) among those allowed and is a leaf only if nothing is left to split; a prediction is the class of the leaf the row is routed to. Pruning only replaces subtrees by leaves and never lowers the accuracy on pruning rows whose values the tree has branches for. Unusable inputs are errors, and neither training nor prediction changes the grids given.',
     ['inputs', 'configurations'], 'every training and test grid, split rule, number of random attributes and pruning share',
     'The tests grow trees on two data sets and compare a printed tree or an accuracy.',
     ['trees/id3.go', 'trees/gr.go', 'trees/gini.go', 'trees/entropy.go', 'trees/random.go'],
     [('recursive tree inference', 'trees/id3.go'), ('split rules', 'trees/gr.go, trees/gini.go, trees/entropy.go, trees/random.go')],
     ['ID3DecisionTree, RandomTree, InferID3Tree, DecisionTreeNode.Prune/Predict'],
     'runtime monitoring: every node recomputed from the rows that reach it', LVL)

prop('C18', 'CART trees are the greedy trees of their training rows',
     'In a fitted CART classifier or regressor every node splits the training rows that reach it at a threshold of best impurity decrease among all columns (Gini or entropy; mean squared or absolute error), predicts on each side the most frequent label or the mean of the rows going there, and goes on until rows are pure, the depth limit is reached or nothing can be gained. The prediction for a row is the label or value of the side it is routed to, in any grid with the same attributes. Unusable inputs (unknown criterion, no numeric columns, no rows, prediction before fitting) are errors, and the training grid is never changed.',
     ['inputs', 'configurations'], 'every numeric training and test grid, criterion and depth limit',
     'The tests grow trees on one or two data sets and check an accuracy or a printed string.',
     ['trees/cart_classifier.go', 'trees/cart_regressor.go', 'trees/cart_utils.go', 'trees/sorter.go'],
     [('incremental best-split search over sorted columns', 'trees/cart_classifier.go, trees/cart_regressor.go')],
     ['CARTDecisionTreeClassifier.Fit/Predict/Evaluate', 'CARTDecisionTreeRegressor.Fit/Predict'],
     'runtime monitoring: every node recomputed from the rows that reach it', LVL)

prop('C19', 'Isolation forest scores are the isolation scores of their rows',
     'The score an isolation forest gives a row is 2 to the power of minus its mean path length over the trees divided by the normalising constant of the sample size, where trees split on a random attribute at a random threshold until rows are isolated, equal or at the depth limit. Scores therefore lie between 0 and 1, depend on nothing but the forest and the values of the row, repeat exactly, and rank an isolated row above the bulk.',
     ['inputs', 'configurations'], 'every numeric grid, number of trees, depth limit and sample size',
     'The tests check on one data set that scores exist and separate two rows.',
     ['trees/isolation.go'],
     [('random isolation trees and path lengths', 'trees/isolation.go')],
     ['IsolationForest.Fit/Predict'],
     'runtime monitoring: mean path lengths against exact expectations (7 standard errors)', LVL)

prop('C20', 'Bernoulli naive Bayes predicts the class of largest posterior',
     'After fitting, the class predicted for a row is the one of largest log prior plus summed log likelihood of its binary features, with the class frequencies and smoothed feature frequencies of the training rows, whichever attribute order or extra attributes the predicted grid has. Data that is not binary, missing features and prediction before fitting are reported as errors and leave the model as it was.',
     ['inputs'], 'every binary training grid with a categorical or binary class, and every compatible test grid',
     'The tests use one toy document collection.',
     ['naive/bernoulli_nb.go'],
     [('class and feature counts with smoothing', 'naive/bernoulli_nb.go')],
     ['BernoulliNBClassifier.Fit/Predict/PredictOne'],
     'runtime monitoring: posterior scores recomputed from a shadow table', LVL)

prop('C21', 'Linear regression is the least-squares solution',
     'Fitting linear regression finds the coefficients and intercept that minimise the sum of squared residuals over the numeric non-class attributes, so residuals are orthogonal to every column and an exact linear relation is recovered; a prediction is the intercept plus the weighted sum of the row\'s values. Too few rows, prediction before fitting and a singular design are errors, never silent nonsense or a panic.',
     ['inputs'], 'every design of full rank and moderate conditioning, and every misuse of the interface',
     'The tests fit one data file and look at an error bound.',
     ['linear_models/linear_regression.go'],
     [('QR solution of the normal equations', 'linear_models/linear_regression.go')],
     ['LinearRegression.Fit/Predict'],
     'runtime monitoring: normal-equation residuals and known coefficients', LVL)

prop('C22', 'Linear classifiers minimise their documented objective',
     'A trained linear SVC or logistic regression holds weights that minimise the regularised loss of the chosen solver, with the cost, class weights and bias given, over the training rows; its predictions, decision values and probabilities are those of the weights, for labels of any number and order. A saved model file holds the same weights and predicts the same; contradictory options, missing files and grids with another layout are errors.',
     ['inputs', 'configurations'], 'every solver, penalty, loss, cost, set of class weights, bias and problem on which the solver converges',
     'The tests train two configurations on one data set and check an accuracy.',
     ['linear_models/linearsvc.go', 'linear_models/logistic.go', 'linear_models/liblinear.go', 'linear_models/util.go', 'linear_models/linear.cpp'],
     [('conversion of grids to liblinear problems', 'linear_models/liblinear.go, linear_models/util.go'), ('solver wrappers', 'linear_models/linearsvc.go, linear_models/logistic.go')],
     ['LinearSVC, LogisticRegression, Train/Predict/Export/Load of liblinear models'],
     'runtime monitoring: optimality of exported weights, predictions recomputed', LVL)

prop('C23', 'Neural networks compute and learn by their equations',
     'Activating a network gives every neuron the activation function of its bias plus the weighted sum of its inputs, for any topology without cycles, and error propagation and weight updates are the gradient of the squared error. A layered network built for a training set has the layers, sizes and functions asked for; after training on data it can represent it fits, and its predictions are those of its own weights.',
     ['inputs', 'configurations'], 'every acyclic topology, weight matrix, activation function and input; layered nets on separable data',
     'The tests check a few hand-made networks and XOR.',
     ['neural/network.go', 'neural/layered.go', 'neural/funcs.go'],
     [('matrix iteration of activation and error', 'neural/network.go'), ('layered construction and training', 'neural/layered.go')],
     ['Network.Activate/Error/UpdateWeights/UpdateBias', 'MultiLayerNet.Fit/Predict', 'Sigmoid, Linear, SoftPlus functions'],
     'runtime monitoring: own forward pass and numerical gradients', LVL)

prop('C24', 'The averaged perceptron separates separable data',
     'Fitted to two-class data separated by a margin, an averaged perceptron classifies the training rows correctly once given enough iterations (at most those the textbook algorithm needs), whichever class is coded first; its predictions are always one of the two class values, form two regions divided by one hyperplane, and depend only on the values of the row, not on its position or the attribute order of the grid. Fewer or more than two classes, no numeric attributes and prediction before fitting are errors.',
     ['inputs', 'configurations'], 'every two-class grid, learning rate, threshold and iteration count',
     'The tests train on one separable toy file.',
     ['perceptron/average.go'],
     [('perceptron updates with weight averaging', 'perceptron/average.go')],
     ['AveragePerceptron.Fit/Predict'],
     'runtime monitoring: accuracy, convexity and metamorphic monitors', LVL)

prop('C25', 'PCA keeps the directions of largest variance',
     'Projecting a matrix on its first k principal components yields columns that are uncorrelated, centred and have the k largest eigenvalues of the covariance matrix as variances in descending order; with all components distances between rows are preserved. Transforming further rows applies the same projection, and the caller\'s matrix is never changed.',
     ['inputs'], 'every matrix and number of components',
     'The tests compare two fixed matrices.',
     ['pca/pca.go'],
     [('centred SVD', 'pca/pca.go')],
     ['PCA.Fit/Transform/FitTransform'],
     'runtime monitoring: eigenvalues and distances recomputed', LVL)

prop('C26', 'DBSCAN clusters are exactly the density-connected sets',
     'DBSCAN puts two core points in the same cluster exactly if a chain of core points within eps links them, puts every border point in a cluster of a core point within eps, and puts noise in no cluster, whatever the row order, attribute selection and metric. Two cluster maps are equal exactly if they hold the same partition, whatever the numbers of the clusters, and inverting a map keeps every row.',
     ['inputs', 'configurations'], 'every grid, metric, eps and minimum count; every pair of cluster maps',
     'The tests compare one data set with one set of reference labels.',
     ['clustering/dbscan.go', 'clustering/clustering.go'],
     [('region growing over the distance matrix', 'clustering/dbscan.go'), ('cluster map comparison', 'clustering/clustering.go')],
     ['DBSCAN', 'ClusterMap.Equals/Invert'],
     'runtime monitoring: density connection recomputed from the definition', LVL)

prop('C27', 'EM assigns every row to its most probable Gaussian',
     'Fitting ends, and the fitted Gaussian mixture holds, per component, a mean and a valid covariance matrix of finite numbers, and predicting puts every row in the component of largest density, so that every row is in exactly one cluster. With one component the parameters are the mean and (regularised) covariance of the rows. Too few rows, no numeric attributes and prediction before fitting are errors.',
     ['inputs', 'configurations'], 'every numeric grid, number of components and tolerance',
     'The tests compare one fitted file with reference labels.',
     ['clustering/em.go'],
     [('expectation and maximisation steps', 'clustering/em.go')],
     ['ExpectationMaximization.Fit/Predict'],
     'runtime monitoring: densities and parameters recomputed', LVL)

prop('C28', 'Ensembles predict the consensus of their members',
     'A bagged model trains every member on a bootstrap sample of the right size with the chosen number of attributes and always the class, and predicts for each row a label that most members predict; one-vs-all trains one member per class on that class against the rest and predicts the class of the member that claims the row; forests and multi-class SVCs do the same over their own members. The answer does not depend on the order or timing in which concurrent members finish, and the failure of a member is returned as an error.',
     ['schedules', 'inputs', 'fault_sequences'], 'every number of members, features and classes, every vote, and every order of member completion or failure',
     'The tests check an accuracy on one data set; members are random, so votes, ties, timing and faults are never pinned down.',
     ['meta/bagging.go', 'meta/one_v_all.go', 'ensemble/randomforest.go', 'ensemble/multisvc.go'],
     [('concurrent member training and voting', 'meta/bagging.go'), ('per-class filters', 'meta/one_v_all.go')],
     ['BaggedModel, OneVsAllModel, RandomForest, MultiLinearSVC: Fit/Predict'],
     'runtime monitoring: recording member stubs with injected delays and faults; race detector', LVL)

prop('C29', 'A saved and reloaded model predicts exactly the same',
     'Any fitted model that can be saved (trees, forests, bagged ensembles, kNN, naive Bayes, linear SVCs, one-vs-all and multi-class SVCs) predicts exactly what it did before when it is loaded from its file into a fresh or into another fitted model, also for grids with equal but separately made attributes, also after being saved again, and also when saved with a prefix beside other models in one file. Saving changes neither the model nor the grids. A file that is missing, cut, corrupted or of another kind, a full device, and saving before fitting are errors: never a panic, another prediction, or a file left open.',
     ['inputs', 'fault_sequences', 'configurations'], 'every kind of saveable model and parameters, training and test grid, prefix, and damage to the file',
     'The tests save one or two models of some kinds and look at an accuracy; attributes are shared between saved and loaded model, and files are never damaged.',
     ['base/serialize.go', 'base/serialize_instances.go', 'base/serialize_attributes.go', 'trees/id3.go', 'trees/random.go', 'knn/knn.go', 'naive/bernoulli_nb.go', 'linear_models/linearsvc.go', 'linear_models/linear.cpp', 'meta/bagging.go', 'meta/one_v_all.go', 'ensemble/randomforest.go', 'ensemble/multisvc.go'],
     [('tar.gz container with prefixed keys', 'base/serialize.go'), ('SaveWithPrefix/LoadWithPrefix of each model', 'trees, knn, naive, linear_models, meta, ensemble')],
     ['Save, Load, SaveWithPrefix, LoadWithPrefix, Predict of every saveable model'],
     'runtime monitoring: every copy of a model compared with the original, with fault injection', LVL)

prop('C30', 'Each prediction depends only on the model and the row predicted',
     'For every predictor of the library, the prediction for a row depends only on the fitted model and that row\'s feature values: not on the other rows, their number or order, the labels in the test grid (isolation forests score the label, too), whether the grid is dense or a view, earlier predictions, or, for models that look columns up by attribute, the order of the columns. Predict gives exactly one prediction per row (none for no rows) for exactly the class attributes, changes none of its inputs, and does not depend on the training grid being left alone after Fit (kNN and the perceptron document a reference); Fit forgets what it was fitted to before and, for models without chance, learns the same from the same rows and attributes in whatever kind of grid. Predicting before Fit and grids with no rows, no class, several or other classes or missing columns are errors, never panics, wherever the function can return one and no panic is documented.',
     ['inputs', 'histories'], 'every predictor, training grid, test grid, representation of the test grid and sequence of Fit and Predict calls',
     'Unit tests predict one fixed test grid once and compare an accuracy; nothing compares predictions of the same row in different company, representation or history.',
     ['trees/id3.go', 'trees/random.go', 'trees/cart_classifier.go', 'trees/cart_regressor.go', 'trees/isolation.go', 'knn/knn.go', 'naive/bernoulli_nb.go', 'linear_models/linear_regression.go', 'linear_models/logistic.go', 'linear_models/linearsvc.go', 'meta/bagging.go', 'meta/one_v_all.go', 'ensemble/randomforest.go', 'ensemble/multisvc.go', 'perceptron/average.go', 'neural/layered.go', 'clustering/em.go', 'base/util_instances.go'],
     [('GeneratePredictionVector', 'base/util_instances.go'), ('Fit and Predict of every model', 'trees, knn, naive, linear_models, meta, ensemble, perceptron, neural, clustering')],
     ['Fit and Predict of every predictor'],
     'runtime monitoring: metamorphic comparison of predictions across representations and histories', LVL)

prop('C31', 'No memory errors, data races or leaks in Go or C code',
     'No operation of the library, on any input, reads or writes outside its memory, uses freed memory, misuses unsafe pointers or breaks the rules for passing pointers to C, whether in Go, in the liblinear code or in the optimised distance code, also while the garbage collector runs. Fitted models, grids, views and filtered grids can be read by several goroutines at once, and unrelated models can be fitted at once, without data races and with the same answers as alone. Repeatedly fitting, loading and using C-backed models does not leak C memory.',
     ['inputs', 'schedules', 'histories'], 'every operation and input, every interleaving of concurrent readers and of unrelated users, and every repetition',
     'Unit tests run without sanitizers, sequentially and once, so that errors of this kind pass unnoticed.',
     ['linear_models/liblinear.go', 'linear_models/linear.cpp', 'linear_models/tron.cpp', 'knn/knn_opt_euclidean.go', 'knn/euclidean.c', 'kdtree/kdtree.go', 'base/dense.go', 'base/conversion.go', 'base/view.go', 'base/filtered.go', 'base/util_instances.go', 'meta/bagging.go', 'trees/random.go'],
     [('cgo wrappers and memory ownership', 'linear_models/liblinear.go, knn/knn.go'), ('unsafe byte conversions', 'base/conversion.go'), ('concurrent training', 'meta/bagging.go, base/dense.go')],
     ['every public operation'],
     'runtime monitoring: AddressSanitizer, checkptr, cgocheck, race detector and a C heap monitor over the workloads of all properties', LVL)

prop('C34', 'Printed grids, trees and networks show what they hold',
     'The text of a grid (dense, view, filtered or matrix) lists exactly its attributes with the class attributes marked, the values of its first rows as its attributes write them, and how many rows it leaves out. The text of an ID3, random or CART tree shows every node once, so that following it gives the prediction of the tree for every row it has branches for (to the digits printed), and an ensemble shows each of its members. The text of a network lists exactly its non-zero weights and its biases, to two digits, and that of a multi-layer net its layers and parameters.',
     ['inputs'], 'every grid, every fitted tree and ensemble, and every network',
     'The tests print but do not look at what is printed.',
     ['base/dense.go', 'base/view.go', 'base/filtered.go', 'base/mat.go', 'trees/id3.go', 'trees/random.go', 'trees/cart_classifier.go', 'trees/cart_regressor.go', 'meta/bagging.go', 'ensemble/randomforest.go', 'neural/network.go', 'neural/layered.go'],
     [('String methods', 'base, trees, meta, ensemble, neural')],
     ['String of grids, attributes, trees, ensembles and networks'],
     'runtime monitoring: printed text parsed and compared with a shadow table, predictions and weights', LVL)
