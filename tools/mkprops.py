"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
ECC="medil/ecc_algorithms.py"; GR="medil/graph.py"; EV="medil/evaluate.py"; IT="medil/independence_testing.py"
SA="medil/sample.py"; MO="medil/models.py"; VAE="medil/vae.py"; VI="medil/visualize.py"
I=["inputs"]

p("C01","find_clique_min_cover returns a valid edge clique cover",
  "For every undirected graph given as a symmetric 0/1 or boolean adjacency matrix with unit diagonal, find_clique_min_cover returns a binary matrix with one column per vertex in which two distinct vertices share a row if and only if they are adjacent, and in which every vertex (isolated ones included) appears in at least one row.",
  I,"all undirected graphs on n vertices (the check decides it for every graph up to its stated n)",
  "The tests run five example graphs, a 3-cycle and random graphs without comparing the induced graph; graphs that need branching or vertex deletion (first at 6 vertices) are never compared.",
  [ECC,GR],[("search tree",ECC+":branch"),("data reduction rules",GR+":ReducibleUndDepGraph.rule_1/2/3"),("reconstruction",GR+":reconstruct_cover"),("isolated vertices",ECC+":add_isolated_verts")],
  [("the_cover","cliques committed so far",GR),("reduced_away","deleted vertex -> its prisoners",GR)],["return value of find_clique_min_cover"])
p("C02","find_clique_min_cover uses the minimum number of cliques",
  "For every undirected graph (unit diagonal; at most 6 vertices, or any number of vertices if three cliques suffice to cover all edges), the number of rows returned by find_clique_min_cover that contain an edge is the smallest number of cliques that can cover all edges, and exactly one further singleton row is returned per isolated vertex (an edgeless graph gives exactly one singleton row per vertex).",
  I,"all undirected graphs on n<=6 vertices and larger ones that three cliques cover, compared with every smaller clique cover",
  "Minimality quantifies over all smaller covers; the tests only check row counts on five examples.",
  [ECC,GR],[("iterative deepening on the number of cliques",ECC+":find_clique_min_cover"),("rule 2 budget accounting",GR+":rule_2"),("branching",GR+":choose_nbrhood")],
  [("k_num_cliques","remaining clique budget",GR)],["number of rows of the result"])
p("C03","max_cliques yields exactly the maximal cliques",
  "For every symmetric binary matrix, whatever its diagonal, max_cliques yields every maximal clique of the graph (as a list of distinct vertices) exactly once and yields nothing else; an isolated vertex is a maximal clique, and the empty matrix yields nothing.",
  I,"all symmetric 0/1 matrices with arbitrary diagonal up to the stated n",
  "No test calls it directly; exactness quantifies over all vertex subsets of all graphs.",
  [ECC],[("Bron-Kerbosch with pivoting",ECC+":max_cliques")],(),["values yielded"])
p("C04","find_heuristic_1pc returns a one-pure-child cover of every graph",
  "For every undirected dependence graph (symmetric boolean matrix), find_heuristic_1pc returns, without raising, a boolean biadjacency matrix with as many latents as the largest independent set has vertices, in which every latent has at least one pure child (a measurement with no other parent), every measurement has at least one parent, and every edge of the graph joins two measurements that share a latent.",
  I,"all undirected graphs up to the stated n",
  "Only reached through GaussianMCM.fit on graphs that satisfy the one-pure-child condition; graphs with edges left over by the independent set are never tried.",
  [ECC],[("maximum independent set of the complement cliques",ECC+":find_heuristic_1pc"),("covering left-over edges",ECC+":find_heuristic_1pc while loop")],(),["return value"])
p("C05","One-pure-child structure is recovered exactly",
  "Whenever a graph is induced by some biadjacency matrix in which every latent has a pure child and every measurement a parent, find_heuristic_1pc on that graph returns the same biadjacency matrix up to the order of the latents.",
  I,"all one-pure-child biadjacency matrices up to the stated numbers of latents and measurements",
  "test_fit_* check two fixed structures.",
  [ECC],[("independent set -> closed neighbourhoods",ECC+":find_heuristic_1pc")],(),["return value"])
p("C06","Auxiliary graph structure matches the graph",
  "For every undirected graph with unit diagonal, after make_aux the row of common_neighbors of each vertex pair is the closed common neighbourhood if the pair is an edge and zero otherwise, nbrhood_edge_counts holds the number of edges inside that neighbourhood, extant_edges_idx holds exactly the indices of the edges, get_edge inverts get_idx, and num_edges and num_vertices count edges and vertices. add_edges and rm_edges set exactly the given pairs, keep the matrix symmetric and keep num_edges correct.",
  I+["histories"],"all graphs up to the stated n, and any add/rm edge lists of the stated length",
  "make_aux is tested on one graph; add_edges is never tested.",
  [GR],[("make_aux",GR+":make_aux"),("edits",GR+":add_edges, rm_edges")],
  [("common_neighbors","closed common neighbourhood per pair",GR),("nbrhood_edge_counts","edges inside it",GR)],["attributes after make_aux/add_edges/rm_edges"])
p("C07","Reduction keeps its bookkeeping true and can be undone",
  "For every undirected graph with unit diagonal and clique budget k, after reduzieren(k): the remaining matrix holds exactly the edges covered neither by a committed clique nor by a deleted vertex; every committed row is a clique of the original graph and the budget dropped by exactly the number of committed rows; num_vertices, num_edges and the set of extant edge indices describe the remaining matrix; and if no uncovered edge remains, reconstruct_cover turns the committed cliques into a valid edge clique cover of the original graph.",
  I+["histories"],"all graphs up to the stated n and all sequences of rule applications reduzieren makes on them",
  "The rules are each tested on one graph from the paper.",
  [GR],[("rules",GR+":rule_1, rule_2, rule_3"),("edge removal",GR+":cover_edges"),("reconstruction",GR+":reconstruct_cover")],
  [("extant_edges_idx","uncovered edges",GR),("reduced_away","deleted vertices",GR)],["attributes after reduzieren, value of reconstruct_cover"])
p("C08","Structural distances: sfd is exact, symmetric and label-free",
  "For every pair of binary biadjacency matrices over the same measurements (boolean or integer entries, possibly different numbers of latents), sfd returns the squared Frobenius distance between the two matrices B^T B of shared-latent counts, and the number of measurement pairs that share a latent in exactly one of the two. Both numbers are unchanged by swapping the arguments, reordering latents, or applying one permutation of the measurements to both, and are zero for equal structures.",
  I,"all pairs of binary matrices up to the stated sizes, both dtypes",
  "test_sfd evaluates three fixed pairs.",
  [EV],[("sfd",EV+":sfd"),("recover_ug",EV+":recover_ug")],(),["return value of sfd"])
p("C09","recover_ug: two measurements are linked iff they share a latent",
  "For every binary biadjacency matrix, recover_ug returns a symmetric matrix with zero diagonal whose (i,j) entry is nonzero exactly when some latent is a parent of both measurement i and measurement j.",
  I,"all binary matrices up to the stated sizes, both dtypes",
  "Only exercised through sfd on three matrices.",
  [EV],[("recover_ug",EV+":recover_ug")],(),["return value"])
p("C10","Permutation-matched weight distance is the true minimum",
  "min_perm_squared_l2_dist returns a permutation of the predicted latents and the smallest squared L2 distance, over all such permutations, between the permuted predicted weights and the true weights padded with zero rows; the returned permutation attains the returned distance. min_perm_squared_l2_dist_abs does the same for entrywise absolute values. Both hold for integer as well as real entries.",
  I,"all real or integer weight matrices (floats read as exact reals) with at most the stated numbers of latents and measurements, true matrix with no more latents than predicted",
  "Untested; optimality quantifies over all permutations and all real weights.",
  [EV],[("zero padding and search",EV+":min_perm_squared_l2_dist, min_perm_squared_l2_dist_abs")],(),["return values"])
p("C11","dcov is the sample distance covariance matrix",
  "For every N x M sample, dcov returns the symmetric matrix whose (i,j) entry is the sample (V-statistic) distance covariance of columns i and j, that is the mean over all N^2 index pairs of the product of the two double-centred distance matrices, together with the mean pairwise distance of every column. Shifting columns leaves it unchanged and reordering the samples does too.",
  I,"all real samples (floats read as exact reals) up to the stated N and M",
  "The module has no test at all.",
  [IT],[("double centring",IT+":dcov")],(),["return values of dcov"])
p("C12","estimate_UDG is symmetric, loop-free and follows its test",
  "estimate_UDG returns a boolean matrix with no self-loops. Given a p-value matrix it reports exactly the off-diagonal pairs with p below the level; with 'xicor' or 'dcov_big' it runs the corresponding test once on each pair of columns, returns the symmetric p-value matrix, and reports exactly the pairs with p below the level; with 'dcov_fast' it reports exactly the pairs whose N*dcov/(product of mean distances) reaches the chi-square(1) critical value of the level. In the last two cases the graph is symmetric.",
  I+["configurations"],"all p-values / samples / levels up to the stated sizes, every implemented method",
  "The module has no test at all.",
  [IT],[("thresholding",IT+":estimate_UDG"),("pair loop",IT+":estimate_UDG, dcor_test, xicor_test")],(),["return values of estimate_UDG"])
p("C13","xicorr computes Chatterjee's coefficient from ranks",
  "For paired samples without ties, xicorr's correlation equals 1 - 3*sum|r[i+1]-r[i]|/(n^2-1), with r the ranks of y taken in the order of increasing x; so it depends only on the ranks, and reordering the pairs or applying increasing maps to x or y changes nothing. Its p-value is the upper normal tail of sqrt(n)*xi divided by the theory's standard deviation (variance 2/5 when ties=False); inputs of different sizes raise ValueError and empty inputs give NaN.",
  I,"all tie-free real samples up to the stated n, both values of ties",
  "Untested.",
  [IT],[("rank statistic",IT+":_xicorr"),("p-value",IT+":xicorr")],(),["return value of xicorr"])
p("C14","Random one-pure-child structures have the promised shape",
  "Whatever the random generator draws, biadj(num_meas, density, num_latent=k) with one_pure_child=True returns a boolean k x num_meas matrix in which every latent has a pure child and every measurement at least one parent; with num_latent unspecified, k is drawn between 1 and num_meas-1, and with density None a density in [0,1) is drawn.",
  I+["histories"],"all generator outcomes, all densities in [0,1], all sizes up to the stated bound",
  "Tests look at two draws; the guarantee is over every possible draw.",
  [SA],[("pure-child block, column-wise shuffle, column permutation",SA+":biadj")],(),["return value of biadj"])
p("C15","Random one-pure-child structures have the requested density",
  "Whatever the random generator draws, the one-pure-child matrix returned by biadj for num_meas, k latents and density d has exactly num_meas + round(d*(num_meas-k)*(k-1)) parent links.",
  I,"all generator outcomes, all densities in [0,1], all sizes up to the stated bound",
  "No test relates density to the number of links (the one that tries compares a value with itself).",
  [SA],[("edge budget",SA+":biadj")],(),["return value of biadj"])
p("C16","Random graphs: exact edge count and valid minimum cover",
  "With one_pure_child=False, whatever the generator draws, biadj returns a boolean matrix with one column per measurement whose induced undirected graph has exactly round(density*n*(n-1)/2) edges and in which every measurement has a parent; specifying num_latent together with one_pure_child=False raises ValueError.",
  I,"all generator outcomes, all densities in [0,1], n up to the stated bound",
  "The test compares the density with itself.",
  [SA,ECC],[("Erdos-Renyi branch",SA+":biadj"),("cover",ECC+":find_clique_min_cover")],(),["return value of biadj"])
p("C17","Random Gaussian models: parameters follow the structure",
  "Whatever the generator draws, sample.mcm returns a model whose structure is the given (boolean or 0/1) or generated biadjacency matrix, whose weights are zero exactly where there is no link and have magnitude in [0.5,2) on links, whose error variances lie in [0.5,2) and error means in (-2,2), one per measurement.",
  I,"all generator outcomes and all biadjacency matrices up to the stated sizes, both dtypes",
  "test_mcm looks at one draw.",
  [SA],[("parameter generation",SA+":mcm")],(),["model.biadj and model.parameters"])
p("C18","A caller-supplied generator is the only source of randomness",
  "When a random generator is passed to sample.biadj or sample.mcm, the result is a function of that generator's stream and the other arguments alone: two calls that see the same stream return the same structure and parameters, whatever other generators (module defaults, numpy's global one) produce or were used for before.",
  ["histories","inputs"],"all pairs of histories that agree on the passed generator's stream",
  "A two-run (non-interference) property; no test passes a generator.",
  [SA],[("rng argument",SA+":mcm, biadj")],(),["return values of two runs"])
p("C19","GaussianMCM.sample draws from the model's distribution",
  "For every structure and parameters, GaussianMCM.sample(n) returns an n x num_meas matrix whose rows are independent draws with mean error_means and covariance W^T W + diag(error_variances), W being the latent-to-measurement weights, using only the model's own generator.",
  I,"all real weights, means and non-negative variances up to the stated sizes, all generator outcomes (normal draws as independent standard normals)",
  "Tests compare one empirical mean per structure; the covariance is never checked.",
  [MO],[("sample",MO+":GaussianMCM.sample")],(),["return value of sample"])
p("C20","GaussianMCM.fit: fitted parameters are what was optimised",
  "For every dataset and structure, whatever minimiser the optimiser reports, the fitted weights are zero off the structure, error_means are the column means, and the squared Frobenius distance between the sample covariance and W^T W + diag(error_variances) of the stored parameters equals the objective's value at the reported minimiser. A structure or dependence graph supplied by the caller is used as given (boolean or 0/1), otherwise it is estimated; a failed optimisation still yields parameters and a warning.",
  I+["fault_sequences"],"all datasets (exact reals), structures, optimiser outcomes up to the stated sizes",
  "Tests fit two fixed models.",
  [MO],[("objective and unpacking",MO+":GaussianMCM.fit"),("structure",MO+":GaussianMCM._compute_biadj")],(),["model.parameters, model.biadj after fit"])
p("C21","GaussianMCM's estimated graph is the BIC-optimal one",
  "The dependence graph GaussianMCM.fit estimates from a dataset of n samples (n>=2, no constant column) is symmetric and loop-free and has the edge i-j exactly when log(1-r^2) < -log(n)/n, r being the sample correlation of columns i and j (perfect correlation counts as dependence); in particular it does not change when a column is shifted or rescaled by a nonzero factor.",
  I,"all datasets up to the stated sizes; all covariance matrices with positive variances",
  "Tests fit data from two models in one unit of measurement.",
  [MO],[("BIC rule",MO+":GaussianMCM._estimate_udg")],(),["model.udg after fit"])
p("C22","DevMedil: fit and validation evaluate the same loss",
  "For every dataset, penalty weights and optimiser outcome, after DevMedil.fit (either method) the loss that the matching validation method reports for the stored parameters on the training data equals the objective's value at the reported minimiser: trace(S inv(Sigma)) + log det Sigma for 'mle' or the squared Frobenius distance between S and Sigma for 'lse', plus lambda times the nuclear norm and mu times the sum of absolute values of W_hat, with S the sample covariance and Sigma = W_hat^T W_hat + D_hat. W_hat has num_meas rows (or num_meas^2//4 without the one-pure-child assumption), D_hat is diagonal, and unknown methods raise ValueError.",
  I,"all datasets, penalties and optimiser outcomes up to the stated sizes (matrix inverse, determinant and nuclear norm as uninterpreted functions)",
  "DevMedil has no test.",
  [MO],[("losses",MO+":DevMedil.fit_penalized_mle, fit_penalized_lse, validation_mle, validation_lse")],(),["validation_* after fit"])
p("C23","A fitted DevMedil model can be sampled",
  "After DevMedil.fit with method 'mle' or 'lse', sample(n, method) returns an n x num_meas matrix whose rows are independent zero-mean draws with covariance W_hat^T W_hat + D_hat of the fitted parameters; sampling before fitting, or with an unknown method, raises ValueError.",
  I+["histories"],"all fitted parameters up to the stated sizes, every fit/sample order",
  "DevMedil has no test.",
  [MO],[("sample",MO+":DevMedil.sample")],(),["return value of sample"])
p("C24","Decoder: each measurement has its own network block",
  "In the decoder, for all weights and latent values, the reconstructed mean and log-variance of measurement j depend only on block j of the hidden units (width_per_meas units per measurement), through every hidden layer, so changing the weights into other blocks' hidden units never changes measurement j. Within its block every layer is fully connected, from all latents to the outputs, and every weight or bias that influences the output is a registered (hence trained and saved) parameter of the model.",
  I+["configurations"],"all weights, latents, numbers of measurements, widths and hidden layers up to the stated sizes (activations as arbitrary functions)",
  "The test only trains once with width 1 and one hidden layer and asserts nothing.",
  [VAE],[("block masks",VAE+":Decoder, SparseLinear"),("parameter registration",VAE+":Decoder.__init__")],(),["decoder outputs, model.parameters()"])
p("C25","VAE latents: mean in evaluation, reparameterised draw in training",
  "For every encoder output, the latent passed to the decoder is mu in evaluation mode and mu + exp(logvar/2)*eps with eps a fresh standard normal of the same shape in training mode; forward returns the decoder's outputs for that latent together with the encoder's mu and logvar, and modifies neither.",
  I,"all real encoder outputs up to the stated sizes, both modes (exp as uninterpreted function with its standard laws)",
  "Asserted nowhere.",
  [VAE],[("latent_sample",VAE+":VariationalAutoencoder.latent_sample, forward")],(),["values returned by forward"])
p("C26","NCFA loss: evidence bound plus weight penalties",
  "The training loss equals beta*KL + (1/2)*sum of the Gaussian data term + lambda*(nuclear norm) + mu*(L1 norm) of the penalised weights; the data term of a row is det(C) + r^T inv(C) r with r its residual and C the diagonal matrix of the batch means of exp(log-variance), and KL = (1/2)*sum(mu^2 + exp(logvar) - 1 - logvar) is never negative and zero when mu = logvar = 0. The validation loss is the same without the weight penalties.",
  I,"all real batches, reconstructions, log-variances, encoder outputs and penalties up to the stated sizes",
  "Asserted nowhere.",
  [MO],[("loss",MO+":NeuroCausalFactorAnalysis._elbo_gaussian")],(),["value of the loss"])
p("C27","NCFA training history: modes, updates and one record per epoch",
  "In every NCFA training run every optimiser step follows, with gradients cleared before it, a loss computed in training mode on a training batch, every training batch is used exactly once per epoch, and validation runs in evaluation mode and never updates weights. The four histories (losses, and reconstruction errors = spectral norm of the batch residual) have one entry per epoch, each the mean over batches of the per-sample value, and the fitted model is the one after the last update.",
  ["histories","configurations"],"all numbers of epochs and batches, and all loss values, up to the stated bounds",
  "The test runs one training and asserts nothing.",
  [MO],[("training loop",MO+":NeuroCausalFactorAnalysis._train_vae, _valid_vae")],(),["sequence of model/optimizer calls, fit().loss"])
p("C28","NCFA writes all artefacts inside the chosen directory",
  "For every directory path given by the user, with or without a trailing slash and whether or not the directory exists already, everything NCFA writes (training.log, model_recon.pt, loss_recon.pkl, error_recon.pkl) is located in that directory, and log entries are appended, never overwritten. The saved model and histories are those of the fitted object.",
  ["configurations","inputs"],"all path strings (symbolic string)",
  "The tests only use the default path, which ends in a slash.",
  [MO],[("log",MO+":NeuroCausalFactorAnalysis.log"),("saving",MO+":NeuroCausalFactorAnalysis.fit")],(),["paths opened for writing"])
p("C29","Public functions do not modify their arguments",
  "find_clique_min_cover, max_cliques, find_heuristic_1pc, make_aux, sfd, recover_ug, min_perm_squared_l2_dist(_abs), dcov, xicorr, estimate_UDG, sample.mcm, fit and sample of GaussianMCM, DevMedil and NeuroCausalFactorAnalysis, the validation methods and the plotting functions leave every array the caller passed in (graph, biadjacency matrix, weights, sample, p-values, dataset, split) exactly as it was.",
  I,"all inputs up to the stated sizes of each function",
  "No test inspects the arguments after the call.",
  [ECC,GR,EV,IT,SA,MO,VI],[("copies before in-place edits",GR+":ReducibleUndDepGraph.__init__"),("fresh result arrays",EV+", "+IT)],(),["argument arrays after the call"])
p("C30","Graph pictures show exactly the given structure",
  "get_dag_from_biadj returns the adjacency matrix over latents then measurements whose only edges go from latent i to measurement j exactly where the biadjacency matrix has an entry; show_dag draws exactly that graph, inside the visible range, with latents L_i above and measurements M_j below; show_obs_adj_mat draws the matrix of measurement pairs that share a latent. show_obs_dcor_mat draws the given matrix, thresholded strictly above thresh if given, with each value (rounded to 2 decimals) in its own cell if asked; both label the ticks from 1 on. show_pairwise_plot plots the given sample, or its first 1000 rows, with columns X1, X2, ...; every function shows its finished picture.",
  I,"all binary biadjacency matrices (real matrices and thresholds) up to the stated sizes",
  "medil/visualize.py has no test.",
  [VI],[("show_* and get_dag_from_biadj",VI)],(),["arrays and graphs handed to matplotlib/networkx"])
p("C31","Exported .nde files describe the graph",
  "For every graph, whatever its diagonal, convert_to_nde(name) writes (replacing an existing file) name.nde whose first line is the number of vertices, followed by one line per vertex with its index and the sum of its adjacency row, followed by exactly one line u v (u<=v) for each nonzero entry of the upper triangle of the adjacency matrix, diagonal included.",
  I,"all graphs up to the stated n, any file name",
  "Never called by a test.",
  [GR],[("convert_to_nde",GR+":convert_to_nde")],(),["text written"])
p("C32","Random generation reaches every admissible structure and parameter pattern",
  "sample.biadj with one_pure_child=True can return every biadjacency matrix with the requested (or, if not given, any admissible) number of latents, every latent having a pure child, every measurement a parent and the number of links the density prescribes; with one_pure_child=False every graph with the prescribed number of edges can be the underlying one. sample.mcm can return every combination of signs of weights and error means, and low and high values of any two parameters occur together: parameters are drawn separately, not from one shared draw.",
  ["inputs","histories"],"existential: for every admissible target up to the stated sizes there are generator outcomes that produce it",
  "Tests look at single draws; a target that can no longer be produced is invisible to them.",
  [SA],[("structures",SA+":biadj"),("parameters",SA+":mcm")],(),["set of reachable return values"])
p("C33","Results depend on the arguments alone, not on earlier or concurrent calls",
  "The deterministic functions (find_clique_min_cover, find_heuristic_1pc, max_cliques, make_aux, sfd, recover_ug, min_perm_squared_l2_dist(_abs), dcov, xicorr, estimate_UDG, get_dag_from_biadj) return the same result whatever was computed before in the same process and whatever the caller did to earlier results; a result already returned is never changed by a later call; several max_cliques generators consumed alternately each yield what they yield alone.",
  ["histories","schedules","inputs"],"all pairs of arguments up to the stated sizes; three-call histories",
  "Tests call each function once per input and never look back at earlier results.",
  [ECC,GR,EV,IT,VI],[("no state between calls",ECC+", "+GR+", "+EV+", "+IT),("generator state is local",ECC+":max_cliques")],(),["return values of repeated and interleaved calls"])
p("C34","Models use their own generator only and share no state",
  "For GaussianMCM and DevMedil models given their own generator, the starting points handed to the optimiser, the objective, the fitted structure and parameters and all samples are a function of that generator's stream, the given structure, graph or init_W, the data and the sequence of operations: they are the same whatever other generators (module default, numpy's global one) produce and whatever other models are built, fitted or sampled before or in between.",
  ["histories","inputs"],"all pairs of executions that agree on the model's own generator, data and the points the optimiser reports; all values drawn by any other generator",
  "A two-run (non-interference) property; no test compares two models or two histories.",
  [MO],[("own generator",MO+":GaussianMCM.sample, DevMedil.fit_penalized_mle, fit_penalized_lse, sample"),("per-instance state",MO+":MedilCausalModel.__init__, Parameters")],(),["starting points, objectives, parameters and samples of two runs"])
p("C35","NCFA trains on the requested rows and estimates its structure as configured",
  "Without explicit indices NCFA.fit standardises every column (mean 0, population variance 1), trains on 70 % of the rows (rounded down) and validates on all others, the split being determined by the seed (and by nothing else) and different seeds being able to give different splits; with explicit indices it trains and validates on exactly those rows of the dataset, in that order; both are fed in consecutive batches of batch_size rows, the last one possibly smaller. Its structure estimate keeps a given graph and otherwise tests its dataset with the configured method and level; the structure is the one-pure-child cover of that graph.",
  ["inputs","configurations","histories"],"all datasets and all graphs up to the stated sizes, all levels; pairs of runs with equal and with different seeds",
  "The test trains once with given indices and asserts nothing about the rows used.",
  [MO],[("data preparation",MO+":NeuroCausalFactorAnalysis.fit, _data_loader"),("structure",MO+":NeuroCausalFactorAnalysis._compute_biadj, _estimate_udg")],(),["rows the network is evaluated on, udg and biadj attributes"])
p("C36","NCFA objects are independent of each other",
  "Whatever order two NeuroCausalFactorAnalysis objects are created, configured, fitted and refitted in: each keeps the hyperparameters and seed it was given and the default for every other hyperparameter, trains on its own dataset with its own batch size, number of epochs and penalties, keeps the histories, weights and network of its own last fit unchanged, and writes only into its own directory.",
  ["histories","inputs"],"all data, penalty weights and network outputs for the stated interleavings of two objects",
  "No test builds two NCFA objects.",
  [MO],[("per-object state",MO+":NeuroCausalFactorAnalysis.__init__, fit, _train_vae, log; Parameters")],(),["hyperparams, loss, parameters, path of both objects; network evaluations; files written"])
p("C37","NCFA training updates all parameters at the configured learning rate",
  "In every NCFA training run, every optimiser step updates every trainable parameter of the network (encoder and decoder) exactly once, with learning rate hyperparams['lr'] times 0.9 for every 50 completed epochs, whatever the number of batches per epoch and of earlier fits.",
  ["configurations","histories"],"all learning rates, numbers of epochs and batches up to the stated bounds",
  "No test looks at parameters after training or changes the learning rate, and tests train far too few configurations to notice.",
  [MO],[("optimiser and schedule",MO+":NeuroCausalFactorAnalysis._train_vae")],(),["parameter groups of the optimiser at every step"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x,ensure_ascii=False)+"\n")
    print(len(P))
