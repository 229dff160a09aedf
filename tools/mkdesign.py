import importlib,sys,json,re
sys.path.insert(0,'/verif')
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
how={
"C01":("graph = n(n-1)/2 symbolic bits; the real find_clique_min_cover/branch/rules run on them, forking where control depends on a bit","declarative: pair shares a row <=> adjacency bit, every column nonempty"),
"C02":("as C01","minimality: on each path the solver is asked for a smaller family of cliques that covers all edges (existence over symbolic membership bits); edgeless/isolated counts exact"),
"C03":("symbolic bits incl. diagonal; the yielded list is kept by the caller until the generator ends","yielded sets = maximal cliques by definition over the adjacency literals, each once, distinct vertices"),
"C04":("symbolic bits; real find_heuristic_1pc and max_cliques","definition of one-pure-child cover; number of latents = size of a maximum independent set (all vertex subsets as literals)"),
"C05":("structure B = symbolic pure-child positions and membership bits; graph B^T B > 0 fed to the real code","returned rows = rows of B up to order"),
"C06":("make_aux on a symbolic graph; edit histories with symbolic end points","definition of common neighbourhood, edge counts, index maps; set semantics of edits"),
"C07":("real reduzieren on a symbolic graph and each budget, then reconstruct_cover","invariants over the final state: remaining matrix, rows are cliques, budget arithmetic, counts, extant indices; reconstruction is a valid cover"),
"C08":("bits of both matrices","definition over the bits; swap/permute relations by a second run"),
"C09":("bits","definition"),
"C10":("entries are unbounded reals/integers","every permutation's distance as a polynomial; attained and minimal (linear arithmetic over ite/monomials, Z3 nlsat where needed)"),
"C11":("samples are reals; |a-b| becomes ite","V-statistic definition expanded independently; symmetry, shift and reorder relations"),
"C12":("p-values/levels/critical values reals; pair tests, multiprocessing pool, chi2 as stubs with arbitrary results","definition; each unordered pair tested exactly once on exactly its two columns"),
"C13":("one configuration per order type of x; values are reals constrained to it; rankdata/argsort/sort encoded from comparisons; normal CDF uninterpreted increasing","definition; argument checks for ValueError/NaN"),
"C14":("generator = adversary: every draw is a fresh symbol in its documented range, permutations are arbitrary bijections","definition of pure child and parent"),
"C15":("as C14","pseudo-Boolean count of links = num_meas + round(d(n-k)(k-1)), round half to even as numpy does"),
"C16":("generator as adversary; composed with the real cover code, and up to its call with a stub","edge count of the graph handed over and of the graph induced by the result"),
"C17":("symbolic structure, adversarial generator","support, magnitudes, ranges"),
"C18":("self-composition: two runs that share only the caller's stream; every other stream yields different arbitrary values","results equal"),
"C19":("multivariate_normal = mean + L z with z symbols; output checked to be affine in the z","mean and covariance read off the coefficients (cross-row coefficients must vanish)"),
"C20":("minimize = stub that keeps the objective and returns an arbitrary point; real cov/corrcoef as real arithmetic; logs uninterpreted","stored parameters give the objective's value; support; means; structure used; warning"),
"C21":("correlations as reals, or the real np.corrcoef on real data; log compared through exact threshold 1-exp(-log n/n)","edge <=> r^2 beyond the threshold; symmetric; loop-free"),
"C22":("as C20 for both DevMedil fits; inverse/determinant exact for the sizes used; nuclear norm uninterpreted","loss definition; validation value = objective at the reported point"),
"C23":("every history of fits/samples","as C19 with W_hat, D_hat of the fit named"),
"C24":("torch replaced by a symbolic mini-torch; weights, biases and latents reals; sigmoid an injective uninterpreted function","dependency sets of outputs on units, block separation, completeness, registration"),
"C25":("mode sequences; normal draws as symbols","latent formula, output = decoder(latent), arguments unchanged"),
"C26":("loss function on arbitrary reals, and inside a complete fit","loss definition; KL >= 0 from exp(x) >= 1+x"),
"C27":("complete symbolic training: model outputs arbitrary per call, optimiser step replaces parameters by fresh values, events logged","event order automaton (zero_grad, forward in train mode, backward, step; eval mode, no step), batches, means"),
"C28":("the path is a Z3 string base + optional slash; file calls recorded","opened names = directory + '/' + known names; modes; contents are those of the fitted object"),
"C29":("all arguments symbolic; run, also when it raises","elementwise equality with the copies made before, same shape and dtype"),
"C30":("matplotlib/networkx/seaborn/pandas replaced by recorders","recorded arrays, node positions, labels, texts, ticks"),
"C31":("symbolic bits, symbolic file name; writes recorded","exact lines"),
"C32":("all paths of the real generator code with every draw symbolic; for each target (structure, edge set, sign pattern, pair of extreme values) one satisfiability query per path, joined over the paths","some path admits draws that produce the target; a target no path admits is confirmed by 5000-20000 real draws that never produce it"),
"C33":("two symbolic worlds (freshly loaded modules): the call alone, and the call after another one whose results were overwritten, followed by further calls; two max_cliques generators advanced alternately","results equal entry by entry"),
"C34":("self-composition: two worlds sharing the caller's stream, data and reported minimisers; in the second other models are built, fitted and sampled before and in between, and every other generator yields different arbitrary values","starting points, objective values, structure, parameters and samples equal"),
"C35":("symbolic training run as in C27, train_test_split wrapped so that its permutation is a function of random_state only (or of the run if none is given); structure: estimate_UDG stubbed by an arbitrary graph","rows seen in training and validation mode = the standardised/selected rows, each once; equal for equal seeds, not for all seeds; graph, method, level, sample, cover"),
"C36":("two symbolic NCFA objects as in C27, operations interleaved as listed","defaults of a pristine module plus what the caller set; C26's loss formula with the object's own penalties; histories and weights copied right after each fit equal those at the end; paths of the files opened"),
"C37":("symbolic training run as in C27 with a symbolic learning rate; optimiser groups and torch's schedulers modelled, rates recorded at every step","ids of the network's parameters; lr * 0.9^(epoch // 50)"),
}
out=[]
for i in range(1,38):
    pid='C%02d'%i
    m=importlib.import_module('checks.c%02d'%i)
    b=m.BOUNDS
    out.append("### %s %s\n- *Encoding:* %s.\n- *Oracle:* %s.\n- *Bounds (quick):* %s.\n- *Bounds (thorough):* %s.\n- *Outside:* %s." % (pid,props[pid]['title'],how[pid][0],how[pid][1],b['quick'],b['thorough'],getattr(m,'OUTSIDE','')+("; assumes "+"; ".join(m.ASSUMES) if getattr(m,'ASSUMES',None) else "")))
import os,glob
T=os.path.dirname(os.path.abspath(__file__))
rd=lambda n: open(os.path.join(T,n)).read()
rows=["## 5. Planted bugs (`seeded/`) and the check that catches each","","Each keeps the 19 stable tests passing; each is caught by the check of its property (and often by neighbours).","",
 "| bug | caught by | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d))
    rows.append("| %s | %s | %s | %s |"%(d.split('/')[-2],m.get('caught_by',m['property']),m['what_it_breaks'],m['needs']))
open('/verif/DESIGN.md','w').write(rd('design_head.md')+"\n\n".join(out)+"\n\n"+rd('design_tail.md')+"\n".join(rows)+"\n"+rd('design_end.md'))
