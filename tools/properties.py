import json
D='src/distribution/'
allf=[D+f for f in "bernoulli.rs beta.rs binomial.rs categorical.rs cauchy.rs exponential.rs gamma.rs gaussian.rs laplace.rs logistic.rs lognormal.rs pert.rs triangular.rs uniform.rs".split()]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=hook)))
S="trait Sample::sample / Independent::next / the words handed out by the Source"
p("C01","Draws are replayable: a pure function of the parameters and the words read",
"A draw's outcome, and how many words it takes from the source, depend only on the distribution's parameters and on the words the source returns. Replaying a source from any recorded state therefore reproduces the same outcomes bit for bit and consumes the same words, on the same object, a clone, or a freshly built equal one, whatever was drawn, asked or interleaved before.",
["histories","inputs","fault_sequences"],"every family and parameter, every word stream, every earlier history of draws, queries, failed draws and constructions in the process, every checkpoint a replay starts from",
"The unit tests draw from three families with one fixed seed and never replay; hidden state (a cached spare variate, a static, a cell) only shows over a history.",
allf+['src/sampler/mod.rs'],[("samplers take &self and a &mut Source and keep no state",D+"mod.rs trait Sample"),("the only randomness is Source::read","src/source/mod.rs")],[("source position","the only mutable state of a draw","caller's Source")],[S])
p("C02","Tasks sharing distributions or a source are isolated under every interleaving",
"When several tasks draw from shared distribution objects, each task with its own source obtains exactly the outcomes it would obtain running alone, under every interleaving of the tasks' reads. When tasks share one source and each draw holds it exclusively, the outcomes are exactly those of the sequential execution in the order in which the draws held it.",
["schedules","histories","fault_sequences"],"every number of tasks, workload mix, and interleaving of their individual reads, including reads that stall or fail one of the tasks",
"No existing test runs two tasks; a single schedule on real threads would sample the interleavings without control.",
allf+['src/sampler/mod.rs'],[("distributions are immutable values shared by reference",D+"mod.rs"),("Source for &mut S forwards to the caller's source","random crate, src/source/mod.rs")],[("shared distribution objects","read by all tasks","caller")],[S])
p("C03","Independent samplers are lazy, endless and take exactly one draw per step",
"An independent sampler reads nothing when it is created or dropped, and each step yields exactly one outcome: the one that a direct draw would have produced from the same source state, with the same reads and no read-ahead. It never ends, and whichever standard iterator operations consume it, in whatever pattern and however often samplers are dropped and recreated over the same source, the concatenated outcomes and the final source position equal those of direct draws.",
["histories","programs","fault_sequences"],"every family, every sequence of sampler creations, single steps, batch operations (take, nth, skip, step_by, zip, by_ref, peekable, size_hint, fold), drops, failures and switches between samplers over one source",
"The adapter has one doc test that takes ten samples; prefetching, skipping or ending early only shows when samplers are interleaved with other users of the source.",
['src/sampler/mod.rs','src/source/mod.rs'],[("Independent::next returns Some(distribution.sample(source))","src/sampler/mod.rs")],[("borrowed source","shared with the caller between samplers","src/sampler/mod.rs")],["Iterator::next on Independent","source position before and after"])
p("C04","A failing source read is contained and a restarted draw loses nothing",
"If a source read fails in the middle of a draw (it unwinds), the failure reaches the caller at that very read: no outcome is produced and nothing more is read. Afterwards the distribution, its clones and its reported quantities are unchanged, and restarting the draw from the source's last checkpoint, or continuing from the next word, gives exactly what an object that never failed would give.",
["crash_points","fault_sequences","histories"],"every family, every read position of every draw, single and repeated failures, restart from checkpoint and continue-in-place, direct draws and samplers, with and without concurrent users of the same object",
"No existing test injects a failure; every read of every rejection loop is a distinct crash point.",
allf+['src/sampler/mod.rs'],[("samplers hold no state across reads that outlives the call",D+"*.rs Sample::sample")],[],[S])
p("C05","Every draw lies in the support and is never NaN, whatever the words",
"For every valid parameter and every sequence of words, including stuck, extreme, repeated or otherwise degraded ones, a draw that completes is not NaN and lies in the distribution's support (closed, with the infinite endpoints of unbounded supports allowed, and up to rounding of the endpoints). A discrete draw is a possible outcome: its probability under the parameters is positive.",
["inputs","fault_sequences","histories"],"every family and valid parameter, including tiny and large shapes and zero-probability categories; every word stream, with healthy, stuck-at, extreme-word, repeated-word, low-entropy and boundary-value sources",
"The tests draw from healthy sources only; the dangerous words (all zeros, all ones, exact ties) have probability 2^-64 each.",
allf,[("inverse transform clamps at the ends of the support",D+"*.rs Inverse::inverse"),("rejection loops discard degenerate proposals",D+"gamma.rs sample, "+D+"gaussian.rs sample")],[],[S])
p("C06","Draws and queries always make progress once the source is healthy",
"A draw finishes within a bounded number of source reads and bounded computation once its source returns healthy words, whatever degraded words or failures came before, and it waits for nothing but the source. Every reported quantity of every valid distribution (beta shapes between 0.01 and 10000) is likewise computed in bounded time and without failing.",
["fault_sequences","inputs","histories","schedules"],"every family and valid parameter, every degraded prefix (stuck, extreme, repeated words) followed by healthy words, every word in the body or the tails for the iterative algorithms",
"The tests sample a handful of quantiles; non-termination of an iterative inverse or a rejection loop needs particular parameters and words.",
allf,[("rejection loops accept with probability bounded away from zero",D+"gamma.rs sample, "+D+"gaussian.rs sample"),("summation, bisection and Newton search are bounded",D+"binomial.rs inverse")],[],["reads per draw","CPU time per operation"])
p("C07","Draws of the closed-form continuous families follow their law",
"With a healthy source, long histories of draws from the uniform, exponential, Laplace, logistic and triangular distributions follow the law that their parameters define: every interval, tails included, is hit in proportion to its exact probability up to sampling error, and outcomes use the full resolution of the source's uniform numbers, so that ties are as rare as the law says. Interleaving, failures with restart, and the use of samplers do not bias the history.",
["inputs","histories","schedules","fault_sequences"],"every valid parameter including modes at the endpoints, every seed, interleaving and failure pattern; histories of 10^5 to 10^8 draws",
"The tests do not check any sampled history of these families; a wrong branch, scale or truncated word changes only a part of the law.",
[D+f for f in ['uniform.rs','exponential.rs','laplace.rs','logistic.rs','triangular.rs']],[("inverse transform of one word",D+"*.rs Sample::sample")],[],[S])
p("C08","Gaussian, lognormal and Cauchy draws follow their law",
"With a healthy source, long histories of draws from the Gaussian, lognormal and Cauchy distributions follow the law that their parameters define: every interval, tails and centre included, is hit in proportion to its exact probability up to sampling error and the 24-bit resolution of the underlying Gaussian tables. Interleaving and failures with restart do not bias the history.",
["inputs","histories","schedules","fault_sequences"],"every valid location and scale, every seed, interleaving and failure pattern; histories of up to 10^9 draws resolving events of probability 10^-8",
"The tests compare a few summary statistics of one short history; an error in one of the 128 layers, the wedge or the tail of the rejection method changes a sliver of the law.",
[D+f for f in ['gaussian.rs','lognormal.rs','cauchy.rs']],[("ziggurat rejection sampling with tables K, Y, W and tail beyond R",D+"gaussian.rs sample"),("exponential of a Gaussian, ratio of two Gaussians",D+"lognormal.rs, "+D+"cauchy.rs")],[],[S])
p("C09","Gamma, beta and PERT draws follow their law",
"With a healthy source, long histories of draws from the gamma, beta and PERT distributions follow the law that their parameters define, for shapes below, at and above one: every interval, tails included, is hit in proportion to its exact probability up to sampling error. Interleaving and failures with restart do not bias the history.",
["inputs","histories","schedules","fault_sequences"],"every valid shape, scale and interval; every seed, interleaving and failure pattern; histories of 10^6 to 10^8 draws",
"The tests compare the mean of one short history; errors confined to a shape regime, an acceptance region or one tail are invisible to them.",
[D+f for f in ['gamma.rs','beta.rs','pert.rs']],[("squeeze and exact acceptance of the cubed Gaussian proposal, power boost for shapes below one",D+"gamma.rs sample"),("ratio of gamma draws",D+"beta.rs, "+D+"pert.rs Sample::sample")],[],[S])
p("C10","Discrete draws follow their law, however extreme the parameters",
"With a healthy source, long histories of draws from the Bernoulli, binomial and categorical distributions follow the law that their parameters define: every outcome occurs in proportion to its exact probability up to sampling error, rare outcomes included, and also when success is almost certain (parameters given as failure probabilities), when trials are few or very many, and when categories have zero probability. Interleaving and failures with restart do not bias the history.",
["inputs","histories","schedules","fault_sequences"],"every valid probability in (0,1), trials from 0 to 10^6, probability vectors with zeros and ties; every seed, interleaving and failure pattern; histories of 10^5 to 10^7 draws",
"The tests invert a handful of probabilities; the binomial switches algorithm on the trials, the variance and the side of the tail.",
[D+f for f in ['bernoulli.rs','binomial.rs','categorical.rs']],[("inverse transform by summation, bisection, Newton search and normal expansion",D+"binomial.rs inverse, inverse_normal"),("cumulative sums",D+"categorical.rs"),("failure probability kept separately",D+"bernoulli.rs, "+D+"binomial.rs with_failure")],[],[S])
p("C11","Successive and cross-sampler draws are independent",
"Draws made one after another from healthy words are statistically independent: each outcome is unrelated to the previous ones of the same sampler (in sign, magnitude and rank, at any small lag) and to neighbouring outcomes of other samplers that share the source or run alongside. No two draws ever reuse a word that the source handed out, nor depend on a word handed to another draw.",
["histories","schedules","fault_sequences"],"every family and pair of families, lags up to 16, every interleaving of samplers over shared or separate sources, across failures and restarts",
"No existing test looks at two draws together.",
allf+['src/sampler/mod.rs'],[("each draw reads fresh words from the source",D+"*.rs Sample::sample")],[],[S])
p("C12","Reported distribution function and density agree with simulated histories",
"The cumulative probability, density and mass that a distribution reports at any point its histories visit are those of the law it draws from: they agree with the textbook law up to rounding, and the share of draws at or below the point converges to the reported cumulative probability. Asking never changes later draws or answers, also between draws, from other tasks and after failures.",
["inputs","histories","schedules","fault_sequences"],"every family and valid parameter (shapes 0.05 to 150, trials to 10^6), every point reached by draws or a few scales beyond, every interleaving of queries with draws and failures",
"The tests fix one or two parameter sets per family; series, continued fractions and branches differ across the parameter range.",
allf,[("closed forms and incomplete gamma/beta functions",D+"*.rs Distribution, Continuous, Discrete")],[],["Distribution::distribution, Continuous::density, Discrete::mass"])
p("C13","Reported quantiles and medians agree with simulated histories",
"The quantile a distribution reports for a probability is the point with that share of the law's draws at or below it (for discrete families the smallest such outcome), and its median splits histories evenly: at most half of the draws lie strictly on either side, up to rounding, sampling error and the documented approximations of the beta median (at most 0.02 in probability) and of quantiles of binomials with at least 1000 trials and variance above 80 (asymptotic). Asking never changes later draws or answers.",
["inputs","histories","schedules","fault_sequences"],"every family that reports quantiles or medians and valid parameter, probabilities from 1e-12 to 1 - 1e-12 including those the histories visit and exact endpoints, every interleaving with draws and failures",
"The tests fix one or two parameter sets per family; iterative and piecewise inverses differ across parameters and probabilities.",
allf,[("closed-form or iterative inverses",D+"*.rs Inverse, Median")],[],["Inverse::inverse, Median::median"])
p("C14","Reported moments agree with simulated histories",
"The mean, variance, deviation, skewness and excess kurtosis that a distribution reports are those of the law it draws from: they agree with the textbook law up to rounding, and history averages converge to them. Asking never changes later draws or answers.",
["inputs","histories","schedules","fault_sequences"],"every family with moments and every valid parameter, every interleaving of queries with draws and failures",
"The tests fix one or two parameter sets per family, often symmetric or standard ones for which wrong formulae coincide.",
allf,[("closed-form moments",D+"*.rs Mean, Variance, Skewness, Kurtosis")],[],["Mean::mean, Variance::variance/deviation, Skewness::skewness, Kurtosis::kurtosis"])
p("C15","Reported entropy and modes agree with simulated histories",
"The entropy a distribution reports equals the expected negative log-likelihood of its own draws (up to rounding and the documented normal approximation for binomials with more than 10000 trials), also with zero-probability outcomes. The reported modes are exactly the most likely outcomes of its histories: each lies in the support, no point is more likely than a mode, and ties are all reported.",
["inputs","histories","schedules","fault_sequences"],"every family and valid parameter, including ties, modes at the endpoints, degenerate and zero-probability outcomes; every interleaving with draws and failures",
"The tests fix one or two parameter sets per family.",
allf,[("closed-form entropies and modes",D+"*.rs Entropy, Modes")],[],["Entropy::entropy, Modes::modes"])
p("C16","A Gaussian fitted to a stream matches the stream it was fed",
"Collecting a stream of at least two finite values, not all equal, into a Gaussian consumes each value exactly once and yields the stream's mean and unbiased standard deviation up to rounding, whatever its length, order, offset, scale or (valid) size hint, as long as the squares of its deviations are ordinary numbers. A stream that fails midway yields no distribution, and a repeated attempt on the full stream gives the same result as a first attempt.",
["histories","inputs","fault_sequences"],"every stream: live samplers of every family, recorded histories, chunked and re-ordered deliveries, absent, exact or loose size hints, large offsets and mixed scales, failures at any element",
"The one existing test fits four fixed numbers.",
[D+'gaussian.rs'],[("FromIterator<f64> for Gaussian",D+"gaussian.rs")],[],["Gaussian::from_iter"])
def na(id,title,statement,over,text,why,files,mech):
    p(id,title,statement,over,text,why,files,mech)
na("C17","Every distribution function is a valid distribution function everywhere",
"For every valid parameter and every real x the distribution function lies in [0,1], is non-decreasing, tends to 0 and 1 at the ends and is right-continuous for discrete families.",
["inputs"],"every family, every valid parameter and every pair of reals, not only points that histories visit",
"The tests evaluate a few points.",allf,[("Distribution::distribution",D+"*.rs")])
na("C18","Quantile and distribution function are Galois inverses for every probability",
"For every valid parameter and every p in [0,1], inverse(p) <= x exactly when p <= distribution(x), up to rounding, ties and endpoints included.",
["inputs"],"every family with an inverse, every p and x, independent of any history",
"The tests evaluate a few points.",allf,[("Inverse::inverse",D+"*.rs")])
na("C19","Densities and masses are normalised",
"For every valid parameter the density integrates to one over the support, the masses sum to one, and both vanish outside of the support.",
["inputs"],"every family and valid parameter",
"The tests evaluate a few points.",allf,[("Continuous::density, Discrete::mass",D+"*.rs")])
na("C20","Constructors accept exactly the valid parameters and keep them",
"In checked builds a constructor rejects exactly the parameters outside of its documented domain, and accessors return the parameters given.",
["inputs"],"every parameter tuple including infinities, NaN and boundary values",
"The tests construct valid distributions only.",allf+['src/lib.rs'],[("should!, nonnan!","src/lib.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80,x['id']
