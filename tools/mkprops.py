#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run once by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

G='beer/graph.py'; HMM='beer/models/hmm.py'; MS='beer/models/modelset.py'; PL='beer/models/phoneloop.py'
CLI='beer/cli/subcommands/hmm/'
NOTEST='No stable test imports this code: the passing tests cover only the neural-network string parser, the autoregressive layers and one doctest. '

prop('C01','Substituting a unit HMM for a graph state preserves paths and weights',
 'Replacing a state of a graph by a sub-graph yields exactly the paths in which every visit of that state is substituted by a start-to-end traversal of the sub-graph, each with the product of the original arc weights. All other states, arcs, weights and labels are untouched (also those of the inserted sub-graph object, which can be inserted again), and no arc is left pointing to a removed state. Normalising a graph makes the outgoing weights of every state that has any sum to one without changing their ratios.',
 ['inputs','programs'],'every host graph, every replaced state (with or without self-loops, start or end state included), every sub-graph, every sequence of replacements and normalisations',
 NOTEST+'Correctness is over all graph shapes and sequences of edits, not a sampled graph.',
 [G],[('Graph.replace_state','beer/graph.py'),('Graph.normalize','beer/graph.py')],
 [('states/arcs','graph under construction','beer/graph.py Graph')],['Graph.states()','Graph.arcs()','Graph.start_state/end_state'])

prop('C02','Compiled graphs carry the total weight of all non-emitting paths',
 'Compiling a graph yields one inference state per emitting state, labelled with its density index, whose initial (final) probabilities are proportional to the total weight of all non-emitting paths from the start (to the end), parallel routes through shared non-emitting states all counted. The transition from one emitting state to another is the total weight of the direct arc and of every non-emitting path between them; a state with a self-loop and other successors keeps its self-loop probability and has the rest rescaled to one minus it.',
 ['inputs'],'every graph without a cycle of non-emitting states, whatever the number and sharing of non-emitting states, arc insertion order and weights',
 NOTEST+'The guarantee quantifies over all graph topologies; wrong weights show up only on particular shapes (shared non-emitting states).',
 [G],[('Graph.compile','beer/graph.py'),('Graph.find_next_pdf_ids / find_previous_pdf_ids','beer/graph.py')],
 [('init/final/trans log probs','compiled HMM','beer/graph.py CompiledGraph')],['CompiledGraph buffers','CompiledGraph.pdf_id_mapping'])

prop('C03','Forward-backward posteriors equal the exact path marginals',
 'For any compiled graph and any per-frame state log-likelihoods under which at least one complete path is possible, the state (and transition) posteriors equal the marginals obtained by summing over all complete paths from an initial to a final state. Each frame of the state posteriors and each transition slice sums to one, consecutive transition slices agree with the state posteriors, and the reported evidence is the logarithm of the total path weight, all unaffected by adding a constant to the log-likelihoods of a frame.',
 ['inputs'],'every initial/final/transition structure (zeros included), every sequence length from one frame, every likelihood matrix with at least one feasible path',
 NOTEST+'Path sums are exponential in the length; only a model of all paths decides every input.',
 [G,HMM],[('CompiledGraph.posteriors','beer/graph.py'),('forward/backward recursions','beer/graph.py')],
 [('alphas/betas','forward and backward messages','beer/graph.py')],['CompiledGraph.posteriors','HMM.posteriors'])

prop('C04','Decoding returns a complete path of maximal probability',
 'The decoded state path has one state per frame, starts in an initial state, ends in a final state, uses only allowed transitions, and no other complete path has a larger product of initial, transition, final and (acoustically scaled) emission likelihoods. The decoder reports it as the density index of each state of the graph it was given, whether the graph is the model\'s own or an alignment graph.',
 ['inputs'],'every compiled graph, every likelihood matrix with at least one feasible complete path, every sequence length from one frame, every acoustic scale',
 NOTEST+'Optimality quantifies over all competing paths.',
 [G,HMM],[('CompiledGraph.best_path','beer/graph.py'),('HMM.decode','beer/models/hmm.py')],
 [('omega/backtrack','Viterbi scores and back-pointers','beer/graph.py')],['CompiledGraph.best_path','HMM.decode'])

prop('C05','Emission sharing routes every likelihood and responsibility to its density',
 'When emission densities are reordered or shared, concatenated or repeated, position j of the state likelihoods is the likelihood of the density assigned to j, and the statistics accumulated by a density are the sum of the responsibilities of exactly the positions assigned to it, multiplied once by the acoustic scale. Nothing is lost or counted twice: the accumulated responsibility mass of a training call equals the number of frames times the scale, for posterior, best-path and given-path training alike. The objective of a frame is the scaled log-likelihood of its states averaged with these responsibilities.',
 ['inputs','configurations'],'every ordering and sharing pattern, every nesting of concatenated / repeated / mixture emission sets, every responsibility matrix, every scale, repeated calls with different graphs',
 NOTEST+'Misrouting depends on the sharing pattern and on leftover state of previous calls.',
 [MS,HMM],[('DynamicallyOrderedModelSet / JointModelSet / RepeatedModelSet','beer/models/modelset.py'),('HMM.expected_log_likelihood / accumulate','beer/models/hmm.py')],
 [('cached order, responsibilities, scale','what the last likelihood call left for accumulate','beer/models/basemodel.py cache')],['accumulate() results'])

prop('C06','Alignment graphs accept exactly the transcription',
 'The alignment graph of a transcription admits exactly the state sequences that traverse the listed units once each, in order, each from its entry to its exit, with weights that depend only on the unit topologies. Training or decoding an utterance through its alignment graph therefore assigns no frame to a unit outside the transcription, and collapsing the aligned path gives back the transcription.',
 ['inputs'],'every transcription (repeated units, single unit), every mix of unit topologies, every feature sequence long enough to traverse it',
 NOTEST+'Quantifies over all transcriptions and all feasible state paths.',
 [CLI+'mkaligraph.py',CLI+'accumulate.py',CLI+'decode.py',G],[('create_graph_from_seq','beer/cli/subcommands/hmm/mkaligraph.py'),('--alis handling','beer/cli/subcommands/hmm/accumulate.py, decode.py')],
 [],['alignment graph files','beer hmm decode -a','accumulated statistics'])

prop('C07','Decoded transcriptions list the traversed units, one label per traversal',
 'Decoding an utterance prints its identifier followed by one label for each successive traversal of a unit by the best path, immediate repetitions of the same unit included, and in per-frame mode exactly one label per frame naming the unit occupied at that frame. Every requested utterance that exists in the data set is printed once per request, in the requested order (all utterances in sorted order when none is requested), and utterances that do not exist are skipped with a warning.',
 ['inputs','fault_sequences'],'every path through left-to-right unit HMMs whose entry and exit states differ (the entry state is entered only from outside the unit or by its self-loop), every utterance list with missing or repeated identifiers, with and without alignment graphs',
 NOTEST+'Unit boundaries depend on the path; missing utterances are fault inputs no test supplies.',
 [CLI+'decode.py'],[('state2phone','beer/cli/subcommands/hmm/decode.py'),('main loop','beer/cli/subcommands/hmm/decode.py')],
 [],['stdout of beer hmm decode'])

prop('C08','Unit posteriors are a distribution over units at every frame',
 'For every frame the posterior of a unit is the sum of the posteriors of all its states, so the unit posteriors are non-negative and sum to one, in the order of the unit inventory; state-level output gives the state posteriors themselves and log output their floored logarithm. The acoustic scale acts on the emission log-likelihoods exactly as in training and decoding, and one file with one row per frame is written per requested utterance that exists.',
 ['inputs','configurations'],'every unit inventory (units with one or several states), every utterance, scale and output option',
 NOTEST+'Holds for all inventories and frames; an off-by-one in the state range silently drops mass.',
 [CLI+'posteriors.py',HMM],[('state2phone','beer/cli/subcommands/hmm/posteriors.py'),('HMM.posteriors','beer/models/hmm.py')],
 [],['<utt>.npy files'])

prop('C09','The phone loop is built with consistent state and density numbering',
 'Building unit HMMs, the loop graph, the decoding graph and the model from any unit list gives every emitting state of every unit its own density, the entry and exit densities recorded for a unit are those of its first and last state, and density i is state i of the compiled loop. The loop accepts exactly the non-empty concatenations of unit traversals, restricted to start and end with units of the requested boundary group when one is given.',
 ['inputs','configurations'],'every unit list (any order and interleaving of groups), any group topologies and numbers of Gaussians, with or without a boundary group',
 NOTEST+'Numbering agreement spans four commands and depends on the list order.',
 [CLI+'mkphones.py',CLI+'mkphoneloopgraph.py',CLI+'mkdecodegraph.py',CLI+'mkphoneloop.py',G],[('create_unit_graph / main','mkphones.py'),('main','mkphoneloopgraph.py'),('main','mkdecodegraph.py')],
 [('start_pdf/end_pdf','unit to entry/exit density maps','beer/cli/subcommands/hmm/mkdecodegraph.py')],['compiled graph','start/end maps','emission set length'])

prop('C10','Loop transition weights always mirror the current unit-weight posterior',
 'At every moment after construction or after any sequence of parameter updates, saving and reloading, or copying, the log-probability of going from the exit of any unit to the entry of a unit is the log exit probability plus the expected log weight of the entered unit under the current weight posterior (given the left unit for bigram loops); everything else in the transition matrix is as compiled. The statistics used to update the weights count exactly the expected unit entries (loop transitions, plus the first frame for unigram loops), and are zero when training with alignment graphs.',
 ['histories','inputs'],'every interleaving of weight updates, save/reload, copies and accumulation; every weight prior (Dirichlet, stick-breaking, with hyper-prior; unigram or bigram); units with at least two emitting states',
 NOTEST+'Staleness appears only after particular histories (update after reload or copy).',
 [PL,'beer/models/parameters.py','beer/models/categorical.py','beer/models/categoricalset.py'],[('_on_weights_update callback','beer/models/phoneloop.py'),('BayesianParameter.dispatch','beer/models/parameters.py')],
 [('trans_log_probs','transition matrix','beer/graph.py'),('weights posterior','unit weights','beer/models/phoneloop.py')],['graph.trans_log_probs','accumulate()'])

prop('C11','Accumulated objectives add like a monoid and scale by data size',
 'Objectives evaluated on parts of a data set add up independently of order and grouping, the empty objective being neutral: values add, statistics add per parameter over the union of the parameters, processed frame counts add, and adding objectives for different data sizes is refused. Back-propagating stores in every parameter that received statistics their sum times total data size over processed frames and leaves other parameters alone, also after the objective was saved, reloaded and re-attached to the model; the value is the data-scaled expected log-likelihood minus the prior divergence.',
 ['histories','inputs'],'every split of the data into minibatches, every order and grouping of additions, models with overlapping or disjoint parameters, save/reload at any point',
 NOTEST+'Associativity and commutativity quantify over all histories of additions.',
 ['beer/inference/objectives.py'],[('EvidenceLowerBoundInstance.__add__ / backward / sync','beer/inference/objectives.py'),('evidence_lower_bound','beer/inference/objectives.py')],
 [('accumulated statistics','per-parameter sums','beer/inference/objectives.py')],['float(elbo)','parameter statistics after backward'])

prop('C12','Conjugate updates are exact Bayesian updates',
 'With learning rate one, updating a conjugate parameter with the statistics of some data yields exactly the textbook posterior for that prior and data (Dirichlet, Normal-Gamma, isotropic Normal-Gamma, Normal-Wishart, Gamma), independent of the previous posterior, of the order of the data and of its grouping into batches. With learning rate r the new natural parameters are (1-r) times the old plus r times prior plus statistics, the prior itself never changes, and converting between standard and natural parameters is lossless.',
 ['inputs','histories'],'every valid prior, every data set, every sequence of updates and learning rates',
 NOTEST+'Quantifies over all priors, data and update histories; numeric slips survive smoke tests.',
 ['beer/models/parameters.py','beer/dists/dirichlet.py','beer/dists/gamma.py','beer/dists/normalgamma.py','beer/dists/isonormalgamma.py','beer/dists/normalwishart.py','beer/models/normal.py','beer/models/normalset.py','beer/models/categorical.py'],
 [('ConjugateBayesianParameter.natural_grad_update','beer/models/parameters.py'),('natural_parameters / update_from_natural_parameters','beer/dists/*.py')],
 [('natural parameters','posterior and prior','beer/models/parameters.py')],['posterior standard parameters','expected values'])

prop('C13','Each optimisation step updates exactly the next parameter group',
 'The mean-field groups are updated in a fixed cyclic order, one group per step: a step changes the posterior of the parameters of the group whose turn it is and of no other parameter, and stored statistics are reset at the start of a step. Saving the optimiser state and restoring it into a new optimiser for the (reloaded) model continues the same schedule with the same learning rate, also when combined with a gradient optimiser.',
 ['histories','crash_points'],'every number of groups, every history of steps, saves and restores',
 NOTEST+'The schedule is a property of histories, in particular across save/restore.',
 ['beer/inference/optimizers.py','beer/models/basemodel.py'],[('VBConjugateOptimizer.step / state_dict','beer/inference/optimizers.py'),('mean_field_factorization','beer/models/*.py')],
 [('update_count','position in the schedule','beer/inference/optimizers.py')],['posterior parameters after each step'])

prop('C14','The objective is a lower bound that full-batch training never decreases',
 'For Normal, categorical, Gamma and mixture models the objective never exceeds the log marginal likelihood of the data, equals it once the conjugate posterior of a model without hidden variables has been updated on the full data, and never decreases from one full-batch step with learning rate one to the next. The divergence between posterior and prior it subtracts is non-negative, zero when they coincide, and equal to the true Kullback-Leibler divergence.',
 ['inputs','histories'],'every data set, prior and initialisation, every sequence of full-batch steps of models with any number of groups',
 NOTEST+'A bound and its monotonicity quantify over all data and whole training histories.',
 ['beer/inference/objectives.py','beer/dists/basedist.py','beer/dists/*.py','beer/models/normal.py','beer/models/mixture.py','beer/models/categorical.py'],
 [('evidence_lower_bound','beer/inference/objectives.py'),('kl_div','beer/dists/basedist.py'),('log_norm / expected_sufficient_statistics','beer/dists/*.py')],
 [],['float(elbo) per step','kl_div'])

prop('C15','Distributed training counts every utterance exactly once',
 'Accumulating over any partition of the utterance list into shards (empty shards and any file order included) and then updating gives the same model as a single shard: each listed utterance that exists in the data set contributes once per listing, scaled by total data size over processed frames, missing utterances are reported and skipped, and utterances without alignment graph are reported and accumulated without one, none affecting the others. The saved optimiser state makes successive update commands continue one training run, and the input model file is left unchanged.',
 ['schedules','histories','fault_sequences'],'every partition and order of shards, missing utterances and alignments, any number of epochs',
 NOTEST+'No test runs the commands; exactly-once is over all shardings and faults.',
 [CLI+'accumulate.py',CLI+'update.py','beer/inference/objectives.py'],[('main','accumulate.py'),('main','update.py')],
 [('shard files','pickled partial objectives','accumulate.py'),('optimiser state','schedule position','update.py')],['output model posterior'])

prop('C16','Single-machine training consumes every utterance once per epoch',
 'Training on a single machine visits every utterance of the data set exactly once per epoch, updates the model after every complete batch (after the whole data set when no batch size is given) and after the remaining incomplete batch, each update using the statistics of exactly the utterances of that batch scaled by total data size over batch frames. With one batch per epoch it yields the same model as accumulating and updating separately.',
 ['inputs','histories'],'every data set, batch size and number of epochs, any visiting order',
 NOTEST+'No test runs the command; remainder batches and defaults are only reached by particular sizes.',
 [CLI+'train.py'],[('main','beer/cli/subcommands/hmm/train.py')],[],['output model posterior'])

prop('C17','Data sets describe and serve exactly the archived features',
 'A data set compiled from a feature archive reports the exact total frame count, mean and variance over all frames of all utterances, whatever their number, lengths and storage type, and its length is the number of utterances. Iterating yields each utterance exactly once with its own features (sorted by identifier unless random order is asked for), independent iterations do not disturb each other, lookup by identifier agrees with iteration and refuses unknown identifiers, and all of this still holds after saving and reloading at any point.',
 ['inputs','histories'],'every archive, every interleaving of iterators, lookups and save/reload',
 NOTEST+'Interleaved iteration and persistence are histories no test exercises.',
 ['beer/cli/dataset.py','beer/cli/subcommands/dataset/create.py','beer/cli/subcommands/features/archive.py'],[('Dataset / UtteranceIterator','beer/cli/dataset.py'),('accumulate','beer/cli/subcommands/dataset/create.py')],
 [('cached archive handle','lazily opened features','beer/cli/dataset.py')],['Dataset API','features archive contents'])

prop('C18','Mixture responsibilities are exact and conserve probability mass',
 'The responsibility of a component for a frame is proportional to the exponential of its expected log weight plus its expected log-likelihood (or is one-hot on a given label), responsibilities sum to one, the reported posteriors are these same responsibilities, and the frame objective is the corresponding log-normaliser. The accumulated weight and component statistics use the same responsibilities, multiplied by the outer responsibility for mixtures inside a larger set, so that no probability mass is created, lost or moved to another mixture.',
 ['inputs','configurations'],'every number of components and mixtures, likelihoods (including widely separated ones), weights, labels and outer responsibilities',
 NOTEST+'The one related test file is hollow; the guarantee is over all likelihood values and nestings.',
 ['beer/models/mixture.py','beer/models/mixtureset.py','beer/models/categorical.py','beer/models/categoricalset.py'],[('Mixture.expected_log_likelihood / accumulate / posteriors','beer/models/mixture.py'),('MixtureSet.expected_log_likelihood / accumulate','beer/models/mixtureset.py')],
 [('cached responsibilities','left for accumulate','beer/models/mixture.py')],['accumulate()','posteriors()'])

prop('C19','Stick-breaking weights follow the counts ranked by size',
 'After an update with given category counts, the stick of a category gains its own count and the total count of all categories ranked after it, where categories are ranked by decreasing count; expected weights and expected log weights are those of the resulting stick-breaking posterior, reported in the original category order. Weights are positive and sum to at most one; with a hyper-prior the concentration posterior is refreshed from the sticks after every weight update and the stick prior then uses its new mean; sets of sticks tied to a root use the ranking of the root.',
 ['histories','inputs'],'every count vector, truncation, concentration and sequence of updates (ranking changes between updates included)',
 NOTEST+'Ranking state persists across updates; errors need particular permutations.',
 ['beer/models/categorical.py','beer/models/categoricalset.py'],[('_transform_stats / ordering','beer/models/categorical.py'),('hyper-prior callbacks','beer/models/categorical.py'),('SBCategoricalSet','beer/models/categoricalset.py')],
 [('ordering','current ranking','beer/models/categorical.py')],['mean','expected_log_likelihood','posterior concentrations'])

prop('C20','A component extracted from a set behaves as that component',
 'Indexing or slicing a set of densities, mixtures or categoricals yields models whose expected likelihoods, expected parameters and statistics are those of the corresponding columns of the set, for single indices and, where the set supports them, contiguous slices, in plain, concatenated and repeated sets alike. Indexing neither changes the set nor its components.',
 ['inputs','configurations'],'every index and slice, every set type and nesting',
 NOTEST+'Quantifies over index expressions and nestings.',
 ['beer/models/normalset.py','beer/models/mixtureset.py','beer/models/categoricalset.py','beer/models/modelset.py','beer/models/parameters.py','beer/dists/basedist.py'],[('__getitem__','beer/models/*.py'),('ConjugateBayesianParameter.__getitem__','beer/models/parameters.py')],
 [],['indexed models'])

prop('C21','Subspace models write each unit\'s own slice of parameters',
 'Replacing the parameters of a set of unit models by subspace-generated ones keeps the correspondence: the parameters of unit i are computed from the embedding of unit i and nobody else\'s, each parameter reads its own contiguous slice of the generated vector, slices tile the vector without gap or overlap, and the accumulated statistics are laid out in the same order. Models not covered by the subspace keep their parameters.',
 ['inputs','configurations'],'every number of units, parameters per unit and dimensions',
 NOTEST+'Slice arithmetic depends on the mix of parameter sizes.',
 ['beer/models/gsm.py','beer/models/basemodel.py'],[('GSM / GSMSet parameter update','beer/models/gsm.py'),('replace_parameters','beer/models/basemodel.py')],
 [],['generated parameters'])

prop('C22','Autoregressive networks never look at the current or later coordinates',
 'In an autoregressive network the output parameters of a coordinate depend on no coordinate that is not strictly before it in the ordering, whatever the depth and widths, and on conditioning variables only where these are given; stacking layers never opens a forbidden path. Networks described by configuration produce exactly the declared sequence of layers and sizes.',
 ['inputs','configurations'],'every dimension, depth, width, ordering and random mask draw',
 'Existing tests sample a couple of sizes; the guarantee is for all sizes, depths and mask draws.',
 ['beer/nnet/arnet.py','beer/nnet/neuralnetwork.py'],[('create_mask / create_final_mask','beer/nnet/arnet.py'),('create_arnetwork','beer/nnet/arnet.py')],
 [('masks','allowed connections','beer/nnet/arnet.py')],['Jacobian of the network'])

prop('C23','Scoring tools compute the exact edit distance, boundary hits and mappings',
 'The token error rate uses the minimal number of insertions, deletions and substitutions between reference and hypothesis, after the optional mapping, repetition removal and exclusion of ignored tokens, summed over the utterances transcribed in both files, relative to the number of reference tokens. Boundary scoring credits each hypothesised boundary in turn with the closest reference boundary not credited yet, within the tolerance, never credits a reference boundary twice, keeps units without mapping distinct, and covers utterances without any boundary; the unit-to-phone mapping assigns each unit a phone it overlaps most, the mutual information and entropy are those of the counted units, and transcription conversions preserve the utterances, the order and the identity of tokens.',
 ['inputs'],'every pair of transcriptions, tolerance, mapping and exclusion list',
 'One doctest with three pairs covers the distance; boundary scoring and mappings have no tests.',
 ['recipes/aud/utils/ter.py','recipes/aud/utils/score_boundaries.py','recipes/aud/utils/maxoverlap_mapping.py','recipes/aud/utils/maptrans.py','recipes/aud/utils/nmi.py','recipes/aud/utils/entropy_rate.py','recipes/aud/utils/ali2trans.py','recipes/aud/utils/add_prefix.py','recipes/aud/utils/convert_align.py','recipes/aud/utils/prepare_phone_trans.py','recipes/aud/utils/prepare_lang_aud.py'],
 [('wer','recipes/aud/utils/ter.py'),('get_hits','recipes/aud/utils/score_boundaries.py')],[],['printed scores and transcriptions'])

prop('C24','The training recipe resumes after any interruption to the same final model',
 'Running a training recipe (unit discovery, its bigram variant, phone recogniser) again after it was interrupted at any point, or after a parallel job failed, ends with the same final model as an uninterrupted run: every epoch combines each shard of that epoch exactly once and is applied once to the model of the previous epoch, whatever the number of parallel jobs of the runs. A finished training is not modified by running it again, and asking for more epochs continues from the last one.',
 ['crash_points','histories','fault_sequences'],'every interruption point between and inside recipe steps, failing jobs, job counts changing between runs, repeated runs',
 'No test runs the recipe; the guarantee is over all crash points and rerun histories.',
 ['recipes/aud/steps/aud.sh','recipes/aud/steps/monophone.sh','recipes/aud/steps/aud_bigram.sh','recipes/aud/utils/parallel/submit_parallel.sh','recipes/aud/utils/parallel/split.sh','recipes/aud/utils/parallel/sge/parallel.sh','recipes/aud/utils/parallel/sge/jobarray.qsub',CLI+'update.py'],
 [('epoch loop','recipes/aud/steps/aud.sh'),('job submission','recipes/aud/utils/parallel/submit_parallel.sh')],
 [('<epoch>.mdl','models of completed epochs','output directory'),('elbo_*.pkl','shard results','output directory/epochN')],['final.mdl'])

prop('C25','Feature frames, context and deltas follow the declared frame arithmetic',
 'The number of frames extracted from a signal is the number of full windows at the declared frame length and rate, every frame has the declared dimension and holds the spectrum of its own window, filters lie at the declared frequencies for the sampling rate of the signal, and deltas of each order are the (fixed-scale) regression over the declared context with edge frames repeated, appended after the static features. Extraction writes one feature file per listed recording, each holding the features of that recording.',
 ['inputs','configurations'],'every signal of at least one window, frame length, frame rate, delta order, context and feature configuration',
 'No stable test covers feature extraction; edge frames and lengths are boundary inputs.',
 ['beer/features.py','beer/cli/subcommands/features/extract.py'],[('framing, add_deltas','beer/features.py')],[],['feature arrays'])

prop('C26','Normal densities agree with each other in every parameterisation',
 'A set of Normal densities (full or diagonal covariance, one or many) describes the same densities whichever way it is read or built: from mean and covariance or precision-mean and precision, converting back and forth is the identity, and log-likelihoods, log-normalisers, expected statistics, entropies, divergences and samples are those of the Normal densities with these parameters. Each density is treated independently of the others in the set, the divergence of a density to itself is zero, and reading a set changes nothing. The probabilistic output layers of networks produce densities with the declared mean and covariance structure for every input row.',
 ['inputs','configurations','histories'],'every dimension, covariance structure, number of densities and sequence of selections and re-parameterisations',
 NOTEST+'Wrong axes, signs or reshapes only show at particular numbers of densities and dimensions.',
 ['beer/dists/normal.py','beer/dists/normaldiag.py','beer/dists/basedist.py','beer/nnet/problayers.py'],[('from_natural_parameters / natural_parameters / forward','beer/dists/normal*.py'),('kl_div, entropy','beer/dists/basedist.py'),('NormalLayers','beer/nnet/problayers.py')],
 [('params','mean and covariance of the set','beer/dists')],['log_norm','expected_sufficient_statistics','__call__','kl_div','sample'])

prop('C27','The auto-encoder objective is the bound of each frame, with its gradients',
 'The objective of a variational auto-encoder is, per frame, the (weighted) average over the samples drawn for that frame of the log-likelihood of the frame under the decoded density, plus the (weighted) expected log-likelihood of the encoded samples under the prior and the entropy of the encoding. Frames do not influence each other through the networks, summing batches scaled to the data size gives the objective of all the data, gradients of encoder and decoder are those of this objective (through the prior as well), and the prior is updated with the statistics of the encoded samples.',
 ['inputs','configurations'],'every encoder and decoder network, prior (Normal, mixture, HMM, HMM over mixtures), number of samples, weights, batch split and noise',
 NOTEST+'Mixed-up axes of samples and frames cancel for a single sample or a single frame.',
 ['beer/models/vae.py','beer/nnet/problayers.py','beer/inference/objectives.py','beer/inference/optimizers.py','beer/models/mixtureset.py'],[('VAE.expected_log_likelihood / accumulate','beer/models/vae.py'),('VBOptimizer','beer/inference/optimizers.py')],
 [('cached prior statistics','left for accumulate','beer/models/vae.py')],['expected_log_likelihood','gradients','prior posteriors after the step'])

prop('C28','Decoding and extraction steps end with every item once after interruptions',
 'A recipe step that decodes, aligns, computes posteriors, extracts features, builds alignment graphs or creates a data set publishes its output only when it is complete: it holds the result of every listed item exactly once, identical to running the command once on the whole list, whatever the number of jobs. After an interruption at any point or a failing job, running the step again (also with another number of jobs or another list) gives the complete output of its list; a failing job or combination is never hidden; a step whose output exists leaves it as it is.',
 ['crash_points','histories','fault_sequences'],'every interruption point, failing job, sequence of runs with changing job counts and lists',
 'No test runs the recipe steps; the guarantee is over all crash points and rerun histories.',
 ['recipes/aud/steps/decode.sh','recipes/aud/steps/align.sh','recipes/aud/steps/posteriors.sh','recipes/aud/steps/extract_features.sh','recipes/aud/steps/create_dataset.sh','recipes/aud/steps/monophone.sh','recipes/aud/utils/parallel/submit_parallel.sh'],
 [('job files, combination, publication','recipes/aud/steps/*.sh')],
 [('trans_*, *_tmp/*.npy','results of the jobs','output directory')],['trans','*.npz','set.pkl'])

prop('C29','A created model starts as the densities asked for, with the strength asked for',
 'A model or set of models created from a mean, a covariance (scalar, diagonal or matrix), weights and a prior strength has, in the requested covariance family, the densities asked for as its expected densities (an isotropic model takes the largest variance, mixture components and loop units start with equal weights), its posterior equals its prior, and the strength is the number of observations the prior counts for when data arrives. A requested spread of the means only moves the means, by noise of that deviation. The commands that create units and phone-loops create what their options and configuration say. Unknown families are refused.',
 ['inputs','configurations'],'every mean, covariance and weights, given in each accepted form, strength, dimension, set size and configuration of the commands',
 NOTEST+'Created models are only exercised through training in examples.',
 ['beer/models/normal.py','beer/models/normalset.py','beer/models/categorical.py','beer/models/categoricalset.py','beer/models/mixture.py','beer/models/mixtureset.py','beer/models/gamma.py','beer/models/phoneloop.py','beer/cli/subcommands/hmm/mkphones.py','beer/cli/subcommands/hmm/mkphoneloop.py'],
 [('create','beer/models/*.py'),('mkphones, mkphoneloop','beer/cli/subcommands/hmm')],[('prior, posterior','parameters of the created model','beer/models')],['expected densities','hyper-parameters','unit models'])

prop('C30','Flow samples and binary outputs come with their exact log-density',
 'The samples an inverse autoregressive flow layer returns come with their exact log-density: that of the Normal base density, transported through the affine autoregressive steps of the flow, and computed as a function of the sample the density integrates to one. One frame and one sample do not influence another, a dimension only depends on the previous dimensions, the mean of the layer comes with the density of the mean, and gradients are those of these quantities. A Bernoulli output layer gives the log-likelihood of each frame under independent binary variables with the probabilities of the network, whatever the data in [0, 1].',
 ['inputs','configurations'],'every dimension, number of flow steps, autoregressive network, context, frame and sample',
 NOTEST+'A wrong log-determinant is invisible to any test that only looks at samples or shapes.',
 ['beer/nnet/problayers.py','beer/nnet/arnet.py'],[('InverseAutoRegressiveFlow.samples_and_llh, BernoulliLayer','beer/nnet/problayers.py')],
 [('samples, llhs','samples_and_llh','beer/nnet/problayers.py')],['samples','log-densities','gradients'])

prop('C31','Copied, saved, shared or cast models behave alike and live on independently',
 'A model that is deep-copied, pickled or saved and loaded (alone or together with models it shares densities with) has the values and the sharing of the original and nothing in common with it: training one changes no parameter it does not use. The outcome of a training step and the results of evaluating a model are functions of its kind, the values of its parameters and the data only - not of the history of evaluations, copies, casts (float and back, within precision) or replacements of its parameters. Replaced parameters are used and trained by every model of the set they were put in.',
 ['histories'],'every history of creating, sharing, copying, saving, casting, replacing parameters, training and evaluating several models',
 NOTEST+'Stale caches, shared tensors or models that keep an old parameter only show after particular histories.',
 ['beer/models/basemodel.py','beer/models/parameters.py','beer/models/modelset.py','beer/models/mixture.py','beer/models/hmm.py','beer/models/phoneloop.py','beer/inference/optimizers.py'],
 [('Model._replace_params, clear_cache','beer/models/basemodel.py'),('BayesianParameter (identity, callbacks)','beer/models/parameters.py')],
 [('prior, posterior, stats','per parameter','beer/models/parameters.py'),('_cache','per model','beer/models/basemodel.py')],['posterior natural parameters','expected log-likelihoods','posteriors','ELBO'])
prop('C32','Scoring steps report the scores of the transcriptions they were given',
 'A scoring step of the recipe reports, for the reference and hypothesis it was given, the error rate of the hypothesis mapped to phones (by the unit mapping that is given, else by largest overlap; units without phone are errors; repetitions merged; phones of both sides mapped again when asked), the normalised mutual information, the entropy rate and the boundary scores - of the complete files, whatever happened before: a failing tool is never hidden, an interrupted or failed step run again reports the same as one never interrupted, and a finished step reports its scores again without modifying them.',
 ['inputs','crash_points','histories','fault_sequences'],'every pair of transcriptions, mapping option, interruption point, failing tool and sequence of runs',
 'No test runs the recipe; the guarantee is over all crash points and rerun histories.',
 ['recipes/aud/steps/score_aud.sh','recipes/aud/steps/score_ter.sh','recipes/aud/utils/maxoverlap_mapping.py','recipes/aud/utils/maptrans.py','recipes/aud/utils/ter.py'],
 [('tools in turn, skipping what is there','recipes/aud/steps/score_aud.sh')],[('au_phone*, eq_per, nmi, entropy_rate, phone_boundaries','intermediate files and scores','output directory')],['score files','what the step prints'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
