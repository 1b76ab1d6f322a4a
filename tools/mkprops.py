import json
S='sidetopics/model/sklearn/lda_cvb.py'
M='sidetopics/model/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,title
    P.append(d)
p('P01','A seed fixes every result exactly',
 "Two sessions that create a topic model of the same kind with the same settings and seed, and then make the same calls on equal data, get bit-identical topics, document mixtures and scores, whatever ran earlier in either process, whatever freed memory contained, and whichever process or hash seed they run under. Creating a model, or assigning its seed, restarts every random stream that kind uses from that seed. Different seeds give kinds that draw randomly different draws.",
 ['histories','configurations','inputs'],
 "every supported model kind x every settings/seed x every call history x every prior history of the process and of the shared random generators, memory contents, hash seeds",
 "Tests fit once per process and check a score band; they never repeat a session in a disturbed process, so hidden state (globals, uninitialised memory, an unseeded generator) cannot show.",
 [S,M+'lda_gibbs.py',M+'lda_gibbs_fast.pyx',M+'lda_cvb_fast.pyx',M+'lda_cvb0_fast.pyx',M+'lda_vb_python.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('seed assignment reseeds numpy and the sampler',S+': TopicModel.__setattr__'),('sampler generator',M+'lda_gibbs.py: seed_rng; lda_gibbs_fast.pyx: initGlobalRng'),('token order shuffle with its own seed',M+'lda_cvb_fast.pyx: toWordList_*')],
 ['TopicModel.fit/transform/score','components_'])
p('P02','Inference never changes the trained model',
 "Transforming or scoring any data, any number of times and in any order, leaves the trained model exactly as it was: its topics, and the result of every later fit, transform or score given the same random draws, are what they would have been had those calls not been made (apart from inference state the caller asked to keep, which P05 governs).",
 ['histories','inputs','configurations'],
 "every sequence of fits interleaved with any inference calls on any datasets, for every supported kind",
 "Tests make one transform after one fit and never compare the model before and after; a change to shared counts only shows through a later call.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb.py',M+'lda_vb_python.py',M+'lda_gibbs.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('query mode of training loops','query() in each model module'),('likelihoods scale counts',M+'lda_cvb.py: log_likelihood, '+M+'lda_cvb0.py: log_likelihood_point'),('state write-back',S+': TopicModel.transform')],
 ['components_','transform','score'])
p('P03','A failed or interrupted inference call changes nothing',
 "If transforming or scoring is interrupted, runs out of memory or fails at any point of the inference computation, the trained model is unaffected and repeating the call with the same random draws gives exactly what an undisturbed call would have given. A later request to continue from kept inference state either continues exactly from the state left by a completed call on that very dataset or is refused; it never continues from a half-updated state.",
 ['fault_sequences','crash_points','histories'],
 "every point in the inference code at which an interrupt, memory exhaustion or failing library call can surface x every call history before and after it",
 "No test injects a failure; the window is a few statements wide and the damage only shows in a later call.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb.py',M+'lda_vb_python.py',M+'lda_gibbs.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('results are published only after inference returns',S+': TopicModel.transform, find_query_state_via_transform'),('temporary in-place scaling of counts',M+'lda_cvb.py: train(query=True), log_likelihood')],
 ['transform','score','fit'])
p('P04','Training is all or nothing',
 "If training is interrupted, runs out of memory or fails at any point of the computation, the model is afterwards either exactly what it was before the call or exactly what the completed call would have left. A model that had never been trained still refuses to transform, an already trained one keeps its topics, and repeating the call with the same random draws gives exactly what an undisturbed call would have given.",
 ['fault_sequences','crash_points','histories'],
 "every point in the training code at which an interrupt, memory exhaustion or failing library call can surface x first fit, refit and resumed fit x every kind",
 "No test injects a failure into training; a half-trained model looks like a trained one.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py',M+'lda_gibbs.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('model state is created and replaced by fit',S+': TopicModel.fit'),('in-place amendment of model counts',M+'lda_cvb.py: train, '+M+'lda_cvb0.py: train')],
 ['fit','components_','transform'])
p('P05','Stopping and continuing inference equals one longer run',
 "Inferring n1 iterations with the state kept and then continuing for n2 iterations on the same dataset object gives the mixtures of a single run of n1+n2 iterations, up to rounding: for transforming with the CVB, CVB0, variational (C and batch Python) and mixture-VB kinds, and for fitting with the variational (C and batch Python) and mixture-VB kinds. Continuing is refused unless state was kept by the immediately preceding fit or transform for that same dataset object, even if another dataset is equal to it, has its shape or reuses its address.",
 ['histories','inputs','configurations'],
 "every split of every number of iterations, every chain of kept/dropped state, every set of live and dead datasets",
 "The tests run one fit_transform chain on one dataset; stale state from another dataset or an earlier call needs specific histories.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py',M+'mom_em.py'],
 [('dataset identity check',S+': make_or_resume_query_state'),('kept state set or cleared by every call',S+': _set_or_clear_last_query_state'),('query counts returned without model counts',M+'lda_cvb0.py: train')],
 ['transform(resume=True)','fit(persist_query_state=True)'])
p('P06','Every reported distribution is a valid distribution',
 "Every document mixture and every topic-word distribution reported at any point of a session is finite, non-negative and sums to one per row, after first and repeated fits, batch or online, and whatever values the random generators return, including draws at the very ends of their range. No random draw makes a sampler assign a word to a topic that does not exist.",
 ['inputs','histories','configurations'],
 "every draw sequence of every generator incl. boundary values x every kind x data shape (long documents, rare words, single-word documents) x call history",
 "Tests use one seed; boundary draws have probability about 2^-31 per draw and corrupted assignments then only show as memory corruption.",
 [S,M+'lda_gibbs_fast.pyx',M+'lda_gibbs.py',M+'lda_cvb_fast.pyx',M+'lda_cvb0_fast.pyx',M+'lda_vb_python.py',M+'lda_vb.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('inverse-CDF topic draw',M+'lda_gibbs_fast.pyx: sample'),('count to distribution conversion','topicDists/wordDists in each model module'),('sample thinning',M+'mom_gibbs.py: newTrainPlan/train, lda_gibbs.py: newTrainPlan')],
 ['components_','transform'])
p('P07','Scores describe the current model and the given documents',
 "At every point of a session a point score equals the log-likelihood of the given documents computed from the definition with the model's present topics and the given or inferred mixtures, and the matching perplexity is the exponential of minus that value per word. The score given mixtures equals the score given the inference state they came from, and never reflects an earlier model, another dataset or a previous call.",
 ['histories','inputs','configurations'],
 "every history of fits, transforms and restores x every dataset x every supported scoring method",
 "Tests check a score band after a single fit; stale or history-dependent scoring needs several fits and datasets.",
 [S,M+'evals.py','sidetopics/util/sparse_elementwise.py','sidetopics/util/se_fast.pyx'],
 [('scoring',S+': TopicModel.score, _log_likelihood_score_point'),('perplexity',M+'evals.py: perplexity_from_like'),('sparse product of logs','sidetopics/util/sparse_elementwise.py: sparseScalarProductOfSafeLnDot')],
 ['score'])
p('P08','Interleaved callers get the results they would get alone',
 "Callers in one process that each train and use their own model, or that share one trained model to transform and score data, get exactly the results each would get running alone with the same random draws, for every interleaving of their execution at the lines of the Python code.",
 ['schedules','histories'],
 "every interleaving, at statement granularity, of any number of callers' fit/transform/score calls over all kinds",
 "No test runs two callers; module-level caches, shared scratch buffers or results passed through shared attributes only break under particular interleavings.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py',M+'mom_em.py',M+'mom_gibbs.py','sidetopics/util/sparse_elementwise.py'],
 [('per-call state passed as arguments','train/query in each model module'),('results returned from local inference state',S+': TopicModel.transform')],
 ['fit','transform','score'])
p('P09','A saved and restored model carries on identically',
 "A model serialised between any two calls and restored, in the same or in a fresh process after a crash, has the same topics and settings and gives bit-identical results to the original for every later call given the same random draws.",
 ['crash_points','histories','configurations'],
 "every point between calls at which the process can stop x every kind x every later call sequence",
 "Tests never serialise a model; anything kept outside the serialised state shows only after restart.",
 [S,M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py',M+'lda_gibbs.py',M+'mom_em.py',M+'mom_gibbs.py'],
 [('all learnt state is in the model object',S+': TopicModel'),('module level states are plain tuples','ModelState in each model module')],
 ['pickle.dumps/loads'])
p('P10','A failed fold neither corrupts nor counts in a cross-validation run',
 "In a cross-validated evaluation run (perplexity or hashtag precision) a fold that fails at any step is abandoned without stopping the run or affecting any other fold: totals and the reported number of folds cover exactly the folds that completed, the returned file list names exactly the models saved by them, and the template model and the input dataset are unchanged. Every fold starts from the unchanged template, and the requested number of completed folds is respected.",
 ['fault_sequences','histories','configurations'],
 "every set of failing folds x every step of a fold at which the failure strikes (training, likelihood, inference, saving) x number of folds and fold limits",
 "The runner tests need unavailable data files and never fail a fold; contamination needs a failure at a particular step.",
 ['sidetopics/run/__main__.py',M+'common.py',M+'evals.py'],
 [('per-fold try/except/finally','sidetopics/run/__main__.py: cross_val_and_eval_perplexity'),('template duplication','newModelFromExisting in each model module')],
 ['printed totals','returned model file list'])
p('P11','Saved result files are complete or absent',
 "Whatever crash, full disk or I/O error strikes while an evaluation run saves a model, a result file under its final name is always a complete file of some completed save, an earlier complete file is never damaged, a save that did not complete is reported as a failure, and loading a saved file gives back the same document order, training record, model and topics or fails. A saved model made for another document order is refused.",
 ['crash_points','fault_sequences'],
 "every write, flush, close and rename during saving at which a crash, short write, ENOSPC or EIO can strike x existing or absent earlier file",
 "No test injects I/O faults; a truncated pickle appears only if the process dies inside the save.",
 ['sidetopics/run/__main__.py'],
 [('save','sidetopics/run/__main__.py: save_model'),('load and order check','sidetopics/run/__main__.py: load_and_adapt_lda_model')],
 ['files in the output directory','save_if_necessary/load_and_adapt_lda_model'])
p('P12','The parts of a document stay together in a dataset',
 "However a dataset is loaded, limited, copied, converted, pruned, shuffled or split, in any sequence, each remaining row's words, features, links, categories and original index all belong to the same original document, and the reported order maps rows to the originally given documents of that step. A deep copy shares nothing with its source, and an operation that fails leaves the dataset as it was.",
 ['histories','inputs','fault_sequences'],
 "every sequence of dataset operations x every combination of optional parts x a failing allocation in any of them",
 "There is no test of these operations; misalignment needs an operation sequence with several optional parts present.",
 [M+'common.py'],
 [('reordering all parts',M+'common.py: DataSet._reorder, prune_and_shuffle'),('splitting all parts',M+'common.py: cross_valid_split, split_on_feature'),('link columns follow rows',M+'common.py: _reorder_link_matrix')],
 ['DataSet.words/feats/links/doc_categories/order'])
p('P13','Splits lose, invent and leak nothing and are repeatable',
 "For every dataset, fold and seed a split conserves its data: train and held-out folds are disjoint and together hold every document, every document is held out in some fold, both halves of a completion split are non-negative and add up to the original counts, and link splits partition the links. The same split call always gives the same result, neither depends on nor disturbs the global random stream, and does not modify the dataset.",
 ['inputs','histories','configurations'],
 "every dataset, fold count, seed, proportion and data type x every history of other random draws between two calls",
 "Tests use one split of one dataset and do not check conservation; coupling to the global generator needs interleaved draws.",
 [M+'common.py','sidetopics/run/__main__.py'],
 [('fold indices',M+'common.py: cross_valid_split_indices'),('completion split',M+'common.py: doc_completion_split'),('link splits',M+'common.py: _split, _split_symm, _folded_split'),('word removal split','sidetopics/run/__main__.py: soft_split_on_indices')],
 ['cross_valid_split','doc_completion_split','link_prediction_split','folded_link_prediction_split'])
p('P14','Loading a dataset is complete or fails',
 "Loading a dataset from files either yields all the documents the files hold, limited and ordered as asked with every part aligned, or raises an error; a short read, read error, truncated or missing file, or files of different lengths never yield a silently partial or misaligned dataset, and all opened files are closed.",
 ['fault_sequences','inputs','crash_points'],
 "every combination of files x every read, open or close at which an I/O fault can strike x every truncation point x order and limit",
 "The tests never load a damaged file or fail a read.",
 [M+'common.py'],
 [('loading',M+'common.py: DataSet.from_files'),('row count checks',M+'common.py: DataSet.__init__')],
 ['DataSet.from_files'])
p('P15','Learnt counts account for every word exactly once per fit',
 "For the kinds that learn by counting, after any history of fits, inferences and failures the learnt topic counts sum to the number of word occurrences of all successful fits (collapsed kinds, which accumulate) or of the latest successful fit (sampling and batch variational kinds, which start afresh), each document's kept counts sum to that document's length, and topic totals equal the sums of the per-word counts. Inference on other data neither adds to nor removes from these counts.",
 ['histories','fault_sequences','inputs'],
 "every history of fits, refits, transforms and failed calls on any datasets for the collapsed, sampling and variational counting kinds",
 "Tests look at normalised distributions after one fit, which hide lost or doubled mass.",
 [M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_cvb_fast.pyx',M+'lda_cvb0_fast.pyx',M+'lda_gibbs.py',M+'lda_gibbs_fast.pyx',M+'lda_vb_python.py'],
 [('initial counts',M+'lda_cvb_fast.pyx: calculateCounts'),('add/subtract model counts around training',M+'lda_cvb.py: train'),('decrement/increment per token',M+'lda_gibbs_fast.pyx: sample')],
 ['model state after fit','query state after fit/transform'])
p('P16','Callers\' data is never modified',
 "No fit, transform, score, split or model creation modifies the word counts, features, links, priors, mixtures or inference state a caller passed in, whether the call succeeds, fails or is interrupted, so the same objects can be passed again with the same meaning.",
 ['histories','fault_sequences','inputs'],
 "every call on every kind and data type x every failure point",
 "Tests pass fresh or unshared data and never compare it afterwards.",
 [S,M+'common.py',M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py',M+'mom_em.py',M+'mom_gibbs.py','sidetopics/util/sparse_elementwise.py'],
 [('sparse kernels write to fresh output','sidetopics/util/sparse_elementwise.py'),('type conversion copies',M+'mom_em.py: train')],
 ['arguments before and after'])
p('P17','Copies and duplicates of a model are independent',
 "A copy of a topic model, or a duplicate of a module-level model, has the same settings, topics and behaviour as its source at that moment, and from then on no call on one of them, successful or failed, changes any result of the other.",
 ['histories','configurations','schedules'],
 "every kind x every history before the copy x every interleaving of later calls on source and copy",
 "Copying is not tested at all; shared buffers show only when one side is trained further.",
 [S]+[M+x for x in ('lda_cvb.py','lda_cvb0.py','lda_vb.py','lda_vb_python.py','lda_gibbs.py','mom_em.py','mom_gibbs.py','ctm.py','ctm_bohning.py','stm_yv.py','stm_yv_bohning.py','mtm3.py','lro_vb.py')],
 [('copy',S+': TopicModel.copy'),('duplicate','newModelFromExisting in each model module')],
 ['TopicModel.copy','newModelFromExisting'])
p('P18','Watching training does not change it',
 "Turning on progress measurement during training, at any interval, leaves the learnt topics and mixtures exactly as they would have been without it as long as the run is not stopped early, and a run with progress measurement performs exactly the requested iterations.",
 ['configurations','histories'],
 "every logging interval x iteration count x kind that supports progress measurement x resumed and repeated fits",
 "Tests always run with one logging setting, and compare to score bands.",
 [M+'lda_cvb.py',M+'lda_cvb0.py',M+'lda_vb_python.py'],
 [('segmented iterations',M+'lda_cvb.py: train (segIters, remainder)'),('measurement on scaled counts',M+'lda_cvb.py: log_likelihood, var_bound')],
 ['fit(log_frequency)'])
p('P19','Elementwise, sigmoid and vector-reshaping kernels match the dense formulas',
 "Sparse elementwise products, safe logarithms, sigmoid and softmax helpers and vec/Kronecker reshaping kernels give the values of their dense mathematical definitions.",
 ['inputs'],"every matrix, data type and shape","Tests use a few fixed matrices.",
 ['sidetopics/util/sparse_elementwise.py','sidetopics/util/se_fast.pyx','sidetopics/util/vectrans.py','sidetopics/util/vt_fast.pyx','sidetopics/util/sigmoid_utils.py','sidetopics/util/overflow_safe.py'],
 [('kernels','sidetopics/util')])
p('P20','Ranking metrics match their definitions',
 "Precision and recall at M, mean average precision and mean reciprocal rank equal their textbook definitions over the given expected and predicted links.",
 ['inputs'],"every pair of link matrices, cut-offs and document groups","No test computes these metrics.",
 ['sidetopics/model/evals.py'],[('metrics','sidetopics/model/evals.py')])
p('P21','An evaluation run depends on its command line and input files alone',
 "Two evaluations started with the same command line and input files print the same results and save the same models: nothing that ran before in the same process - other evaluations, successful or failed, other random draws - nor memory contents, the interpreter's hash seed or the clock changes any result; the clock shows in file names and progress lines only. An evaluation leaves its input files unchanged, and the combined results it prints are those of its folds, weighted by the documents they cover.",
 ['histories','fault_sequences','configurations','crash_points'],
 "every model and evaluation the command line offers x every history of earlier evaluations in the process, each failing at any disk operation, line, allocation or library call x clock x hash seed",
 "The tests never run the command line twice in one process, nor in a process in which a run failed, and the seeding it announces covers one of the two generators in use.",
 ['sidetopics/run/__main__.py',M+'common.py',M+'lda_gibbs.py'],
 [('seeding','sidetopics/run/__main__.py: run'),('fold loops','sidetopics/run/__main__.py: cross_val_and_eval_*, insample_lro_style_prec_rec'),('combined results','sidetopics/run/__main__.py: combine_map, printTable')],
 ['python -m sidetopics.run'])
p('P22','Reports and converted files say all their inputs say, or are left alone',
 "Every output file of the side tools - the reports generated from saved folds with their conversion files, matrices converted from text, result tables reshaped to CSV, citation metadata and author identifiers - is at any moment either as it was before a tool ran or completely what its inputs prescribe, whatever read, write or rename fails, wherever the tool or the machine stops. A report lists exactly the finished fold files of its configuration, in the order of their folds, in whatever order the directory lists them and whatever unfinished or foreign files lie beside them; a converted matrix holds every number of the text and a text with too few or too many lines or numbers is refused; a reshaped table gives every printed value and averages its groups weighted by their documents; authors are numbered in order.",
 ['fault_sequences','crash_points','histories','inputs'],
 "every history of tool runs x every failing, short or last disk operation, interrupted line and power loss x every directory order x every damaged input",
 "There are no tests of these tools at all.",
 ['sidetopics/run/report_generator.py','sidetopics/run/text_to_numpy.py','sidetopics/run/reshape_results.py','sidetopics/run/arxiv_to_aan.py','sidetopics/run/arxiv_author_ids.py'],
 [('fold file patterns','sidetopics/run/report_generator.py: _generate_report'),('conversion','sidetopics/run/text_to_numpy.py: save_as_numpy, save_as_numpy_sparse'),('table reading and roll-up','sidetopics/run/reshape_results.py: read_table, roll_up_and_average'),('writing','sidetopics/util/files.py: whole_file')],
 ['files in the report and conversion directories'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
