import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
I=["inputs","configurations"]
p("C01","T-ISS output is a linear space-time filtering of the input",
 "For every multichannel STFT and every number of iterations, sources, taps and delay, the separated signal of T-ISS is exactly the demixing matrix applied to the input frames plus a linear combination of input frames delayed by at least the requested delay; before any scale correction the demixing starts at the identity and every update keeps this relation. The demixing and dereverberation matrices the separator exposes after a call are the ones that produced the output (before projection back or minimal distortion), and frames before the start of the signal count as zero.",
 I,"all batch shapes, numbers of channels, frequencies, frames, sources <= channels, taps >= 0, delay >= 0, iterations >= 0, all complex inputs, all positive source models",
 "tests run a few random mixtures and look at shapes or at SDR; the relation must hold for every input and after every update of every iteration",
 ["torchiva/t_iss.py","torchiva/linalg.py"],
 [("spatial, dereverberation and background updates applied jointly to the signal and the filter matrices","torchiva/t_iss.py: iss_updates_with_H, over_iss_t_one_iter, background_update, demix_derev, T_ISS.forward"),("delayed frame view","torchiva/linalg.py: hankel_view")],
 ["T_ISS(...)(X)","attributes W, H, J after the call"],
 [("W, H, J","demixing matrix, dereverberation filters, background rows","torchiva/t_iss.py: T_ISS.forward")])
p("C02","Each T-ISS update is the closed-form minimiser of its surrogate cost",
 "Every spatial update of T-ISS makes the updated source have unit weighted power and removes from every other source its weighted least-squares projection onto it, and every dereverberation update removes from every source the weighted projection onto one delayed input channel, with the weights given by the source model for the current estimate and floored by the regulariser. With fewer sources than channels every iteration recomputes the background so that it is uncorrelated with the current sources.",
 I,"all sizes, weights and signals; every source index, channel and tap; any number of iterations",
 "a wrong weight, conjugate or index still gives a plausible separation on the few random inputs the tests sample",
 ["torchiva/t_iss.py"],
 [("rank-1 updates","torchiva/t_iss.py: iss_block_update_type_1, iss_block_update_type_2, iss_block_update_type_3, iss_updates_with_H"),("background update","torchiva/t_iss.py: background_update")],["T_ISS(...)(X)"])
p("C03","Projection back restores the source images at the reference microphone",
 "When a reference microphone is given, the outputs of T-ISS, AuxIVA-IP and AuxIVA-IP2 are the separated signals rescaled per frequency so that, with as many sources as channels, they add up to the (dereverberated) signal of that microphone; the scale of each source is the entry of the inverse of the complete demixing system for that microphone and source. This holds for every microphone, including those beyond the number of sources; without a reference microphone no rescaling takes place.",
 I,"all batch shapes, sizes, reference microphones 0 <= r < channels, sources <= channels, any demixing system",
 "tests use reference microphone 0 or None and compare with nothing",
 ["torchiva/t_iss.py","torchiva/auxiva_ip.py","torchiva/auxiva_ip2.py"],
 [("projection back","torchiva/t_iss.py: projection_back_weights; torchiva/auxiva_ip.py: projection_back_from_demixing_matrix"),("projection back in IP2","torchiva/auxiva_ip2.py: AuxIVA_IP2.forward")],["output of the separators with proj_back_mic"])
p("C04","AuxIVA-IP iterates the iterative-projection update and outputs W X",
 "AuxIVA with iterative projection returns the demixing matrix applied to the input (rescaled as C03), where each iteration updates each demixing filter in turn to the solution of the loaded weighted-covariance system for that source with unit weighted norm. With fewer sources than channels the background is kept uncorrelated with the sources, and omitting the number of sources means as many sources as channels.",
 I,"all sizes, batch shapes, iterations, weights and signals",
 "tests check only output shapes and a separation score of a few mixtures",
 ["torchiva/auxiva_ip.py","torchiva/linalg.py"],
 [("IP update","torchiva/auxiva_ip.py: AuxIVA_IP.forward"),("background","torchiva/auxiva_ip.py: orthogonal_constraint")],["AuxIVA_IP(...)(X)"])
p("C05","AuxIVA-IP2 solves the two-source joint update exactly",
 "For two channels, every iteration of AuxIVA-IP2 replaces both demixing filters by the generalized eigenvectors of the two loaded weighted covariance matrices, each normalised to unit weighted power, and the output is the demixing matrix applied to the input (rescaled as C03). Zero iterations leave the input unchanged before rescaling.",
 I,"all batch shapes, frequencies, frames, iterations, weights and two-channel signals",
 "tests check shapes and one separation score",
 ["torchiva/auxiva_ip2.py","torchiva/linalg.py"],
 [("joint update","torchiva/auxiva_ip2.py: spatial_model_update_ip2, AuxIVA_IP2.forward")],["AuxIVA_IP2(...)(X)"])
p("C06","FIVE extracts one source by the generalized eigenvalue update",
 "FIVE returns exactly one source, a fixed linear combination over channels of the input in every frequency (zero in the lowest one); each iteration takes the demixing vector minimising the weighted power under unit total power (smallest generalized eigenvalue, or the requested number of power iterations), and the result is projected back on the reference microphone by least squares when one is given, and left as is otherwise.",
 I,"all sizes, batch shapes, iterations, power iterations, reference microphones, weights and signals",
 "tests check shapes and one separation score",
 ["torchiva/five.py","torchiva/linalg.py"],
 [("eigenvector update","torchiva/five.py: smallest_eigenvector_eigh_cpu, smallest_eigenvector_power_method, FIVE.forward"),("scale","torchiva/five.py: adjust_global_scale")],["FIVE(...)(X)"])
p("C07","WPE removes the loaded least-squares prediction from sufficiently old frames",
 "For every input, WPE returns, per channel, the input minus a linear prediction from all channels' frames delayed by more than the requested delay and at most delay plus taps frames back, with the filter of each iteration solving the loaded weighted normal equations whose weights come from the current estimate (default: normalised inverse floored power averaged over channels). The first frames, which have no predecessor that old, are returned unchanged; zero iterations return the input.",
 I,"all sizes, batch shapes, taps >= 1, delays >= 0, iterations, models and signals",
 "tests check shapes only",
 ["torchiva/wpe.py","torchiva/linalg.py"],
 [("one iteration","torchiva/wpe.py: wpe_one_iter, derev, WPE.forward")],["WPE(...)(X)"])
p("C08","Beamformers apply the filters of their definitions",
 "Given target and noise masks, the MVDR, GEV and MWF beamformers (and their filter-computing functions) estimate covariances as mask-weighted sums over frames and output the inner product of every frame with the filter solving the defining problem: distortionless minimum variance for the reference microphone, maximum generalised eigenvector scaled to the reference microphone, minimum mean square error estimate of the reference microphone image. The given reference microphone, masks and regularisation are the ones used, and each source uses only its own masks.",
 I,"all sizes, batch shapes, numbers of sources, masks, reference microphones, regularisers and signals",
 "tests check shapes or a single score per beamformer",
 ["torchiva/beamformer.py","torchiva/linalg.py"],
 [("filters","torchiva/beamformer.py: compute_mvdr_bf, compute_mvdr_bf2, compute_mvdr_rtf_eigh, compute_gev_bf, compute_mwf_bf"),("forward","torchiva/beamformer.py: MVDRBeamformer.forward, GEVBeamformer.forward, MWFBeamformer.forward")],["beamformer(X, mask)"])
p("C09","Every signal of a batch is processed independently of the others",
 "For every separator, dereverberator, beamformer, source model, scaling and STFT operation, the result for one element of a batch is the result obtained from that element alone, for any batch shape, including no batch dimension.",
 I,"all batch shapes (any rank), positions in the batch and contents of the other elements",
 "tests never compare a batched call with single calls, and a leak needs particular shapes or contents to show",
 ["torchiva/t_iss.py","torchiva/auxiva_ip.py","torchiva/auxiva_ip2.py","torchiva/five.py","torchiva/wpe.py","torchiva/beamformer.py","torchiva/models/classic.py","torchiva/linalg.py","torchiva/scaling.py","torchiva/stft.py","torchiva/fftconvolve.py"],
 [("broadcast over leading dimensions","every tensor function of the package")],["any public call with a batched tensor"])
p("C10","Shapes and precision are preserved and inputs are never modified",
 "For every algorithm and admissible configuration the output has the documented shape and the dtype of the input (single stays single and double stays double, with no intermediate loss of precision), and a call never writes to the tensors passed by the caller nor to the results returned by earlier calls.",
 I,"single and double precision inputs of every batch shape and size; all public calls",
 "tests compare shapes in one precision and never compare the input before and after",
 ["torchiva/t_iss.py","torchiva/auxiva_ip.py","torchiva/auxiva_ip2.py","torchiva/five.py","torchiva/wpe.py","torchiva/beamformer.py","torchiva/models/classic.py","torchiva/linalg.py","torchiva/scaling.py","torchiva/fftconvolve.py","torchiva/utils.py"],
 [("clone before update in place","forward methods"),("new_zeros / eye in the input's dtype","forward methods")],["return values and argument tensors of public calls"])
p("C11","Laplace and Gauss source models return the documented activations",
 "The Laplace model returns, for every source, frequency and frame, the inverse of twice the norm over frequencies of that frame, and the Gauss model the inverse of the mean power over frequencies, each floored by its regulariser so that the result is positive and finite, and broadcast to the shape of the input.",
 ["inputs","configurations"],"all complex spectrograms including all-zero frames, all regularisers, any batch shape",
 "tests do not evaluate the models' values","torchiva/models/classic.py torchiva/models/parameters.py".split(),
 [("activation","torchiva/models/classic.py: LaplaceModel.forward, GaussModel.forward")],["model(X)"])
p("C12","NMF source model performs multiplicative updates of a low-rank spectrogram",
 "Each call of the NMF model updates basis and activations by the multiplicative rule for the current power spectrogram, floored by the regulariser, and returns the inverse of the resulting low-rank variance, which is positive and finite and has the shape of the input; the first call after construction or reset starts from fresh random factors of the requested rank, and later calls continue from the stored factors.",
 ["inputs","histories"],"all spectrograms, ranks, regularisers, sequences of calls and resets",
 "tests only run the model inside a separator","torchiva/models/classic.py".split(),
 [("multiplicative updates","torchiva/models/classic.py: NMFModel.forward, reset")],["model(X)","stored factors"])
p("C13","Linear algebra helpers equal their mathematical definitions",
 "Magnitudes, products and quotients of mixed real and complex arguments, matrix products, Hermitian transposes, diagonal loading, regularised solves and inverses and delayed-frame views equal their textbook definitions for every shape and dtype they accept; the regularised solve and inverse add to the diagonal the regulariser times the largest entry magnitude of that matrix (at least the regulariser) and nothing else.",
 I,"all shapes, values, regularisers, dtypes",
 "tests sample one size per helper and few dtypes","torchiva/linalg.py".split(),
 [("helpers","torchiva/linalg.py")],["torchiva.linalg functions"])
p("C14","Small eigenvalue problems and 2x2 inverses are solved exactly",
 "For every Hermitian pair with the second matrix positive definite, the (generalized) eigenvalue routines return real eigenvalues in ascending order with vectors satisfying A v = lambda B v, without loss of precision with respect to the input, and the explicit 2x2 inverse multiplies the matrix to the identity, for single matrices and batches alike.",
 ["inputs"],"all (batches of) Hermitian matrices and positive definite second matrices, 2x2 closed forms and general sizes, real and complex",
 "tests sample a few random matrices of fixed size and dtype","torchiva/linalg.py".split(),
 [("closed forms","torchiva/linalg.py: eigh_2x2, inv_2x2, eigh")],["torchiva.linalg.eigh, eigh_2x2, inv_2x2"])
p("C15","Scale correction is the per-frequency least-squares fit to the reference",
 "Every scale correction multiplies each source and frequency by one complex gain: projection back by the gains with which the sources add up to the reference on the most energetic frames, minimum distortion by the least-squares gain towards the reference (the phase-only variant by its unit phase), and the mixed-norm variant by the fixed-point of the reweighted least-squares iteration for the requested exponents or the weights returned by a model, stopped when the relative step of the signal falls below rtol. Silent signals keep finite values.",
 I,"all signals, references, norm exponents, sizes and batch shapes",
 "tests do not evaluate the scale values","torchiva/scaling.py".split(),
 [("least squares gains","torchiva/scaling.py: projection_back, minimum_distortion_l2, minimum_distortion_l2_phase, minimum_distortion, lp_norm, lpq_norm")],["torchiva.scaling functions"])
p("C16","STFT analysis/synthesis is consistent and the separator keeps the length",
 "The STFT object applies the same transform, with its own FFT length, hop and window, to every signal of a batch, and its inverse reconstructs every sample covered by complete hops; the time-domain separator returns one signal per source of exactly the input length, equal to synthesis of the selected algorithm applied to the analysis of the input with the parameters given at construction (documented defaults where none is given).",
 I,"all even FFT lengths, signal lengths >= FFT length, hops, windows (by name, array or tensor, satisfying the overlap-add condition), batch shapes, algorithms and parameter values",
 "tests run one window and a few lengths, and no test compares the separator with a direct call of the algorithm",
 ["torchiva/stft.py","torchiva/nn.py"],
 [("analysis / synthesis","torchiva/stft.py: STFT.forward, STFT.inv"),("dispatch and length restoration","torchiva/nn.py: BSSSeparator.__init__, forward")],["STFT(...)(x), STFT.inv, BSSSeparator(...)(x)"])
p("C17","Call-time parameters affect only that call and calls do not influence each other",
 "A parameter passed to a call (including zero or false values) overrides the constructor's value for this call only and everything else keeps its constructor value, or its documented default where none was given; the result of a call depends only on the object's construction, the call's arguments and the random seed, not on earlier calls with other signals, shapes or parameters. Source models with internal state are reset before each new signal.",
 ["histories","configurations","inputs"],"all sequences of calls on one object with arbitrary signals, shapes and overriding parameters",
 "tests create a fresh object per case and call it once",
 ["torchiva/base.py","torchiva/t_iss.py","torchiva/auxiva_ip.py","torchiva/auxiva_ip2.py","torchiva/five.py","torchiva/wpe.py","torchiva/beamformer.py","torchiva/nn.py","torchiva/models/classic.py"],
 [("parameter resolution","torchiva/base.py: DRBSSBase._set_params, BFBase._set_params"),("model reset","torchiva/base.py: DRBSSBase._reset")],["results of successive calls","parameter properties of the objects"])
p("C18","FFT convolution equals the direct linear convolution",
 "For all pairs of signals of any lengths and broadcastable batch shapes, the FFT-based convolution equals the direct sum over all shifts in full, same and valid mode, with the documented output length for each mode and the dtype of the inputs.",
 I,"all lengths >= 1, batch shapes, modes and values",
 "tests sample random lengths in one dimension arrangement","torchiva/fftconvolve.py".split(),
 [("zero padded FFT product","torchiva/fftconvolve.py: fftconvolve")],["torchiva.fftconvolve"])
p("C19","Selection keeps exactly the most energetic signals",
 "Selecting the most energetic signals returns the requested number of the given signals, unaltered and each at most once, in decreasing order of energy, such that none left out has more energy than one kept, separately for every batch element and for any choice of the selection and energy dimensions.",
 I,"all tensors, numbers to keep, dimension choices (positive or negative) and batch shapes",
 "tests sample few shapes and only the default dimensions","torchiva/utils.py".split(),
 [("energy sort and gather","torchiva/utils.py: select_most_energetic")],["torchiva.select_most_energetic"])
p("C20","Loading a model yields exactly the saved weights with the merged configuration",
 "Loading from a folder, a pair of files or a URL returns a separator built from the stored configuration with the keyword overrides applied on top and holding exactly the stored weights; missing paths raise an error before anything is built. For a URL each file is downloaded at most once, from the given address, and an interrupted or failed download is never used as a cached model, whatever the point of the interruption.",
 ["inputs","histories","crash_points","fault_sequences"],"all configurations, overrides, path forms, URLs and points at which a download fails",
 "the tests never download and never interrupt","torchiva/loader.py torchiva/nn.py torchiva/utils.py".split(),
 [("config merge, cache","torchiva/loader.py: load_separator, load_separator_model, get_model_from_url"),("model instantiation","torchiva/utils.py: instantiate")],["torchiva.load_separator","files under the user's model cache"],
 [("model cache","downloaded weight and configuration files","torchiva/loader.py: get_model_from_url")])
p("C21","The command-line separation maps every input to its own output and options",
 "For every set of options the command separates with the algorithm, source model, iterations, sources, channels, taps, delay, reference and regularisers asked for (with a pre-trained network: the algorithm if one is given, iterations, sources, channels and reference, the rest from the configuration of the model), and writes for each input file exactly one output of the input's length and sampling rate with at most the requested number of sources, at the mirrored path in folder mode. It never overwrites or removes an input, and two inputs never share an output.",
 ["inputs","configurations","histories"],"all option combinations, folder trees and file lengths",
 "no test runs the command","torchiva/separate.py torchiva/nn.py torchiva/utils.py".split(),
 [("option dispatch, path mapping","torchiva/separate.py: main, separate_one_file, get_parser")],["python -m torchiva.separate","files written"])
p("C22","Mask networks return masks in their documented range and shape",
 "For every spectrogram, weights and configuration, the neural source models and mask estimators return real masks with values within their floor and one, with the documented shape (one mask per source, frequency and frame, or per mask type for beamformers), and in evaluation mode the masks of one batch element and source do not depend on the others.",
 I,"all network weights, input spectrograms, batch shapes and configurations, evaluation mode",
 "tests use one configuration with random weights","torchiva/models/blstm.py torchiva/models/glu.py torchiva/models/simple.py torchiva/beamformer.py".split(),
 [("masks","torchiva/models/blstm.py, glu.py, simple.py: forward"),("masks for beamformers","torchiva/models/blstm.py: MaskMVDRSupport")],["model(X)"])
p("C23","Every stage is differentiable, with the gradient of the specified function",
 "For every signal, sizes, iterations and options, the results of the separators, dereverberation, beamformers, source models, STFT, rescaling and linear algebra can be differentiated by autograd with respect to the signal and the parameters of the source or mask model, and the gradient is that of the specified computation: no term is cut off from the gradient except the row normalisations inside solve_loaded_general and the background update, which are constants by definition and do not change the solution. With use_dmc, T_ISS gives the same result and the same gradients, those of the model parameters included (also when the signal itself does not require a gradient), for models whose forward keeps no state. Where the result is finite, silent frames, channels or whole signals do not make the gradient infinite or NaN with the provided Laplace, Gauss and NMF models, except through eigenvectors of degenerate matrices.",
 I,"all signals, sizes, models, iterations and options; exact arithmetic; silent parts and the memory saving mode by bounded runs",
 "the tests compare two iterations of one random signal between the two modes of T-ISS and look at no other gradient","torchiva/t_iss.py torchiva/auxiva_ip.py torchiva/auxiva_ip2.py torchiva/five.py torchiva/wpe.py torchiva/beamformer.py torchiva/linalg.py torchiva/models/classic.py torchiva/stft.py".split(),
 [("demixing and projection back","torchiva/t_iss.py: T_ISS.forward, over_iss_t_one_iter_dmc; torchiva/auxiva_ip.py; torchiva/auxiva_ip2.py; torchiva/five.py"),("solutions and eigenvectors","torchiva/linalg.py"),("silent frames","torchiva/models/classic.py")],["y.backward()","X.grad, parameter.grad"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
