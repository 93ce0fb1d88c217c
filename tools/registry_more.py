prop("C06", "The beamformers compute MVDR, MWF and GEV weights from the masks",
     "For every multichannel STFT input and every set of masks, each beamformer shows the mask model the reference channel only, "
     "and returns, for every source, the output of the beamformer defined by the mask-weighted spatial covariances: MVDR by relative transfer function (two masks, or three with a "
     "separate noise mask for the transfer function; eigendecomposition or a number of power iterations), MVDR by covariances, MWF "
     "(time-invariant, or time-varying with four masks), and GEV with blind analytic normalisation. It holds for any number of channels and sources, "
     "reference microphone, stabilising constant and place in a batch. The functions that compute the weights return them for given covariance matrices (for all references at once where there is none). "
     "The MVDR response to its steering vector is one and the steering vector is one at the reference.",
     ["inputs", "configurations"], "all signals x masks x configurations (channels, sources, kind, reference, power iterations, eps, batch)",
     "The tests check that an SDR improves on one recording with oracle masks; the three-mask and time-varying variants, other references, power iterations and eps are not compared.",
     ["torchiva/beamformer.py", "torchiva/linalg.py"],
     [("compute_mvdr_rtf_eigh", "torchiva/beamformer.py"), ("compute_mvdr_bf", "torchiva/beamformer.py"),
      ("compute_mwf_bf", "torchiva/beamformer.py"), ("compute_gev_bf", "torchiva/beamformer.py"), ("eigh", "torchiva/linalg.py")],
     "c06_beam.py", NUM, ["argument of the mask model", "value returned by forward"], spec="spec/beam.qnt")

prop("C07", "STFT analysis and synthesis reconstruct every signal",
     "For every multichannel real signal, the STFT equals its windowed transform definition, and synthesis equals the weighted overlap-add "
     "of the frames, for any frame size, hop size (default a quarter of the frame), window (Hann, Hamming or custom), signal length and batch. Analysis followed by synthesis gives the signal back wherever "
     "frames cover it, and synthesis of an arbitrary (for example separated) spectrogram is its least-squares overlap-add. The time-domain separator "
     "with zero iterations returns the samples of its input with exactly the input's length. Precision is kept and inputs are not modified.",
     ["inputs", "configurations"], "all signals x spectrograms x (frame, hop, window, length, channels, batch, precision)",
     "The tests check reconstruction of a few configurations; lengths that are no multiple of the hop, custom windows, odd hops and arbitrary spectrograms are not compared.",
     ["torchiva/stft.py", "torchiva/nn.py"],
     [("STFT.forward", "torchiva/stft.py"), ("STFT.inv", "torchiva/stft.py"), ("BSSSeparator.forward", "torchiva/nn.py")],
     "c07_stft.py", NUM, ["value returned by forward and inv", "value returned by BSSSeparator"], spec="spec/stft.qnt")

SES = ("The session specification is explored completely by TLC with small constants; sampled behaviours with the components' real parameters are "
       "replayed into the code. Trusted: Quint, TLC, PyTorch. Relative tolerance 1e-9 in double precision.")

prop("C08", "Arguments of a call act like construction parameters, for that call only",
     "For every separator, dereverberator and beamformer, calling an object with arguments gives the result of an object constructed with these values, for every subset of "
     "the parameters; a parameter that is not given (or None) keeps the object's own value. A call, successful or failed, does not change the object's parameters. "
     "Asking for more sources than there are channels is refused.",
     ["configurations", "histories"], "all components x parameter values x subsets overridden x failing calls",
     "The tests construct each object once and call it without arguments, or with one argument.",
     ["torchiva/base.py", "torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py"],
     [("DRBSSBase._set_params", "torchiva/base.py"), ("T_ISS.forward", "torchiva/t_iss.py"), ("MVDRBeamformer.forward", "torchiva/beamformer.py")],
     "c08_params.py", SES, ["value returned by forward", "parameters of the object after the call"], spec="spec/session.qnt",
     technique="Quint specification (spec/session.qnt) explored exhaustively with TLC, simulated behaviours replayed into the real code")

prop("C09", "What a call returns does not depend on the calls made before",
     "For every history of calls on several objects (separators, dereverberators, beamformers, transforms, end-to-end separators), also ones that share a source model with internal state, with different inputs, sizes, "
     "arguments, calls aborted by a failing model, and inputs or results whose memory the caller overwrites in between, every call returns what a fresh object with fresh models returns for what its input holds at that time. No call modifies its input, the input of another call, or an earlier result.",
     ["histories"], "all sequences of calls x objects x shared models x inputs x faults",
     "The tests call each object once.",
     ["torchiva/base.py", "torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/models/classic.py"],
     [("_reset", "torchiva/base.py"), ("NMFModel.reset", "torchiva/models/classic.py"), ("T_ISS.forward", "torchiva/t_iss.py")],
     "c09_history.py", SES, ["value returned by forward", "inputs and earlier results after the call"], spec="spec/session.qnt",
     technique="Quint specification (spec/session.qnt) explored exhaustively with TLC, simulated behaviours replayed into the real code")

prop("C10", "The end-to-end separator runs the chosen algorithm with its parameters",
     "For every choice of algorithm and parameters, the time-domain separator returns the synthesis of what the chosen algorithm, constructed with exactly these parameters "
     "(mapped to the ones it has, its defaults otherwise) returns on the analysis of the input, cut or zero-padded to the input's length. The source model may be given as an object or as a name with "
     "arguments. It holds for repeated calls with different lengths; an unknown algorithm is refused.",
     ["inputs", "configurations"], "all algorithms x parameter subsets x signals x lengths x sequences of calls",
     "The tests construct the separator for one or two algorithms and check the output's shape; a parameter that is dropped or mixed up is not seen.",
     ["torchiva/nn.py", "torchiva/stft.py", "torchiva/utils.py"],
     [("BSSSeparator.__init__", "torchiva/nn.py"), ("BSSSeparator.forward", "torchiva/nn.py"), ("instantiate", "torchiva/utils.py")],
     "c10_pipeline.py", SES.replace("explored completely by TLC with small constants; sampled", "simulated; its").replace("session", "pipeline"),
     ["value returned by BSSSeparator"], spec="spec/pipeline.qnt")

EXACT = ("Integer specification, compared with the code on sampled behaviours. Trusted: Quint's simulator, PyTorch.")

prop("C15", "fftconvolve is the linear convolution in every mode and along every axis",
     "For every pair of real signals, fftconvolve returns their linear convolution, complete, centred with the first input's length, or the part without padding, along any axis, with equal "
     "or broadcast batch dimensions, in the inputs' precision and without modifying them. An unknown mode is refused.",
     ["inputs", "configurations"], "all signals x lengths x modes x axes x batch shapes x precisions",
     "The tests compare one pair of lengths per mode.",
     ["torchiva/fftconvolve.py"], [("fftconvolve", "torchiva/fftconvolve.py")],
     "c15_conv.py", EXACT, ["value returned by fftconvolve"], spec="spec/conv.qnt")

prop("C16", "select_most_energetic returns the strongest signals, strongest first",
     "For every real or complex tensor, the selection consists of exactly the requested number of signals, in order of decreasing power, independently for every element of the batch, unchanged and for any position of "
     "the selection and the reduction axes (signals of equal power in any order).",
     ["inputs", "configurations"], "all tensors x number selected x axes x layouts",
     "No test of the repository covers it.",
     ["torchiva/utils.py"], [("select_most_energetic", "torchiva/utils.py")],
     "c16_energetic.py", EXACT, ["value returned by select_most_energetic"], spec="spec/energetic.qnt")

prop("C18", "The model cache survives failed, interrupted and concurrent downloads",
     "For every sequence and interleaving of loads by URL from several processes, with connections cut short, errors of the server, outages, and processes killed at any point "
     "of a download, also inside of its accesses to files, a load either raises or returns exactly the model (weights and configuration) of its URL. A load that meets no failure succeeds, whatever happened before; a model "
     "that was loaded once is loaded again without any request. Different URLs never share a model, even when they differ in the host, the case or an escaped character only or end with the same name.",
     ["schedules", "crash points", "histories"], "all interleavings of loads x failures at any piece of any file x kills",
     "The tests download one model from the network and cannot produce failures; a partial file in the cache is only met by the next load.",
     ["torchiva/loader.py"], [("get_model_from_url", "torchiva/loader.py"), ("load_separator", "torchiva/loader.py")],
     "c18_cache.py", "TLC explores the protocol completely for two processes, two URLs and three loads; sampled behaviours with three processes, three URLs and eight loads drive "
     "real processes through a loopback server that controls every piece of every file. Kills happen while a process waits for the server and before, inside and after each of its accesses to files. "
     "Trusted: Quint, TLC, the operating system's rename. The server announces the length of each file.", ["outcome and model of every load", "requests received by the server"], spec="spec/cache.qnt",
     technique="Quint specification (spec/cache.qnt) explored exhaustively with TLC, simulated behaviours drive real processes through a controlled server")

prop("C19", "A loaded separator has the saved weights and the merged configuration",
     "For every saved separator and every set of arguments, loading from a folder or from the two files returns a separator with exactly the saved weights that separates like one constructed from the "
     "configuration file with the arguments of the call taking precedence (each replaces the whole entry of that name). Missing files, folders or paths are refused with ValueError, weights of another architecture are refused; loading changes no file, and "
     "loading or training one separator changes no other.",
     ["histories", "configurations"], "all configurations x arguments x folder states x sequences of loads and saves",
     "The tests load one configuration and check nothing about the result.",
     ["torchiva/loader.py", "torchiva/nn.py", "torchiva/utils.py"], [("load_separator_model", "torchiva/loader.py"), ("load_separator", "torchiva/loader.py"), ("instantiate", "torchiva/utils.py")],
     "c19_loader.py", "Sampled behaviours of the specification replayed into the real loader in a scratch folder. Trusted: Quint's simulator, torch.save/load.", ["state_dict and output of the loaded separator", "files after loading"],
     spec="spec/loader.qnt")

prop("C20", "The separation command separates every recording and nothing else",
     "For every folder tree and command line, the command writes for every recording of the input folder (or the given file) one output at the same relative place, which is the separation of that recording's first `mic` channels with "
     "exactly the requested algorithm, model, number of sources (the strongest ones if there are more), iterations, transform and dereverberation parameters, "
     "with its length, level and sampling rate, whatever its name. Neural models run in evaluation mode. No recording is changed or lost, no output of the run is taken as its input (the output folder may lie inside the input folder), and commands that make no sense "
     "(more sources than microphones, IP2 without two microphones, beamforming without neural model, output onto the input, an input that does not exist) are refused without writing.",
     ["inputs", "configurations", "histories"], "all folder trees x command lines x sequences of runs",
     "The tests run the command on one folder and check nothing about the outputs.",
     ["torchiva/separate.py", "torchiva/loader.py", "torchiva/nn.py"], [("main", "torchiva/separate.py"), ("separate_one_file", "torchiva/separate.py"), ("get_parser", "torchiva/separate.py")],
     "c20_cli.py", "Sampled behaviours of the specification replayed in scratch folders; expected signals come from the library's separator, itself decided by C10. Extraction (five) with a neural model and output folders above the input "
     "are left out. Trusted: Quint's simulator, torchaudio.", ["files written and their contents", "files left alone", "refusals"], spec="spec/cli.qnt")

prop("C17", "The linear algebra helpers return the quantities they are named after",
     "For every real or complex matrix or batch of matrices, products, conjugate transposes, squared magnitudes, loaded solutions and inverses, 2x2 inverses with a bounded determinant, diagonal loading and Hankel views have their "
     "defined values (including the loading and bounding constants), and the eigenvalue routines return the (generalised) eigenvalues in ascending order with unit-norm eigenvectors, for any memory layout, lazily conjugated inputs, any place in a batch "
     "and without modifying the inputs.",
     ["inputs", "configurations"], "all matrices x sizes x constants x batches x layouts",
     "The tests compare a handful of random matrices with PyTorch's own routines and do not reach the loading and bounding constants.",
     ["torchiva/linalg.py"], [("solve_loaded", "torchiva/linalg.py"), ("solve_loaded_general", "torchiva/linalg.py"), ("inv_2x2", "torchiva/linalg.py"), ("eigh", "torchiva/linalg.py"), ("eigh_2x2", "torchiva/linalg.py"),
                              ("hankel_view", "torchiva/linalg.py"), ("bmm", "torchiva/linalg.py")],
     "c17_linalg.py", NUM + " Eigenvectors of nearly multiple eigenvalues are left open. Known findings: eigh_2x2 without B conjugates the eigenvectors of complex matrices; 2x2 diagonal pencils have degenerate eigenvectors.",
     ["value returned by each function"], spec="spec/linalg.qnt")

prop("C14", "Rescaling returns the minimum-distortion or projected signals",
     "For every estimate and reference, projection back scales the channels so that they add up to the reference on the strongest frames, the minimum distortion principle returns the least-squares image of the reference per channel and frequency, the phase "
     "version only rotates, and the sparse and mixed-norm versions return the filter reached by the majorisation-minimisation of that norm with the given number of iterations or relative step, with every power bounded by the configured constant, "
     "for any place in a batch (the stopping rule considers the batch as a whole) and without modifying the inputs.",
     ["inputs", "configurations"], "all signals x references x norms x iterations x bounds x batches",
     "No test of the repository covers these functions.",
     ["torchiva/scaling.py", "torchiva/parameters.py"],
     [("projection_back", "torchiva/scaling.py"), ("minimum_distortion", "torchiva/scaling.py"), ("minimum_distortion_l2", "torchiva/scaling.py"),
      ("minimum_distortion_l2_phase", "torchiva/scaling.py"), ("lpq_norm", "torchiva/scaling.py")],
     "c14_scaling.py", NUM + " Exponents p, q are multiples of 1/4. A model in place of the norm is left out.", ["value returned by each function"], spec="spec/scaling.qnt")

prop("C13", "Source models return their defined inverse powers over any history of calls",
     "For every real or complex input, the Laplace and Gauss models return the inverse of the frame's norm or mean power, the same for all frequencies, bounded by the configured constant and independent of earlier calls. The low-rank (NMF) model "
     "returns, over any sequence of calls, the inverse of a non-negative factorisation of the requested rank that is refined by one Itakura-Saito multiplicative update of each factor per call, "
     "independently for every signal of the batch; on a constant input the divergence never grows, and reset forgets everything, including the shapes.",
     ["inputs", "histories"], "all inputs x sequences of calls and resets x ranks x shapes x constants",
     "The tests only use the models inside a separation and check nothing about their values; the state kept between calls is invisible to a single call.",
     ["torchiva/models/classic.py", "torchiva/parameters.py"],
     [("LaplaceModel.forward", "torchiva/models/classic.py"), ("GaussModel.forward", "torchiva/models/classic.py"), ("NMFModel.forward", "torchiva/models/classic.py"), ("NMFModel.reset", "torchiva/models/classic.py")],
     "c13_models.py", NUM + " In one direction the low-rank model is put into the specification's state, in the other its calls from its own random start are recorded and checked by the specification (spec/nmftrace.qnt).",
     ["weights returned by every call"], spec="spec/models.qnt, spec/nmftrace.qnt",
     technique="Quint specifications: simulated behaviours of spec/models.qnt replayed into the real code, recorded calls of the real code checked by spec/nmftrace.qnt")

prop("C11", "A recording's result does not depend on the rest of its batch",
     "For every component (separators, dereverberation, beamformers, transforms, the end-to-end separator, source models and neural masks in evaluation mode, rescaling, convolution, selection, linear algebra), every arrangement of recordings of any level (also nearly silent ones) "
     "in one or several batch dimensions, with repetitions and in any order, and every sequence of such calls on one object, with or without gradient tracking, what is returned for a recording is what is returned for it alone, at its place in the batch dimensions, and the input is left unchanged.",
     ["inputs", "configurations", "histories"], "all components x parameter sets x arrangements of recordings x sequences of calls",
     "The tests call each component with one batch shape and never compare with the single recording; a statistic or a constant taken over the batch is invisible.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/models", "torchiva/scaling.py", "torchiva/linalg.py"],
     [("solve_loaded", "torchiva/linalg.py"), ("T_ISS.forward", "torchiva/t_iss.py"), ("AuxIVA_IP.forward", "torchiva/auxiva_ip.py"), ("GLUMask.forward", "torchiva/models/glu.py"), ("projection_back", "torchiva/scaling.py")],
     "c11_batch.py", "The arrangement protocol is explored completely by TLC with small constants; sampled arrangements with up to 33 recordings are replayed, the oracle being the component's own answer for the single recording (whose value is decided by "
     "C01-C07 and C13-C17). The NMF model (random start) and the stopping rule of minimum_distortion (defined over the batch) are left out. Tolerance 1e-6 relative.", ["every element of every returned batch"], spec="spec/batch.qnt",
     technique="Quint specification (spec/batch.qnt) explored exhaustively with TLC, simulated arrangements replayed into the real code")

prop("C12", "Backward passes add the exact derivative, with or without recomputation",
     "For every differentiable component, every input and every order of forward passes, backward passes, clearing of gradients and parameter updates, each backward pass adds to the inputs (when they take part) and to the source model's parameters the derivative of the scalar "
     "that its forward pass computed. With demixing-matrix checkpointing the values and the accumulated gradients are the same as without, also for models that draw random numbers and when only the model or some of its parameters are trained; frozen parameters get no gradient. "
     "Passes without gradient tracking have the same values. (Norms that only serve regularisation count as constants; source models keep no state between calls.)",
     ["inputs", "histories", "schedules"], "all components x orders of passes x checkpointing x inputs",
     "The tests only check that a generic solver can be differentiated; no gradient of a component is compared with anything.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/linalg.py", "torchiva/scaling.py"],
     [("over_iss_t_one_iter_dmc", "torchiva/t_iss.py"), ("T_ISS.forward", "torchiva/t_iss.py"), ("solve_loaded_general", "torchiva/linalg.py"), ("eigh_2x2", "torchiva/linalg.py")],
     "c12_grad.py", "The protocol of passes is explored completely by TLC with small constants; sampled histories are replayed. The oracle for one pass is a central difference (with Richardson extrapolation) of the forward pass without tracking, "
     "relative tolerance 1e-5 (2e-2 where regularisation norms count as constants), and for sums of passes the gradients of the single passes without recomputation, 1e-7.", ["gradients of inputs and parameters after every pass", "values of forward passes"],
     spec="spec/gradient.qnt", technique="Quint specification (spec/gradient.qnt) explored exhaustively with TLC, simulated histories replayed into the real code against central differences")

prop("C21", "Neural mask models compute their network for any parameters and input",
     "For every set of parameters in the format of the saved models and every real or complex input, each neural mask model (gated convolutions, recurrent masks, beamformer masks, the simple model) in evaluation mode returns exactly the function of its architecture: level normalisation, "
     "features (power or real and imaginary parts, logarithm, filter bank), layers in order, masks between the floor constant and one, in the layout (..., frequency, frame) or (..., source, mask, frequency, frame), whatever the place in the batch; evaluation "
     "changes neither its parameters nor the input, and repeated evaluations agree.",
     ["inputs", "configurations", "histories"], "all parameters x architectures x inputs x batches",
     "The tests only use these models inside a separation and check shapes; a changed feature, layer order or mask layout makes trained models useless without failing any test.",
     ["torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py"],
     [("GLUMask.forward", "torchiva/models/glu.py"), ("GLULayer.forward", "torchiva/models/glu.py"), ("BLSTMMask.forward", "torchiva/models/blstm.py"), ("MaskMVDRSupport.forward", "torchiva/models/blstm.py"), ("SimpleModel.forward", "torchiva/models/simple.py")],
     "c21_neural.py", NUM.replace("(own solver, own eigendecomposition)", "(own convolutions, recurrent cells and elementary functions)") + " Small networks (up to 4 frequencies, 3 bands, 5 frames); tolerance 1e-7.", ["masks returned by each model"], spec="spec/neural.qnt")

prop("C22", "Results have the number format of the input, whatever the default format is",
     "For every component, construction and calls may happen under any process-wide default floating point format, which may change in between. Single precision input gives single precision results and double precision input double precision "
     "results of double accuracy: no intermediate constant, buffer or matrix takes the default format. Components with an analysis window (STFT, inverse STFT, the end-to-end separator) carry the window in the format that was the default at construction; they return the "
     "wider of both formats. Neural models compute in the format of their parameters. The default format is never changed by a call.",
     ["configurations", "histories", "inputs"], "all components x parameter sets x default formats at construction and call x input formats x sequences of calls",
     "The tests run with one default format; a matrix created in the default format passes them and either fails or silently loses nine digits in the other.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/models", "torchiva/scaling.py", "torchiva/linalg.py"],
     [("T_ISS.forward", "torchiva/t_iss.py"), ("demix_background", "torchiva/t_iss.py"), ("STFT.forward", "torchiva/stft.py"), ("inv_2x2", "torchiva/linalg.py"), ("NMFModel.forward", "torchiva/models/classic.py")],
     "c22_precision.py", "The protocol is explored completely by TLC with small constants; sampled histories are replayed. The oracle for values is the component's own result in double precision under a double precision default (decided by the other properties): "
     "relative tolerance 1e-9 for double, 2e-2 for single precision.", ["format and value of every result", "the default format after every call"], spec="spec/precision.qnt",
     technique="Quint specification (spec/precision.qnt) explored exhaustively with TLC, simulated histories replayed into the real code")

prop("C23", "Parameters that are left out have their documented defaults",
     "For every component, function and command, every subset of the optional parameters that is given (by keyword in any order, or by position), and every later use, the result is that of the same construction with every left-out parameter written out with its documented default: "
     "defaults do not depend on what else is given, on earlier objects or on the input, and the documented positions of the parameters are kept.",
     ["configurations", "inputs"], "all components x subsets of given parameters x values x uses",
     "The tests give most parameters explicitly; a changed default (a constant, an iteration count, a reference channel) changes every user's result and fails no test.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/separate.py", "torchiva/models", "torchiva/scaling.py", "torchiva/linalg.py", "torchiva/utils.py"],
     [("T_ISS.__init__", "torchiva/t_iss.py"), ("WPE.__init__", "torchiva/wpe.py"), ("BSSSeparator.__init__", "torchiva/nn.py"), ("MVDRBeamformer.__init__", "torchiva/beamformer.py"), ("get_parser", "torchiva/separate.py")],
     "c23_defaults.py", "The table of defaults is part of the specification; the choice of given parameters is explored completely by TLC on a small table and sampled on the full one. The oracle is the component itself with everything written out (its value is decided "
     "by the other properties); tolerance 1e-9. Parameters with random effect use one seed on both sides.", ["every result of every use", "parameters of neural models", "parsed options of the command"], spec="spec/defaults.qnt",
     technique="Quint specification (spec/defaults.qnt) explored exhaustively with TLC on a small table, simulated choices replayed into the real code")

prop("C24", "Arguments outside the domain are refused, and a refused call leaves no trace",
     "For every component and function there is a domain: no more sources and no higher reference channel than the input has, two channels for the two-channel algorithm, the numbers of masks a beamformer needs, signals longer than half the window, windows of the transform's length, "
     "exponents 0 < p <= q <= 2, known names of algorithms, modes and windows, matrices of the right size, one input shape per reset of a model with state, models that can be called. Arguments inside of it, also at its edge, are accepted and give results of the determined shape, whether they come from the construction or the call; "
     "arguments outside of it raise an error rather than giving a result, and a refused call changes neither the input nor the object nor any later result.",
     ["configurations", "histories", "inputs"], "all components x constructions x sequences of accepted and refused calls",
     "The tests only use accepted arguments; a lost check silently returns signals of the wrong shape or meaning, and a wrong one refuses legitimate input.",
     ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/beamformer.py", "torchiva/stft.py", "torchiva/nn.py", "torchiva/models", "torchiva/scaling.py", "torchiva/linalg.py", "torchiva/fftconvolve.py", "torchiva/dtypes.py"],
     [("T_ISS.forward", "torchiva/t_iss.py"), ("orthogonal_constraint", "torchiva/auxiva_ip.py"), ("AuxIVA_IP2.forward", "torchiva/auxiva_ip2.py"), ("lpq_norm", "torchiva/scaling.py"), ("STFT.__init__", "torchiva/stft.py"), ("dtype_f2cpx", "torchiva/dtypes.py")],
     "c24_domain.py", "The domain is part of the specification; its small instance is explored completely by TLC, sampled histories of the full one are replayed. The oracle for the results of accepted calls is a twin that is only given the accepted calls (its value is decided by the other properties). "
     "Which exception is raised is not specified. Negative channel indices and empty inputs are left out.", ["acceptance of every construction and call", "state, input and later results after refused calls", "shape of every result", "number format functions"], spec="spec/domain.qnt",
     technique="Quint specification (spec/domain.qnt) explored exhaustively with TLC on a small instance, simulated histories replayed into the real code")
