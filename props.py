"""Single source of properties.jsonl and MANIFEST.json (run gen.py)."""
NOT_APPLICABLE = {}
PROPS = []


def prop(**kw):
    PROPS.append(kw)


NOTE = ("Sampled executions of the real code judged by an independent oracle; a pass means "
        "no violation was observed on the workload counted in the evidence file, not a "
        "proof. ")

prop(
    id="C01",
    title="HiFiC decompress(compress(x)) equals the decoder run on the rounded latents",
    statement=(
        "For every HiFiC autoencoder (any weights, widths, number of input channels) and "
        "every image batch of any size of at least 33 pixels per side, decompress(compress(x)) has the shape of "
        "x, values in [0, 1], and equals the decoder applied to the latents of the "
        "reflect-padded image rounded about their predicted means (hyper-latents rounded about "
        "their medians), cropped and clamped: the entropy coder loses nothing. The compressed "
        "object records the true image size and the padded size, and holds one latent byte "
        "string and one hyper-latent byte string per image."),
    over=["inputs", "configurations"],
    quant="all model weights and widths, all batch sizes, all image sizes (every residue mod 64) and pixel contents",
    why=("the existing tests compress a couple of fixed sizes with freshly initialised weights, "
         "whose latents are almost all zero, and only check shapes"),
    files=["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/functional/_pad_image.py", "neuralcompression/_outputs/_hyperprior_output.py"],
    mech=[("rANS coding of latents and hyper-latents", "HiFiCAutoencoder.compress/decompress"),
          ("padding to a multiple of 64 and cropping", "pad_image_to_factor")],
    observe=["input of the decoder during decompress", "returned image", "HiFiCCompressed fields"],
    technique="runtime monitor: differential oracle on decoder input and output under randomised weights/images",
    note=NOTE + "The reference uses the model's own convolution stacks; inputs whose latents lie within 2e-5 of a rounding tie are skipped and counted.",
)
prop(
    id="C02",
    title="HiFiC bitstreams depend only on weights and image and decode anywhere, any time",
    statement=(
        "The compressed form of an image depends only on the model weights and that image: not "
        "on earlier compress/decompress/forward calls, the other images of the batch, "
        "train/eval toggling, the global random state, or the process; compressing a batch "
        "gives each image the stream it gets alone. A stream written by one updated model "
        "decodes to the same image in any other model instance (or process) loaded from the same "
        "state_dict, in any order and any number of times."),
    over=["histories", "inputs", "configurations"],
    quant="all interleavings of update, compress, decompress, forward, train/eval, state_dict save/load over several model instances and images",
    why="the tests make one compress/decompress pair on one instance in one process",
    files=["neuralcompression/models/_hific_autoencoder.py"],
    mech=[("CDF tables built by update()", "HiFiCAutoencoder.update"), ("state_dict buffers", "HiFiCAutoencoder")],
    observe=["byte strings returned by compress", "images returned by decompress", "global RNG state"],
    technique="runtime monitor: random operation histories checked online against a model of expected streams, plus a fresh-process decode",
    note=NOTE,
)
prop(
    id="C03",
    title="HiFiC forward: quantised latents, likelihoods and rate match the bitstream",
    statement=(
        "In eval mode the HiFiC forward pass reconstructs from the same rounded latents that "
        "compress codes, and its reported likelihoods are the probability masses of those "
        "symbols, so -log2 of their product matches the length of the real streams up to the "
        "coder's overhead. In train mode the latent likelihoods come from noisy latents within half "
        "a step while the decoder gets straight-through rounded ones, and gradients reach the "
        "encoder and the hyper network."),
    over=["inputs", "configurations"],
    quant="all weights, image contents and sizes, both modes",
    why="the tests check output shapes only",
    files=["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py"],
    mech=[("forward", "HiFiCAutoencoder.forward")],
    observe=["HiFiCOutput fields", "decoder input", "gradients", "stream lengths"],
    technique="runtime monitor: recomputed likelihood/rate oracle and gradient probes on forward passes",
    note=NOTE,
)
prop(
    id="C04",
    title="HiFiC freezing, parameter groups and device placement hold over any history",
    statement=(
        "After any sequence of freeze flags, train/eval switches and optimiser steps, frozen HiFiC parts "
        "(freeze_encoder: encoder; freeze_bottleneck: hyper analysis/synthesis and both bottlenecks) "
        "stay in eval mode with requires_grad False and unchanged values while every other part follows the "
        "mode and trains; the model/bottleneck parameter groups partition all parameters. "
        "compress/decompress refuse (ValueError) by default to run with entropy-coding parameters off "
        "the CPU, update_tensor_devices('compress') puts the coding parts on the CPU and the rest "
        "back with 'forward', forward refuses (RuntimeError) unless in the 'forward' setting, and "
        "unknown targets raise ValueError without changing the setting. update() reports whether it "
        "rebuilt the tables."),
    over=["histories", "configurations"],
    quant="all interleavings of train/eval/optimiser step/update/update_tensor_devices/compress/forward for every freeze setting, and every single misplaced parameter",
    why="tests run a single train() call and have no second device, so placement rules are never exercised",
    files=["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py"],
    mech=[("train override for frozen parts", "HiFiCAutoencoder.train"),
          ("placement rules", "HiFiCAutoencoder.update_tensor_devices, _on_cpu")],
    observe=["requires_grad, training flags and values of every parameter", "parameter devices (meta device stands in for an accelerator)"],
    technique="runtime monitor: invariant assertions on hooked module state after every step of random histories; meta-device stand-in accelerator",
    note=NOTE + "The accelerator is a stand-in (meta device), so numeric results on a GPU are not observed.",
)
prop(
    id="C05",
    title="DVC P-frames decode to the encoder's reconstruction at every frame size",
    statement=(
        "For any DVC weights and any frame size (odd ones included), decompress(image1, "
        "compress(image1, image2)) equals, clamped to [0, 1], the reconstruction the forward pass makes: rounded flow decoded, warped, "
        "motion-compensated, plus decoded rounded residual; it stays so when each decoded frame is the reference for the next, "
        "on another instance with the same state_dict, and for every frame of a batch alone. Forward "
        "reports that reconstruction, its likelihoods and the flow, with the pyramid estimator "
        "refining flow coarse to fine and reporting one (warped, target) pair per level. The "
        "compression decoder restores each recorded size exactly and rejects wrong-length size lists (ValueError), as the flow estimator rejects unequal shapes."),
    over=["inputs", "configurations", "histories"],
    quant="all weights, batch sizes, frame sizes and groups of pictures",
    why="the tests use two or three fixed even sizes and untrained weights, and check shapes",
    files=["neuralcompression/models/deep_video_compression.py"],
    mech=[("P-frame coding", "DVC.compress/decompress/forward"), ("flow pyramid", "DVCPyramidFlowEstimator"),
          ("sizes carried beside the stream", "DVCCompressionEncoder/Decoder")],
    observe=["decoded frames", "DVCOutput fields", "sizes lists", "image pairs"],
    technique="runtime monitor: differential oracle over closed-loop groups of pictures and recomputed flow pyramid",
    note=NOTE + "The reference reuses the model's convolution stacks; rounding ties are skipped.",
)
prop(
    id="C06",
    title="dense_image_warp is exactly the documented resampling of every pixel",
    statement=(
        "For every image and flow (including far out-of-frame flow) and every interpolation mode, "
        "padding mode and align_corners setting, dense_image_warp(image, flow)[b, :, y, x] equals the image sampled at the normalised "
        "grid point (linspace(-1, 1) at x, y) plus flow[b, y, x] = (dx, dy), with torch grid_sample's conventions; with "
        "align_corners=True zero flow is the identity and border padding never leaves the image's value "
        "range. Inputs are left unmodified, images of a batch do not influence each other, and "
        "gradients with respect to image and flow are the true derivatives. Mismatched dtype or device, or channels other than 2 raise ValueError."),
    over=["inputs", "configurations"],
    quant="all images, flows, sizes, modes, paddings and align_corners values",
    why="tests compare two or three fixed flows",
    files=["neuralcompression/functional/_dense_image_warp.py"],
    mech=[("grid construction and sampling", "dense_image_warp")],
    observe=["returned tensor", "gradients"],
    technique="runtime monitor: per-pixel oracle (independent numpy resampler) and finite-difference gradient probes",
    note=NOTE,
)
prop(
    id="C07",
    title="VQ bottleneck: nearest codeword, straight-through gradients, exact hit counts",
    statement=(
        "For every latent batch and codebook VQBottleneck replaces each vector by its nearest (Euclidean, after codeword "
        "normalisation if enabled) codeword and returns those indices in (batch, row, column) order, passes the decoder's "
        "gradient straight to the latent, sends commitment-loss gradient only to the latent and embedding-loss "
        "gradient only to the used codewords. After any history the hit counters equal the number of times each "
        "codeword was chosen since the last reset, persist through state_dict, and perplexity, max hits and "
        "percentage of codewords hit follow from them. With probabilistic quantisation each index is drawn with probability inversely proportional to the squared distance; num_bytes is floor of positions*log2(codebook)/8, and a missing latent "
        "or unknown init distribution raises ValueError."),
    over=["inputs", "histories", "configurations"],
    quant="all codebooks, latents, shapes and sequences of quantise/reset/metrics/save/load",
    why="tests use one codebook and never check nearestness, counters over history, or gradient routing",
    files=["neuralcompression/layers/_vq_bottleneck.py", "neuralcompression/layers/_q_bottleneck.py"],
    mech=[("nearest neighbour and straight-through", "VQBottleneck"), ("hit accounting", "QBottleneck")],
    state=[("codebook_hits_<i>", "times each codeword was chosen since reset", "QBottleneck")],
    observe=["VqVaeAutoencoderOutput fields", "codebook_hits buffers", "gradients"],
    technique="runtime monitor: brute-force nearest-neighbour oracle, gradient probes and a shadow counter over random histories",
    note=NOTE + "Sampling distribution judged with 6.5-sigma bounds.",
)
prop(
    id="C08",
    title="VQ-VAE image is a function of the transmitted indices only, at any size",
    statement=(
        "For every XCiT VQ-VAE configuration and image size the reconstruction equals decoding the "
        "codewords named by the returned indices alone (the bytes that would be transmitted) and cropping to the input "
        "size, deterministically in eval mode and independently of the rest of the batch; the indices are one per latent position of the padded image. A frozen encoder "
        "(and frozen bottleneck) never changes value or leaves eval mode while the rest trains. VqVaeProjector "
        "returns exactly those indices and never trains, whatever train/eval calls are made."),
    over=["inputs", "configurations", "histories"],
    quant="all autoencoder configurations, image sizes, batch compositions and train/eval/optimise histories",
    why="tests only check output shapes for one configuration",
    files=["neuralcompression/models/_vqvae_xcit_autoencoder.py", "neuralcompression/models/_vqvae_projector.py",
           "neuralcompression/layers/_normalize_latent.py", "neuralcompression/layers/_project_latent.py"],
    mech=[("encode, quantise, decode", "VqVaeXCiTAutoencoder.forward"), ("frozen teacher", "VqVaeProjector")],
    observe=["image and indices of VqVaeAutoencoderOutput", "parameter values and modes"],
    technique="runtime monitor: re-decoding oracle from indices and state invariants over training histories",
    note=NOTE,
)
prop(
    id="C09",
    title="VCT bottleneck codes every latent losslessly at the rate its tables state",
    statement=(
        "For every latent, mean and raw scale GsnConditionalLocScaleShift.compress returns the latent rounded about its rounded mean and one "
        "byte string per batch element from which decompress with the same means and scales restores exactly those values, far outliers included; the string "
        "length matches the prior (Gaussian with mean on a 1/num_means grid and verysoftplus scale on the log grid) up to coder overhead. "
        "Forward quantises the same way, gives the prior's mass as likelihood in eval mode and a noisy (|noise| <= 1/2) "
        "likelihood with straight-through rounding in training. Scaler maps scales monotonically onto [0, num_bins-1] and back (shifted by scales_min), "
        "table rows are strictly increasing CDFs ending at 2^16, build_indexes picks the first grid entry not below the value (the last beyond the grid), and inconsistent configurations raise ValueError."),
    over=["inputs", "configurations"],
    quant="all latents, means, scales and bottleneck configurations",
    why="tests compare forward with itself on one configuration",
    files=["projects/torch_vct/neural/bottlenecks.py"],
    mech=[("location-scale shift and rANS coding", "GsnConditionalLocScaleShift"), ("tables", "ContinuousIndexedGaussianConditional"), ("index map", "Scaler")],
    observe=["decoded latents", "string lengths", "likelihoods", "quantised CDF tables"],
    technique="runtime monitor: round-trip oracle plus independently computed prior mass, table and rate accounting",
    note=NOTE + "At least 3 symbols per string: compressai's encoder overruns its own buffer below that.",
)
prop(
    id="C11",
    title="VCT patcher: patches are exactly the documented windows and unpatch inverts",
    statement=(
        "For every tensor, stride and patch size (patch >= stride, even overlap) Patcher pads to a multiple of the stride plus half the overlap per side with the chosen "
        "pad mode and returns, in row-major order, the patch_size windows at every stride as a (batch*patches, patch_size^2 row-major, channels) tensor with num_patches = ceil(size / stride). With patch size equal to the stride, unpatch(patch(x)) cropped to x's "
        "size is bit-exact x, in channels-last or channels-first layout. Smaller patches, odd overlaps, non-4-D inputs and unpatching overlapping patches are rejected."),
    over=["inputs", "configurations"],
    quant="all tensors, sizes, strides, patch sizes and pad modes",
    why="tests use a few sizes",
    files=["projects/torch_vct/neural/patcher.py"],
    mech=[("windowing", "Patcher.__call__"), ("inverse", "Patcher.unpatch")],
    observe=["Patched tensor and num_patches", "unpatched tensor"],
    technique="runtime monitor: element-wise oracle against numpy windows",
    note=NOTE,
)
prop(
    id="C10",
    title="VCT entropy model: causal predictions, decodable tokens, bits it reports",
    statement=(
        "For every VCTEntropyModel configuration, latent and context of previous latents, forward returns round(latent) (straight-through in training), and the likelihood of a token depends only on the "
        "context latents within its window and on strictly earlier tokens of the same block and batch element (missing context frames repeat the oldest one). "
        "In eval mode compress returns round(latent), the features forward returns, and as bits exactly 8 times the bytes it produced, "
        "coding each token with the means and scales a receiver computes from the already decoded tokens only, so the receiver recovers round(latent) from the strings. "
        "Attention weights are a softmax that is zero on masked positions, StochasticDepth is the identity in eval and keeps/rescales whole samples in training, and inconsistent shapes, head counts, window sizes or multi-image compress calls are rejected."),
    over=["inputs", "configurations"],
    quant="all weights, window sizes, context lengths, latent sizes and batches, all single-token perturbations",
    why="tests check shapes on one configuration; causality quantifies over every token pair and every decode prefix",
    files=["projects/torch_vct/neural/entropy_model.py", "projects/torch_vct/neural/entropy_model_layers.py", "projects/torch_vct/neural/layers_utils.py"],
    mech=[("autoregressive coding", "VCTEntropyModel.compress"), ("masked window attention", "WindowMultiHeadAttention"), ("context handling", "VCTEntropyModel.process_previous_latent_q")],
    observe=["likelihoods under single-token perturbation", "means/scales handed to the bottleneck", "strings and decoded tokens"],
    technique="runtime monitor: perturbation (information-flow) oracle and receiver-side decode replay from recorded strings",
    note=NOTE + "Small transformer widths; the coding tables are a reduced 48x10 grid (the tables are judged in C09).",
)
prop(
    id="C12",
    title="VCT pipeline: any clip, causal in time, compress agrees with forward",
    statement=(
        "For every VCTPipeline (GDN or ELIC transforms, any context length, sizes not divisible by 16 included), forward on a clip returns reconstructions of the input's shape and per-frame likelihoods equal to coding each frame's latent given the "
        "previous context_len rounded latents of that clip only, so a frame never influences earlier outputs or other batch elements. "
        "compress_video reconstructs the same frames, reports as bits 8 times the bytes coded for every frame after the first (the likelihood estimate for the first), and leaves the pipeline able to run forward again; single-frame clips, non-4-D latents and wrong shapes are handled or rejected as documented. "
        "Memoisation never changes a result: a memoised function returns what the plain function would for those arguments, whatever was called before."),
    over=["inputs", "histories", "configurations"],
    quant="all clips, clip lengths, sizes, batch sizes, context lengths and call histories",
    why="the tests run one clip size through forward and one memoised call",
    files=["projects/torch_vct/model_pipeline.py", "projects/torch_vct/neural/transforms.py", "projects/torch_vct/utils/memoize.py", "projects/torch_vct/datamodules/video_data_api.py"],
    mech=[("frame loop and context window", "VCTPipeline.forward/compress"), ("padding/cropping", "VCTPipeline"), ("cache", "utils.memoize")],
    observe=["reconstructions, likelihoods and bits per frame", "results of memoised calls in random histories"],
    technique="runtime monitor: frame-by-frame reference replay, temporal perturbation oracle, random call-history checker for memoisation",
    note=NOTE,
)
prop(
    id="C15",
    title="Normal CDF, log-CDF, survival and log_expm1 are accurate on the whole line",
    statement=(
        "For every finite x, ndtr, log_ndtr, log_cdf, survival_function and log_survival_function (any normal location and scale, single or double precision) agree with the exact values to float accuracy, "
        "stay finite and monotone far into both tails, satisfy cdf + survival = 1, and have the true derivatives with respect to x and the parameters; other distributions give log(cdf), log(1 - cdf) and 1 - cdf. "
        "log_expm1(x) equals log(exp(x) - 1) with derivative 1 / (1 - exp(-x)) for all x > 0 without overflow. log_ndtr rejects other dtypes with TypeError and no function modifies its input."),
    over=["inputs", "configurations"],
    quant="all real inputs (tails, branch points), all locations and scales, float32 and float64",
    why="the tests use a few dozen standard-normal samples, which never reach the tails or the branch switches",
    files=["neuralcompression/functional/_ndtr.py", "neuralcompression/functional/_log_ndtr.py", "neuralcompression/functional/_log_cdf.py", "neuralcompression/functional/_survival_function.py", "neuralcompression/functional/_log_survival_function.py", "neuralcompression/functional/_log_expm1.py"],
    mech=[("piecewise erf/erfc evaluation", "ndtr"), ("standardisation", "log_cdf / survival_function"), ("large-x switch", "log_expm1")],
    observe=["returned values and autograd gradients"],
    technique="runtime monitor: numerical oracle (SciPy, double precision) on values, identities and gradients",
    note=NOTE + "ndtr and survival_function compute in single precision by design (existing tests pin it), so they are held to single-precision accuracy.",
)
prop(
    id="C16",
    title="UniformNoise density is the base mass of the unit box, and samples follow it",
    statement=(
        "For every base distribution, UniformNoise(base).prob(y) is the base probability of [y - 1/2, y + 1/2] and log_prob(y) its logarithm, accurate and finite far into both tails, with true gradients, and prob over any unit-spaced grid sums to one. "
        "Samples are base samples plus noise uniform on [-1/2, 1/2], independent across all elements and draws, differentiable in the base parameters, of shape sample_shape + batch_shape, and expand broadcasts the base without changing the density. "
        "NoisyNormal(loc, scale) is UniformNoise(Normal(loc, scale)), and cdf, survival, mean, tails and quantization_offset are those of the base."),
    over=["inputs", "configurations"],
    quant="all base distributions and parameters, all values, all sample and batch shapes",
    why="tests check shapes for one standard normal",
    files=["neuralcompression/distributions/_uniform_noise.py", "neuralcompression/distributions/_noisy_normal.py"],
    mech=[("box mass from survival or cdf differences", "UniformNoise.log_prob/prob"), ("additive noise", "UniformNoise.rsample")],
    observe=["prob/log_prob values, sums and gradients", "sampled values"],
    technique="runtime monitor: double-precision box-mass oracle, tiling sums and Kolmogorov-Smirnov monitors on samples",
    note=NOTE + "That cdf/mean/variance are those of the base (not of the noisy variable) is pinned by the existing tests and taken as the specification.",
)
prop(
    id="C17",
    title="Tail quantiles hold tail_mass/2 per side; offsets centre bins on the mean",
    statement=(
        "For every distribution, batch and tail mass, lower_tail and upper_tail return, per batch element and detached, the points with half the tail mass beyond them, via icdf when available and otherwise by solving on the cdf; with neither they raise NotImplementedError. "
        "estimate_tails finds x with func(x) = target for every monotone (increasing or decreasing) func and always returns, also when an element starts at the solution, in the requested shape and dtype and independently per element. "
        "quantization_offset lies in [-1/2, 1/2], differs from the mean by an integer, carries no gradient, and is zero wherever the mean is undefined."),
    over=["inputs", "configurations"],
    quant="all distributions, parameters, batch shapes and tail masses of at least 1e-5",
    why="tests query a standard normal and only check shapes; a hang needs a target met exactly",
    files=["neuralcompression/functional/_estimate_tails.py", "neuralcompression/functional/_lower_tail.py", "neuralcompression/functional/_upper_tail.py", "neuralcompression/functional/_quantization_offset.py"],
    mech=[("Adam search", "estimate_tails"), ("icdf/cdf dispatch", "lower_tail, upper_tail"), ("offset", "quantization_offset")],
    observe=["returned quantiles and offsets", "termination"],
    technique="runtime monitor: quantile oracle (SciPy cdf at the returned points) plus termination watchdog",
    note=NOTE + "Tail masses below 1e-5 are outside the claim: upper_tail forms 1 - mass/2 in single precision. The solver walks in steps of about 0.01, so its targets are kept within a few units of zero.",
)
prop(
    id="C18",
    title="soft_round and lower_bound: exact values, inverses and gradient rules",
    statement=(
        "For every x and alpha, soft_round equals m + tanh(alpha (x - m)) / (2 tanh(alpha / 2)) with m = floor(x) + 1/2: monotone, fixed at integers and half-integers, commuting with integer shifts, the identity below eps and round in the limit, with the true derivative; "
        "soft_round_inverse inverts it and soft_round_conditional_mean(z) is the mean of the interval of y with |soft_round(y) - z| <= 1/2. "
        "lower_bound(x, bound) equals max(x, bound) for float or tensor bounds with gradient zero below the bound (disconnected), unchanged (identity), or passed only where x >= bound or descent would raise x (identity_if_towards, the default); dtypes and inputs are preserved and unknown rules raise ValueError."),
    over=["inputs", "configurations"],
    quant="all inputs, alphas, thresholds, bounds, gradient rules and upstream gradients",
    why="tests sample a few alphas at random points and one gradient sign",
    files=["neuralcompression/functional/_soft_round.py", "neuralcompression/functional/_soft_round_inverse.py", "neuralcompression/functional/_soft_round_conditional_mean.py", "neuralcompression/functional/_lower_bound.py"],
    mech=[("smooth rounding", "soft_round family"), ("custom backward", "_LowerBound")],
    observe=["returned values", "autograd gradients"],
    technique="runtime monitor: closed-form oracle, metamorphic relations and gradient-rule monitor",
    note=NOTE + "Ties of the disconnected rule are not judged (any subgradient is valid); the inverse is judged where it is well conditioned.",
)
prop(
    id="C19",
    title="ContinuousEntropy tables match the prior and drive a lossless range coder",
    statement=(
        "For every prior with a batch shape of at least one dimension, tail mass and precision, a compressible ContinuousEntropy builds one table row per batch element (in flattened order): a strictly increasing integer CDF from 0 to 2^precision whose symbol j has the prior's mass at cdf_offset + quantization_offset + j, "
        "covering all but tail_mass with the remainder on the last (overflow) symbol, so range coding quantize(y) with the tables is lossless at close to the ideal length. "
        "quantize rounds about the offsets to int32, state_dict carries the tables unchanged, inconsistent constructor arguments raise ValueError, tables of a non-compressible layer and a missing prior raise RuntimeError."),
    over=["inputs", "configurations"],
    quant="all priors, batch shapes, tail masses, precisions and symbols",
    why="tests check the shape of the tables for one standard normal prior",
    files=["neuralcompression/layers/_continuous_entropy.py"],
    mech=[("table construction", "ContinuousEntropy._update"), ("quantisation", "ContinuousEntropy.quantize"), ("argument validation", "ContinuousEntropy.__init__")],
    observe=["cdfs, cdf_sizes, cdf_offsets", "symbols returned by compressai's range coder driven by the tables"],
    technique="runtime monitor: table oracle against independently computed masses plus range-coder round trip",
    note=NOTE + "Two open findings are listed (negative lower tails are clamped to symbol 0; templates built with maximum_cdf_size cannot be restored into); both are pinned by existing tests.",
)
prop(
    id="C20",
    title="Rate and distortion scalars: information content, PSNR and pickled size",
    statement=(
        "information_content returns -log_base(p) of every element (none), summed per batch element (batch_el) or in total (sum, the default) for any tensor shape, memory layout, base and precision, so it is never negative, adds over any split, costs infinity for p = 0, has gradient -1/(p ln base), and rejects other reductions with ValueError. "
        "calc_psnr and calc_psnr_numpy return 10 log10(data_range^2 / MSE) over all elements: symmetric, unchanged when images and range are scaled together, infinite for equal images, and (numpy) exact for integer as well as float images, without changing their arguments. "
        "pickle_size_of(obj) is the exact size in bytes of the file pickle.dump(obj) would write."),
    over=["inputs", "configurations"],
    quant="all probability tensors, reductions, bases, image pairs of any number type and range, picklable objects",
    why="tests use uniform probabilities, float images of one shape family and one object",
    files=["neuralcompression/functional/_information_content.py", "neuralcompression/metrics/_calc_psnr.py", "neuralcompression/metrics/_pickle_size.py"],
    mech=[("rate estimate", "information_content"), ("distortion", "calc_psnr, calc_psnr_numpy"), ("file size", "pickle_size_of")],
    observe=["returned values", "autograd gradients", "size of a real pickle file"],
    technique="runtime monitor: float64 closed-form oracle and metamorphic relations over random inputs",
    note=NOTE,
)
prop(
    id="C21",
    title="MS-SSIM equals its published definition at any size; the metric averages images",
    statement=(
        "For every image size, channel count, window, k1, k2, Gaussian width, data range and list of scale exponents, multiscale_structural_similarity equals the published definition (valid Gaussian windows, 2x2 averaging with edge replication at odd sizes, contrast-structure at all but the last scale, channels averaged): 1 for equal images, symmetric, within [0, 1], invariant to scaling images with data_range, differentiable, the same for an image alone or in a batch, reduced as asked. "
        "Images smaller than the window at any scale raise RuntimeError; even or non-positive windows and unknown reductions raise ValueError. "
        "The MultiscaleStructuralSimilarity metric reports the mean over all images since the last reset for every sequence of updates of any batch sizes, forward calls, clones, pickling and synchronisation across workers."),
    over=["inputs", "configurations", "histories"],
    quant="all image pairs, sizes and parameters; all histories of the metric object",
    why="the only test runs the metric on random images and does not look at the value",
    files=["neuralcompression/functional/_multiscale_structural_similarity.py", "neuralcompression/metrics/_msssim.py"],
    mech=[("scale loop", "multiscale_structural_similarity"), ("window statistics", "_ssim_single_channel"), ("odd sizes", "_pad_and_downsample"), ("accumulation", "MultiscaleStructuralSimilarity.update/compute")],
    observe=["returned scores", "metric value after each history"],
    technique="runtime monitor: independent scipy reference plus metric-history model",
    note=NOTE + "Inputs whose scale terms are near zero are skipped (fractional powers amplify rounding there).",
)
prop(
    id="C22",
    title="count_flops totals, breakdown and unsupported list match the executed operations",
    statement=(
        "For every module, count_flops returns the number of multiply-accumulates of its convolutions and linear layers plus one per output element (after broadcasting) of each abs, add, div, mul, neg, rsub, sign and sub, in place or not, broken down per operator with parts adding to the total, and lists every executed operator without a counter with its number of calls. "
        "use_single_flop_estimates adds exactly one per output element of erfc, exp, log, log10, log2, pow, reciprocal, rsqrt, sigmoid, softplus, sqrt, tanh and uniform (and in-place forms), which are otherwise listed as unsupported; counter_overrides replace or add counters for that call only. "
        "Counting accepts tuples or lists of inputs, changes neither module nor inputs, and earlier calls never influence later ones."),
    over=["inputs", "configurations", "histories"],
    quant="all modules built from supported, estimated and unsupported operations, all input shapes, option combinations and call histories",
    why="tests count three fixed models",
    files=["neuralcompression/functional/_count_flops.py"],
    mech=[("operator counters", "count_flops, _SINGLE_FLOP_OP_COUNTERS, _SINGLE_FLOP_ESTIMATE_COUNTERS")],
    observe=["the three returned values", "operations logged while the same module runs"],
    technique="runtime monitor: counts logged during real execution of random programs compared with the report",
    note=NOTE,
)
prop(
    id="C23",
    title="Padding to a factor, 255 scaling, HSV and optical-flow colours are exact",
    statement=(
        "pad_image_to_factor pads bottom and right only, to the next multiple of the factor in each dimension, keeps the image in the top-left corner, fills the border by the chosen mode (reflect by default), returns the original height and width, and leaves multiples untouched; image_to_255_scale returns round(255 x) in the requested dtype, restores every 8-bit image exactly and raises ValueError outside [0, 1]. "
        "hsv_to_rgb is the standard conversion for hue in [0, 360] and saturation and value in [0, 1] and raises ValueError for anything else or for a tensor that is not (N, 3, H, W). "
        "optical_flow_to_color paints hue = direction of the (dy, dx) vector in [0, 360) and brightness = vector length shifted and scaled to [0, 1] over the whole batch, fully saturated, for every flow including zero; no function changes its argument."),
    over=["inputs", "configurations"],
    quant="all image sizes, factors, padding modes, colours and flow fields",
    why="tests check output sizes for three shapes and run flow colouring without looking at the colours",
    files=["neuralcompression/functional/_pad_image.py", "neuralcompression/functional/_image_to_255_scale.py", "neuralcompression/functional/_hsv_to_rgb.py", "neuralcompression/functional/_optical_flow_to_color.py"],
    mech=[("padding", "pad_image_to_factor"), ("8-bit scaling", "image_to_255_scale"), ("colour", "hsv_to_rgb, optical_flow_to_color")],
    observe=["returned tensors", "arguments after the call"],
    technique="runtime monitor: index-level and colorsys reference over random inputs",
    note=NOTE,
)
prop(
    id="C24",
    title="GDN, channel norm, XCA and latent wrappers match their formulas, trained or not",
    statement=(
        "SimplifiedGDN and SimplifiedInverseGDN compute x_i / (beta_i + sum_j gamma_ij |x_j|) and x_i (beta_i + sum_j gamma_ij |x_j|) with gamma clamped to >= 0 and beta to >= beta_min, with the gradients of that formula; any sequence of training steps keeps outputs finite and the clamped values are stored in the same Parameter objects the optimiser holds. "
        "ChannelNorm2D normalises each pixel over its channels only (unbiased variance plus epsilon, optional affine, ValueError below two channels); XCA is cross-covariance attention (L2-normalised queries and keys per channel, softmax over the head's channels, per-head temperature), equivariant to token order, independent across the batch, with dropout only in training. "
        "NormalizeLatent hands its child (if any) the latent scaled to unit Euclidean length over channels and raises ValueError without a latent; ProjectLatent hands it the projected latent and projects the child's result back; neither loses other fields."),
    over=["inputs", "configurations", "histories"],
    quant="all layer sizes, parameter values (including ones a training step pushed out of range), inputs and training histories",
    why="tests check shapes and one clamping step; XCA, NormalizeLatent and ProjectLatent have no test",
    files=["neuralcompression/layers/_simplified_gdn.py", "neuralcompression/layers/_channel_norm.py", "neuralcompression/layers/_xca.py", "neuralcompression/layers/_normalize_latent.py", "neuralcompression/layers/_project_latent.py"],
    mech=[("GDN", "SimplifiedGDN, SimplifiedInverseGDN"), ("channel norm", "ChannelNorm2D"), ("attention", "XCA"), ("latent wrappers", "NormalizeLatent, ProjectLatent")],
    observe=["outputs", "gradients", "parameter identity and values after steps", "child module's input"],
    technique="runtime monitor: numpy reference on outputs and gradients, invariant monitor over training histories",
    note=NOTE,
)
prop(
    id="C25",
    title="FID, FID-SwAV and KID equal their definitions for every update history",
    statement=(
        "For every sequence of updates of real and fake images in any batch sizes and order, resets, clones, pickling and synchronisation across workers, FrechetInceptionDistance, FrechetInceptionDistanceSwAV and KernelInceptionDistance report the distance between exactly the images seen: the Frechet distance of the feature means and covariances, or the polynomial-kernel MMD with the degree, gamma and coefficient given. "
        "The feature network stays frozen in evaluation mode and receives the documented pixels (uint8, or [0, 1] floats with normalize, ImageNet-normalised for SwAV), images are not changed, and invalid arguments raise ValueError. "
        "update_patch_fid gives every metric passed exactly the non-overlapping patches of each image as 8-bit values, plus those of the grid shifted by half a patch when both sides are at least 1.5 patches, real and reconstructed separately, returns the number of real patches and raises ValueError without a metric."),
    over=["inputs", "configurations", "histories"],
    quant="all image batches, patch sizes, kernel parameters, update/reset/copy/sync histories",
    why="tests run each metric once on random images without looking at the value",
    files=["neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py", "neuralcompression/metrics/_update_patch_fid.py"],
    mech=[("feature state", "FrechetInceptionDistance.update/compute, KernelInceptionDistance"), ("SwAV features", "FrechetInceptionDistanceSwAV, NoTrainSwAV"), ("patches", "update_patch_fid")],
    observe=["values", "tensors given to the backbone and the metrics", "module mode"],
    technique="runtime monitor: metric-history model against scipy formulas, with recording backbones",
    note=NOTE + "The pretrained Inception and SwAV weights cannot be downloaded here: recording stand-ins replace the two networks behind their loading functions.",
)
prop(
    id="C26",
    title="LPIPS, MSE-LPIPS and DISTS equal their definitions and stay differentiable",
    statement=(
        "For every image pair, backbone, linear-weight version, calibration switch, normalisation flag and reduction, lpips() equals the distance computed from the backbone's unit-normalised features (ValueError for unknown backbones, versions or reductions), does not depend on the rest of the batch, and is 0 for equal images. "
        "NormFixLPIPS (every parent option, per layer and spatial) computes the same sum with the epsilon inside the norm, so that gradients are finite even where features vanish; MSELPIPSLoss is mse_param * MSE + lpips_param * mean NormFixLPIPS, with a frozen backbone that stays in evaluation mode whatever train() is called. "
        "The DeepImageStructureTextureSimilarity metric reports the mean or sum of the DISTS scores of all images since the last reset for every update, forward, clone, pickle and synchronisation history, and raises ValueError for images outside [0, 1] or of the wrong shape."),
    over=["inputs", "configurations", "histories"],
    quant="all image pairs, option combinations and metric histories",
    why="tests only check lpips output shapes; the loss classes and DISTS have no value test",
    files=["neuralcompression/functional/_lpips.py", "neuralcompression/loss_fn/_normfix_lpips.py", "neuralcompression/loss_fn/_mse_lpips_loss.py", "neuralcompression/metrics/_dists.py"],
    mech=[("functional", "lpips"), ("stable distance", "NormFixLPIPS, normalize_tensor"), ("loss", "MSELPIPSLoss"), ("accumulation", "DeepImageStructureTextureSimilarity")],
    observe=["returned scores", "gradients", "module mode and requires_grad"],
    technique="runtime monitor: distance recomputed from logged backbone features; metric-history model",
    note=NOTE + "Backbones carry fixed random weights because the pretrained ones cannot be downloaded; the linear calibration weights are the packaged ones.",
)
prop(
    id="C27",
    title="GAN, OASIS and MSE losses and target-rate configs follow their definitions",
    statement=(
        "For every logit and target, the binary-crossentropy discriminator loss is half the sum of the mean crossentropies of real logits against the targets and fake logits against zero, and the generator loss is the mean crossentropy of fake logits against the targets; the OASIS discriminator loss is half the sum of softmax crossentropies of real logits against class target+1 and of fake logits against class 0, the generator loss that of fake logits against class target+1. "
        "Values and gradients are exact and finite for extreme logits, no argument is changed, and a target of another rank (neither 0 nor that of the logits; for OASIS: another number of elements, another dtype than long, or logits that are not 4-D) raises ValueError, and a class the logits do not have is never accepted. "
        "MSELoss is the scaled mean squared error; TargetRateConfig keeps its values, is immutable, and raises ValueError when the lengths of factors and schedules do not match."),
    over=["inputs", "configurations"],
    quant="all logits, target layouts, shapes and configuration lists",
    why="the loss functions have no test of their values",
    files=["neuralcompression/loss_fn/_binary_crossentropy_loss.py", "neuralcompression/loss_fn/_oasis_loss.py", "neuralcompression/loss_fn/_mse_loss.py", "neuralcompression/loss_fn/_gan_losses.py", "neuralcompression/loss_fn/_target_rate_config.py"],
    mech=[("GAN losses", "BinaryCrossentropy*Loss, OASIS*Loss"), ("distortion", "MSELoss"), ("configuration", "TargetRateConfig")],
    observe=["loss values", "gradients", "exceptions"],
    technique="runtime monitor: float64 numpy reference on values and gradients",
    note=NOTE,
)
prop(
    id="C28",
    title="Learning-rate schedules follow their formula through checkpoints",
    statement=(
        "For every admissible length and floor, at every step of a training run RampConstCosineLRSchedule multiplies each parameter group's base rate by a linear ramp step/ramp, then 1, then a quarter cosine over the last num_cosine_steps, RampCosineLRSchedule by the ramp and then the quarter cosine of (step - ramp) / num_max_steps, both never below min_val, and IdentitySchedule leaves it alone. "
        "The torch_vct LinearRampCosineLR, LinearRampLinearLR and LinearWarmUpCosineLR ramp linearly from base/ramp_len to base (or hold it), then follow a half cosine to eta_min at step T_max-1 or stay constant. "
        "Saving optimiser and schedule and restoring them into fresh objects at any step changes nothing later (with the schedule alone: nothing from the next step on), rates stay in [0, base], and groups with different rates are scaled independently."),
    over=["configurations", "histories"],
    quant="all schedule parameters, parameter groups, steps and checkpoint positions",
    why="the schedules have no tests; errors appear only at particular steps",
    files=["neuralcompression/optim/_ramp_const_cosine.py", "neuralcompression/optim/_ramp_cosine.py", "neuralcompression/optim/_identity.py", "projects/torch_vct/utils/schedulers.py"],
    mech=[("library schedules", "RampConstCosineLRSchedule, RampCosineLRSchedule, IdentitySchedule"), ("VCT schedules", "LinearRampCosineLR, LinearRampLinearLR, LinearWarmUpCosineLR")],
    observe=["learning rate of every group after every step"],
    technique="runtime monitor: trace of learning rates checked step by step against the closed form",
    note=NOTE + "RampCosine's cosine is divided by num_max_steps, as the code defines it.",
)
prop(
    id="C29",
    title="U-Net discriminators compute the documented network at every output size",
    statement=(
        "For every channel list, norm type (identity, spectral, instance, batch) and power-of-two output_downsampling_factor up to the depth of the U-Net, UnetDiscriminator maps (N, C, H, W) to (N, output_channels, H/factor, W/factor) and equals the residual U-Net its parameters describe: average-pooled down blocks, nearest-upsampled up blocks clipped at the factor, shortcuts, LeakyReLU 0.2, final 1x1 convolution, every convolution biased except the first of a block under batch norm; other factors and unknown norms raise ValueError. "
        "ConditionalUnetDiscriminator feeds that network the image followed by the context after a reflect-padded 3x3 convolution, LeakyReLU and nearest resizing, for every context size, and only it reports is_conditional. "
        "Evaluation is deterministic, leaves inputs, channel list and state alone, treats each image as if alone, survives a checkpoint round trip, and training reaches every parameter with finite gradients."),
    over=["inputs", "configurations", "histories"],
    quant="all channel lists, norms, factors, image and context sizes, both modes",
    why="tests check output shapes of seven fixed configurations",
    files=["neuralcompression/models/_unet_discriminator.py", "neuralcompression/models/_discriminator.py"],
    mech=[("levels", "_UnetLevel"), ("clipping", "UnetDiscriminator.__init__"), ("context", "ConditionalUnetDiscriminator.forward")],
    observe=["outputs", "state before and after", "gradients"],
    technique="runtime monitor: float64 network rebuilt from the state dict as reference",
    note=NOTE,
)
prop(
    id="C30",
    title="Image datasets present exactly the documented files, in order, as RGB",
    statement=(
        "For every directory, CLIC2020Image, DIV2KDataset and Kodak present exactly the PNG files of the requested split (Kodak: kodim01 to kodim24) sorted by name, and OpenImagesV6 exactly the images of the split's list file sorted by name (blank lines, line ends and a missing .jpg extension do not matter; the documented unusable training images are left out of the training split and of no other). "
        "Every item is that file's pixels as an RGB PIL image, or the transform applied exactly once to it, however often and in whatever order items are read, with negative indices counting from the end, IndexError outside the range, and the same result after pickling, iterating or loading through a DataLoader. "
        "Unknown splits raise ValueError, missing list files or images FileNotFoundError, and nothing on disk is changed by reading."),
    over=["inputs", "configurations", "histories"],
    quant="all directory contents, file names, pixel formats, list-file layouts, splits and access orders",
    why="tests read one fixed directory listing per class, mostly with one pixel format and no distractor files",
    files=["neuralcompression/data/_clic_2020_image.py", "neuralcompression/data/_div2k_dataset.py", "neuralcompression/data/_openimages_v6.py", "neuralcompression/data/_kodak.py"],
    mech=[("file selection and order", "CLIC2020Image, DIV2KDataset, Kodak .__init__"), ("list parsing and exclusions", "OpenImagesV6.__init__"), ("decoding", "__getitem__")],
    observe=["pixels and mode of every item", "arguments seen by the transform", "directory before and after"],
    technique="runtime monitor: known pixels written to random scratch directories, every item compared online",
    note=NOTE,
)
prop(
    id="C31",
    title="Dataset downloads store exactly the published files and never hide damage",
    statement=(
        "Asked to download, Kodak requests each of the 24 images once from kodak_url, CLIC2020Image the archive of the requested split once, and CLIC2020Video the URL index and each listed archive once, and exactly the published content lies under the root afterwards, readable, without archive leftovers of macOS and without touching other splits. "
        "Whatever request is refused, answered with an error, cut short, truncated or (Kodak, CLIC images) answered with other bytes, the constructor raises, and asking again (Kodak: with force_download) repairs the data set; a Kodak directory with any changed, swapped, missing or truncated image raises unless check_hash is off. "
        "Kodak refuses to download over existing files unless forced, an already downloaded CLIC image split is opened again without a request, and without download nothing is ever requested."),
    over=["fault_sequences", "histories", "configurations"],
    quant="all placements of network faults and file damage over every download history",
    why="tests replace the download by a stub that always succeeds",
    files=["neuralcompression/data/_kodak.py", "neuralcompression/data/_clic_2020_image.py", "neuralcompression/data/_clic_2020_video.py"],
    mech=[("digest over the images", "Kodak"), ("archive download and unpacking", "CLIC2020Image.download"), ("parallel archive download", "CLIC2020Video.download")],
    observe=["requests on a scripted network", "files on disk", "exceptions"],
    technique="runtime monitor: fault injection into a scripted network, request log and file contents checked",
    note=NOTE + "The published digests are mapped to the digest of the scripted files, because the real data cannot be had offline; any other content keeps its own digest.",
)
prop(
    id="C32",
    title="Video datasets yield the right frames: every clip of every video, each epoch",
    statement=(
        "For every split or folder list, Vimeo90kSeptuplet yields the first frames_per_group frames of each listed septuplet, in list order, as one (T, C, H, W) tensor per septuplet (as_video) or one image per frame, applying pil_transform to each frame and tensor_transform once to the result; it has exactly that many items, and wrong splits, frame counts or both/neither of split and folder_list raise ValueError. "
        "Iterating CLIC2020Video yields, in every epoch (also after an abandoned one, and across any number of DataLoader workers together), each video exactly once in sampler order, with all the clips its clip sampler asks for, in order, each holding exactly the frames of that time span in frame order (or frames_per_clip of them evenly spaced) with the matching name, indices and transform. "
        "Reading changes nothing on disk and both data sets survive pickling."),
    over=["inputs", "configurations", "histories", "schedules"],
    quant="all directory contents, clip samplers, video samplers, epochs, abandoned iterations and numbers of workers",
    why="tests read one clip of one video and one item of one septuplet",
    files=["neuralcompression/data/_vimeo_90k_septuplet.py", "neuralcompression/data/_clic_2020_video.py"],
    mech=[("indexing", "Vimeo90kSeptuplet.__getitem__"), ("iteration", "CLIC2020Video.__iter__, __next__"), ("workers", "CLIC2020Video.__iter__")],
    observe=["frame addresses written into the pixels", "clips requested from the sampler", "videos per epoch and per worker"],
    technique="runtime monitor: frames carry their own address; epoch traces checked for exactly-once and order",
    note=NOTE + "Random access (ds[i]) to CLIC2020Video is claimed for samplers of one clip per video only: otherwise it continues the current video.",
)
prop(
    id="C34",
    title="Zoo and torch.hub entry points load exactly the weights they are named after",
    statement=(
        "Every model function of neuralcompression.zoo and every entry point of hubconf.py builds the documented architecture and, when pretrained (the default of the hub entry points, not of the zoo), requests exactly one checkpoint, the one published for its family and bit rate, onto the CPU, and returns a model whose every parameter and buffer equals it. "
        "With pretrained off nothing is requested; a checkpoint with a missing, additional or differently shaped entry and an unknown weight name raise instead of being accepted in part. "
        "Calls are independent: changing one returned model never changes another or the checkpoint."),
    over=["configurations", "inputs"],
    quant="all entry points, argument forms and checkpoint contents",
    why="pretrained weights are never loaded in the tests",
    files=["neuralcompression/zoo/_msillm.py", "neuralcompression/zoo/_noganms.py", "neuralcompression/zoo/_msillm_vqvae.py", "hubconf.py"],
    mech=[("builders", "_build_msillm, _build_noganms"), ("entry points", "hubconf.py")],
    observe=["requested URLs", "state dict of the returned model"],
    technique="runtime monitor: scripted checkpoint server with a distinct checkpoint per URL; loaded state compared",
    note=NOTE,
)
prop(
    id="C35",
    title="ILLM training steps apply exactly the documented rate, distortion, GAN updates",
    statement=(
        "For every model output, step count and TargetRateConfig, the rate loss is the batch mean of lambda times the noisy total bits per pixel, where each image's lambda is the scheduled lam2 if its quantized total bits per pixel exceed the scheduled target and lam_levels[0] otherwise, and the logged bpp values are those of the noisy and quantized likelihoods. "
        "A training step of TargetRateCompressionModule or GANCompressionModule changes exactly the parameters of its optimizers, each by one step along the gradient of its own loss (model: distortion_lam * distortion + rate + generator_weight * generator loss; discriminator: its loss on real and detached fake images; quantiles: the bottleneck's auxiliary loss), clipped as configured, with each schedule stepped once. "
        "With mc_sampling the model is trained on the first half of the batch and the real images of the discriminator are the second half; contexts are detached latents and reach only conditional discriminators, and the latent projector never changes."),
    over=["inputs", "configurations", "histories"],
    quant="all batches, schedules, step counts, clipping settings, discriminators and step sequences",
    why="the projects have no tests of their training steps",
    files=["projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py"],
    mech=[("rate targeting", "TargetRateCompressionModule.rate_loss"), ("model and quantile steps", "training_step"), ("generator and discriminator steps", "GANCompressionModule.training_step")],
    observe=["parameters before and after each step", "arguments of losses and discriminator", "logged values"],
    technique="runtime monitor: every training step replayed by an independent reference on a copied model, parameters and logs compared",
    note=NOTE + "lightning, hydra and omegaconf are not installed; small stand-ins with recorded logging replace them.",
)
prop(
    id="C36",
    title="ILLM evaluation reports what was measured; the launcher runs what is configured",
    statement=(
        "Whatever epochs, interruptions and checkpoint loads came before, each validation or test epoch of the ILLM modules reports the metrics of exactly its own images: MSE, PSNR, MS-SSIM on 0-255 values rounded from clamped reconstructions, LPIPS and DISTS on [0, 1] values, FID over real inputs and reconstructions (patch-wise for data sets named clic or div2k, zero for kodak), the HiFiC distortion 0.075 * 2^-5 * MSE + LPIPS, and at test time the pickled size of the compressed batch in bits per pixel of what was actually decoded, with validation values averaged over workers; evaluation changes neither weights nor batch. "
        "The launcher refuses a directory with checkpoints unless overwriting or resuming, resumes from last.ckpt unless overwriting, loads exactly the model weights of a checkpoint and rejects one that does not fit, scales max_steps by the number of optimizers, and tests the checkpoint's weights on every configured data set under its own name. "
        "The transforms yield image_size squares in [0, 1] for every image, and the data module delivers every image of its split exactly once per epoch, shuffled for training and in order for validation."),
    over=["histories", "inputs", "configurations"],
    quant="all sequences of epochs, data sets, image sizes, checkpoint directories and configurations",
    why="the projects have no tests of their evaluation",
    files=["projects/illm/image_module.py", "projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "projects/illm/train.py", "projects/illm/open_images_datamodule.py", "projects/illm/default_transforms.py"],
    mech=[("metrics and resets", "ImageModule.log_quality_metrics, reset_all_metrics"), ("compressed test", "TargetRateCompressionModule.test_step"), ("checkpoints", "train.fetch_checkpoint, pretrained_state_dict"), ("loaders", "OpenImagesDataModule")],
    observe=["logged values per step and epoch", "calls on the model", "calls on the trainer", "weights"],
    technique="runtime monitor: epoch histories with an online reference of every logged value; recorded trainer calls",
    note=NOTE + "lightning, hydra and omegaconf are not installed; small stand-ins with recorded logging replace them, and cheap deterministic metrics replace the pretrained networks.",
)
prop(
    id="C37",
    title="DVC training stages train exactly their parts on the documented loss, chained",
    statement=(
        "In every DVC stage and for every batch, one optimizer step is taken per P-frame and changes exactly that stage's parts (stage 1 the flow estimator, 2 also the motion coder, 3 also the compensation, 4 and 5 everything) by the clipped gradient of distortion_lambda * MSE + bits per pixel of that frame (stage 1: mean over the pyramid of lambda * MSE), each frame being predicted from the previous reconstruction and the first from the frozen I-frame codec's; bottleneck quantiles follow only their auxiliary loss, and the batch is never changed. "
        "The logged values are group-of-pictures means over frames of exactly these losses and bits per pixel, I-frame included, and the PSNR over the P-frames, in training and validation alike; validation changes no weights. "
        "The launcher runs the configured stages in order, each with its own overrides of the shared configuration, checkpoint directory and resume point and with the weights the previous stage left, refuses a directory with checkpoints unless overwriting or resuming, and the data module yields the first frames of each listed clip, one common crop per clip, shuffled for training and in order for validation."),
    over=["inputs", "configurations", "histories"],
    quant="all batches, frame counts, schedules, clip values, stage sequences and checkpoint directories",
    why="the project has no tests of its training",
    files=["projects/deep_video_compression/dvc_module.py", "projects/deep_video_compression/_utils.py", "projects/deep_video_compression/train.py", "projects/deep_video_compression/data_module.py", "neuralcompression/models/deep_video_compression.py"],
    mech=[("stage wrappers", "_utils.DvcStage1 to DvcStage4and5"), ("P-frame loop", "DvcModule.training_step"), ("I-frame", "DvcModule.compress_iframe"), ("stages", "train.run_training_stage")],
    observe=["parameters before and after every step", "logged values", "calls on the trainer", "pixels of the loaders"],
    technique="runtime monitor: every step replayed by an independent reference on a copied model; recorded trainer calls and logs",
    note=NOTE + "lightning, hydra, omegaconf and wandb are not installed and the pretrained I-frame codec cannot be fetched; small stand-ins replace them.",
)
prop(
    id="C38",
    title="VCT training and evaluation report what was measured; loaders feed it intact",
    statement=(
        "For every clip and model output the VCT loss is the mean over frames of lambda * 255^2 * MSE + bits per pixel, every frame after the first weighted ten times, and the logged distortion, rate, combined losses, PSNR (mean over frames of float frames in [0, 1]) and PSNR_int (of values rounded to 0-255) are those of that batch; test_step compresses and decompresses one clip once and reports the PSNR of the decoded 8-bit frames and the compressed bits per pixel, with and without the first frame. "
        "The optimizer holds every parameter except the quantiles; a checkpoint is loaded exactly or rejected and leaves the model in evaluation mode with its coder tables rebuilt; the launcher refuses an existing directory unless overwriting or resuming and tests the trained model. "
        "The Vimeo, UVG and Kinetics data modules yield every clip of the split once per epoch, shuffled for Vimeo training and in order when evaluating, frames in order and cropped alike within a clip, and never a sample mixing two videos."),
    over=["inputs", "configurations", "histories"],
    quant="all clips, lambdas, reconstruction errors, checkpoints, data set layouts and configurations",
    why="the tests of the project cover its layers only",
    files=["projects/torch_vct/model_lightning.py", "projects/torch_vct/model_train.py", "projects/torch_vct/datamodules/vimeo.py", "projects/torch_vct/datamodules/uvg.py", "projects/torch_vct/datamodules/kinetics.py", "projects/torch_vct/datamodules/video_data_api.py", "projects/torch_vct/utils/checkpoint_loaders.py"],
    mech=[("loss and logs", "VCTModule.training_step, validation_step"), ("compressed test", "VCTModule.test_step"), ("loaders", "datamodules/"), ("checkpoint", "load_model_checkpoint_from_config")],
    observe=["returned losses and gradients", "logged values", "calls on the pipeline and trainer", "pixels of the loaders"],
    technique="runtime monitor: a scripted pipeline with known outputs; logs, gradients and loader pixels compared with an independent reference",
    note=NOTE + "lightning, hydra, omegaconf and wandb are not installed; small stand-ins replace them.",
)
prop(
    id="C13",
    title="The JAX entropy coders are lossless for every message and buffer history",
    statement=(
        "For every batch of byte messages and every (also adaptive, also skewed) distribution with integer frequencies of total 2^16, jax_arithmetic_coder.encode gives per message bytes, independent of the rest of the batch and within two bytes and 0.1% of its information, from which decode returns exactly the message, or any requested prefix of it; a message that does not fit the buffer raises RuntimeError and is never silently cut. "
        "For every rANS buffer with enough tail capacity and every sequence of craystack encode and decode on it (interleaving never wider than the buffer's first message), each decode returns the newest message not yet decoded, in the codec's dtype, and restores the earlier buffers exactly; buffers grow by the information coded plus a constant per stream and encode, inputs are not modified, and a codec's distribution state runs forward while encoding and is handed back when decoding. "
        "bitsback_ans_codec is lossless for every prior, posterior and likelihood, also from an empty buffer, and onto a filled buffer costs only the information of the message; craymessage_to_array and array_to_craymessage are inverse."),
    over=["inputs", "histories", "configurations"],
    quant="all messages, distributions, batch sizes, interleave widths and operation sequences",
    why="the project's tests need jax, which is not installed, and cover a few fixed messages",
    files=["projects/jax_entropy_coders/jax_arithmetic_coder.py", "projects/jax_entropy_coders/craystack/coder.py", "projects/jax_entropy_coders/craystack/codecs.py", "projects/jax_entropy_coders/craystack/_backend.py"],
    mech=[("arithmetic coding", "encode, decode, _enqueue, _dequeue, _append_bit_and_pending"), ("rANS", "encode, decode, push, pop, default_rans_codec, fixed_array_cdf_codec"), ("bits back", "bitsback_ans_codec"), ("layout", "craymessage_to_array, array_to_craymessage, convert_to_embedded")],
    observe=["code bytes and their lengths", "decoded messages", "buffers and distribution states"],
    technique="runtime monitor: stack model of coding histories; lengths against the information content of the messages",
    note=NOTE + "jax is not installed: a numpy stand-in for the jax functions used (vmap, fori_loop, cond, switch, ...) runs the coders eagerly with jax's unsigned wrap-around; it also passes the project's own tests.",
)

prop(
    id="C14",
    title="Bits-back diffusion coding is lossless for every history, at the model's rate",
    statement=(
        "For every hierarchical model, batch shape, precision and data range, and every sequence of encode, decode, save and restore on a BitsBackCodec, each decode returns exactly the newest batch not yet decoded and restores the message, counters and rates from before it was encoded; a state dict (also one written to disk) is a snapshot that resumes in a fresh codec and is never changed by later coding, a batch that is out of range, misshapen or does not fit raises and leaves the message unchanged, and quantize maps every level of [data_min, data_max] to its own integer. "
        "Encoding adds the information of the model: the Gaussian mass of the bin of each data value (bins centred on the quantized values for any data range, outermost bins extended to infinity) and posterior against prior of every latent conditioned on the step above; statistics, extra_bytes (what the first batch takes from the initial message) and the tracked push and pop bytes account for the message length exactly. "
        "DiffusionModel supplies the diffusion's own moments for each step without gradients, space_timesteps keeps exactly the requested number of steps including the documented ones, encode.py interrupted anywhere and started again decodes to exactly the input batches, compute_vlb.py reports the bounds of exactly the evaluated samples, and runs resume from the newest checkpoint."),
    over=["histories", "inputs", "configurations", "crash_points"],
    quant="all models, shapes, precisions, data ranges, operation sequences and interruption points",
    why="the tests of the project need packages that are not installed, and cover one encode and one decode",
    files=["projects/bits_back_diffusion/bits_back_diffusion/codec.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/compute_vlb.py"],
    mech=[("coding", "BitsBackCodec.encode, decode, posterior, likelihood, prior_push, prior_pop"), ("state", "BitsBackCodec.state_dict, load_state_dict"), ("bins", "diag_gaussian_unif_bins"), ("steps", "space_timesteps"), ("resuming", "encode.main, update_checkpoint")],
    observe=["flattened message", "decoded batches", "calls on the model", "files of an interrupted run"],
    technique="runtime monitor: stack model of coding histories; information content against an independent Gaussian reference; interrupted runs replayed",
    note=NOTE + "craystack and improved_diffusion are not installed: a vectorised rANS coder and a DDPM with their interfaces stand in for them.",
)
prop(
    id="C33",
    title="Encoder, decoder, flow and transform networks compute their documented form",
    statement=(
        "For every weight setting, channel option and input size, HiFiCEncoder/HiFiCGenerator and HiFiC's hyper networks, the VQ-VAE XCiT encoder/decoder (all norm types, attention resolutions, resampling options, dropout before the second convolution of a block), DVC's compression encoder/decoder (GDN or batch norm, recorded sizes), pyramid flow estimator (with its per-level image pairs) and motion-compensation U-Net, and VCT's ConvGDN and ELIC transforms (with or without max_frames), transformer blocks, dequantizer and whole entropy model return exactly the function of their state dict that their papers and docstrings describe. "
        "Gradients with respect to inputs and every weight are those of that function, default constructors have the documented sizes, and the state dict holds no tensor without a documented role. "
        "Calls leave their inputs alone, repeat exactly, are unchanged by a checkpoint round trip and follow the model's dtype; unknown norm types, mismatched image shapes, wrong numbers of decoder sizes and a decoder block without encoder output raise ValueError."),
    over=["inputs", "configurations", "histories"],
    quant="all weights, options, input sizes, both modes where they are deterministic",
    why="tests check output shapes; a dropped norm, moved attention, wrong stride pattern or skipped residual keeps every shape and every test, and only published weights would show it",
    files=["neuralcompression/models/_hific_encoder_decoder.py", "neuralcompression/models/_hific_autoencoder.py",
           "neuralcompression/models/_vqvae_xcit_autoencoder.py", "neuralcompression/models/deep_video_compression.py",
           "projects/torch_vct/neural/transforms.py", "projects/torch_vct/neural/entropy_model_layers.py",
           "projects/torch_vct/neural/layers_utils.py", "projects/torch_vct/neural/entropy_model.py",
           "projects/torch_vct/model_pipeline.py"],
    mech=[("HiFiC blocks", "HiFiCGenerator.forward"), ("VQ-VAE levels", "_VqVaeXCiTConvEncoder.forward"),
          ("flow pyramid", "DVCPyramidFlowEstimator.calculate_flow_with_image_pairs"), ("motion U-Net", "_MotionCompensationLayer.forward"),
          ("ELIC", "ELICAnalysis"), ("transformer", "TransformerBlock.forward")],
    observe=["outputs", "gradients", "state dict names and shapes"],
    technique="runtime monitor: float64 networks rebuilt from the state dict as reference",
    note=NOTE + " The warp inside the flow estimator is taken as given here (C06 decides it); dropout is exercised where it is deterministic (p = 0 or 1, evaluation mode).",
)
prop(
    id="C39",
    title="Every shipped project configuration composes and builds what it names",
    statement=(
        "For every choice of options in the configuration groups of the ILLM, VCT, DVC and bits-back projects (and every submission mode), the files compose without unresolved or missing values other than the paths a user must fill in, each file is reachable, and every _target_, data-set split, hub entry and constructor argument they name exists. "
        "What is built carries the configured values: rate targets match their file's name, distortion is on the 0-255 scale, optimizers and learning-rate schedules have the configured rates (never above the configured maximum, never negative or non-finite, as numbers rather than strings), network sizes agree with each other (discriminator classes = codebook size + 1, context and latent channels, transform and bottleneck channels), and stage or override values take precedence over defaults. "
        "The launchers started with the shipped defaults reach the trainer with exactly those values, in the documented order of stages."),
    over=["configurations", "programs"],
    quant="all options of every configuration group and the cross products of the groups that must fit together",
    why="no test loads a configuration file; a renamed argument, class or default breaks only the launched run",
    files=["projects/illm/train.py", "projects/illm/conf/config.yaml", "projects/torch_vct/model_train.py", "projects/torch_vct/utils/schedulers.py", "projects/torch_vct/utils/hydra_tools.py", "projects/torch_vct/config/train_config.yaml", "projects/deep_video_compression/train.py", "projects/deep_video_compression/config/base.yaml", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/train.py", "hubconf.py"],
    mech=[("ILLM", "build_module, build_test_dataloaders, main"), ("VCT", "model_train.main, VCTModule.configure_optimizers"), ("DVC", "run_training_stage, merge_configs"), ("bits back", "script_util.setup")],
    observe=["built modules, optimizers, schedules, loaders", "trainer arguments", "files used by compositions"],
    technique="runtime monitor: every configuration composed by a small Hydra stand-in and built through the real launchers, values read back from what was built",
    note=NOTE + "hydra and lightning are not installed: lib/conf.py composes the files by Hydra's rules and stand-ins record the trainer; large networks are built on the meta device, hub downloads are recorded.",
)
prop(
    id="C40",
    title="Folder evaluation prints the averages over exactly the folder's images",
    statement=(
        "For every folder of PNG images (any sizes of at least 256 pixels, any color mode) and every codec, the ILLM folder evaluation compresses and decompresses each PNG of the folder itself exactly once as an RGB image in [0, 1], with the published MS-ILLM model in evaluation mode, its coder tables updated and its coding parts placed for compression beforehand, and without gradients. "
        "It prints the mean over images of the pickled bits per pixel and of the PSNR of 8-bit values, MS-SSIM of 8-bit values, LPIPS of the clamped [0, 1] images and FID over their 256-pixel patches (again shifted by half a patch where both sides allow it), and changes no file."),
    over=["inputs", "configurations"],
    quant="all folders, image sizes and color modes, codecs that overshoot [0, 1]",
    why="no test runs the script, and a rate per batch instead of per pixel, a metric on the wrong scale or with exchanged arguments, or a skipped image still prints plausible numbers",
    files=["projects/illm/eval_folder_example.py", "neuralcompression/metrics/_update_patch_fid.py"],
    mech=[("evaluation loop", "eval_folder_example.main"), ("rounding", "rescale_image"), ("patches", "update_patch_fid")],
    observe=["printed values", "calls and images the model receives", "files of the folder"],
    technique="runtime monitor: the script is run on generated folders with a recording codec; printed values compared with sums recomputed in float64",
    note=NOTE + "The GPU, the hub download and the learned metrics are stand-ins; the metric stand-ins are asymmetric so that exchanged arguments and scales show.",
)
prop(
    id="C41",
    title="CIFAR-10 preparation leaves every image whole, even after interruptions",
    statement=(
        "After the CIFAR-10 preparation of the bits-back project returns, each split's directory holds exactly one readable PNG per image with exactly its pixels, named by its class and index, and nothing else, whatever interruptions (between images or within one) came before. "
        "A complete split is left untouched without any download unless overwriting was requested, which rewrites every image; a split that is missing or incomplete is prepared without touching the other."),
    over=["histories", "crash_points"],
    quant="all histories of complete, interrupted and overwriting runs",
    why="no test runs the preparation; a partial split is only noticed, if ever, as a shorter data set",
    files=["projects/bits_back_diffusion/datasets/cifar10.py"],
    mech=[("preparation", "cifar10.main")],
    observe=["files of the output directory", "downloads requested"],
    technique="runtime monitor: runs with process death injected at every image, output tree compared with the source data set",
    note=NOTE + "torchvision's CIFAR10 is a stand-in with few images; the expected sizes are scaled accordingly.",
)
