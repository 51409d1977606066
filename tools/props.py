"""Single source for properties.jsonl and MANIFEST.json: python tools/props.py rewrites both."""
import json, os, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


TH = "torch_harmonics/"

prop("C01", "Latitude and longitude nodes and weights are exact quadrature rules",
     "For every number of points and every interval, the Gauss-Legendre, Gauss-Lobatto, Clenshaw-Curtis and trapezoidal rules return strictly ordered double-precision nodes inside the interval (end points included exactly where the rule includes them) and weights that are positive, symmetric, sum to the interval length, and integrate every polynomial up to the rule's degree of exactness (2N-1, 2N-3, N-1, 1; trigonometric polynomials below N for the periodic trapezoid) to rounding error. "
     "Latitude tables are these rules in the cosine of colatitude, listed from the north pole to the south pole with matching weights, and longitude tables are N equally spaced angles starting at 0 and excluding 2*pi.",
     ["inputs", "configurations"], "every N (2..~1000), every rule, every interval [a,b]",
     "Tests integrate a handful of functions at one or two N on [-1,1]; an error at particular N (parity, small N, large N), on other intervals or in node/weight pairing passes them.",
     [TH + "quadrature.py"], [("1-D rules", TH + "quadrature.py:trapezoidal_weights,legendre_gauss_weights,lobatto_weights,clenshaw_curtiss_weights"), ("grid tables", TH + "quadrature.py:precompute_latitudes,precompute_longitudes")],
     ["returned nodes and weights of the public quadrature functions"])

prop("C02", "Sphere integration is the quadrature-weighted sum, exact on its grid",
     "Integrating a field over the sphere returns, independently for every leading index, the sum of the field times colatitude weight times longitude spacing (divided by 4*pi when the mean is requested) on every supported grid and resolution. "
     "It is therefore linear, invariant under longitude rotation, exact for all harmonics resolved by the grid, and its gradient is the weight field itself.",
     ["inputs", "configurations"], "every grid type, resolution, leading shape, field and normalisation flag",
     "Tests integrate a few analytic fields at fixed sizes.",
     [TH + "quadrature.py"], [("QuadratureS2", TH + "quadrature.py:QuadratureS2")], ["module output and autograd gradient"])

prop("C03", "Inverse SHT evaluates the spherical-harmonic series pointwise",
     "For every grid, resolution, truncation, normalisation and phase convention, the inverse scalar transform of coefficients equals at every grid point the real series sum over degrees and orders of the coefficient times the (normalised, Condon-Shortley-phased as requested) associated Legendre function of the cosine of that point's colatitude times the complex exponential of order times longitude, with positive orders counted together with their complex conjugates. "
     "Coefficients with order above the degree and the imaginary part of order zero contribute nothing, and degrees and orders not present are treated as zero.",
     ["inputs", "configurations"], "every grid x (nlat,nlon) x (lmax,mmax) x norm x phase x coefficient tensor",
     "Tests compare transforms with each other (round trip), so a consistent error in both directions, in one norm/phase pair or at odd sizes is invisible; pointwise values are tested for one or two sizes.",
     [TH + "sht.py", TH + "legendre.py", TH + "fft.py"], [("InverseRealSHT", TH + "sht.py:InverseRealSHT"), ("Legendre tables", TH + "legendre.py:legpoly")], ["module output against a series evaluated by the harness in double precision"])

prop("C04", "Forward SHT recovers exactly the coefficients of every band-limited field",
     "For every grid, resolution, normalisation and phase convention, analysing the pointwise harmonic series of arbitrary coefficients within the default truncation returns those coefficients (scaled as the convention prescribes), so analysis followed by synthesis is the identity on band-limited fields and a projection on all fields, and orders above the degree come out zero. "
     "With the orthonormal convention the spectral energy equals the integral of the squared field (Parseval), and both directions propagate gradients that are their exact adjoints.",
     ["inputs", "configurations"], "every grid x (nlat,nlon) x (lmax,mmax) x norm x phase x field, over batched leading dims",
     "Round trips are tested on few sizes with loose tolerance, gradients on one size.",
     [TH + "sht.py", TH + "legendre.py", TH + "truncation.py", TH + "fft.py"], [("RealSHT", TH + "sht.py:RealSHT"), ("default truncation", TH + "truncation.py:truncate_sht")], ["module outputs and autograd gradients"])

prop("C05", "Vector SHT is exact for spheroidal and toroidal fields",
     "For every grid, resolution, normalisation and phase convention, the inverse vector transform of spheroidal/toroidal coefficients equals at every point the colatitude and longitude components of the surface gradient of the spheroidal series plus the rotated gradient (d/dlambda over sine, minus d/dtheta) of the toroidal series. "
     "The forward vector transform recovers the coefficients of every such band-limited field (degree zero being zero), so the pair is a round trip, a pure gradient has no toroidal part and a pure curl has no spheroidal part, and gradients are the exact adjoints.",
     ["inputs", "configurations"], "every grid x size x truncation x norm x phase x coefficient pair",
     "Tests check round trips and one analytic case; sign/normalisation errors that cancel between directions or show only near poles or at high order pass.",
     [TH + "sht.py", TH + "legendre.py"], [("RealVectorSHT/InverseRealVectorSHT", TH + "sht.py"), ("derivative tables", TH + "legendre.py:_precompute_dlegpoly")], ["module outputs against gradients of a series evaluated by the harness"])

prop("C06", "Truncation bounds and Fourier helpers keep exactly the requested modes",
     "For every grid and size the default truncation is the documented one (N, N-1 or floor((N+1)/2) degrees, at most nlon/2+1 orders, triangular), explicit limits are honoured, and every transform's spectral shape is the truncated one. "
     "The real Fourier helpers compute the DFT along the requested dimension, keep or zero-pad to exactly the requested number of modes, and invert it to exactly the requested number of samples while ignoring only the imaginary parts of the zero and Nyquist modes, for every length, parity, mode count, dimension and normalisation.",
     ["inputs", "configurations"], "every length/parity/mode count/dimension/normalisation and every grid x size x limit",
     "Tests sample a few lengths; off-by-one at parities or for mode counts above/below the Nyquist limit are not covered.",
     [TH + "truncation.py", TH + "fft.py"], [("truncate_sht", TH + "truncation.py"), ("rfft/irfft", TH + "fft.py")], ["returned limits, tensor shapes and values vs an explicit DFT"])

prop("C07", "Spherical resampling interpolates exactly and wraps the sphere correctly",
     "Resampling between any two grids evaluates the bilinear (or bilinear-spherical) interpolant of the input at every output point: exact at coinciding nodes, periodic across the 0/2*pi meridian, extended to the poles by the zonal mean of the nearest ring when the input grid has no pole points, and constant fields stay constant. "
     "In bilinear mode it is linear with weights that are non-negative and sum to one, and its gradient is the transposed interpolation.",
     ["inputs", "configurations"], "every pair of grids and sizes (up, down, same), both modes, every field",
     "Tests use a few size pairs with smooth fields and loose tolerances; seam, pole and index-boundary handling are barely reached.",
     [TH + "resample.py"], [("ResampleS2", TH + "resample.py:ResampleS2")], ["module output against a point-by-point interpolant computed by the harness"])

prop("C08", "Spectral convolution applies one learned factor per degree and order",
     "For every input and output grid, channel and group count, operator type and bias setting, the spectral convolution equals: analyse the input, multiply the coefficients of each channel group by that degree's (or degree and order's, as documented) learned matrix, add the spectral bias, and synthesise on the output grid. "
     "Groups never mix, filters that depend on degree only commute with longitude rotations, and gradients with respect to input, weight and bias are exact.",
     ["inputs", "configurations"], "every configuration and every input/weight/bias value",
     "Tests cover shapes and one comparison; group mixing, band limits between different grids and bias are not compared with an independent evaluation.",
     [TH + "spectral_convolution.py"], [("SpectralConvS2", TH + "spectral_convolution.py:SpectralConvS2")], ["module output and gradients vs harness composition"])

prop("C09", "Gaussian random fields have the prescribed spectrum and reproducibility",
     "A sampled field is the (unnormalised-convention) harmonic series of independent standard normal real and imaginary noise scaled for every order by the square root of sigma^2 (l(l+1)/R^2 + tau^2)^(-alpha), restricted to orders not above the degree, with degree zero set to zero. "
     "Sampling with the same noise gives the same field, sampling from the latent noise is linear in it, and different samples and batch members use independent noise.",
     ["inputs", "configurations"], "every (nlat, alpha, tau, sigma, radius, grid), every noise realisation",
     "Tests check shapes, dtype and a rough variance; per-degree spectrum is a statement about all modes.",
     [TH + "random_fields.py"], [("GaussianRandomFieldS2", TH + "random_fields.py")], ["sampled fields and their transforms"])

prop("C10", "Filter bases: documented support, count and values",
     "For every basis family and shape parameters, the number of basis functions is the documented one and the sparse evaluation on any set of (r, phi) points lists every (function, point) pair at most once, only inside the cutoff radius, with the value of the analytic basis function at that point; omitted pairs are outside the function's support. "
     "Piecewise-linear families form a partition of unity up to the outermost collocation ring (even-sized isotropic ones from the innermost ring on), the other families but the windowed Morlet one have unit L2 norm on the disk, and values depend only on r and the angle modulo 2*pi.",
     ["inputs", "configurations"], "every family, kernel shape, cutoff and point set including ring boundaries, centre and the 0/2*pi seam",
     "Tests check a few shapes at a few points.",
     [TH + "filter_basis.py"], [("compute_support_vals", TH + "filter_basis.py")], ["sparse evaluation results"])

prop("C11", "DISCO convolution equals its defining quadrature sum",
     "For every pair of grids, kernel shape, basis family, normalisation mode, cutoff, channel and group count, the discrete-continuous convolution at every output point equals the quadrature-weighted sum over all input points of the input times the learned combination of filter functions, each filter rotated to the output point and normalised as the mode prescribes, plus the bias. "
     "It is linear in input and in weight, groups never mix, input points beyond the cutoff have no influence, and every output resolution that divides the input's longitudes is supported.",
     ["inputs", "configurations"], "every configuration, every input, weight and bias",
     "Tests compare the optimized path with a torch path sharing the same filter tensor and a dense reference for few sizes; errors in the shared precompute, in normalisation or at particular size ratios escape.",
     [TH + "disco/convolution.py", TH + "disco/_disco_utils.py", TH + "disco/optimized/disco_optimized.py", TH + "disco/kernels_torch/disco_torch.py", TH + "disco/optimized/disco_helpers.cpp", TH + "disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", TH + "filter_basis.py"],
     [("filter tensor", TH + "disco/convolution.py:_precompute_convolution_tensor_s2,_normalize_convolution_tensor_s2"), ("contraction kernels", TH + "disco/optimized/kernels_cpu")], ["module output vs dense evaluation by the harness"])

prop("C12", "Transposed DISCO convolution is the exact transpose of the convolution stencil",
     "For every pair of grids, kernel shape, basis, normalisation mode and group count, the transposed convolution distributes each input point through the same rotated, normalised and quadrature-weighted filters onto the (finer or equal) output grid, so it equals its defining sum at every output point. "
     "It is linear, groups never mix, and every input resolution whose longitudes divide the output's is supported.",
     ["inputs", "configurations"], "every configuration, every input, weight and bias",
     "As for the forward convolution; the transposed direction is sampled even more sparsely.",
     [TH + "disco/convolution.py", TH + "disco/optimized/disco_optimized.py", TH + "disco/optimized/kernels_cpu/disco_cpu_bwd.cpp"],
     [("DiscreteContinuousConvTransposeS2", TH + "disco/convolution.py")], ["module output vs dense evaluation by the harness"])

prop("C13", "DISCO gradients are exact and all implementations agree",
     "For every configuration, gradients of the forward and transposed convolutions with respect to input, weight and bias are the exact derivatives of the output for every upstream gradient, including non-contiguous, expanded and mixed-precision tensors. "
     "The optimized and the reference implementation, fused and unfused contraction, and every floating-point type give the same output and gradients up to the rounding of that type.",
     ["inputs", "configurations", "programs"], "every configuration x implementation x dtype x gradient request pattern x memory layout",
     "Tests compare a few configurations at contiguous layout with all gradients requested.",
     [TH + "disco/optimized/disco_optimized.py", TH + "disco/optimized/disco_interface.cpp", TH + "disco/optimized/kernels_cpu/", TH + "disco/kernels_torch/disco_torch.py", TH + "disco/convolution.py"],
     [("registered autograd", TH + "disco/optimized/disco_optimized.py"), ("CPU kernels", TH + "disco/optimized/kernels_cpu")], ["outputs and gradients"])

prop("C14", "Neighborhood attention is the softmax over the true geodesic neighbourhood",
     "For every pair of grids (down-, same- and up-sampling), cutoff radius, head count, channel split, scale and normalisation option, each output point of the neighborhood attention equals the quadrature-weighted softmax average of values over exactly the input points within the cutoff geodesic distance of that output point (each counted once, wrapping across the meridian and the poles), followed by the linear projections. "
     "Weights are non-negative and sum to one per output point and head, heads do not mix, results are invariant to adding a constant to all logits and finite for arbitrarily large finite logits.",
     ["inputs", "configurations"], "every configuration and input, including logits of large magnitude",
     "Tests compare kernels with a torch reference that shares the neighbourhood table, at moderate logits and a few sizes.",
     [TH + "attention/attention.py", TH + "attention/_attention_utils.py", TH + "attention/optimized/kernels_cpu/", TH + "attention/kernels_torch/attention_torch.py"],
     [("neighbourhood table", TH + "attention/attention.py:NeighborhoodAttentionS2.__init__"), ("online-softmax kernels", TH + "attention/optimized/kernels_cpu")], ["module output vs brute-force attention with harness geometry"])

prop("C15", "Neighborhood attention gradients are exact in every implementation",
     "For every configuration the gradients of neighborhood attention with respect to query, key, value inputs and all projection parameters are the exact derivatives of its output, for every upstream gradient, layout and gradient-request pattern, including large logits. "
     "The optimized and reference implementations and every supported floating-point type agree in output and gradients up to that type's rounding.",
     ["inputs", "configurations", "programs"], "every configuration x implementation x dtype x request pattern x layout",
     "Tests compare both implementations on few shapes with all gradients requested.",
     [TH + "attention/optimized/attention_optimized.py", TH + "attention/optimized/kernels_cpu/", TH + "attention/kernels_torch/attention_torch.py"],
     [("backward kernels", TH + "attention/optimized/kernels_cpu/attention_cpu_bwd.cpp,attention_cpu_bwd_upsample.cpp")], ["gradients vs autograd through the harness's brute-force attention"])

prop("C16", "Global spherical attention is quadrature-weighted softmax attention",
     "For every input and output grid, head count, channel split, scale, and normalisation option, global spherical attention equals softmax over all input points of scaled query-key products plus the logarithm of the quadrature weight, averaged over values, followed by the output projection. "
     "Weights sum to one per output point, heads and batch members do not mix, a constant value field is reproduced, and gradients are the exact derivatives.",
     ["inputs", "configurations"], "every configuration and input, including large logits",
     "Tests compare against one reference at a few shapes.",
     [TH + "attention/attention.py"], [("AttentionS2", TH + "attention/attention.py:AttentionS2")], ["module output and gradients vs brute force"])

prop("C17", "Rotating the input in longitude rotates the output of every spatial operator",
     "Shifting the input of any grid-to-grid operator (quadrature, convolution, transposed convolution, attention, resampling) by whole longitude steps that map both grids to themselves shifts its output by the same angle, and for the scalar and vector transforms multiplies order m by the corresponding phase, for every shift including wrap-around. "
     "Mirroring the field north-south mirrors the output of operators whose filters are mirror symmetric.",
     ["inputs", "configurations"], "every operator, configuration, shift and input",
     "No test checks equivariance; meridian wrap-around and pole handling are only reached incidentally.",
     [TH + "disco/", TH + "attention/", TH + "resample.py", TH + "sht.py"], [("longitude shift of the stencil", TH + "disco/optimized/kernels_cpu, " + TH + "attention/optimized/kernels_cpu")], ["operator outputs on shifted inputs"])

prop("C18", "Native kernels never touch memory out of bounds or invoke undefined behaviour",
     "For every valid configuration, input, memory layout and floating-point type, the native helpers and kernels (filter preprocessing, convolution, attention, layout permutation; forward and backward) read and write only memory inside the tensors they were given, read no uninitialised memory into results, and perform no undefined integer, pointer or alignment operation.",
     ["inputs", "configurations"], "every kernel x configuration x layout x dtype",
     "Out-of-bounds reads and writes usually produce no wrong output in a normal build; tests run without sanitizers.",
     [TH + "disco/optimized/disco_helpers.cpp", TH + "disco/optimized/kernels_cpu/", TH + "attention/optimized/attention_helpers.cpp", TH + "attention/optimized/kernels_cpu/"],
     [("bounds of loops and offsets", TH + "*/optimized/kernels_cpu")], ["AddressSanitizer/UBSan reports, guarded buffers"])

prop("C19", "Native kernels are free of data races and independent of the thread count",
     "With multithreading enabled, any number of threads and any schedule, no two threads of a native kernel access the same memory without ordering where one writes, and outputs and gradients equal the single-threaded ones up to rounding. "
     "Calling the operators concurrently from several application threads gives each caller the result it would get alone.",
     ["schedules", "inputs", "configurations"], "every kernel x thread count x schedule x configuration",
     "The tested build has threading off and one thread; races are schedule dependent.",
     [TH + "disco/optimized/kernels_cpu/", TH + "attention/optimized/kernels_cpu/", TH + "disco/optimized/disco_helpers.cpp"],
     [("parallel loops over independent output rows", TH + "*/optimized/kernels_cpu")], ["ThreadSanitizer reports on a threaded build; outputs across thread counts"])

prop("C20", "Shared cached tables can never be corrupted by any use of the objects",
     "Whatever sequence of constructions, in-place modifications of returned tables or module buffers, dtype conversions, deletions and rebuilds the program performs, in one or several threads, a newly constructed object or newly requested table with given arguments is bitwise the one a fresh process would produce. "
     "Objects built from the same arguments never share mutable storage, and objects built with arguments that differ in any respect never receive each other's tables.",
     ["histories", "schedules", "configurations"], "every history of constructions and mutations, every interleaving of threads",
     "Tests check copy semantics of one cached function once.",
     [TH + "cache.py", TH + "quadrature.py", TH + "legendre.py", TH + "disco/convolution.py"], [("copying cache", TH + "cache.py:lru_cache")], ["tables and buffers compared with a fresh process"],
     [("memo tables", "argument tuple to table, process-wide", TH + "cache.py")])

prop("C21", "Operators are pure: inputs untouched, batch entries independent, layout irrelevant",
     "Calling any operator, forward or backward, never modifies its inputs, its parameters or previously returned results, and repeating the call in any history gives bitwise the same result. "
     "The result for one batch entry does not depend on the other entries (even if they hold NaN or infinity), on the leading shape, or on the memory layout of the input, and an entry that holds only NaN is not turned into finite values.",
     ["inputs", "histories", "configurations"], "every operator x input x layout x leading shape x call history",
     "Tests use contiguous inputs of one batch size and never inspect inputs afterwards.",
     [TH + "sht.py", TH + "resample.py", TH + "disco/", TH + "attention/", TH + "spectral_convolution.py", TH + "quadrature.py"], [("contiguity and copies", TH + "utils.py, " + TH + "attention/_layout.py")], ["inputs, parameters and outputs before/after"])

prop("C22", "Precision and persistence: dtype conversion, copy and state round trips",
     "Operators whose arithmetic follows the input type (transforms, convolutions) are accurate to double-precision rounding in double precision; for every operator single and double precision runs agree to single-precision rounding and the output has the type the input implies. (Attention kernels, the spectral layer and quadrature/resampling weights are single precision by design.) "
     "Under automatic mixed precision (transforms excepted, which document that they must be called outside of it) outputs and gradients stay finite and close. "
     "Deep-copying, pickling, loading the saved state into a freshly built object with the same arguments, and converting precision back and forth never changes results beyond that rounding; copies are independent of the original.",
     ["inputs", "configurations", "histories"], "every operator x dtype x persistence path",
     "Tests fix float32 and never save or copy modules.",
     [TH + "sht.py", TH + "disco/convolution.py", TH + "attention/attention.py", TH + "resample.py", TH + "spectral_convolution.py"], [("buffers", "register_buffer calls in every module")], ["outputs in both precisions, state dictionaries"])

prop("C23", "Distributed transforms equal the serial transforms",
     "For every polar x azimuthal process grid, resolution (divisible or not), truncation, grid type and leading shape, concatenating the ranks' outputs of the distributed scalar and vector transforms, forward and inverse, gives the serial transform of the concatenated inputs, and likewise for input gradients. "
     "Every rank's shard has the documented split size.",
     ["configurations", "inputs", "schedules"], "every process grid x size x truncation x leading shape x delivery order",
     "Distributed tests are not run in the pipeline and sample few sizes and one world size.",
     [TH + "distributed/distributed_sht.py", TH + "distributed/primitives.py"], [("distributed transposes", TH + "distributed/primitives.py")], ["per-rank outputs and gradients vs serial module"])

prop("C24", "Distributed DISCO convolutions equal the serial ones",
     "For every process grid, resolution, kernel, basis, normalisation mode and group count, the concatenation of the ranks' outputs of the distributed convolution and transposed convolution equals the serial result with the same parameters, and input gradients concatenate to, and parameter gradients sum over ranks to, the serial gradients.",
     ["configurations", "inputs", "schedules"], "every process grid x configuration x delivery order",
     "Distributed tests are not run in the pipeline and sample few sizes.",
     [TH + "distributed/distributed_convolution.py", TH + "distributed/kernels/distributed_convolution_kernels.py", TH + "distributed/primitives.py"], [("filter split by latitude", TH + "distributed/distributed_convolution.py:_split_distributed_convolution_tensor_s2")], ["per-rank outputs and gradients vs serial module"])

prop("C25", "Distributed neighborhood attention equals the serial attention",
     "For every process grid whose latitude shards cover the halo, and every down-, same- or up-sampling configuration, the concatenation of the ranks' outputs of distributed neighborhood attention equals the serial result with the same parameters, and input gradients concatenate to, and parameter gradients combine to, the serial gradients. "
     "Every input chunk is seen exactly once by every rank of the ring.",
     ["configurations", "inputs", "schedules"], "every process grid x configuration x delivery order",
     "Distributed attention tests need GPUs and are never run here.",
     [TH + "distributed/distributed_attention.py", TH + "distributed/primitives.py"], [("ring exchange", TH + "distributed/distributed_attention.py"), ("halo exchange", TH + "distributed/primitives.py:polar_halo_exchange")], ["per-rank outputs and gradients vs serial module"])

prop("C26", "Distributed resampling, integration and spectral convolution equal serial ones",
     "For every process grid, pair of grids, mode and channel count the distributed modules support, concatenating the ranks' outputs gives the serial module's output for the concatenated input, and gradients concatenate (or, for shared parameters, combine as documented) to the serial gradients.",
     ["configurations", "inputs", "schedules"], "every process grid x configuration x delivery order",
     "Distributed tests are not run in the pipeline and sample few sizes.",
     [TH + "distributed/distributed_resample.py", TH + "distributed/distributed_quadrature.py", TH + "distributed/distributed_spectral_convolution.py"], [("distributed modules", TH + "distributed/")], ["per-rank outputs and gradients vs serial module"])

prop("C27", "Distributed primitives conserve data and are adjoint pairs",
     "Splitting a length over ranks gives sizes that sum to it and differ by at most one as documented; scatter, gather, transposes, reduce-scatter and halo exchange move every element to exactly the rank and position its global index dictates, losing and duplicating nothing, for every process grid, dimension and uneven size. "
     "Each primitive's backward pass is the documented adjoint (or documented identity) of its forward pass, and reduction results are identical on all ranks and keep the input's precision and type.",
     ["configurations", "inputs", "schedules"], "every primitive x process grid x dimension x shape x dtype",
     "Distributed tests are not run in the pipeline and use even splits mostly.",
     [TH + "distributed/primitives.py", TH + "distributed/utils.py", TH + "distributed/_amp_utils.py"], [("autograd functions", TH + "distributed/primitives.py")], ["per-rank tensors tagged with global indices"])

prop("C28", "Communication is matched, deadlock-free and insensitive to timing",
     "In every distributed operation, forward and backward, all ranks of a group issue the same sequence of collectives with mutually consistent shapes, types and peers, and every point-to-point send meets exactly one receive, so the operation terminates for every delivery order and delay. "
     "No buffer is read before its receive completes or modified before its send completes, and results are identical for all timings. Registering and tearing down the process groups keeps the reported state, sizes and ranks true, and tearing down releases each registered group exactly once.",
     ["schedules", "configurations", "histories"], "every distributed operation x process grid x message timing",
     "Real backends usually complete eagerly on one host; mismatches and early reads show only under particular timings.",
     [TH + "distributed/primitives.py", TH + "distributed/distributed_attention.py", TH + "distributed/kernels/distributed_convolution_kernels.py"], [("async exchange and waits", TH + "distributed/primitives.py, " + TH + "distributed/distributed_attention.py")], ["trace of communication calls seen by an emulated transport"])

prop("C29", "Unsupported configurations and wrong shapes are rejected, never computed silently",
     "Unknown grid, basis, normalisation or mode names, non-divisible channel or longitude counts, wrong spatial or channel sizes of inputs, and other documented invalid arguments raise a ValueError (or comparable error) at construction or call, for every operator, serial or distributed. "
     "Names of normalisations of the transforms are not covered. Rejected calls never return a silently wrong, reshaped or partially computed result, and a rejected call leaves the operator usable.",
     ["inputs", "configurations"], "every operator x every invalid argument class",
     "Tests check a handful of rejections.",
     [TH + "sht.py", TH + "disco/convolution.py", TH + "attention/attention.py", TH + "resample.py", TH + "quadrature.py", TH + "filter_basis.py", TH + "truncation.py"], [("argument validation", "constructors and forward methods")], ["exceptions"])

prop("C30", "Shape inference and compiled execution agree with eager execution",
     "For every registered native operation and configuration, the declared output shapes, types and strides used for tracing equal those of the real call, the operation honours its declared non-mutation and returns fresh memory, and running a module through the graph compiler, on fake tensors, with externally supplied state (functional call) or with recomputation (checkpointing) gives the eager result, values and gradients.",
     ["inputs", "configurations", "programs"], "every native op x configuration x layout x request pattern",
     "Tests run op checks on a few shapes.",
     [TH + "disco/optimized/disco_optimized.py", TH + "attention/optimized/attention_optimized.py"], [("fake implementations and autograd registration", TH + "*/optimized/*_optimized.py")], ["fake vs real outputs, compiled vs eager outputs"])

prop("C31", "The cached topography is complete or absent, whatever happens to its download",
     "Loading the Mars topography returns the served image as gray values in [0, 1], interpolated bilinearly when both target sizes are given, and otherwise raises; once a call has succeeded with a directory, later calls with it need no network. No failure, interruption or death of a call at any point of the transfer or of the write, and no concurrent calls, make a call return anything else or leave behind a file that keeps later calls from succeeding.",
     ["histories", "crash points", "schedules"], "every failure point of every call in a history of calls, and concurrent calls",
     "There is no test of it; crash points cannot be sampled by calling it.",
     [TH + "utils.py"], [("download to the cache file", TH + "utils.py load_mola_elevation")], ["returned image", "cache directory"])

prop("C32", "Fresh layers start from the documented, reproducible parameters",
     "A newly built learnable layer holds trainable, finite parameters that share no memory with each other or with any other layer: zero biases and zero query/key norm weights, and independent zero-mean weights of the documented scale: convolution weights normal with variance 1/(input channels per group x kernel size), spectral weights complex normal with variance 1/(input channels per group), doubled at degree 0 only, attention projections uniform within the Xavier bound sqrt(6/(fan in + fan out)). "
     "The same seed gives the same parameters whatever was built before, successive layers differ, and distributed layers built from one seed hold the same replicated parameters on all ranks and the same distribution per degree as the serial layer. Optional arguments left out of any operator's constructor mean exactly their documented defaults, whether the others are given by name or in the documented order.",
     ["configurations", "histories"], "every learnable layer x configuration x history of constructions x process grid",
     "Tests overwrite the parameters or compare two layers; scale and independence are properties of a distribution.",
     [TH + "disco/convolution.py", TH + "attention/attention.py", TH + "spectral_convolution.py", TH + "distributed/distributed_spectral_convolution.py", TH + "filter_basis.py"], [("parameter creation", "constructors of the learnable layers")], ["parameters of constructed layers"])

prop("C33", "Spherical losses and metrics are area-weighted and ignore what they are told to ignore",
     "The losses and segmentation metrics of the example package equal their definitions with quadrature area weights on every grid: for each class the areas of true and false positives and negatives partition exactly the judged area, class weights, smoothing and micro/macro averaging act as documented, and a constant field integrates to the area. "
     "Predictions at ignored or masked points never change a value or receive a gradient.",
     ["inputs", "configurations"], "every loss and metric x grid x option x label pattern",
     "There is no test of them.",
     [TH + "examples/losses.py", TH + "examples/metrics.py"], [("losses", TH + "examples/losses.py"), ("metrics", TH + "examples/metrics.py")], ["values", "gradients"])

prop("C34", "The spectral solvers integrate the equations they state",
     "For every grid, truncation, radius and rotation rate and every state the grid resolves, the shallow water solver's velocities, vorticity, divergence and tendencies are those of the rotating shallow water equations: the global means of all prognostic fields are conserved along trajectories, balanced solid rotation stays steady, one step is forward Euler with the stated damping, and neither evaluations nor steps modify the caller's state. "
     "The scalar solver's tendencies are those of the Allen-Cahn and Ginzburg-Landau equations, integrals are area-weighted, and the data set's targets are the solver's states after the requested time, finite also when normalised.",
     ["inputs", "configurations", "histories"], "every solver x grid x truncation x state x number of steps",
     "There is no test of them.",
     [TH + "examples/shallow_water_equations.py", TH + "examples/pde_sphere.py", TH + "examples/pde_dataset.py"], [("solvers", TH + "examples/")], ["tendencies", "trajectories", "samples"])

prop("C35", "The example networks act per sample and respect the sphere's symmetry in longitude",
     "Every example network (spherical Fourier neural operator, local neural operator, transformer, U-Net, Segformer), for every supported configuration, returns a finite output of the requested channel count on the input grid; in evaluation mode the output for a sample is reproducible, does not depend on the other samples of the batch in value or gradient, shifts in longitude with the input where no position embedding forbids it, and is the same after reloading the state dict into a differently initialised network. "
     "Its building blocks equal their definitions: spectral convolution with its residual, per-sample stochastic depth rescaled to preserve the mean, position embeddings.",
     ["inputs", "configurations"], "every network x configuration x batch x shift",
     "There is no test of them.",
     [TH + "examples/models/"], [("networks", TH + "examples/models/")], ["outputs", "gradients"])

prop("C36", "The indoor data set is installed verified, contained and complete, and converted faithfully",
     "Whatever the server or the network does (refused, cut, silently truncated, resumed, tampered or stale transfers, process death), the Stanford 2D-3D-S downloader extracts only archives with the known digest, never creates or changes a file outside its directory even for archives with escaping names or links, and a call that returns has the archive's files, all of them unaltered. "
     "The converted file holds every image (over white, scaled to 0..1), the class of every label colour, the depth, and area-weighted statistics of what it holds; a failed conversion is not mistaken for a converted data set, and the readers return exactly the stored samples with invalid and excluded polar points masked, without changing the file.",
     ["inputs", "histories", "crash_points", "fault_sequences"], "every history of transfer faults and crashes x archive x image set x option",
     "There is no test of them.",
     [TH + "examples/stanford_2d3ds_dataset.py"], [("data set", TH + "examples/stanford_2d3ds_dataset.py")], ["files inside and outside the directory", "stored arrays", "samples"])

LEVELS = {}
SETUP = "bin/setup"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    checks, na = [], []
    hooks = {"guard": "none", "enable": "none", "source_commits": []}
    for p in P:
        f = glob.glob(os.path.join(HERE, "checks", p["id"] + "_*.py"))
        if f:
            src = open(f[0]).read()
            ns = {}
            # TECHNIQUE and NOTE are plain string constants of the check module
            import ast
            for node in ast.parse(src).body:
                if isinstance(node, ast.Assign) and node.targets[0].id in ("TECHNIQUE", "NOTE", "LEVEL"):
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
            checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": ns["TECHNIQUE"], "level": ns.get("LEVEL", "exploration"), "level_note": ns["NOTE"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": SETUP, "hooks": hooks, "checks": checks, "not_applicable": na}, fh, indent=1)
        fh.write("\n")


NA = {}
if __name__ == "__main__":
    main()
