#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ptwt/"
CONV = [S + "conv_transform.py", S + "conv_transform_2.py", S + "conv_transform_3.py", S + "_util.py"]
MAT = [S + "matmul_transform.py", S + "matmul_transform_2.py", S + "matmul_transform_3.py", S + "sparse_math.py"]

INPUTS, CONF, HIST = "inputs", "configurations", "histories"


def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "hook_needed": None,
        },
        _technique=technique, _note=note,
    )


PBT = "property-based testing (Hypothesis generators, shrinking to a replay file); "
NOTE = (
    "Random exploration of the stated domain on the real code (CPU); no claim beyond the cases "
    "generated. Trusts "
)
EXACT = "every wavelet, boundary mode, signal length, level, batch shape, axis choice, dtype and memory layout"
SAMPLES = "The tests sample a handful of wavelets, sizes and modes; "

PROPS = [
    P("C01", "1-D padded analysis equals PyWavelets",
      "For every discrete wavelet, boundary mode, signal length, number of levels (given, zero or default), batch shape and axis, wavedec returns the list [approximation, coarsest detail, ..., finest detail] whose lengths, number of levels and values equal those of pywt.wavedec up to rounding. The result has the dtype of the input and does not depend on its memory layout.",
      [INPUTS, CONF], EXACT + " inside the padding limits of torch",
      SAMPLES + "odd lengths below the filter length, long filters, negative or permuted axes and the default level are combined nowhere.",
      CONV, [("padding and strided convolution", S + "conv_transform.py"), ("padding rule", S + "_util.py")],
      PBT + "differential against pywt.wavedec", NOTE + "PyWavelets as the reference."),
    P("C02", "1-D padded synthesis inverts and equals PyWavelets",
      "waverec(wavedec(x)) returns x for every wavelet, mode, length, level, batch shape and axis; an odd length comes back with one extra trailing sample. For arbitrary coefficient sequences of the shapes a decomposition has, waverec equals pywt.waverec up to rounding.",
      [INPUTS, CONF], EXACT + "; coefficients from a decomposition or arbitrary",
      SAMPLES + "arbitrary coefficients, odd sizes at inner levels and unusual axes are not combined.",
      CONV, [("transposed convolution and trimming", S + "conv_transform.py")],
      PBT + "round trip and differential against pywt.waverec", NOTE + "PyWavelets as the reference."),
    P("C03", "2-D padded analysis equals PyWavelets",
      "For every discrete wavelet, boundary mode, pair of sizes, number of levels, batch shape and pair of axes (any order), wavedec2 returns (approximation, (horizontal, vertical, diagonal) per level, coarsest first) equal to pywt.wavedec2 in shapes, level count and values up to rounding.",
      [INPUTS, CONF], EXACT,
      "The 2-D value tests that use the face image cannot run offline and the axes test has a vacuous assert; non-square, odd and permuted-axes inputs are not compared.",
      CONV, [("2-D filters from outer products, symmetric/other padding per axis", S + "conv_transform_2.py")],
      PBT + "differential against pywt.wavedec2", NOTE + "PyWavelets as the reference."),
    P("C04", "2-D padded synthesis inverts and equals PyWavelets",
      "waverec2(wavedec2(x)) returns x for every wavelet, mode, sizes, level, batch shape and axes; each odd axis comes back with one extra trailing sample. For arbitrary coefficients of decomposition shape waverec2 equals pywt.waverec2 up to rounding.",
      [INPUTS, CONF], EXACT + "; coefficients from a decomposition or arbitrary",
      SAMPLES + "mixed parities per axis and level are not covered.",
      CONV, [("transposed convolution and per-axis trimming", S + "conv_transform_2.py")],
      PBT + "round trip and differential against pywt.waverec2", NOTE + "PyWavelets as the reference."),
    P("C05", "3-D padded analysis equals PyWavelets",
      "For every discrete wavelet, boundary mode, triple of sizes, number of levels, batch shape and triple of axes, wavedec3 returns the approximation followed by one dict per level (coarsest first) with the keys aad, ada, add, daa, dad, dda, ddd, equal to pywt.wavedecn in shapes, level count and values up to rounding.",
      [INPUTS, CONF], EXACT,
      "The tests use a few cubes; non-cubic shapes, odd sizes, permuted axes and several modes are not combined.",
      CONV, [("3-D filter order and key names", S + "conv_transform_3.py")],
      PBT + "differential against pywt.wavedecn", NOTE + "PyWavelets as the reference."),
    P("C06", "3-D padded synthesis inverts and equals PyWavelets",
      "waverec3(wavedec3(x)) returns x for every wavelet, mode, sizes, level, batch shape and axes; each odd axis comes back with one extra trailing sample. For arbitrary coefficients of decomposition shape waverec3 equals pywt.waverecn up to rounding.",
      [INPUTS, CONF], EXACT + "; coefficients from a decomposition or arbitrary",
      SAMPLES + "mixed parities per axis and level are not covered.",
      CONV, [("transposed convolution and per-axis trimming", S + "conv_transform_3.py")],
      PBT + "round trip and differential against pywt.waverecn", NOTE + "PyWavelets as the reference."),
    P("C07", "Fully separable transforms equal the per-axis transform",
      "For every wavelet, mode, sizes, level, batch shape and axes, fswavedec2 and fswavedec3 return per level the same subbands as applying pywt's one-level transform along each axis, keyed by one letter per axis in axis order. fswaverec2 and fswaverec3 invert them and equal pywt's inverse on arbitrary coefficients.",
      [INPUTS, CONF], EXACT,
      SAMPLES + "key order under permuted axes and non-square odd shapes is not compared with a reference.",
      [S + "separable_conv_transform.py"], [("recursion over axes", S + "separable_conv_transform.py")],
      PBT + "differential against pywt.dwtn / idwtn and round trip", NOTE + "PyWavelets as the reference."),
    P("C08", "1-D boundary-wavelet transform is orthogonal and invertible",
      "For every orthogonal wavelet, length, level, axis, batch shape and orthogonalisation method, MatrixWavedec applies per level an orthonormal map whose rows away from the boundary are the wavelet's filters, padding odd lengths by one sample in the chosen mode; levels stop where the signal becomes shorter than the filter. Energy is preserved when nothing is padded, and MatrixWaverec restores the (even-padded) input.",
      [INPUTS, CONF], "every orthogonal wavelet with well-conditioned boundary filters, length, level, odd-padding mode, orthogonalisation, axis, batch shape, dtype",
      SAMPLES + "odd lengths at inner levels, padding modes, gram-schmidt and unusual axes are sampled once or not at all.",
      MAT[:1] + MAT[3:], [("boundary matrices and level recursion", S + "matmul_transform.py")],
      PBT + "model of the documented level plan, orthonormality, filter rows, energy, round trip, Haar differential", NOTE + "numpy and PyWavelets (Haar) as references."),
    P("C09", "2-D boundary-wavelet transform is orthogonal and invertible",
      "For every orthogonal wavelet, pair of sizes, level, axes, batch shape, orthogonalisation method and both the separable and non-separable construction, MatrixWavedec2 applies per level an orthonormal map whose rows away from the boundary are the 2-D wavelet filters, with detail names following pywt's horizontal/vertical/diagonal convention. MatrixWaverec2 restores the (even-padded) input.",
      [INPUTS, CONF], "as C08, in two dimensions, separable and not",
      "Nearly all 2-D matrix tests need a downloaded image and give no signal offline.",
      MAT[1:2] + MAT[3:], [("2-D boundary matrices", S + "matmul_transform_2.py")],
      PBT + "model of the documented level plan, orthonormality, filter rows, energy, round trip, Haar differential", NOTE + "numpy and PyWavelets (Haar) as references."),
    P("C10", "3-D boundary-wavelet transform is orthogonal and invertible",
      "For every orthogonal wavelet, triple of sizes, level, axes, batch shape and orthogonalisation method, MatrixWavedec3 applies per level and axis an orthonormal map whose rows away from the boundary are the wavelet's filters and names the subbands aad..ddd in axis order. MatrixWaverec3 restores the (even-padded) input.",
      [INPUTS, CONF], "as C08, in three dimensions",
      "The tests use a few small cubes with one axis choice.",
      MAT[2:], [("axis-wise application of boundary matrices", S + "matmul_transform_3.py")],
      PBT + "model of the documented level plan, orthonormality, filter rows, energy, round trip, Haar differential", NOTE + "numpy and PyWavelets (Haar) as references."),
    P("C11", "Sparse operators describe the transform that was computed",
      "After a call, the sparse operator of a 1-D or non-separable 2-D boundary transform is orthonormal, maps an input to the stacked coefficients of all levels that the call returned, and the inverse operator undoes it. Before a call, for separable 2-D transforms and for transforms that padded an inner level, the operator is refused with the documented exception.",
      [INPUTS, CONF, HIST], "every wavelet, size, level, odd padding, orthogonalisation, dtype",
      "The tests compare one or two operators for fixed sizes.",
      MAT, [("operator assembly from level matrices", S + "matmul_transform.py"), ("2-D operators", S + "matmul_transform_2.py")],
      PBT + "operator versus transform on generated inputs", NOTE + "the transform itself, checked by C08 and C09."),
    P("C12", "Boundary-transform objects are independent of their history",
      "A Matrix analysis or synthesis object may be called any number of times with inputs of other sizes, batch shapes, dtypes and level counts, with operator reads and failing calls in between: every result equals that of a freshly constructed object.",
      [HIST], "every sequence of calls, operator reads and failed calls",
      "Tests call an object once or twice with the same configuration.",
      MAT, [("cached level matrices", S + "matmul_transform.py"), ("cached level matrices", S + "matmul_transform_2.py"), ("cached level matrices", S + "matmul_transform_3.py")],
      PBT + "generated call histories against a fresh object", NOTE + "a fresh object as the reference."),
    P("C13", "Boundary matrices are orthonormal with exact interior filters",
      "For every orthogonal wavelet, even size, orthogonalisation method and dtype, the sparse analysis and synthesis matrices for one level (1-D and 2-D) have the asked shape and dtype, are mutually inverse and orthonormal, carry the unmodified wavelet filters in all rows that fit inside the signal, and boundary rows that span exactly the cut-off filters.",
      [INPUTS, CONF], "every orthogonal wavelet, size, method, dtype",
      "Tests check a few wavelets and sizes, and only that the product is the identity.",
      MAT, [("construct_boundary_a / _s / _a2 / _s2", S + "matmul_transform.py"), ("orthogonalisation", S + "sparse_math.py")],
      PBT + "algebraic invariants on generated matrices", NOTE + "dense numpy algebra."),
    P("C14", "Stationary transform equals PyWavelets",
      "For every discrete wavelet, length divisible by 2^level, level (given or default), batch shape and axis, swt returns the same coefficients as pywt.swt(trim_approx=True, norm=False), in the same order and with the dtype of the input.",
      [INPUTS, CONF], EXACT,
      "Tests use two wavelets and a few sizes.",
      [S + "stationary_transform.py"], [("dilated circular convolution", S + "stationary_transform.py")],
      PBT + "differential against pywt.swt", NOTE + "PyWavelets as the reference."),
    P("C15", "Stationary transform is inverted, shift-equivariant and equals pywt",
      "For every wavelet, length, level, batch shape and axis, iswt(swt(x)) restores x exactly in shape and up to rounding in value, and circularly shifting the input circularly shifts every coefficient array by the same amount. On arbitrary coefficients iswt equals pywt.iswt.",
      [INPUTS, CONF], EXACT + ", including lengths shorter than the dilated filter",
      "Tests invert a few transforms of power-of-two length.",
      [S + "stationary_transform.py"], [("circular padding, also repeatedly", S + "stationary_transform.py"), ("inverse", S + "stationary_transform.py")],
      PBT + "round trip, metamorphic shift relation, differential against pywt.iswt", NOTE + "PyWavelets as the reference for arbitrary coefficients."),
    P("C16", "Continuous transform equals PyWavelets",
      "For every continuous wavelet (by name or object), set of scales (array, tensor or scalar), sampling period, precision and batch of signals, cwt returns the coefficients of pywt.cwt in the layout [scales, batch, time] and the same frequencies. Each signal of a batch is transformed independently of the others.",
      [INPUTS, CONF], "every continuous wavelet, scales, sampling period, precision, signal length, batch size",
      "Tests use one chirp and a fixed range of integer scales.",
      [S + "continuous_transform.py"], [("port of pywt.cwt with FFT convolution", S + "continuous_transform.py")],
      PBT + "differential against pywt.cwt", NOTE + "PyWavelets as the reference."),
    P("C17", "Learnable continuous wavelets match their closed form",
      "The differentiable Shannon and complex Morlet wavelets give in cwt the coefficients and frequencies of the pywt wavelet with the same bandwidth and centre frequency, for every such pair, support (lower and upper bound) and set of scales. Gradients of the coefficients reach both parameters and the signal and equal numerical derivatives.",
      [INPUTS, CONF], "every bandwidth, centre frequency, scales, signal",
      "Tests check that a gradient exists for one setting.",
      [S + "continuous_transform.py"], [("differentiable wavelets", S + "continuous_transform.py")],
      PBT + "differential against pywt.cwt and finite differences", NOTE + "PyWavelets and finite differences."),
    P("C18", "1-D wavelet packets equal PyWavelets, in any access order",
      "For every wavelet, mode, length, depth, batch shape and axis, each node of a WaveletPacket tree equals the corresponding node of pywt.WaveletPacket (or, in boundary mode, repeated one-level boundary transforms). The value of a node does not depend on which nodes were read or initialised before, nor on what the object transformed earlier.",
      [INPUTS, CONF, HIST], "every wavelet, mode, length, depth, axis, access order, reuse through transform",
      "Tests read all nodes of one level in one order.",
      [S + "packets.py"], [("lazy expansion", S + "packets.py")],
      PBT + "generated access histories against pywt.WaveletPacket", NOTE + "PyWavelets and the one-level boundary transform (C08)."),
    P("C19", "1-D wavelet packets reconstruct from their leaves",
      "When every leaf of the deepest level is present, reconstruct() replaces the root by the synthesis of the leaves: the original signal if they are unchanged (plus one trailing sample on an odd axis), and otherwise the result of pywt's synthesis of the edited leaves, whatever inner nodes were overwritten. A missing leaf is reported with a KeyError.",
      [INPUTS, HIST], "every wavelet, mode, length, depth, axis, set of edits",
      "Tests zero one leaf for a few wavelets.",
      [S + "packets.py"], [("bottom-up synthesis with trimming", S + "packets.py")],
      PBT + "generated edits against node-wise pywt.idwt", NOTE + "PyWavelets and the boundary synthesis (C08)."),
    P("C20", "2-D wavelet packets equal PyWavelets, in any access order",
      "For every wavelet, mode, sizes, depth, batch shape and axes, separable or not, each node of a WaveletPacket2D tree equals the corresponding node of pywt.WaveletPacket2D (or, in boundary mode, repeated one-level boundary transforms). The value of a node does not depend on which nodes were read or initialised before, nor on what the object transformed earlier.",
      [INPUTS, CONF, HIST], "every wavelet, mode, sizes, depth, axes, access order, reuse",
      "Most 2-D packet tests need a downloaded image and give no signal offline.",
      [S + "packets.py"], [("lazy expansion", S + "packets.py")],
      PBT + "generated access histories against pywt.WaveletPacket2D", NOTE + "PyWavelets and the one-level boundary transform (C09)."),
    P("C21", "2-D wavelet packets reconstruct from their leaves",
      "When every leaf of the deepest level is present, reconstruct() of a 2-D tree replaces the root by the synthesis of the leaves: the original data if they are unchanged (plus one trailing sample on each odd axis), and otherwise the synthesis of the edited leaves, whatever inner nodes were overwritten. A missing leaf is reported with a KeyError.",
      [INPUTS, HIST], "every wavelet, mode, sizes, depth, axes, separable or not, set of edits",
      "Most 2-D packet tests need a downloaded image and give no signal offline.",
      [S + "packets.py"], [("bottom-up synthesis with trimming", S + "packets.py")],
      PBT + "generated edits against node-wise pywt.idwt2", NOTE + "PyWavelets and the boundary synthesis (C09)."),
    P("C22", "Packet node orders, depth limits and key errors",
      "The natural and frequency orders of the 1-D and 2-D packet nodes equal those of PyWavelets at every level. A tree's default depth is the maximum useful level of the transformed axes, keys beyond the depth raise KeyError, keys with other characters and unknown orders raise ValueError, an uninitialised tree raises ValueError, and reconstructing a tree with missing leaves raises KeyError.",
      [INPUTS, CONF, HIST], "every level, key string, data shape, axis choice",
      "Tests compare a few levels and one bad key.",
      [S + "packets.py"], [("node orders", S + "packets.py"), ("key checks", S + "packets.py")],
      PBT + "differential against PyWavelets and documented errors", NOTE + "PyWavelets as the reference."),
    P("C23", "Axes and batch dimensions are handled uniformly",
      "For every transform and its inverse, choosing axes (positive, negative, any order) equals moving those axes to the end, transforming and moving them back, and each entry of the remaining dimensions is transformed on its own as if it were the only one.",
      [INPUTS, CONF], "every transform, rank up to 5, axis choice, batch shape (none, singleton or larger dimensions)",
      "Tests permute axes for a few transforms; one 2-D test has a vacuous assertion.",
      [S + "_util.py"] + CONV[:3] + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "packets.py"],
      [("axis swapping, folding and unfolding", S + "_util.py")],
      PBT + "metamorphic relation between axis choices and batch entries", NOTE + "the same transform with default axes and no batch (checked by C01-C21)."),
    P("C24", "No call modifies its arguments and repeated calls agree",
      "No transform, inverse or packet operation changes the tensors, coefficient containers, wavelet objects or index sequences it is given, or returns results that later calls overwrite. Calling it again with the same arguments gives the same result.",
      [INPUTS, HIST], "every transform, input, layout, sequence of calls",
      "Tests never look at their inputs again after a call.",
      CONV + MAT + [S + "separable_conv_transform.py", S + "packets.py", S + "stationary_transform.py", S + "continuous_transform.py"],
      [("functional style throughout", "src/ptwt")],
      PBT + "snapshots before and after generated call sequences", NOTE + "bitwise snapshots."),
    P("C25", "Floating-point type is preserved and accuracy follows it",
      "Every discrete transform and inverse accepts float32 and float64, returns tensors of exactly the input's dtype whatever the precision of the filters it is given, and its float32 result agrees with its float64 result to single precision (up to the signs of the QR boundary filters). Any other dtype and coefficient sequences of mixed dtypes, at any position, are rejected with ValueError.",
      [INPUTS, CONF], "every transform, dtype, input",
      "Tests check dtypes for the 1-D padded transform only.",
      [S + "_util.py", S + "constants.py"] + MAT, [("dtype checks", S + "_util.py")],
      PBT + "metamorphic relation between precisions and documented rejections", NOTE + "float64 results (checked by the other properties)."),
    P("C26", "Invalid arguments are rejected, never silently accepted",
      "Unknown boundary modes, unknown orthogonalisation methods, repeated, out-of-range or wrongly counted axes, coefficient containers of the wrong kind or with missing or additional subbands, coefficient shapes that cannot belong together, non-positive levels, unsupported data types and analysis and synthesis filters of different lengths for the matrix transforms, and inputs with too few dimensions are refused with an exception (of the documented type where one is documented) instead of giving a result. Valid neighbours of such calls keep working.",
      [INPUTS, CONF], "every transform and invalid argument kind, at any coefficient position",
      "Tests probe some errors at one position each.",
      [S + "_util.py"] + CONV[:3] + MAT[:3] + [S + "packets.py", S + "separable_conv_transform.py"],
      [("argument checks", S + "_util.py")],
      PBT + "generated invalid calls against the documented exceptions", NOTE + "the documentation of each function."),
    P("C27", "Transforms are differentiable with exact gradients",
      "Every transform and inverse is linear in its data, so the gradient of <y, T(x)> with respect to x is the adjoint applied to y: it must satisfy the inner-product identity for every input and direction, without graph breaks. Gradients also reach learnable filters, whatever their precision, and equal numerical derivatives.",
      [INPUTS, CONF], "every transform, wavelet, mode, shape, direction",
      "Tests check that some gradients exist or differ from zero.",
      CONV + MAT + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "packets.py", S + "wavelets_learnable.py"],
      [("torch operations only", "src/ptwt")],
      PBT + "inner-product identity and directional derivatives", NOTE + "torch autograd of elementary operations and linearity."),
    P("C28", "Sparse helpers equal their dense definitions",
      "The sparse Kronecker product, identity extension, diagonal and row replacement, the 1-D and 2-D convolution matrices (full, valid, same, sameshift; plain and strided, the 2-D ones on images flattened column by column) and the batched product equal their dense definitions for every shape, value pattern (zeros included), offset, stride and mode, with the dtype of their inputs. Invalid modes and shapes raise ValueError.",
      [INPUTS, CONF], "every shape, sparsity pattern, mode, stride, offset",
      "Several of these tests need a downloaded image; others use a few fixed shapes.",
      [S + "sparse_math.py"], [("sparse helpers", S + "sparse_math.py")],
      PBT + "differential against dense numpy definitions", NOTE + "numpy."),
    P("C29", "Learnable-wavelet losses measure the filter-bank conditions",
      "The perfect-reconstruction, alias-cancellation, product-filter and orthogonality losses of learnable wavelets equal the polynomial identities they name for every filter quadruple: each is the sum of squares of the deviation from its identity, so they vanish on the (bi)orthogonal wavelets of pywt and are non-negative, and wavelet_loss is the sum of the terms of its class. Their gradients equal numerical derivatives, and filter_bank holds the four parameters in order.",
      [INPUTS, CONF], "every filter quadruple of equal length",
      "Tests evaluate the losses for one wavelet.",
      [S + "wavelets_learnable.py"], [("losses via polynomial products", S + "wavelets_learnable.py")],
      PBT + "differential against numpy polynomial products", NOTE + "numpy."),
    P("C30", "Transforms are linear",
      "For every transform T (analysis, synthesis, stationary, continuous, boundary, packet nodes), scalars a, b and inputs x, y of the same shape, T(a x + b y) = a T(x) + b T(y) up to rounding, and T(0) = 0. Scaling by a power of two commutes exactly up to rounding at every magnitude.",
      [INPUTS, CONF], "every transform, inputs, scalars over many magnitudes",
      "No test relates two calls.",
      CONV + MAT + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("linear operations only", "src/ptwt")],
      PBT + "metamorphic linearity relation", NOTE + "floating-point rounding bounds."),
    P("C31", "The way a wavelet is given does not matter",
      "Every discrete transform gives the same result whether the wavelet is passed by name, as a pywt.Wavelet, as a custom pywt-compatible object, as a filter-bank tuple of tensors of either precision or (padded and stationary transforms and packets) as a learnable wavelet holding the same filters, also with the default level. Custom filter banks that are not in pywt behave like pywt's transform with the same bank.",
      [INPUTS, CONF], "every transform, wavelet representation, filter bank",
      "Tests pass names and pywt objects to different transforms, tuples only under jit.",
      [S + "_util.py", S + "constants.py"] + CONV[:3], [("wavelet conversion", S + "_util.py")],
      PBT + "metamorphic relation between representations; differential against pywt with custom banks", NOTE + "PyWavelets."),
    P("C32", "Traced transforms equal eager transforms",
      "torch.jit.trace of the padded, separable, stationary, continuous and boundary transforms and inverses (with a filter-bank tuple as wavelet) gives a function that returns the eager result on the traced input and on every other input of the same shape.",
      [INPUTS, CONF], "every traceable transform, wavelet, mode, shape, input",
      "Tests trace a few transforms with one shape and evaluate on the tracing input only.",
      CONV + [S + "constants.py", S + "separable_conv_transform.py", S + "stationary_transform.py"],
      [("no data-dependent control flow", "src/ptwt")],
      PBT + "differential between traced and eager execution", NOTE + "eager execution (checked by the other properties)."),
    P("C33", "Deprecated names stay equivalent to their replacements",
      "The deprecated keyword for the orthogonalisation method of every boundary transform, matrix constructor and packet class warns with DeprecationWarning and behaves exactly like the new keyword with the same value, for that call only. Passing both is refused with TypeError.",
      [INPUTS, CONF], "every class and constructor, value, input",
      "Tests check one function.",
      [S + "_util.py"] + MAT[:3] + [S + "packets.py"], [("alias decorator", S + "_util.py")],
      PBT + "metamorphic relation between old and new keyword", NOTE + "the new keyword (checked by C08-C13)."),
    P("C34", "Packet trees are lazily filled dictionaries, whatever the history",
      "After any sequence of reads, assignments, deletions, partial initialisations, failed reads and transforms of new inputs, a packet tree holds exactly the nodes that were computed or assigned. A node that is present is returned as it was stored, also beyond the depth of the tree. Reading a missing node computes it and its siblings from the value its parent has at that time and changes no other node, and a new transform discards every node of the earlier input. Initialising with several keys is reading them in their order and fails where reading fails.",
      [HIST, INPUTS], "every sequence of operations on 1-D and 2-D trees, every mode",
      "Tests read the nodes of fresh trees.",
      [S + "packets.py"], [("lazy expansion in __getitem__", S + "packets.py"), ("transform", S + "packets.py")],
      PBT + "model-based histories against a dictionary model", NOTE + "PyWavelets and the one-level boundary transform as the reference of one expansion. Whether an assigned node survives the expansion of a missing sibling is not specified."),
    P("C35", "Results depend on the arguments only",
      "Every transform, inverse and packet tree gives the same result in a fresh process, after any earlier calls with other arguments (failing ones included), under any torch default dtype, gradient mode (no_grad, inference_mode) or random seed, and while other threads call the library. A call leaves the default dtype, gradient mode, random states, print options and error handling of torch, numpy and Python as they were.",
      [HIST, CONF, INPUTS], "every transform, earlier calls, ambient settings, concurrent calls",
      "Tests call the functions one after another under default settings.",
      CONV + MAT + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("explicit dtypes, no global state", "src/ptwt")],
      PBT + "differential between a pristine process and calls after generated histories, settings and threads", NOTE + "rounding may differ between processes; thread schedules are those of the operating system."),
    P("C36", "Copies of objects behave like the original and are independent",
      "Copies (copy, deepcopy, pickle, torch.save, state_dict of learnable wavelets) of boundary-transform objects, packet trees, filter-bank tuples, learnable wavelets and coefficient containers give the results of the original, and boundary-transform objects also its sparse operators, whatever was done with the original before. Using or changing a deep copy, or replacing nodes of a copied tree, leaves the original as it was.",
      [HIST, INPUTS], "every object kind, way of copying, history before the copy",
      "No test copies an object.",
      MAT[:3] + [S + "packets.py", S + "constants.py", S + "wavelets_learnable.py", S + "continuous_transform.py"],
      [("object state", "src/ptwt")],
      PBT + "metamorphic relation between original and copy", NOTE + "the original object (decided by the other properties)."),
    P("C37", "Coefficient containers are documented, independent and interchangeable",
      "Every analysis returns the documented container: a list of tensors in 1-D, a tuple with named (horizontal, vertical, diagonal) triples in 2-D, a tuple with dictionaries of exactly the documented keys otherwise; its tensors (from level one on) can be changed in place without changing another coefficient or the input. Every synthesis gives the same result for equal coefficients in any container of the documented type (any sequence in 1-D, plain or named triples, dictionaries in any key order or of a subclass, list or tuple around them) and leaves that container as it was.",
      [INPUTS, CONF], "every transform and inverse, container kind, key order, edited coefficient",
      "Tests pass results of the analysis on unchanged.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "constants.py"],
      [("coefficient containers", S + "constants.py"), ("tree map", S + "_util.py")],
      PBT + "structural invariants and metamorphic relation between containers", NOTE + "values of the reference call (C01-C15)."),
    P("C38", "The transforms agree with one another",
      "The 2-D and 3-D transforms (padded, fully separable and boundary) of an outer product are the outer products of the 1-D coefficients, in analysis and synthesis. L levels equal one transform of fewer levels followed by a transform of its approximation; packet nodes on the low-pass path equal the coefficients of the corresponding wavelet transform, and the first stationary level holds both phases of the periodic transform.",
      [INPUTS, CONF], "every transform, wavelet, mode, size, level, split of the levels",
      SAMPLES + "no test relates two transforms of the toolbox on general inputs.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "packets.py"],
      [("implementations of one theory", "src/ptwt")],
      PBT + "metamorphic relations between transforms", NOTE + "nothing but rounding bounds."),
    P("C39", "Boundary matrices are built once and stay sparse",
      "An object of MatrixWavedec, MatrixWavedec2, MatrixWavedec3 or their inverses constructs its matrices in the first call for a size, precision and depth and reuses them in further calls of the same kind, whatever the values and the batch size. The 1-D analysis and synthesis matrices and the operators built from them are sparse tensors whose number of stored entries grows linearly with the signal length.",
      [INPUTS, HIST], "every boundary wavelet, size, level, orthogonalisation method, precision and sequence of batch sizes",
      "Tests compare values; a matrix rebuilt on every call or stored with explicit zeros gives the same values.",
      MAT, [("matrix construction and reuse", S + "matmul_transform.py"), ("sparse products and orthogonalisation", S + "sparse_math.py")],
      PBT + "call counts of torch functions against the first call, entry counts against a linear bound", NOTE + "the count of torch functions as a measure of work."),
    P("C40", "Higher-order and forward-mode derivatives",
      "Gradients can be differentiated again: for every transform T (analysis, synthesis, continuous, packets) the gradient of <T'T x, u> with respect to x is T'T u, and for learnable filters f the gradient of <T(f)' y, u> with respect to f equals that of <y, T(f) u>. torch's forward-mode derivative (torch.func.jvp) of the padded, stationary and continuous transforms along v is T v.",
      [INPUTS, CONF], EXACT + "; filters as parameters",
      "No test differentiates twice or in forward mode.",
      CONV + MAT[:3] + [S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("transforms composed of differentiable torch functions", "src/ptwt")],
      PBT + "identities between derivatives of linear maps", NOTE + "first-order gradients (decided by C27)."),
    P("C41", "Results on the device of the data",
      "Every transform and inverse computes on the device of its input: all results are there, everything the toolbox makes on the way (filters, boundary matrices, pads, index tensors) is made there, and no data passes through another device or numpy. An object that has been used with data on one device works for data on another, in either order, with the same values. Inverses refuse coefficients that lie on different devices with a ValueError.",
      [INPUTS, HIST, CONF], "every transform, wavelet given as name, object or tensors on the CPU, sequence of devices",
      "No test has a second device; a filter or matrix made on the default device works on the CPU.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("device argument of every construction, _check_same_device", S + "_util.py")],
      PBT + "a second device pretended by a torch function mode", NOTE + "no kernel of a real accelerator: there is none here; the pretended device refuses the mixtures that torch refuses."),
    P("C42", "Calls that fail half-way leave nothing behind",
      "After a call has failed at any point (out of memory in any torch function, an interrupt between any two lines), its arguments and the global settings of torch, numpy and Python are as before. Repeating the call on the same arguments, object or packet tree, or using that object for other sizes, gives what an undisturbed run gives; a packet tree then holds only correct nodes.",
      ["fault_sequences", INPUTS, HIST], "every transform, object history and packet operation; every torch function and every line of the library as point of failure",
      "No test lets a call fail half-way.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("state kept between calls", S + "matmul_transform.py"), ("nodes of packet trees", S + "packets.py")],
      PBT + "faults injected at generated points, differential against an undisturbed run", NOTE + "faults inside torch itself are represented by the failure of the whole torch function."),
    P("C43", "Overlapping calls are independent",
      "Calls of the transforms that overlap in several threads give each the result that it gives alone, and leave the global settings as they were, whatever the order in which the threads proceed. This holds for functions with shared wavelet objects and for distinct boundary objects and packet trees.",
      ["schedules", INPUTS], "every transform; two or three calls with the same or neighbouring arguments; every change of threads between lines of the library",
      "Tests run one call at a time.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("functions without shared state", "src/ptwt")],
      PBT + "generated thread schedules, differential against the call alone", NOTE + "threads change between lines of the library only."),
    P("C44", "No data of a call outlives its results",
      "When the caller has dropped the arguments and results of a call, these tensors are gone, also after calls that fail, with gradients, and for objects that are called again; a packet tree that transforms new data drops the nodes of the old data. The number of tensors that the toolbox keeps does not grow with the number of calls on data of one size.",
      [HIST, INPUTS], "every transform, inverse, boundary object and packet tree; sequences of calls with other data",
      "Tests look at values; retained data shows in the memory of long runs only.",
      CONV + MAT[:3] + [S + "separable_conv_transform.py", S + "stationary_transform.py", S + "continuous_transform.py", S + "packets.py"],
      [("state kept between calls", "src/ptwt")],
      PBT + "weak references and tensor counts over histories", NOTE + "CPython's reference counting and garbage collector as witness; memory of torch's allocator is not measured."),
]


def main():
    env = dict(os.environ, PBT_CHILD="")
    out = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--list"], capture_output=True, text=True, env=env, check=True)
    built = set(out.stdout.split())
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --list",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                "technique": p["_technique"],
                "level": "exploration",
                "level_note": p["_note"],
            }
            for p in PROPS
            if p["id"] in built
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "the check is still being built"}
            for p in PROPS
            if p["id"] not in built
        ],
        "notes": "Nothing is compiled: every check imports /repo/src directly. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    print(len(built), "checks,", len(PROPS), "properties; unknown:", built - {p["id"] for p in PROPS})


main()
