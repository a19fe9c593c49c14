prop("B01", "Bit reader: values, position, peek, skip and end of data",
 "Reading n bits (0..64) from a stream returns exactly the next n bits, least significant bit first, and advances the position and the count of bits read by n; peeking returns the same value without moving, skipping equals reading and discarding, and aligning moves to the next byte boundary. Any read, peek or skip that needs data beyond the end of the input is an error, and data up to the very last bit is readable.",
 "all byte contents, all bit alignments, all widths, bounded operation sequences",
 "tests read a few hand-made byte arrays at a few alignments; the property ranges over contents x alignment x width x operation order",
 ["jxlio/bitreader.go"], [("ReadBits/readBit cached partial byte", "jxlio/bitreader.go"), ("ShowBits save/restore", "jxlio/bitreader.go"), ("SkipBits/Skip/ZeroPadToByte", "jxlio/bitreader.go")])
prop("N01", "Numeric fields: U32, U64, U8, F16, enum, varint and signed mapping",
 "Each variable-length numeric field of the bitstream (U32 with its four distributions, U64, U8, half float, enum, ICC varint) decodes to the value the format defines and consumes exactly the field's bits; half-float infinities/NaNs, enum values above 63 and truncated fields are errors. The unsigned-to-signed mapping sends u to u/2 for even and -(u+1)/2 for odd values over the full range.",
 "all bit patterns of each field at several alignments, arbitrary U32 parameters",
 "tests check a handful of encodings per field; rare branches (60-bit U64 tail, subnormal halves, extreme signed values) are not sampled",
 ["jxlio/bitreader.go"], [("ReadU32/ReadU64/ReadU8/ReadF16/ReadEnum/ReadICCVarint", "jxlio/bitreader.go"), ("UnpackSigned/UnpackSigned64", "jxlio/bitreader.go")])
prop("C01", "Container boxes: codestream located, other boxes skipped exactly",
 "For a file starting with the container signature, the reader reports every codestream box with its payload's offset and size, in file order, skipping every other box by exactly its declared size (32-bit, 64-bit and level boxes included); a file without the signature is treated as one codestream at offset 0. Malformed boxes give an error, never a crash.",
 "all box headers and contents within the stated number of boxes and sizes",
 "tests parse a couple of sample files; box sizes, types and truncation points are not enumerated",
 ["core/read_jxl_boxes.go"], [("ReadBoxHeader/readAllBoxes/SkipFully", "core/read_jxl_boxes.go")])
prop("H01", "Image size header: dimensions, ratios and level limits",
 "The size header decodes to the width and height the format defines for every combination of small/large form and aspect ratio; a size beyond the level's limits on width, height or total pixels is rejected, however large the fields are. The preview header follows the format the same way.",
 "all header bit patterns, both levels",
 "tests use a few sizes; overflow corners of 30-bit fields and ratio products are out of their reach",
 ["bundle/image_header.go"], [("readSizeHeader/getWidthFromRatio/readPreviewHeader", "bundle/image_header.go")])
prop("H02", "Image metadata: every field parsed as the format lays it out",
 "Parsing the image header yields exactly the orientation, bit depth, extra channels, colour encoding, tone mapping, opsin matrix, upsampling weights and extension fields that the format's layout assigns to the bits, with the specified defaults for absent fields, and leaves the reader right after the last field. Invalid values are rejected.",
 "all bit patterns of the metadata bundles within the stated number of extra channels",
 "tests parse headers of a few real files, so most flag combinations are never exercised",
 ["bundle/image_header.go", "bundle/BitDepthHeader.go", "bundle/extra_channel_info.go", "bundle/Extensions.go", "bundle/AnimationHeader.go", "colour/colour_encoding_bundle.go", "colour/ToneMapping.go", "colour/OpsinInverseMatrix.go", "colour/CustomXY.go"],
 [("ParseImageHeader", "bundle/image_header.go"), ("NewColourEncodingBundleWithReader", "colour/colour_encoding_bundle.go")])
prop("H03", "Frame header: every field parsed as the format lays it out",
 "Parsing a frame header yields exactly the type, encoding, flags, subsampling, upsampling, group size, passes, crop, blending, reference and restoration-filter fields that the format assigns to the bits, with the specified defaults and derived values (bounds, log group size) for absent fields, consuming exactly those bits. A header cut short by the end of the input is an error.",
 "all bit patterns of the frame header for symbolic image metadata",
 "tests parse a few real frame headers; conditional fields multiply into combinations tests do not reach",
 ["frame/FrameHeader.go", "frame/PassesInfo.go", "frame/BlendingInfo.go", "frame/RestorationFilter.go"],
 [("NewFrameHeaderWithReader", "frame/FrameHeader.go"), ("NewPassesInfoWithReader", "frame/PassesInfo.go"), ("NewRestorationFilterWithReader", "frame/RestorationFilter.go"), ("NewBlendingInfoWithReader", "frame/BlendingInfo.go")])
prop("I01", "ICC profile reconstruction follows the command stream",
 "Decoding an encoded ICC profile (header prediction, tag list and main command stream) produces exactly the bytes the format defines, of exactly the declared size. A malformed command stream is reported as an error and never crashes.",
 "all command streams and data bytes within the stated lengths",
 "tests decode one or two stored profiles, so most commands and predictor orders are never executed",
 ["bundle/image_header.go"], [("GetDecodedICC/getICCPrediction/shuffle", "bundle/image_header.go")])
prop("T01", "Table of contents and permutations",
 "Section lengths are read in order, and a permuted table of contents maps each section to the position given by its Lehmer code; a decoded permutation is always a bijection and out-of-range codes are errors. Sections are located contiguously after the table.",
 "all Lehmer codes for the stated sizes, all length fields",
 "tests permute one small list; bijectivity over all codes is universally quantified",
 ["frame/Frame.go", "util/MathsHelper.go"], [("ReadTOC/readPermutation", "frame/Frame.go")])
prop("E01", "Hybrid integers: configuration and value decoding",
 "For every valid hybrid-integer configuration a token plus its extra bits decodes to the value the format defines, the mapping from (token, extra bits) to values is one-to-one, and configurations violating the format's constraints are rejected.",
 "all configurations, tokens and extra bits",
 "tests use two or three configurations",
 ["entropy/HybridIntegerConfig.go", "entropy/EntropyStream.go"], [("NewHybridIntegerConfigWithReader", "entropy/HybridIntegerConfig.go"), ("readHybridInteger", "entropy/EntropyStream.go")])
prop("E02", "Prefix codes: canonical tables and symbol decoding",
 "From any valid set of code lengths, simple or complex, the decoder builds the canonical prefix code and reads back exactly the symbol whose code is in the stream, consuming exactly its length; over- or under-full code descriptions are rejected.",
 "all code descriptions for the stated alphabet sizes and all following bits",
 "tests decode a few streams; the space of code-length vectors is not sampled",
 ["entropy/PrefixSymbolDistribution.go", "entropy/VLCTable.go"], [("NewPrefixSymbolDistributionWithReader/populateComplexPrefix/populateSimplePrefix", "entropy/PrefixSymbolDistribution.go"), ("NewVLCTable/GetVLC", "entropy/VLCTable.go")])
prop("E03", "ANS: distributions, alias table and state updates",
 "A decoded ANS distribution always has frequencies summing to 4096; its alias table maps every state slot to the symbol and offset so that each symbol owns exactly its frequency's share of slots one-to-one; and reading a symbol returns the one the encoder's inverse step put in, restoring the state.",
 "all frequency tables of the stated alphabet sizes, all states",
 "tests decode fixed streams; alias construction over all frequency vectors is universally quantified",
 ["entropy/ANSSymbolDistribution.go", "entropy/ANSState.go"], [("NewANSSymbolDistribution/generateAliasMapping/ReadSymbol", "entropy/ANSSymbolDistribution.go")])
prop("E04", "Entropy stream: LZ77 copies, contexts and clusters",
 "Reading symbols with LZ77 enabled reproduces the value sequence the format defines: literals are appended to the window and length/distance tokens copy earlier values including special distances, clipped to the window; each context uses exactly its assigned distribution.",
 "all token sequences of the stated length with symbolic values, distances and lengths",
 "tests never enumerate distances and lengths at window edges",
 ["entropy/EntropyStream.go"], [("TryReadSymbol/ReadSymbol", "entropy/EntropyStream.go"), ("SPECIAL_DISTANCES", "entropy/EntropyStream.go")])
prop("E05", "Cluster map: parsing and move-to-front",
 "The context cluster map is decoded as the format defines, simple or entropy coded, with the inverse move-to-front transform applied when signalled; every decoded map uses each cluster index below the maximum at least once or is rejected.",
 "all simple maps and all move-to-front inputs of the stated length",
 "tests decode one or two maps",
 ["entropy/EntropyStream.go"], [("ReadClusterMap", "entropy/EntropyStream.go")])
prop("M01", "MA tree: property evaluation and leaf selection",
 "For any decision tree and any pixel neighbourhood, the decoder evaluates the context properties as the format defines and walks to the leaf selected by the comparisons, so every sample uses that leaf's context, predictor, offset and multiplier; compacting a tree for a channel never changes the selected leaf.",
 "all property values, symbolic thresholds, trees of the stated size",
 "tests walk one tree with fixed properties",
 ["frame/MATree.go", "frame/ModularChannel.go"], [("NewMATreeWithReader/compactify/walk", "frame/MATree.go"), ("getLeafNode/decode", "frame/ModularChannel.go")])
prop("M02", "Modular predictors",
 "Each of the format's sample predictors returns exactly the defined value for any neighbourhood, including image-edge positions where neighbours are substituted as the format says.",
 "all neighbour sample values and edge positions for channels of the stated size",
 "tests use small fixed values",
 ["frame/ModularChannel.go"], [("prediction and neighbour access", "frame/ModularChannel.go")])
prop("M03", "Weighted (self-correcting) predictor",
 "The weighted predictor's sub-predictions, error-driven weights, clamping and stored errors follow the format's integer arithmetic exactly for any parameters, samples and error history.",
 "all samples and parameters at every position of a channel of the stated size",
 "tests cover a few pixels of one image",
 ["frame/ModularChannel.go", "frame/WPParams.go"], [("prePredictWP", "frame/ModularChannel.go"), ("NewWPParams", "frame/WPParams.go")])
prop("M04", "Modular channel decoding reconstructs every sample",
 "Decoding a modular channel assigns every sample its prediction plus the unpacked residual times multiplier plus offset, in raster order, for any residuals; subsampled and empty channels are handled and nothing outside the channel is written.",
 "all residual values for small channels under several trees",
 "tests decode one image",
 ["frame/ModularChannel.go", "frame/ModularStream.go"], [("decode", "frame/ModularChannel.go"), ("DecodeChannels", "frame/ModularStream.go")])
prop("M05", "Reversible colour transforms invert exactly",
 "For every reversible colour transform type and channel permutation, undoing the transform returns exactly the samples the forward transform was applied to, for all 32-bit wrap-around sample values within range.",
 "all sample triples for all 42 types",
 "tests exercise a few types on fixed samples",
 ["frame/ModularStream.go"], [("ApplyTransforms RCT", "frame/ModularStream.go")])
prop("M06", "Palette expansion",
 "Undoing a palette transform replaces every index by the palette, delta-palette, or implicit colour the format defines for it, with delta entries added to the prescribed prediction, for every index including negative and beyond-palette ones.",
 "all index values and palette contents of the stated sizes and bit depths",
 "tests expand one palette",
 ["frame/ModularStream.go"], [("ApplyTransforms palette", "frame/ModularStream.go")])
prop("M07", "Squeeze inverts exactly",
 "Undoing a squeeze step combines the average and residual channels into exactly the samples they were computed from (smooth-tendency term included), horizontally and vertically, for odd and even sizes; default squeeze parameters are those the format defines.",
 "all sample values for the stated sizes",
 "tests check a few rows",
 ["frame/ModularStream.go", "frame/ModularChannel.go"], [("inverseHorizontalSqueeze/inverseVerticalSqueeze/tendency", "frame/ModularChannel.go"), ("default squeeze params", "frame/ModularStream.go")])
prop("V01", "Inverse DCT is the exact orthonormal transform",
 "For every supported block size the inverse transform equals the mathematical inverse DCT of its input to within floating-point rounding, and the forward transform inverts it.",
 "all real-valued coefficient blocks with entries in [-1,1], rounding error tracked",
 "tests compare fixed blocks",
 ["util/MathsHelper.go"], [("InverseDCT2D/ForwardDCT2D/InverseDCTHorizontal", "util/MathsHelper.go")])
prop("V02", "Special block transforms (DCT2, DCT4, DCT4x8, AFV, Hornuss)",
 "Each special 8x8 transform maps coefficients to samples by exactly the linear map the format defines, up to rounding.",
 "all real-valued 8x8 coefficient blocks, rounding error tracked",
 "tests check fixed blocks of some transforms",
 ["frame/PassGroup.go", "frame/transformtype.go"], [("invertVarDCT/invertAFV", "frame/PassGroup.go")])
prop("V03", "Variable-size block placement",
 "Blocks of the transforms read from the stream are placed one after another, each at the first free 8x8 cell in raster order; blocks never overlap, leave their LF group or cross the border of a group (placements that do not fit are rejected rather than corrupting memory), every cell of a block refers to that block's transform and multiplier, and the number, size and shape of every transform are those the format defines.",
 "all transform-type sequences for group sizes up to the stated cells",
 "tests place one arrangement",
 ["frame/hfmetadata.go"], [("placeBlock", "frame/hfmetadata.go")])
prop("V04", "Coefficient orders and contexts",
 "The natural coefficient order of every transform is the permutation the format defines, and the contexts chosen for non-zero counts and coefficients follow the format for every block context, position and neighbourhood.",
 "all context inputs; all orders",
 "tests check a few entries",
 ["frame/HFPass.go", "frame/HFCoefficients.go", "frame/HFBlockContext.go"], [("getNaturalOrderI", "frame/HFPass.go"), ("getBlockContext/getCoefficientContext/getPredictedNonZeros", "frame/HFCoefficients.go")])
prop("V05", "Dequantisation weights",
 "Default and parameterised dequantisation weight tables equal the format's definition for every transform; non-positive or malformed parameters are rejected.",
 "all parameter values in the stated ranges",
 "tests check default tables only",
 ["frame/HFGlobal.go"], [("generateWeights/setupDCTParam/readDCTParams", "frame/HFGlobal.go")])
prop("V06", "Dequantisation, LF smoothing and chroma-from-luma",
 "LF samples are the quantised ones times the steps that follow from the quantiser, plus luma times the correlation, smoothed as the format defines (never at the border), or those of the LF frame; HF coefficients are scaled by weight, bias, multiplier and channel scale and corrected by the tile's factor times luma; the lowest coefficients of a block reproduce its LF samples; the LF context of a block follows from the thresholds.",
 "all sample values in the stated ranges, small planes",
 "tests cover one plane",
 ["frame/lfcoefficients.go", "frame/HFCoefficients.go", "frame/LFChannelCorrelation.go"], [("adaptiveSmooth/dequantLF", "frame/lfcoefficients.go"), ("chromaFromLuma/dequantizeHFCoefficients", "frame/HFCoefficients.go")])
prop("F01", "Restoration filters: Gabor-like and edge-preserving",
 "The Gabor-like filter convolves each plane with the normalised 3x3 kernel with mirrored edges; the edge-preserving filter leaves constant areas unchanged, keeps every output a convex combination of its neighbourhood, and never reads outside the frame.",
 "all sample values in range, small planes, symbolic weights",
 "tests use one image",
 ["frame/Frame.go", "frame/RestorationFilter.go"], [("performGabConvolution/performEdgePreservingFilter", "frame/Frame.go")])
prop("F02", "Upsampling",
 "Upsampling by 2, 4 or 8 produces the sized-up plane in which each sample is the weighted sum of its 5x5 mirrored neighbourhood with the format's weights, clamped to that neighbourhood's range.",
 "all sample values in range, small planes",
 "tests use one plane",
 ["frame/Frame.go", "bundle/image_header.go"], [("performUpsampling", "frame/Frame.go"), ("GetUpWeights", "bundle/image_header.go")])
prop("F03", "Noise generation",
 "The noise generator produces the format's xorshift128+ sequence for every seed, in the format's order, mapped to floats in [1,2).",
 "all seeds",
 "tests check one seed",
 ["frame/XorShiro.go", "frame/NoiseGroup.go"], [("NewXorShiroWith2Seeds/Fill", "frame/XorShiro.go")])
prop("D01", "Whole streams: every coded sample reaches the image",
 "Decoding a complete lossless codestream (bare or in a container, whole or cut into partial boxes, one or several frames, one or several groups, any orientation) yields an image of the header's size whose every sample is exactly the coded one after prediction, colour transform, blending and orientation; a stream that ends early or uses a feature that is not implemented yields an error instead of an image.",
 "all sample values, small images, all stated frame sequences",
 "integration tests compare a few files",
 ["core/jxl_decoder.go", "core/jxl_codestream_decoder.go", "frame/Frame.go", "frame/ModularStream.go", "core/read_jxl_boxes.go"], [("JXLDecoder.Decode", "core/jxl_decoder.go"), ("DecodeFrame", "frame/Frame.go"), ("decode", "core/jxl_codestream_decoder.go")])
prop("X01", "Colour transforms of a frame: XYB and YCbCr",
 "After decoding, XYB frames become linear RGB exactly as the format prescribes (remove the cube-rooted bias, cube, add the bias, apply the inverse absorbance matrix, scale by 255/intensity target), YCbCr frames become RGB with the format's coefficients, every sample of the frame is converted once, and frames with neither transform, as well as extra channels, keep their samples.",
 "all sample values in range, all stated matrices and intensity targets",
 "tests convert a few samples with the default matrix",
 ["core/jxl_codestream_decoder.go", "colour/OpsinInverseMatrix.go"], [("performColourTransforms", "core/jxl_codestream_decoder.go"), ("InvertXYB", "colour/OpsinInverseMatrix.go")])
prop("K01", "Colour management: matrices, primaries and transfer curves",
 "White points, primaries and conversion matrices for every enumerated colour space are those the format defines, conversion to a space and back is the identity up to rounding, and transfer curves are monotone with forward and inverse cancelling.",
 "all chromaticities in range, all enumerated values",
 "tests check a few conversions",
 ["colour/colour_management.go", "colour/colour_flags.go", "colour/transfer_function.go", "colour/OpsinInverseMatrix.go"], [("GetConversionMatrix/primariesToXYZ/adaptWhitePoint", "colour/colour_management.go"), ("GetTransferFunction", "colour/transfer_function.go")])
prop("G01", "Group geometry",
 "For any frame size the groups and LF groups tile the frame exactly: every pixel belongs to exactly one group, group and LF-group sizes and locations agree, and every table-of-contents entry belongs to exactly one section.",
 "all frame sizes and group sizes",
 "tests use a few sizes",
 ["frame/Frame.go", "frame/PassGroup.go", "frame/LFGroup.go"], [("getGroupLocation/groupSize/getLFGroupSize", "frame/Frame.go")])
prop("G02", "Parallel decoding gives the same result for every schedule",
 "Decoding groups concurrently yields the same samples as decoding them one after another for every interleaving of the workers, every error in any group is reported, and no group is skipped or decoded twice.",
 "all interleavings of worker goroutines for the stated number of groups and workers",
 "tests observe a few schedules",
 ["frame/Frame.go"], [("decodePassGroupsConcurrent/startWorker", "frame/Frame.go")], over=["schedules", "inputs"])
prop("S01", "Frame blending onto the canvas",
 "Blending a frame (replace, add, blend, multiply-add, multiply; with or without alpha; any crop origin including negative) changes exactly the canvas samples inside the visible part of the crop to the values the format defines and leaves all others untouched.",
 "all sample values, small canvases, all crop offsets in range, all modes",
 "tests blend one frame at the origin",
 ["core/jxl_codestream_decoder.go"], [("blendFrame/performBlending/copyToCanvas", "core/jxl_codestream_decoder.go")])
prop("S02", "Orientation",
 "For each of the eight orientations every output sample is the input sample the format prescribes, dimensions are swapped exactly for the transposing ones, and invalid orientations are rejected.",
 "all sample values and small sizes",
 "tests check some orientations",
 ["core/jxl_codestream_decoder.go"], [("transposeBuffer", "core/jxl_codestream_decoder.go")])
prop("S03", "Integer/float sample conversion",
 "Converting a sample buffer between integers and floats maps each integer v to v/max and each float f to round(f*max) clamped to [0,max], so converting to float and back is lossless for every bit depth up to 16, and clamping never alters in-range values.",
 "all sample values for each maximum",
 "tests convert a few values",
 ["image/imagebuffer.go"], [("CastToFloatIfMax/CastToIntIfMax/Clamp", "image/imagebuffer.go")])
prop("W01", "PNG output encodes exactly the image's samples",
 "The PNG writer emits the signature and well-formed chunks with correct lengths and CRCs, header fields matching the image, and pixel data that decompresses to the image's samples (8 or 16 bit, colour or grey, with or without alpha) in order.",
 "all sample values for small images of every supported layout",
 "tests compare a few golden files",
 ["core/png_writer.go"], [("WritePNG/writeIHDR/writeIDAT", "core/png_writer.go")])
prop("W02", "PFM output encodes exactly the image's samples",
 "The PFM writer emits a header with the image's type and dimensions followed by every sample as a 32-bit float of the declared endianness, bottom row first.",
 "all sample values for small images",
 "tests write one image",
 ["core/pfm_writer.go"], [("WritePFM", "core/pfm_writer.go")])
prop("W03", "Conversion to a standard library image",
 "Converting a decoded image to a standard image yields for every pixel the decoded samples scaled to the image's colour depth, with alpha when present.",
 "all sample values for small images",
 "tests convert one image",
 ["core/jxl_image.go"], [("ToImage", "core/jxl_image.go")])
prop("U01", "Arithmetic and matrix helpers",
 "The integer helpers (ceiling log and division, mirror coordinate, clamps, min/max) return the mathematically defined value for every input in range, and the matrix helpers (transpose, multiply, invert, identity) satisfy their algebraic laws up to rounding.",
 "all inputs in range",
 "tests check a few values",
 ["util/MathsHelper.go", "util/misc.go", "util/IntPoint.go"], [("CeilLog1p/CeilDiv/MirrorCoordinate/MatrixMultiply/InvertMatrix3x3", "util/MathsHelper.go")])
prop("U02", "Buffer pools never alias live buffers",
 "A buffer obtained from a pool has exactly the requested size, holds zeros when fresh contents are promised, and is never shared with another buffer still in use, for every history of requests and returns.",
 "all request/return histories of the stated length, arbitrary pool behaviour",
 "tests perform one get/put",
 ["util/buffer_pool.go"], [("GetMatrix3D/ReturnMatrix3DToPool", "util/buffer_pool.go")], over=["histories"])
prop("R01", "Malformed input never crashes the decoder",
 "For every input, the parsers and the decoder as a whole return either a result or an error: whatever bits of a file are changed, nothing panics, hangs, indexes out of range, or allocates what a size field announces before the data is there.",
 "all byte strings of the stated lengths for the headers; all values of any short window of bits in valid streams",
 "tests feed a handful of malformed inputs",
 ["core/jxl_codestream_decoder.go", "bundle/image_header.go", "frame/FrameHeader.go", "frame/Frame.go", "frame/ModularStream.go", "core/read_jxl_boxes.go", "entropy/EntropyStream.go"], [("error returns of the parsers", "bundle, frame, core, entropy"), ("decode", "core/jxl_codestream_decoder.go")])
