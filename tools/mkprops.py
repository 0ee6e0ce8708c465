#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the statements are kept here so that they are easy to read and edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The bit reader is a faithful cursor over an LSB-first bit string",
 "For every byte string and every sequence of read, peek, skip, byte-align, byte-block and seek operations, each returned value equals the bits found at the cursor in LSB-first order, and the cursor and the reported bit count advance by exactly the bits consumed. A peek consumes nothing, whether it succeeds or fails. An operation that needs more bits than remain reports an error instead of inventing data or panicking.",
 ["inputs", "histories"], "every byte string, every start alignment, every operation sequence including those that run past the end",
 "the tests call each operation alone, from an aligned start, over a handful of bytes; the defects live in the interaction of the cached byte, alignment and end of data",
 ["jxlio/bitreader.go"],
 [("cached byte + bit index", "jxlio/bitreader.go ReadBits/readBit/ShowBits/SkipBits"), ("alignment", "jxlio/bitreader.go ZeroPadToByte/ReadBytesToBuffer")],
 ["return values of jxlio.NewBitStreamReader(...) methods", "BitsRead/GetBitsCount"],
 [("index/currentByte", "partial byte held between calls", "jxlio/bitreader.go"), ("bitsRead", "bits consumed so far", "jxlio/bitreader.go")])

prop("C02", "Variable-length numbers decode to the value the format defines",
 "For every bit pattern, the variable-length number forms of the format (selector-based 32-bit, 64-bit, 8-bit, half float, enumeration, ICC varint and the zig-zag signed mapping) decode to exactly the value the format assigns and consume exactly the bits of that form. Patterns the format forbids (infinite or NaN half floats, enumerations above 63) are refused. No value is truncated or sign-damaged up to the full width of its type.",
 ["inputs"], "every bit pattern of every number form, every selector and the full numeric range of each",
 "the tests use one or two literals per selector; boundary values, long continuations and large odd signed values are not sampled",
 ["jxlio/bitreader.go"],
 [("selector decoding", "jxlio/bitreader.go ReadU32/ReadU64/ReadU8/ReadEnum"), ("half float", "jxlio/bitreader.go ReadF16"), ("zig-zag", "jxlio/bitreader.go UnpackSigned/UnpackSigned64")],
 ["return value and bit count of each call"])

prop("C03", "The container yields exactly the codestream and nothing else",
 "For every file that is a bare codestream or an ISO-style box container, decoding sees exactly the codestream bytes carried by the codestream boxes, whatever other boxes surround them, whatever legal size encoding (32-bit, 64-bit, to-end-of-file) each box uses. The decoded image is therefore identical to decoding the bare codestream. A container whose boxes are truncated, undersized or carry no codestream is refused with an error, never a panic.",
 ["inputs"], "every sequence of boxes, box types, size encodings, positions of the codestream box and truncation points",
 "the test files contain two or three fixed layouts; size encodings, skipped boxes and malformed sizes are never combined",
 ["core/read_jxl_boxes.go", "core/jxl_codestream_decoder.go"],
 [("box walk", "core/read_jxl_boxes.go readAllBoxes"), ("seek to codestream box", "core/jxl_codestream_decoder.go decode/GetImageHeader")],
 ["core.JXLDecoder.Decode", "core.NewBoxReader(...).ReadBoxHeader"])

prop("C04", "The image header decodes to the metadata the stream encodes",
 "For every image header bit string, the decoder reports exactly the encoded size, orientation, bit depth, extra channels, colour encoding, tone mapping and transform data, with the format's defaults for every field the header omits, and leaves the cursor exactly where the header ends. Headers the format forbids are refused with an error.",
 ["inputs"], "every combination of presence flags, selectors and field values of the image header, including the all-default forms and extension payloads",
 "the header is a tree of conditionals with thousands of paths; the tests follow about a dozen of them through mocked readers",
 ["bundle/image_header.go", "bundle/extra_channel_info.go", "bundle/BitDepthHeader.go", "bundle/Extensions.go", "colour/colour_encoding_bundle.go", "colour/ToneMapping.go", "colour/OpsinInverseMatrix.go", "colour/CustomXY.go"],
 [("header parse", "bundle/image_header.go ParseImageHeader"), ("size", "bundle/image_header.go readSizeHeader"), ("colour encoding", "colour/colour_encoding_bundle.go")],
 ["bundle.ParseImageHeader result fields", "bit position after the header"])

prop("C05", "The frame header decodes to the frame parameters the stream encodes",
 "For every image header and frame header bit string, the decoder reports exactly the encoded frame type, flags, upsampling, group size, passes, crop rectangle, blending, reference and filter parameters, with the format's defaults (which depend on the frame type, the crop and the image header) for every field the header omits, and leaves the cursor where the header ends. Frame headers the format forbids are refused with an error.",
 ["inputs"], "every combination of frame type, flags and image header that changes which fields are present",
 "which fields exist depends on a dozen interacting conditions; the tests sample single branches",
 ["frame/FrameHeader.go", "frame/BlendingInfo.go", "frame/PassesInfo.go", "frame/RestorationFilter.go"],
 [("field presence conditions", "frame/FrameHeader.go NewFrameHeaderWithReader"), ("blending", "frame/BlendingInfo.go"), ("passes", "frame/PassesInfo.go"), ("filters", "frame/RestorationFilter.go")],
 ["frame.NewFrameHeaderWithReader result fields", "bit position after the header"])

prop("C06", "Entropy-coded symbol streams decode to the symbols the bits encode",
 "For every valid entropy-coded stream - any context clustering, prefix codes or ANS histograms of any form, any hybrid-integer configuration, with or without LZ77 copies - the decoder returns exactly the symbol sequence the bits define and consumes exactly those bits. ANS streams whose final state is wrong and streams with malformed code descriptions are refused with an error.",
 ["inputs"], "every code description, context sequence and payload, including copies that overlap, reach before the start of the data or use the special distance table",
 "tests decode a few hand-made or recorded streams; the code-description space (repeat runs, simple codes, alias tables) and the copy window cannot be sampled by hand",
 ["entropy/EntropyStream.go", "entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "entropy/VLCTable.go", "entropy/HybridIntegerConfig.go", "entropy/ANSState.go", "entropy/SymbolDistribution.go"],
 [("symbol read", "entropy/EntropyStream.go ReadSymbolWithMultiplier"), ("alias table", "entropy/ANSSymbolDistribution.go"), ("canonical prefix codes", "entropy/PrefixSymbolDistribution.go, entropy/VLCTable.go"), ("copy window", "entropy/EntropyStream.go")],
 ["entropy.NewEntropyStream* and ReadSymbol results", "reader bit position", "decoded samples"])

prop("C07", "Modular samples are reconstructed exactly from the decision tree",
 "For every modular sub-image - any channel layout, decision tree, predictor, weighted-predictor parameters and residuals - each decoded sample equals prediction plus scaled residual as the format defines it, with the neighbourhood and property rules applied correctly at every image border. In particular a losslessly coded image is reproduced bit for bit.",
 ["inputs"], "every tree over every property, every predictor, every border case, every channel size including 1-pixel and empty channels, and every residual sequence",
 "the tests compare a few whole images; a rule that is wrong only at a border, for one property or for an unusual tree shape is not sampled",
 ["frame/ModularStream.go", "frame/ModularChannel.go", "frame/MATree.go", "frame/WPParams.go"],
 [("tree walk", "frame/MATree.go"), ("properties", "frame/ModularChannel.go"), ("predictors", "frame/ModularChannel.go"), ("weighted predictor state", "frame/ModularChannel.go prePredictWP")],
 ["integer samples of core.JXLDecoder.Decode"])

prop("C08", "Inverse modular transforms restore the channels exactly",
 "For every chain of modular transforms (reversible colour transforms, palettes with or without delta entries and implicit colours, squeeze steps explicit or default), undoing them in reverse order yields exactly the channels the format defines, with the right number, order and size of channels. Channels outside a transform's range are left untouched. Transform parameters that do not fit the channel list are refused with an error.",
 ["inputs"], "every chain of up to several transforms with any begin channel, type and parameters, over any image size including odd and 1-pixel sizes",
 "each transform has dozens of parameter cells and they compose; the tests pin single transforms on tiny mock data",
 ["frame/ModularStream.go", "frame/ModularChannel.go"],
 [("RCT/palette/squeeze inverse", "frame/ModularStream.go applyTransforms"), ("meta-channel bookkeeping", "frame/ModularStream.go NewModularStreamWithChannels"), ("horizontal/vertical unsqueeze", "frame/ModularChannel.go")],
 ["integer samples of core.JXLDecoder.Decode"])

prop("C09", "A frame split into sections is reassembled exactly",
 "For every way a frame can be cut - group size, number of groups and low-frequency groups, number of passes, channels coded globally or per group, shifted channels, and any permutation of the sections in the table of contents - every section is decoded from its own bytes and every sample lands at its own place. The result is the same image that a single section would have produced.",
 ["inputs", "schedules"], "every group grid including partial edge groups, every section order and section size, every pass count and channel shift, every goroutine schedule",
 "the test images are few, mostly single-section, and never permuted; edge groups, shifts and permutations interact",
 ["frame/Frame.go", "frame/PassGroup.go", "frame/LFGroup.go", "frame/LFGlobal.go", "frame/ModularStream.go"],
 [("TOC and permutation", "frame/Frame.go ReadTOC/readPermutation/getBitreader"), ("group geometry", "frame/Frame.go decodePassGroups/decodeLFGroups"), ("channel to section assignment", "frame/LFGlobal.go, frame/PassGroup.go")],
 ["integer samples of core.JXLDecoder.Decode", "frame.Frame.ReadTOC"])

prop("C10", "Frames are composed onto the canvas as the frame headers direct",
 "For every sequence of frames with any crop rectangle (including negative and overhanging origins), blend mode, source and destination reference slots and frame type, the final image equals the sequential composition the format defines. Saved references are immutable snapshots: later frames never alter an earlier reference, and pixels outside a crop come from the frame's source reference.",
 ["histories", "inputs"], "every history of frames over the four reference slots, every crop against every canvas size, every blend mode and channel kind",
 "the outcome depends on the whole history of saves and blends; the tests decode one or two multi-frame files",
 ["core/jxl_codestream_decoder.go", "frame/BlendingInfo.go", "frame/FrameHeader.go", "image/imagebuffer.go"],
 [("blend", "core/jxl_codestream_decoder.go blendFrame/performBlending"), ("reference slots", "core/jxl_codestream_decoder.go decode"), ("snapshot on aliasing", "core/jxl_codestream_decoder.go decode (ImageBufferSliceEquals)")],
 ["integer or float samples of core.JXLDecoder.Decode"],
 [("reference[4]", "saved frames", "core/jxl_codestream_decoder.go"), ("canvas", "image under construction", "core/jxl_codestream_decoder.go")])

prop("C11", "Orientation is applied exactly once and to every channel",
 "For each of the eight orientations and every image size, the decoded image is the stored image under the corresponding flip, rotation or transposition, for colour and extra channels alike. Reported width and height equal the dimensions of the delivered samples.",
 ["inputs"], "all eight orientations, all sizes including 1xN, all channel kinds (integer and floating point)",
 "the tests cover some orientations of one channel type on one matrix",
 ["core/jxl_codestream_decoder.go", "bundle/image_header.go", "core/jxl_image.go"],
 [("orientation switch", "core/jxl_codestream_decoder.go transposeBufferInt/transposeBufferFloat"), ("oriented size", "bundle/image_header.go")],
 ["JXLImage.Width/Height and channel data", "bounds of ToImage"])

prop("C12", "Rendered output carries the decoded samples",
 "For every decoded image, converting it or one of its channels to a Go image, or writing it as PNG, produces output whose dimensions, channel count, alpha and sample values are those of the decoded samples clamped and rescaled to the output depth (colour divided by opacity where the file stores it multiplied); a PFM carries them unclamped, and the file written is well formed, with the embedded ICC profile or the rendering intent of the image. An image whose colour encoding the renderer cannot convert is refused with an error. Rendering does not change the decoded image: rendering twice, in any order of formats, gives the same result.",
 ["inputs", "histories"], "every bit depth, channel layout (grey, colour, alpha), sample value including out-of-range ones, and every sequence of render calls",
 "the tests render 8-bit colour files once; depth rescaling, grey with alpha and repeated rendering are not reached",
 ["core/jxl_image.go", "core/png_writer.go", "core/pfm_writer.go", "image/imagebuffer.go", "reader.go"],
 [("render", "core/jxl_image.go ToImage/ChannelToImage"), ("PNG", "core/png_writer.go"), ("depth conversion", "image/imagebuffer.go")],
 ["pixels of the returned image", "the PNG bytes decoded by a standard reader"])

prop("C13", "Decoding is a pure function of the file",
 "The decoded samples and the error outcome depend only on the input bytes: not on the number of worker goroutines, the processor count, the goroutine schedule, earlier decodes in the same process, or decodes running concurrently in other goroutines. An image already returned is never changed by later decoding.",
 ["schedules", "histories", "configurations"], "every schedule of the group workers, every worker limit, every history of earlier and concurrent decodes of valid and invalid files",
 "a test run samples one schedule from a fresh process; races and stale pooled memory need particular interleavings and histories",
 ["frame/Frame.go", "frame/PassGroup.go", "util/buffer_pool.go", "core/jxl_codestream_decoder.go", "options/jxl_options.go"],
 [("worker pool over groups", "frame/Frame.go decodePassGroupsConcurrent/startWorker"), ("matrix pools", "util/buffer_pool.go")],
 ["samples and errors of core.JXLDecoder.Decode", "race detector reports"])

prop("C14", "Damaged input yields an error, never a panic, hang or partial image",
 "For every prefix of a valid file and every read failure at any point of the stream, decoding returns an error (or, when the cut-off bytes are not needed, the complete correct image), and never panics, hangs, kills the process or returns an image with missing data. An error in any group or section is reported to the caller whichever worker hits it. Whatever bytes of a file are changed, decoding ends with an image or an error.",
 ["fault_sequences", "crash_points"], "every truncation point, every failing read, every section of every frame",
 "the fault can fall at any of thousands of points and in any worker; the tests inject faults at a few mocked calls",
 ["frame/Frame.go", "frame/MATree.go", "entropy/EntropyStream.go", "entropy/ANSSymbolDistribution.go", "entropy/PrefixSymbolDistribution.go", "core/jxl_codestream_decoder.go", "core/read_jxl_boxes.go", "jxlio/bitreader.go"],
 [("error propagation", "all decoding layers"), ("worker error propagation", "frame/Frame.go decodePassGroupsConcurrent")],
 ["error result of core.JXLDecoder.Decode, jxl_go.Decode and DecodeConfig"])

prop("C15", "Header-only queries agree with the full decode",
 "For every file, asking only for the configuration or the image header gives the width, height, colour kind and channel description of the image that decoding the same file delivers, through both the native interface and the standard image registry. If the header-only query fails, so does the full decode.",
 ["inputs"], "every header: all orientations, colour kinds, extra channels, container layouts and files that are invalid",
 "the tests query one or two upright files; orientation, containers and unusual headers are not compared with the decode",
 ["reader.go", "core/jxl_decoder.go", "core/jxl_codestream_decoder.go", "bundle/image_header.go"],
 [("config", "reader.go DecodeConfig"), ("header query", "core/jxl_codestream_decoder.go GetImageHeader")],
 ["jxl_go.DecodeConfig, image.DecodeConfig, JXLDecoder.GetImageHeader versus Decode"])

prop("C16", "Embedded ICC profiles are reconstructed byte for byte",
 "For every compressed ICC profile stream - any mix of header prediction, tag list commands and data commands - the reconstructed profile has exactly the declared length and exactly the bytes the format's reconstruction rules give. Malformed command streams are refused with an error, never a panic.",
 ["inputs"], "every command stream, declared length and profile content, including lengths shorter than the header and predicted runs of every width and order",
 "the tests carry one or two real profiles; the command language is never explored",
 ["bundle/image_header.go"],
 [("ICC reconstruction", "bundle/image_header.go GetDecodedICC/getICCPrediction/shuffle")],
 ["ImageHeader.GetDecodedICC"])

prop("C17", "Recycled and converted sample buffers behave like fresh ones",
 "For every history of obtaining and returning matrices, each matrix handed out has the requested shape, is entirely zero and shares no storage with any other live matrix. Buffer copies are independent of their source, equality means same kind, size and samples, and conversions between integer and floating point samples are exact within the value range, clamp outside it, and round-trip.",
 ["histories", "inputs", "schedules"], "every get/put history over every shape and element type, including concurrent ones; every sample value and maximum",
 "the tests do one get/put cycle per shape; reuse after dirty return, shape mix-ups and aliasing need longer histories",
 ["util/buffer_pool.go", "util/misc.go", "util/deque.go", "util/sliceutil.go", "image/imagebuffer.go"],
 [("pools", "util/buffer_pool.go"), ("conversions", "image/imagebuffer.go CastToFloatIfMax/CastToIntIfMax/Clamp")],
 ["util.MakeMatrix2DPooled/MakeMatrix3DPooled and returns", "image.ImageBuffer methods"])

prop("C18", "Unsupported features are refused, not ignored",
 "A file that uses a feature this decoder does not implement (animation, preview, patches, splines, noise) is refused with an error. It is never delivered as an image with that feature silently left out.",
 ["inputs"], "every position and combination of the unsupported features with supported ones, in any frame of the file",
 "tests check that some unsupported files fail; they do not check every feature in every frame type and position",
 ["core/jxl_codestream_decoder.go", "frame/LFGlobal.go", "frame/Frame.go"],
 [("feature gates", "core/jxl_codestream_decoder.go decode, frame/LFGlobal.go, frame/Frame.go")],
 ["error result of core.JXLDecoder.Decode"])

prop("C19", "Lossy (VarDCT) frames reconstruct the pixels the coefficients define",
 "For every VarDCT frame the decoder accepts, the low frequencies (of the frame itself, or of the LF frame it refers to), block layout, quantisation tables, coefficient orders and coefficients are read as coded, and dequantisation, chroma from luma, the inverse transform of every block type, the smoothing of low frequencies and of pixels, the edge-preserving filter with the sharpness and multiplier of each cell, colours coded at half the width or height, and the XYB or YCbCr conversion give the pixels the format defines, up to rounding errors; malformed data is refused.",
 ["inputs"], "every block layout, transform type, quantisation table, coefficient order, context map and coefficient content",
 "tests compare a few whole lossy images against stored references with generous limits; a wrong table, transform or context rule that those images do not use stays unnoticed",
 ["frame/HFCoefficients.go", "frame/HFGlobal.go", "frame/HFPass.go", "frame/HFBlockContext.go", "frame/lfcoefficients.go", "frame/LFGroup.go", "frame/PassGroup.go", "frame/transformtype.go", "util/MathsHelper.go", "frame/Frame.go", "colour/OpsinInverseMatrix.go"],
 [("coefficients and dequantisation", "frame/HFCoefficients.go"), ("tables", "frame/HFGlobal.go"), ("inverse transforms", "frame/PassGroup.go, util/MathsHelper.go"), ("colour", "frame/Frame.go performColourTransforms, colour/OpsinInverseMatrix.go InvertXYB")],
 ["float samples and error result of core.JXLDecoder.Decode"])

prop("C20", "Frames and extra channels coded at a lower resolution are enlarged as the format defines",
 "A frame coded at a half, a quarter or an eighth of its size, and an extra channel coded at a lower resolution than the colour (by its dim_shift, its own factor, or both), has the size, position, references and visible area of the frame at full size; every sample is the weighted mean of the 25 coded samples around it, mirrored at the edges, with the default weights or those the image carries, limited to the range of these samples. Factors the format does not allow are refused.",
 ["inputs"], "every combination of factors, dim_shift, image and frame size, origin, layer, blend mode, weights and sample values, in lossless and lossy frames",
 "tests enlarge one picture of constant or hand made values with default weights; factors, extra channels, odd sizes, layers, custom weights and negative samples are untested",
 ["frame/Frame.go", "frame/FrameHeader.go", "frame/ModularStream.go", "core/jxl_codestream_decoder.go", "bundle/image_header.go"],
 [("kernels and enlarging", "frame/Frame.go performUpsampling"), ("sizes and factors", "frame/FrameHeader.go"), ("channel sizes", "frame/ModularStream.go NewModularStreamWithStreamIndex"), ("weights", "bundle/image_header.go")],
 ["samples and error result of core.JXLDecoder.Decode"])

prop("C21", "Restoration filters and colour transforms of losslessly coded frames give the pixels the format defines",
 "A modular frame that is smoothed (gaborish, default or own weights), filtered by the edge-preserving filter, or coded in XYB or YCbCr gives, up to rounding errors, the pixels the format defines: colours coded at half the width or height are stretched, filters run on the colour channels only and in order (smoothing, the passes of the edge-preserving filter, enlarging, colour transform), each pass sees the samples of the one before, neighbours beyond the edge are mirrored, and the steps and roles of the coded channels (Y, X, B less Y; Cb, Y, Cr; three channels even in a grey image) are kept.",
 ["inputs"], "every picture content, size, depth up to 8 bits, weights, steps, combination of filters, transform, enlarging, layers and references",
 "tests run the filters on hand made buffers of one size and compare a few whole images with generous limits; borders, cell rims, mirrored neighbours, weights and combinations are not settled by them",
 ["frame/Frame.go", "frame/LFGlobal.go", "frame/RestorationFilter.go", "core/jxl_codestream_decoder.go", "colour/OpsinInverseMatrix.go"],
 [("smoothing", "frame/Frame.go performGabConvolution"), ("edge-preserving filter", "frame/Frame.go performEdgePreservingFilter"), ("channels of modular frames", "frame/Frame.go DecodeFrame"), ("colour", "core/jxl_codestream_decoder.go performColourTransforms")],
 ["samples and error result of core.JXLDecoder.Decode"])
prop("C22", "Images coded in XYB come out in the colour space, at the brightness and through the mix that the file names",
 "An image coded in XYB is given as linear light of the primaries and white point its header names, by name or by chromaticities, for colour and grey images alike: the cubes of the coded values, with the biases of the file's own opsin matrix where it carries one, are mixed by that matrix, adapted to the named white, turned to the named primaries and scaled by 255 over the intensity target; the transfer function and rendering intent of the header do not change the samples; coefficients of lossy frames are restored with the file's own quantisation biases.",
 ["inputs"], "every named or spelled-out space, opsin matrix, biases, intensity target and picture content, modular and lossy",
 "tests decode images in the default space and compare single conversion matrices; the combination of space, own matrix, intensity target and coding is settled for none of them",
 ["colour/OpsinInverseMatrix.go", "colour/colour_management.go", "core/jxl_codestream_decoder.go", "bundle/image_header.go", "frame/HFCoefficients.go"],
 [("mix", "colour/OpsinInverseMatrix.go InvertXYB, GetMatrix"), ("conversion of primaries and white", "colour/colour_management.go GetConversionMatrix"), ("header fields", "bundle/image_header.go ReadImageHeader"), ("quantisation biases", "frame/HFCoefficients.go dequantizeHFCoefficients")],
 ["samples and error result of core.JXLDecoder.Decode"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
