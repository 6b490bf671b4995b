import json
P=[]
def p(id,title,st,over,q,why,files,syms,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=s,where=files[0] if len(files)==1 else ", ".join(files)) for s in syms],observe_at=["exported API of package "+sorted({f.split("/")[0] if "/" in f else "psd" for f in files})[0]],hook_needed=None)))
p("C01","Header, color-mode data and image resources are reported exactly as stored",
 "For every well-formed PSD or PSB file the reported version, size, channel count, depth, color mode, color-mode data and every image resource (id, name, bytes) equal what the file stores. A header is accepted exactly when its signature is right, its version is 1 or 2, it has 1 to 56 channels, a depth of 1, 8, 16 or 32, and both dimensions between 1 and 30000 (version 1) or 300000 (version 2); any other header yields an error.",
 ["inputs"],"every header and every sequence of image resources, including boundary sizes, odd lengths and empty names",
 "The tests decode a dozen fixed sample files with one header shape each; limits, padding of odd lengths, PSB and foreign resource signatures are never varied.",
 ["psd.go","imageres.go","util.go"],["DecodeConfig","readImageResource","readPascalString","adjustAlign2"])
p("C02","Layer records are reported exactly as stored",
 "For every well-formed file each layer reports, in file order, the rectangle, channel ids and planes, blend mode, opacity, clipping, flags, mask (rectangles, default color, flags, densities, feathers), names (Unicode and legacy), blend-clipped-elements flag, section divider setting and additional-information blocks that the file stores. This holds for PSD and PSB (4- and 8-byte lengths), any padding the format allows, mask data of any length (fields that are not there in full count as absent), negative coordinates, and whether the layers sit in the main layer section or in the 16/32-bit layer block.",
 ["inputs"],"every layer record the format can express, in every position of the layer list",
 "The tests compare pixels of fixed sample files; record fields such as real masks, feathers, PSB length sizes, odd paddings or negative rectangles never occur in an assertion.",
 ["layer.go","util.go"],["readLayerInfo","readLayerExtraData","readLayerMaskAndAdjustmentLayerData","readAdditionalLayerInfo","readUnicodeString"])
p("C03","The layer tree mirrors the file's group structure",
 "For every list of layer records whose group markers balance, the decoded tree contains every layer and group exactly once, with groups nested and siblings ordered as the markers dictate, and hidden group-end markers never appear as layers. A list whose markers do not balance (a group closed but never opened, or opened but never closed) is rejected with an error rather than silently losing layers.",
 ["inputs"],"every sequence of leaf, group-start and group-end records, of any nesting depth",
 "The samples contain one or two hand-made group structures; unbalanced or deeply nested sequences are never tried.",
 ["layer.go"],["buildTree","readSectionDividerSetting"])
p("C04","Byte accounting and reader independence",
 "Decoding a well-formed file gives the same result and the same reported byte count whatever kind of reader supplies it (seekable or not, one byte or many per read, with or without a discard method, end-of-file reported with or after the last data). The reported count equals the bytes actually consumed, and for configuration-only decoding, skipped merged images and raw or run-length merged images the reader is left exactly at the end of what was decoded.",
 ["inputs","schedules"],"every file and every sequence of short reads a conforming reader may produce",
 "The tests always pass an *os.File and never check the returned count or the reader's position; short reads do not happen there.",
 ["psd.go","util.go","layer.go","imageres.go","compress.go"],["discard","adjustAlign2","adjustAlign4","Decode","DecodeConfig"])
p("C05","Truncated, unreadable and format-violating files are rejected",
 "Decoding any proper prefix of a well-formed file that cuts into data needed for what was asked returns an error, whatever reader is used and whichever sections are skipped. The same holds when the reader reports a failure at such a point, even if it would carry on when read again. A file that breaks a structural rule (wrong signatures or version, out-of-range sizes, inconsistent section lengths, lengths that do not cover what they enclose, unknown compression, compressed data that does not yield its plane) also returns an error, never a partial result reported as success.",
 ["inputs","crash_points"],"every cut position of every file, every position at which reading fails, and every single structural violation",
 "No test feeds a damaged file.",
 ["psd.go","layer.go","imageres.go","util.go","compress.go"],["Decode","DecodeConfig","discard","readLayerAndMaskInfo","readAdditionalLayerInfo"])
p("C06","Damaged input never panics or hangs",
 "For any byte sequence with modest declared sizes, decoding (with any options), reading the configuration, building the palette and reading any in-bounds pixel of any returned image finish normally: they either return an error or a usable result. No input makes the library panic, loop forever or read outside its buffers.",
 ["inputs"],"every byte string, in particular every corruption of a valid file",
 "No test feeds a damaged file; fuzz-style corruption is absent from the repository.",
 ["psd.go","layer.go","imageres.go","util.go","picker.go","compress.go","compress_other.go"],["Decode","DecodeConfig","Palette","hasAlphaID0","readLayerImage","readAdditionalLayerInfo","readUnicodeString"])
p("C07","Pixel planes decode exactly under every compression method",
 "For merged images and layer channels of every depth (1, 8, 16, 32 bits) stored raw, run-length encoded, zipped, or zipped with prediction, the decoded plane bytes equal the plane the encoder started from. The result does not depend on the plane's position, the number of channels, PSD or PSB, how the encoder split its runs, or the number of CPUs.",
 ["inputs","configurations"],"every plane, geometry, encoder choice and GOMAXPROCS",
 "The samples use one encoder's output; 16/32-bit run-length data and 8/32-bit prediction never occur, nor does a varied worker count.",
 ["compress.go","compress_other.go","psd.go","layer.go"],["CompressionMethod.Decode","decodePackBits","decodePackBitsPerLine","decodeZLIB","decodeDelta"])
p("C08","Malformed run-length rows stay contained and deterministic",
 "When run-length data is malformed, each row is decoded on its own: a row that overruns its width or ends inside a packet makes decoding fail with an error, a row that is too short leaves the rest of that row zero, and no row's content can affect another row. The outcome is the same for every number of CPUs.",
 ["inputs","schedules","configurations"],"every malformed row pattern, worker split and schedule",
 "The tests only decode well-formed data, where rows cannot interfere.",
 ["compress_other.go","compress.go"],["decodePackBits","decodePackBitsPerLine"])
p("C09","Pixels, color models and palettes of decoded images",
 "Every in-bounds pixel of a decoded merged image, layer or single channel has exactly the color components stored at that position (opaque when no transparency is stored, transparent at the palette's transparency index), for bitmap, grayscale, indexed, RGB and CMYK at every supported depth. A color mode reports how many of the channels carry these components. The image's bounds and color model are those of the layer or document, each pixel's color already belongs to that model, and the merged image uses transparency only when an extra channel is identified as such.",
 ["inputs"],"every pixel of every document, mode and depth, including layers at negative offsets",
 "The samples have a handful of modes and compare a rendered PNG, so swapped channels, wrong offsets or alpha rules in other modes go unseen.",
 ["picker.go","psd.go","layer.go","imageres.go","color/color.go"],["findPicker","findGrayPicker","makePicker","Palette","hasAlphaID0"])
p("C10","Decode options and callbacks only skip, never change, what is decoded",
 "Skipping layer images or the merged image leaves every other part of the result identical to a full decode, and the configuration-only and image-package entry points report what a full decode reports. The configuration callback runs once before any layer data with the same configuration that is returned, its error aborts decoding and is returned; the layer callback runs exactly once per layer, in order, with the right index and total, after that layer's planes are available.",
 ["inputs","configurations"],"every file crossed with every option combination and callback outcome",
 "The tests use one option combination and never observe callback order, counts or errors.",
 ["psd.go","layer.go"],["Decode","DecodeOptions","readLayerImage","decode","decodeConfig"])
p("C11","Rendering composites visible layers by the documented rules",
 "Rendering a layer tree yields, at each pixel, the result of drawing the visible layers bottom to top with their opacity and blend mode: a group is composited on its own and then drawn as one layer (or, when pass-through, straight onto what lies below, faded by its opacity), a mask limits its layer or group, and clipping layers affect only the shape of the layer they are clipped to. Hidden or zero-opacity layers and everything inside hidden groups contribute nothing, and nothing is drawn outside the layers' extents.",
 ["inputs"],"every layer tree: nesting, visibility, opacity, mask, clipping and blend-mode combination",
 "composite has a benchmark only; no composed pixel is asserted anywhere.",
 ["composite/renderer.go","composite/builder.go","composite/draw.go","composite/layerimage.go"],["Renderer.Render","drawLayer","registerClippingGroup","newTiledImage","newTiledMask"])
p("C12","Rendering is never stale after announced edits",
 "After any history of renders and of edits to visibility, opacity, blend mode or clipping-independent layer settings, each edit announced for its layer before the next render, a full render equals the render of a freshly built tree with the same settings. No earlier render, cached group or cached tile may influence the result.",
 ["histories"],"every interleaving of edits, announcements and renders on every tree",
 "The only composite test renders one unedited file repeatedly for timing.",
 ["composite/renderer.go"],["SetDirtyByLayer","setDirtyByLayerRecursive","setDirtyByLayerPassThrough","updateTile","updateCache","buildAreaMap"])
p("C13","Differential rendering equals full rendering",
 "Whenever the destination already holds the previous rendering, rendering only the differences after any announced edits leaves it identical to a full rendering. Regions no edit touched are left untouched by a differential render.",
 ["histories"],"every history of edits and differential or full renders",
 "Differential rendering is not exercised by any test.",
 ["composite/renderer.go"],["RenderDiff","updateTile","SetDirtyByLayer"])
p("C14","Cancellation is safe and loses nothing",
 "When a render is cancelled at any point it returns the abort error (or completes), and a later render, full or differential, gives the same image as if nothing had been cancelled, also when the cancelled one drew into another picture; an edit announced while a render is running takes effect in the next render. When building or transforming a tree or making its thumbnails is cancelled at any point, the call returns promptly with either an error or the complete result: it never hangs and never returns a tree with layers or a sheet with thumbnails missing.",
 ["schedules","fault_sequences","crash_points"],"every cancellation instant, number of workers and point at which an edit is announced",
 "No test cancels a context.",
 ["composite/context.go","composite/renderer.go","composite/layer.go","composite/layerimage.go"],["parallelContext.Wait","Renderer.render","createCanvas","createCanvasInner","Transform"])
p("C15","Results do not depend on tile size or CPU count",
 "For every file, a tree built with any tile size and any number of CPUs renders the same pixels over the same canvas, layer extents included. Layers at negative or unaligned positions are neither shifted, clipped nor duplicated by tiling.",
 ["configurations","inputs","schedules"],"every tile size, worker count, schedule and layer position",
 "The benchmark uses one tile size and never compares pixels.",
 ["composite/layerimage.go","composite/renderer.go","composite/layer.go"],["newTiledImage","newTiledMask","tiledImage.Render","Renderer.render","createCanvas"])
p("C16","Cloned and transformed trees are independent and equivalent",
 "A clone renders exactly like its original, and afterwards edits and renders of either never change the other; its structure, parents and clipping relations refer only to its own layers. An identity transform renders the same image, and a whole-pixel translation renders the image moved by that amount, leaving the original unchanged.",
 ["histories","inputs"],"every tree and every interleaving of edits on original and copy",
 "Clone and Transform are never called by a test.",
 ["composite/cloner.go","composite/layer.go"],["Tree.Clone","cloner.clone","Tree.Transform","transformRect"])
p("C17","Drawing geometry: clipping, alignment and overlap",
 "A draw changes only destination pixels inside the requested rectangle that have a corresponding source (and mask) pixel, pairs each with the right source and mask pixel, and does nothing when there are none, for every supported image type, offset and sub-image. Drawing an image onto itself (RGBA and NRGBA images that share memory included, where no image mask is used) behaves as if the source had been copied first, and the result never depends on the number of CPUs.",
 ["inputs","configurations","schedules"],"every rectangle, offset, image kind, overlap and worker count",
 "The tests draw whole aligned images with one CPU setting.",
 ["blend/draw.go","blend/util.go","blend/zblends.go","blend/zporterduffs.go"],["drawMask","clip","drawFunc.Parallel","drawFallbackFunc.Parallel"])
p("C18","Porter-Duff operators obey their algebra in every representation",
 "Every Porter-Duff operator (clear, copy, destination, over, in, out, atop, xor and their destination variants) gives, for every source and destination color and alpha, the coverage and color its definition prescribes up to rounding. Premultiplied, straight-alpha, uniform and generic image types agree with each other, and an alpha-only source drawn into an RGBA or NRGBA image is a black shape of that coverage.",
 ["inputs"],"every pair of colors and alphas, for every operator and image representation",
 "The tests compare a few fixed pictures for some operators with a loose tolerance.",
 ["blend/zporterduffs.go","blend/genporterduff.go"],["Clear","Copy","SrcOver","DestIn","XOR"])
p("C19","Blend modes follow their formulas in every representation",
 "For every blend mode, pair of colors and alphas, and opacity, the drawn color is the mode's published formula applied to the two colors, mixed with the uncovered parts of source and destination, with the usual union coverage, up to rounding. Straight-alpha, premultiplied and generic image types agree, a fully transparent source changes nothing, and a fully transparent destination receives the source.",
 ["inputs"],"every color pair, alpha pair and opacity for every mode and image representation",
 "The tests compare a picture or two per mode with a tolerance; boundary colors and alphas are not enumerated.",
 ["blend/zblends.go","blend/genblend.go","blend/util.go"],["Multiply","ColorBurn","SoftLight","Hue","Luminosity"])
p("C20","Color models convert totally and consistently",
 "Each of the library's color models accepts any color without panicking, returns a color of its own type, leaves colors of that type unchanged, and its result represents the input: opaque and translucent inputs keep their alpha and their color up to the model's resolution (luma for gray models). Every color's reported components never exceed its alpha.",
 ["inputs"],"every color of every type, transparent and translucent ones included",
 "color_test.go contains no test.",
 ["color/color.go"],["NGrayAModel","NGrayA32Model","NGrayA64Model","NRGBA128Model","NCMYKAModel","NCMYKA80Model","Gray1Model","Gray32Model"])
p("C21","Thumbnails and thumbnail sheets cover exactly the layers that have pixels",
 "Thumbnails exist exactly for the layers that have visible pixels, fit within the requested size with the layer's proportions, and show the layer's own non-transparent area. A thumbnail sheet holds each of them once, centered in its own cell, with cells inside the sheet and not overlapping, and the returned rectangle for a layer is that layer's cell.",
 ["inputs","schedules"],"every tree, size and worker count",
 "No test creates a thumbnail.",
 ["composite/thumbnail.go"],["Thumbnail","Thumbnails","ThumbnailSheet","trimUnusedArea"])
p("C22","A composite tree mirrors its document",
 "Building a composite tree from a well-formed 8-bit RGB file gives exactly the document's layers and groups: the same nesting and order, each with the file's visibility, opacity, blend mode, folder state, clipping and mask settings, its Unicode name or else its legacy name (read with the encoding the caller's detector supplies, which is shown the legacy names of all layers), the parent and the clipping base the document implies, and the document's canvas and overall extent. Files of another mode or depth and files the decoder refuses give an error; building from any bytes, and rendering what was built, neither panics nor hangs.",
 ["inputs"],"every layer tree, every combination of record settings, and every damaged file",
 "The only composite test renders one sample file for timing and looks at no field of the tree.",
 ["composite/builder.go","composite/layer.go","composite/cloner.go"],["New","buildLayer","registerClippingGroup","getLayerNameEncoding","createCanvas"])
p("C23","The exporter writes every layer that has pixels, once, and nothing else",
 "Running psdexporter on a well-formed file succeeds and leaves in the working directory exactly one PNG for every layer that has pixels, however deeply nested, hidden, clipped, outside the canvas or oddly named it is. The file is named by the zero-based positions that lead to the layer, each at least three digits wide and joined by underscores, and shows the layer's own rectangle with the layer's colors and alpha at 8-bit precision or better. Groups, layers with an empty rectangle and layers without all their color channels produce no file and do not keep other layers from being written.",
 ["inputs"],"every well-formed RGB, grayscale or CMYK file of any depth, every layer tree and every combination of layers with and without pixels",
 "psdexporter has no tests at all; the sample files have no layer without pixels next to one with pixels.",
 ["psdexporter/main.go","layer.go"],["processLayer","readLayerImage"])
p("C24","Independent work can run side by side",
 "Any number of goroutines may at the same time decode files, read the pixels and palettes of decoded documents, build trees, clone, render, transform and thumbnail a tree that nobody is editing, and draw from a shared source image onto destinations of their own. Each of these operations gives exactly what it gives when nothing else is going on, and no two of them race; trees and clones that are edited in turn keep showing their own settings.",
 ["schedules","inputs"],"every set of overlapping operations, every order in which they begin and end, every document",
 "The tests use one goroutine and one document at a time, and run without the race detector.",
 ["psd.go","layer.go","compress.go","picker.go","composite/renderer.go","composite/cloner.go","composite/layerimage.go","composite/thumbnail.go","blend/draw.go"],
 ["Decode","Tree.Clone","Renderer.Render","Thumbnails","drawMask"])
p("C25","Transformed trees show the document through the map",
 "A tree built with a transform matrix, or transformed later (also repeatedly, also with a gamma), shows the document through that affine map. Its canvas is the smallest rectangle of whole pixels that holds the image of the old canvas; a map that takes pixels to pixels (right-angle turns, mirrors, whole-pixel moves) moves every rendered pixel, mask and layer extent to its place; under any other invertible map a pixel that is farther from every layer edge and mask edge than the interpolation reaches shows the color of the place it comes from. Where pixels finer than the new ones are brought together, away from edges, their mean is shown, weighted by alpha and taken in the light that the gamma stands for; nothing is mixed along a direction that was not made smaller. The tree that was transformed is not changed.",
 ["inputs"],"every affine map, every document, every gamma, every tile size, every CPU count",
 "The tests render without a transform, or compare one scaling with a stored picture.",
 ["composite/layer.go","composite/layerimage.go","composite/builder.go"],
 ["New","Tree.Transform","transformRect","newScaledTiledImage","createImage","createImageGamma","restoreGamma","tiledMask.Transform"])
p("C26","Every platform reads and draws the same",
 "Built for a 32-bit machine, for WebAssembly, or with GopherJS's half in JavaScript (compress.inc.js), the library gives the results it gives on a 64-bit machine: every well-formed file of moderate declared sizes decodes to the same document, rows unpack to the same bytes, malformed rows, cut files and lengths that the platform's int cannot hold are refused with an error and without a crash or a hang, and trees, drawing operators and color conversions give the same pixels.",
 ["inputs","histories"],"every file and every operation, on every platform the source has code for",
 "The tests run on the machine that builds them; the files for the other platforms are not even compiled.",
 ["compress_other.go","compress_wasm_js.go","compress_js.go","compress.inc.js","layer.go","imageres.go","util.go","color/color.go","blend/zblends.go"],
 ["decodePackBits","decodePackBitsPerLine","decodePackBitsLines","readLayerInfo","readBytes","discard"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
