#!/usr/bin/env python3
"""Author's source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": files[0]}]
    a["hook_needed"] = "cfg(ocg_mc) shim included at the end of src/lib.rs" if hook else None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Image cache: exact accounting, never above capacity",
 "After every cache operation (insertion, replacement of an existing key, lookup, eviction, capacity change, graph execution or LUT query that uses the cache) the bytes reported as used equal the total size of the images held, the reported count equals their number, and used bytes never exceed the capacity. An execution stores the images of those evaluated nodes whose use_cache attribute is on, and no others, each counted at its actual size. No operation aborts, including one that offers an image larger than the capacity or works on a cache whose capacity is zero.",
 ["histories", "inputs"], "every sequence of cache operations over a small alphabet of keys, image sizes and capacities, up to a depth bound, plus histories of LUT queries and graph executions through a shared cache",
 "the accounting only drifts after particular orders of replacement, exact fit, shrink and refill; tests insert one image",
 ["src/cache.rs", "src/cache.cpp"], [("insert", "src/cache.rs"), ("evict_bytes", "src/cache.rs"), ("set_capacity_bytes", "src/cache.rs")],
 "used bytes, capacity and entry count of the cache", "bytes used vs. entries held", True)
prop("C02", "Image cache: lookups return the stored image, eviction is LRU",
 "A lookup returns exactly the image most recently stored under that key, or nothing if it was never stored or has been evicted. Images are evicted only to make room (or when the capacity shrinks or eviction is requested), least recently used first (storing and looking up both count as use), and no more of them than needed.",
 ["histories"], "every sequence of store, lookup, evict and resize operations over a small key/size alphabet up to a depth bound, compared with a list-based reference cache",
 "eviction order is a function of the whole history of uses, not of one call",
 ["src/cache.rs"], [("get", "src/cache.rs"), ("evict", "src/cache.rs")],
 "which keys are present after each operation and the pixels they return", "recency order", True)
prop("C03", "Caching never changes a result",
 "For every graph, every history of edits and executions (any nodes, any frames, several graphs sharing one cache) and every cache capacity, the result of an execution - node statuses, windows, channels, pixel data type, pixels, pending colour operations and pending deformers - equals the result of evaluating the same graph newly built with an empty cache of zero capacity. Image files are assumed not to change on disk.",
 ["histories", "configurations"], "every history of attribute edits, node choices, cache capacities and repeated executions up to a depth bound over a set of small graphs",
 "a stale or incomplete cache entry shows only when a specific earlier execution filled the cache",
 ["src/node/read_image.rs", "src/node/crop_image.rs", "src/node/merge_image.rs", "src/node/resample_image.rs", "src/node/viewer.rs", "src/colorlutimage.rs"],
 [("cache hit/miss paths of each caching node", "src/node/*.rs"), ("cache key", "src/node/traits.rs")],
 "output stream after each execution", "contents of the shared cache")
prop("C04", "Graph edits: nodes and input connections are exactly as requested",
 "After any sequence of creating, deleting, connecting and disconnecting, a node exists exactly if it was created and not deleted since, and each numbered input of an existing node has exactly the source last connected to it unless that input was disconnected or one of the two nodes was deleted since (node identifiers are assumed unique). One source may feed several inputs, edits of one input never affect another, and edits that name a node that does not exist leave the graph unchanged.",
 ["histories"], "every sequence of create, delete, connect and disconnect over a few node identifiers and input numbers up to a depth bound, compared with a map-based reference graph through node existence and through the executed result",
 "the wrong edge is dropped only for particular insertion orders and slot numbers",
 ["src/graph.rs", "src/graph.cpp", "src/graphiter.rs"], [("connect", "src/graph.rs"), ("disconnect_input", "src/graph.rs"), ("remove_node", "src/graph.rs")],
 "node existence and the output stream of an execution that makes every connection visible", "node table and edges")
prop("C05", "Executing any node evaluates its whole upstream graph correctly",
 "For every acyclic graph (shared inputs, branches of different length, one node feeding several inputs, unrelated nodes) and every node in it, execution succeeds and yields what the node computes from its inputs' results taken in input-number order, each upstream node evaluated on its own inputs (a merge uses its two lowest-numbered inputs, any other node its lowest-numbered one; further inputs change nothing). If the upstream graph contains a cycle, execution reports an error; it never hangs or aborts.",
 ["programs", "inputs"], "all directed graphs over up to four operation nodes with up to two inputs each (and every choice of the executed node), with two source images",
 "graph shape is a combinatorial space; the tests execute a few chains",
 ["src/graph.rs", "src/graphiter.rs"], [("execution order", "src/graph.rs"), ("upstream search", "src/graphiter.rs")],
 "execution status and output stream", None)
prop("C06", "Graph state, execution status and node status tell the truth",
 "A graph is dirty after any edit that changes it and clean only after a successful execution (a failed one leaves the state as it was); the status returned by an execution is also the one reported afterwards, an execution of an unknown node reports an error, and asking about a node that does not exist reports that it does not exist. Of the nodes an execution used, each reports the status of its own latest evaluation: warning when it had to fall back to the placeholder image (missing inputs, missing or unreadable file, disabled reader or merge), error when a file could not be written, valid otherwise.",
 ["histories"], "every sequence of edits and executions up to a depth bound over a small graph, compared with a reference state machine",
 "states are history-dependent and every edit call has its own code path",
 ["src/graph.rs", "src/node.rs"], [("state/status fields", "src/graph.rs"), ("node status", "src/node.rs")],
 "graph state, execution status and node status after every call", "graph state x status")
prop("C07", "Attributes: every write is read back, nothing else changes",
 "Every attribute of every node type starts at its documented default, reads back exactly the last value written to it with the matching type, and is unaffected by writes to other attributes, other nodes or other graphs and by executions. Names or types that the node does not have are reported missing, read as zero or empty text, and writing them changes nothing.",
 ["inputs", "histories"], "every node type x every attribute pair x a value alphabet including the extreme values of each type, and every read/write of unknown names and mismatched types",
 "there are about a hundred hand-written name/field table rows; a swapped row shows for one pair only",
 ["src/node/*.rs", "src/attrblock.rs", "src/graph.rs"], [("get/set attribute tables", "src/node/*.rs")],
 "attribute getters of the graph")
prop("C08", "Stream hash identifies the result",
 "Executing the same recipe (same node types, attributes, connections and frame) always yields the same stream hash and colour-operation hash, whatever the cache state, node identifiers, construction order or history. Two executions whose results differ in pixels, windows, pixel data type, pending colour operations or pending deformers have different stream hashes, with the single exception of unprocessed placeholder results, which always have hash zero.",
 ["inputs", "histories"], "every single-attribute change over a value alphabet in a set of graphs covering all node types, and all pairs of recipes in that set",
 "a forgotten field in a hash shows only for the pair of recipes that differ in that field",
 ["src/node/*.rs", "src/hashutils.rs", "src/deformer/*.rs", "src/colorop/*.rs"], [("attribute hashing", "src/node/*.rs"), ("node hash", "src/node/traits.rs")],
 "hash of the output stream and of its colour operations")
prop("C09", "Evaluation is non-destructive",
 "Once an execution has returned a result, nothing that happens later (editing or deleting nodes, executing other nodes, frames or graphs, changing or exhausting the cache) changes that result, and evaluating one branch never changes what another branch sharing the same upstream nodes produces.",
 ["histories"], "every history of edits and executions up to a depth bound over graphs with shared upstream nodes, re-reading every previously returned result after every step",
 "aliasing of shared pixel buffers needs a second user of the same buffer after a mutation",
 ["src/stream.rs", "src/graph.rs", "src/cache.rs", "src/ops/bake.rs"], [("shared pixel blocks", "src/stream.rs")],
 "all output streams held by the caller, and cached images")
prop("C10", "Disabled nodes are transparent and never leak an old result",
 "A disabled crop, resample, grade, transform, lens-distort or viewer node outputs its first input's image, windows, pending colour operations and pending deformers unchanged; a disabled reader or merge, and any node without inputs, works on the placeholder image (with its own pending operation, if it is an enabled grade, transform or lens-distort). The output of an execution never depends on what the graph executed before.",
 ["inputs", "histories"], "every node type x enable value x input count x preceding execution x input stream kind",
 "a stale output is visible only after an unrelated earlier execution of the same graph",
 ["src/node/*.rs", "src/graph.rs"], [("enable handling", "src/node/*.rs")],
 "output stream and statuses")
prop("C11", "Merge: per-pixel formula over the union of the data windows",
 "Merging foreground A (input 0) with background B (input 1) gives, for every pixel of the smallest window that covers both data windows, add: A+mix*B, over: A+(1-alphaA)*mix*B, multiply: A*mix*B in linear light, where pixels outside an image's data window are zero and a missing alpha is zero. The result is 32-bit float with B's display window and channels, in linear colour space, and pending colour operations and deformers of both inputs are applied exactly once.",
 ["inputs"], "every mode x mix value x pair of data/display window placements (overlapping, nested, touching, disjoint) x channel counts x pixel data types x pending operations on either side",
 "errors appear at particular window offsets (an off-by-one row) or data types",
 ["src/node/merge_image.rs", "src/ops/imagemerge.rs", "src/bbox/bbox2di.rs"], [("merge", "src/ops/imagemerge.rs")],
 "windows and pixels of the merged output stream")
prop("C12", "Crop: exactly the requested window",
 "Cropping to a window (one that ends before it starts counts as empty at its minimum corner) gives an image whose data window is the requested window (one pixel larger on every side with black-outside), whose pixels inside the overlap with the source are the source's pixels in linear 32-bit float with pending colour operations and deformers applied exactly once, and whose other pixels are zero. The display window becomes the crop window if reformat is on and otherwise stays as it was.",
 ["inputs"], "every crop window over a grid around the source window x reformat x black-outside x channel counts x data types x pending operations x cached or not",
 "a grid of windows larger, smaller, disjoint and degenerate is needed to see each boundary",
 ["src/node/crop_image.rs", "src/ops/imagecrop.rs", "src/pixelblock/pixelblock.rs"], [("crop_image_in_place", "src/ops/imagecrop.rs"), ("from_pixel_block", "src/pixelblock/pixelblock.rs")],
 "windows and pixels of the cropped output stream")
prop("C13", "Grade: the documented per-channel formula, and reverse undoes it",
 "For every enabled channel a grade maps v to (a*v+b)^(1/gamma) with a = multiply*(gain-lift)/(white-black) and b = offset+lift-a*black, blended with the input by mix; channels not enabled, and alpha by default, are unchanged. A grade with reverse on and the same settings undoes it where the graded values lie in 0..1, consecutive grades apply in graph order, and the parameters of one channel never influence another.",
 ["inputs"], "every parameter x channel x value alphabet (singles and pairs), process masks, mix values, gamma branches, chains of grades",
 "29 floating point parameters and 8 switches; a swapped channel or operand shows for one of them",
 ["src/ops/colorgrade.rs", "src/colorop/colorgrade.rs", "src/node/grade.rs"], [("grade_single", "src/ops/colorgrade.rs")],
 "baked pixels and colour-operation LUT of the output stream")
prop("C14", "Transform: pending deformers move positions as specified, invert undoes",
 "Applying a transform's pending deformer to positions scales, then rotates about the rotation centre, then translates them relative to the pivot, with the translation expressed as a fraction of the image window on each axis; a transform with invert on and the same values undoes it. Several transforms compose in graph order, only the x and y components of each position change, and baking samples each output pixel at the position the transform maps it from.",
 ["inputs"], "every combination of parameter alphabets (translate, rotate, centre, scale, pivot, invert) x window shapes x positions, and chains of up to three transforms",
 "axis mix-ups and composition order only show for asymmetric values",
 ["src/deformer/transform.rs", "src/math/xform.rs", "src/node/transform.rs", "src/deformutils.rs"], [("_apply", "src/deformer/transform.rs"), ("create_transform_2d", "src/math/xform.rs")],
 "positions returned by applying the output stream's deformers")
prop("C15", "Lens distortion: direction, parameters and windows are honoured",
 "A lens-distort node passes each of its parameters to the lens model unchanged and maps every position with the lens model's undistort or distort function according to its direction, relative to the image window; the opposite direction with the same parameters undoes it. Baking it samples each output pixel at the position given by the opposite mapping, over a data window that covers the mapped source data window.",
 ["inputs"], "every parameter over a value alphabet x direction x window shapes x positions, with a substitute lens model whose distortion is known in closed form",
 "the lens library is not available to the tests at all",
 ["src/node/lens_distort.rs", "src/deformer/tde4_classic.rs", "src/deformer/ldpk_utils.rs", "src/deformer/ldpk_utils.cpp", "src/deformutils.rs"], [("apply_slice_in_place", "src/deformer/tde4_classic.rs")],
 "positions and baked pixels of the output stream")
prop("C16", "Resample: size and pixels follow the power-of-two factor",
 "Resampling a non-empty image by factor f multiplies width and height by 2^f, rounded down (never below 1 or above 16384 pixels), keeps channels, pixel data type, colour space and pending operations, and every output pixel comes from the corresponding source location. Constant images stay constant, factor zero is the identity, and the result's data and display windows both start at the origin and have its size.",
 ["inputs"], "every factor in a range around zero x image sizes 1..5 on each axis x channels x data types x interpolation x cached or not",
 "rounding at odd and one-pixel sizes is never sampled",
 ["src/node/resample_image.rs", "src/ops/imageresample.cpp"], [("oiio_image_resample", "src/ops/imageresample.cpp")],
 "windows and pixels of the resampled output stream")
prop("C17", "Reading: pixels, windows and metadata of every supported file",
 "Reading an image gives the file's pixel values bit-exactly in the file's own pixel data type (8-bit, 16-bit, half, float; unsupported types fall back without aborting), padded with opaque alpha from three to four channels except for float, with data and display windows translated so that the display window starts at the origin and their relative placement is kept. Files that are missing, unreadable, corrupt or have fewer than three channels give the placeholder image with a warning, never an abort.",
 ["inputs", "fault_sequences"], "every file of a generated set: formats x pixel types x channel counts x window placements, plus every truncation length of a small file and directories, empty and non-image files",
 "tests read a handful of well-formed images; offsets, odd channel counts and truncations are not sampled",
 ["src/imageio.cpp", "src/oiio_utils.cpp", "src/imageio.rs", "src/node/read_image.rs"], [("oiio_read_image", "src/imageio.cpp"), ("oiio_allocate_image", "src/oiio_utils.cpp")],
 "output stream of a reader node")
prop("C18", "Writing: the file holds the graph's image, and failures are reported",
 "Executing a writer produces a file that reads back with the same windows (cropped to the display window when asked to, or by default for formats without windows), channels, requested pixel data type and pixel values of the fully baked input up to the precision of the format, for every lossless compression setting, in sRGB for JPEG and PNG files and linear for all others whatever the case of the file extension, stored with the requested compression, and passes its input through as its own output. If the file cannot be written the node reports an error instead of success, and a disabled or non-executing writer writes nothing.",
 ["inputs", "fault_sequences"], "every format x pixel data type x compression x crop option x input windows, and every unwritable destination kind",
 "the cross product of options is not sampled and no test makes a write fail",
 ["src/node/write_image.rs", "src/imageio.cpp", "src/imageio.rs", "src/oiio_utils.cpp"], [("oiio_write_image", "src/imageio.cpp"), ("do_image_process", "src/node/write_image.rs")],
 "the written file, node status and output stream")
prop("C19", "Frame numbers expand in file paths, for every pattern and frame",
 "The first run of '#' in a file path is replaced by the frame number (rounded to the nearest integer) zero-padded to the run's length, sign included, and never truncated, after environment variables and a leading '~' have been expanded; a path without '#' names the same file for every frame and the rest of the path is kept unchanged. Evaluating several frames uses each frame's own file, and both readers and writers use the same expansion.",
 ["inputs"], "every path over a small alphabet of characters up to a length bound x frames including zero, negative, fractional and more digits than padding",
 "token grammar errors need specific adjacency of characters and digits counts",
 ["src/pathutils.rs", "src/node/read_image.rs", "src/node/write_image.rs"], [("expand_string", "src/pathutils.rs")],
 "which file is read or written", None, True)
prop("C20", "Pixel data: type conversion and byte buffers are exact",
 "Converting pixel data from one data type to another maps the type's full range onto the other's (white to white, black to black), keeps order, loses nothing when the target type can represent the value (so integer values survive a trip through a wider type), and leaves width, height and existing channels in place. The byte buffer handed to callers covers every pixel of the image in its data type.",
 ["inputs"], "all 256 8-bit values, all 65536 16-bit values and all 65536 half-float patterns x every ordered pair of data types x channel counts",
 "tests convert a few pixels; truncation is off by one for about half of the code values",
 ["src/pixelblock/utils.rs", "src/pixelblock/pixelblock.rs", "src/pixelblock/datablock.rs", "src/stream.rs"], [("convert_into_data_type", "src/pixelblock/pixelblock.rs")],
 "byte buffer, size and data type of output streams")
prop("C21", "Colour LUTs sample the same transform the bake applies",
 "A colour-operation LUT of a stream equals those operations applied to the identity lattice (red fastest, then green, then blue), for one or three channels and every edge size from two up; a colour-space LUT equals the colour-space conversion of the identity lattice. Asking twice, with or without a cache, gives the same LUT, and LUTs of streams with different colour operations are never mixed up.",
 ["inputs", "histories"], "every edge size in a range x channels x pairs of colour spaces x grade alphabets x cache histories",
 "lattice order and cache keys need several distinct requests in sequence",
 ["src/colorlutimage.rs", "src/colorlutimage.cpp"], [("generate_identity_3dlut", "src/colorlutimage.rs"), ("get_color_ops_lut", "src/colorlutimage.rs")],
 "returned LUT image")
prop("C22", "Plane geometry buffers are consistent for every division count",
 "For every number of divisions from two up the reported buffer sizes are exactly what the fill functions write, positions form a regular grid that spans the plane's size around its centre and texture coordinates one that spans the unit square, every index refers to an existing vertex, and the triangles cover every grid cell exactly once with consistent winding while border and wire lines are exactly the outline and all cell edges.",
 ["inputs"], "every pair of division counts in a range x centres x sizes",
 "tests use one or two division counts",
 ["src/geom/plane.rs", "src/geom.rs"], [("fill_buffer_*", "src/geom/plane.rs")],
 "filled buffers")
prop("C23", "Configuration: search path, clamping and fallback",
 "The first directory of the configuration search path that contains the named file decides the configuration, and without one the built-in defaults apply. The cache share of memory is the configured fraction clamped to 0..1, the byte budget is that share of the system memory, and a malformed or unreadable file falls back to the defaults instead of aborting.",
 ["configurations", "inputs"], "every memory share in an alphabet x search path shapes x file contents (valid, partial, malformed, empty, unreadable)",
 "process environment and broken files are never varied by tests",
 ["src/config.rs", "src/config.cpp", "src/systemmemory.cpp"], [("ram_capacity_percent", "src/config.rs"), ("get_config_path", "src/config.rs")],
 "percentage and byte capacity of the configuration")
prop("C24", "Viewer: what is baked plus what is still pending is the same picture",
 "For every bake option the viewer's output - its pixels followed by whatever colour-space conversion, colour operations and deformers it reports as still pending - is the same picture as the fully baked one, in the requested colour space and pixel data type, and nothing is applied twice or dropped. Crop-to-format additionally restricts a baked image to the display window.",
 ["inputs", "histories"], "every bake option x data type x colour space x crop-to-format x upstream chain (reader, grade, transform, lens, merge, crop) x cached or not",
 "double application shows only on a cache hit with a particular option",
 ["src/node/viewer.rs", "src/ops/bake.rs"], [("do_viewer_bake", "src/node/viewer.rs"), ("do_process", "src/ops/bake.rs")],
 "output stream of a viewer")
prop("C25", "Frames: executing a list equals executing each frame in order",
 "Executing a list of frames leaves the same output, statuses, cache contents and written files as executing those frames one by one; integer and floating-point frame lists agree, an empty list evaluates nothing and succeeds, and a frame that fails ends the list there with an error.",
 ["histories", "inputs"], "every frame list over a small frame alphabet up to a length bound x graphs with frame-dependent readers and writers x cache capacities",
 "tests use one list of frames",
 ["src/graph.rs", "src/graph.cpp"], [("execute", "src/graph.rs")],
 "output stream, statuses, files")
prop("C26", "No call aborts the host, every result is well formed",
 "For every sequence of calls, including calls that name nodes, attributes or inputs that do not exist, and every attribute value (documented options, any number including infinities and NaN, any text) and every frame, calls return: nothing aborts, hangs or leaves the library unusable - an unrelated graph evaluates to the same result before and after. Every output stream is well formed: its pixel buffer holds exactly width x height x channels values of its data type, its data window has the size of its pixels, and its display window is not inverted. Option values outside their documented range and numbers that ask for images beyond the memory of the machine are outside this property.",
 ["inputs", "histories"], "every attribute of every node type x an alphabet of hostile values x inputs x following nodes, all pairs of attributes over a reduced alphabet, hostile frames x path patterns, and every sequence of valid and invalid calls up to a depth bound",
 "tests use sensible values; an abort across the language boundary kills the host application, and needs one odd value in one place",
 ["src/cxxbridge.rs", "src/graph.rs", "src/node/*.rs", "src/ops/*.rs", "src/pixelblock/pixelblock.rs"], [("panic across the bridge aborts", "src/cxxbridge.rs"), ("pixel block and window sizes", "src/pixelblock/pixelblock.rs")],
 "that each call returns; sizes, windows and buffer of the output stream")
prop("C27", "Names and identifiers: different names are different nodes",
 "A node created under a name has the identifier of that name, which is the same every time; different names have different identifiers (case, spaces, length and every single character count), so creating, editing or deleting one named node never touches another. Nodes created without a name get identifiers that no other node has. A node handle reports the type it was created with.",
 ["inputs"], "all names up to a length bound over several alphabets, numbered names, names of up to 300 characters that differ in one or two places; all pairs compared",
 "a collision needs one pair of names out of billions",
 ["src/hashutils.rs", "src/graph.cpp", "src/node.cpp"], [("generate_id_from_name", "src/hashutils.rs"), ("create_node", "src/graph.cpp")],
 "node identifiers, node existence and attributes")
prop("C28", "Metadata travels with the image",
 "The pixel aspect ratio and other metadata that a reader takes from a file (gamma, orientation, alpha association) stay with the image through every node, enabled or disabled, baked or not, cached or not, and reach the file a writer writes; a merge carries those of its background (B), the placeholder image has the defaults.",
 ["configurations", "inputs"], "every chain of up to three nodes out of all node types with several settings, over files of four pixel aspects, with and without a cache, executed repeatedly and written to a file",
 "metadata is copied by hand in every node and every cache path; a path that drops it shows only for files with unusual metadata",
 ["src/imagespec.rs", "src/node/*.rs", "src/ops/bake.rs", "src/ops/imagemerge.rs", "src/cache.rs", "src/oiio_utils.cpp"], [("image spec copies", "src/node/*.rs"), ("CachedImage", "src/cache.rs")],
 "image spec of the output stream; pixel aspect of the written file")
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
