"""Single source of properties.jsonl and MANIFEST.json (python3 spec.py regenerates both)."""
import json, os
TECH = "symbolic execution of the library's LLVM IR with an SMT solver (bounded), replay of counterexamples on the native build"
LEVEL = "Bounded: every value of the symbolic inputs within the stated bounds; concretely enumerated shapes around them. Trusts clang's IR, the executor, Z3 and the models of the file system, clock, zlib and other libraries in harness/."


def P(id, title, statement, over, qtext, why, files, mech, observe, note="", state=None, technique=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, note=note, state=state, technique=technique)


SPEC = [
P("C01", "Every successfully written file is a structurally valid PDF container",
  "Whenever writing a document reports success, the file is a well-formed PDF: correct header, every cross-reference entry (classic table or stream) points at the object it names, every indirect reference resolves, no dictionary has a repeated key, every stream's declared length and filters match its bytes, and object numbers, trailer size and the page tree's counts and parents are consistent. This holds for every combination of document features, of page and object counts, and for both plain and compressed output.",
  ["programs", "configurations", "inputs"], "all combinations of the library's document features used in one document, all PDF versions/subtypes that change the container, both output modes, and the symbolic values inside each feature",
  "The test suite writes a few dozen fixed documents and renders some; it never re-reads the file structure, and container errors in other feature combinations or sizes are invisible to it.",
  ["src/pdfwriter.cpp", "src/document.cpp", "src/objectformatter.cpp", "src/pagebuilder.cpp"],
  [("object writing and cross-reference generation", "src/pdfwriter.cpp PdfWriter::write_to_file_impl, write_objects, write_cross_reference_table"), ("object streams and the xref stream", "src/pdfwriter.cpp write_main_objstm / write_cross_reference_stream"), ("object text formatting", "src/objectformatter.cpp")],
  ["the bytes of the written file, re-read by an independent strict parser"]),
P("C02", "Strings, names and byte data reach the file unchanged whatever they contain",
  "Every text string, name, ASCII string and byte string accepted from the caller is recovered exactly when the written file is read back according to the PDF syntax rules: literal strings, names, hexadecimal and text-string encodings escape whatever they must. This holds for every place a caller's string is stored, in the document's dictionaries, name trees and content streams alike.",
  ["inputs", "configurations"], "every string-valued entry point, all byte values at every position of strings up to the bound, both output modes",
  "Tests use ordinary words; delimiters, parentheses, backslashes, '#', line ends and multi-byte characters in each of the ~35 places where a string is stored are never combined.",
  ["src/utils.cpp", "src/objectformatter.cpp", "src/pdfcommon.cpp", "src/document.cpp", "src/pdfwriter.cpp", "src/drawcontext.cpp"],
  [("string and name escaping", "src/utils.cpp pdfstring_quote, bytes2pdfstringliteral, utf8_to_pdfutf16be, u8str2filespec"), ("object formatter tokens", "src/objectformatter.cpp add_token, add_pdfstring")],
  ["dictionary values, name tree keys and content stream operands of the written file"]),
P("C03", "Exactly the valid strings are accepted by every entry point",
  "An entry point that takes text accepts a string if and only if it is well-formed UTF-8 without NUL bytes; one that takes ASCII or a restricted name accepts exactly the strings of that kind; the verdict does not depend on whether the string was passed NUL-terminated or with an explicit size, sizes below -1 are rejected, and no byte beyond the stated size is ever read.",
  ["inputs"], "all byte strings up to the bound at every string-valued entry point, passed both ways, and all negative sizes",
  "The tests try one or two invalid strings; overlong forms, surrogates, truncated sequences at the end of the buffer and unterminated buffers need all byte values at all positions.",
  ["src/capi.cpp", "src/utils.cpp", "src/pdfcommon.cpp"],
  [("argument validation", "src/capi.cpp validate_utf8, validate_ascii, validate_cstring, validate_pdfname"), ("UTF-8 validator", "src/utils.cpp is_valid_utf8")],
  ["error codes returned by the public C API", "memory accesses"]),
P("C04", "Every drawing call appends exactly its operator and operands, or nothing",
  "Each drawing or text call that reports success appends exactly the PDF operator it stands for with the operands it was given (colour components clamped to their range) and nothing else; a call that is rejected leaves the content stream unchanged. Rejections happen for exactly the values outside the operator's documented range. The finished content stream of every kind of drawing context is a sequence of well-formed operators with properly nested graphics-state, text and marked-content sections, and only such sequences can be added to the document.",
  ["inputs", "histories"], "all finite operand values of a dense grid (13 symbolic bits per operand: sign, 4 exponent bits, 8 mantissa bits), every drawing call in each of the four context kinds, all enumeration values including those outside the range, and all sequences of nesting operations up to the bound",
  "Tests issue a few operator sequences with fixed operands and compare rendered pixels; swapped operands, wrong rejections, leftovers after failed calls and illegal nesting orders are not rendered.",
  ["src/drawcontext.cpp", "src/commandstreamformatter.cpp", "src/capi.cpp"],
  [("operator emission", "src/drawcontext.cpp PdfDrawContext::cmd_*, serialize_*, render_text"), ("nesting state", "src/commandstreamformatter.cpp indent / dedent")],
  ["content streams of pages, form XObjects, transparency groups and tiling patterns", "return codes"], note="Operand values are restricted to numbers a six-decimal text determines; NaN and infinities are outside the statement."),
P("C07", "Writing replaces the destination atomically and durably, or leaves it untouched",
  "Whatever file operation fails and wherever the process dies while a document is written, the destination holds either its previous contents (or stays absent) or the complete new document; it is replaced only after the new contents have been flushed to stable storage; success is reported if and only if the replacement happened, and no other file is modified.",
  ["crash_points", "fault_sequences", "configurations"], "every file operation of a write as the point of failure (hard failure or short write) and as the crash point, with and without a previous destination and a stale temporary file, several file names, both output modes and both cross-reference forms",
  "Tests write to a healthy disk and never fail or interrupt an operation.",
  ["src/pdfwriter.cpp"],
  [("temporary file, fsync and rename", "src/pdfwriter.cpp PdfWriter::write_to_file")],
  ["sequence of file operations", "contents of the destination after each of them", "return code"]),
P("C06", "Ids are accepted iff they name an object, and references hit that object",
  "A call that takes the id of an image, font, graphics state, pattern, colour space, structure item, annotation or any other object succeeds if and only if the id names an object of that kind created earlier in the same document; a rejected id leaves the document usable. When accepted, the written file refers at that place to exactly the object the id names, whatever other objects were created before and after it.",
  ["inputs", "histories"], "all 32-bit id values at every id-taking entry point, in documents where every kind has a different number of objects created in interleaved order",
  "Tests always pass ids they just received, in documents with one or two objects of each kind, so an id of the wrong kind, an off-by-one or a swapped table gives the same answer.",
  ["src/capi.cpp", "src/generator.cpp", "src/document.cpp", "src/drawcontext.cpp"],
  [("id tables and bounds checks", "src/document.cpp / src/drawcontext.cpp CHECK_INDEXNESS, get(id)"), ("references written for ids", "src/drawcontext.cpp cmd_*, build_resource_dict; src/pdfwriter.cpp")],
  ["return codes", "objects the written file refers to"]),
P("C08", "Enumerations, flags and booleans are validated and written as what they name",
  "Every enumeration or boolean argument is written to the file as the PDF name or value that the enumerator stands for. Any value outside the enumeration is refused with an error by that call or at the latest when the document is written, and then no file is produced and nothing crashes.",
  ["inputs"], "all 32-bit values of every enumeration and boolean argument of document, page, graphics state, image, shading, annotation, transition, form, collection, structure and colour calls",
  "Tests use one or two enumerators per call and none outside the range; a shifted table entry or a setter that stores into the wrong field still renders.",
  ["src/capi.cpp", "src/document.cpp", "src/pdfwriter.cpp", "src/utils.cpp", "src/pdfcommon.cpp"],
  [("argument checks", "src/capi.cpp CHECK_BOOLEAN, CHECK_ENUM_ARG"), ("name tables", "src/document.cpp *_names, src/pdfcommon.cpp structure_type_names, src/utils.cpp transition_names, src/pdfwriter.cpp line_ending_styles")],
  ["return codes", "dictionary entries of the written file"], note="Drawing operators' enumerations are in C04. Reserved annotation flag bits are outside the statement."),
P("C18", "Structure tree, marked content and parent tree agree with each other",
  "In every written document the structure tree contains exactly the structure items the caller created, with the parents, children order, types and role mapping the caller gave. Each item used on a page names that page and the marked content id under which it appears in that page's content stream, and the parent tree entry of the page leads from every marked content id back to that item; pages without structure content have no entry. Uses that cannot be recorded are refused and leave no trace.",
  ["histories", "inputs"], "all forests of structure items up to the bound, every assignment of items to pages (including pages that are never added), content marked directly or inside text objects, in either order, with each kind of refused use in between",
  "The one tagged-PDF test writes a single small tree and compares rendered pixels, where the structure tree is invisible.",
  ["src/document.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp"],
  [("structure parent bookkeeping", "src/document.cpp add_page, create_structure_parent_tree, create_structure_root_dict, add_structure_item"), ("marked content ids", "src/drawcontext.cpp cmd_BDC, add_bcd_structure"), ("structure item objects", "src/pdfwriter.cpp write_delayed_structure_item")],
  ["StructTreeRoot, StructElem and ParentTree objects", "marked content operators in page content streams", "return codes"]),
P("C19", "Outlines and destinations lead where the caller pointed them",
  "The outline tree of a written document has exactly the items the caller added, under the parents given and in the order of creation, with correct First, Last, Next, Prev, Parent and Count entries. Each item carries its title, colour, flags and destination, and a destination written anywhere names the page and the view (position, zoom or rectangle) the caller set, with unset coordinates left open.",
  ["histories", "inputs"], "all outline forests up to the bound with refused additions in between; all destination kinds with symbolic page numbers and coordinates",
  "Tests add one fixed outline tree and never read the links or counts back.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/capi.cpp"],
  [("outline tree links and counts", "src/document.cpp create_outlines, write_outline_tree; src/pdfwriter.cpp"), ("destination arrays", "src/document.cpp serialize_destination")],
  ["outline item dictionaries", "destination arrays", "return codes"]),
P("C20", "Pages carry exactly the properties, annotations and labels set for them",
  "Every page of a written document appears in the order added and carries exactly the boxes, user unit, transition, presentation steps, viewports and annotations that the caller set for it or, for boxes, the document default; none of these leaks to another page. Page labels form a valid number tree that gives each page the style, prefix and number set for its range, whatever the order of the calls, and contradictory or reused objects are refused.",
  ["inputs", "histories", "configurations"], "symbolic box coordinates and user units in every combination of document and page overrides; all annotation kinds with symbolic rectangles and flags; all orders of label calls with symbolic start pages and numbers; all transition fields; viewports and sub-page navigation",
  "Tests set one property on one page; combinations, overrides, order and leakage into neighbouring pages are not looked at.",
  ["src/document.cpp", "src/pdfwriter.cpp", "src/drawcontext.cpp", "src/capi.cpp"],
  [("page dictionary", "src/document.cpp add_page; src/pdfwriter.cpp write_delayed_page"), ("annotations", "src/pdfwriter.cpp write_annotation"), ("page labels", "src/document.cpp add_page_labeling, create_catalog"), ("transitions and navigation", "src/drawcontext.cpp / src/document.cpp write_nav steps")],
  ["page dictionaries", "annotation dictionaries", "PageLabels in the catalog"]),
P("C24", "Content streams name only resources defined for them, and the chosen ones",
  "Every name used as an operand in the content stream of a page, form XObject, transparency group or tiling pattern is defined in that stream's own resource dictionary under the category the operator requires, and leads to exactly the image, group, graphics state, shading, pattern, colour space or optional content group the caller chose. Colour operators have as many components as the selected colour space needs.",
  ["histories", "programs"], "all pairs of 14 resource-using operations in each of the four context kinds, with refused operations or other contexts' use in between",
  "Tests use one resource at a time, mostly on a page; a resource that is missing or mixed up in another context kind or in combination with another still renders in the sampled cases.",
  ["src/drawcontext.cpp", "src/document.cpp"],
  [("resource tracking", "src/drawcontext.cpp used_* sets, build_resource_dict"), ("resource dictionaries of groups, forms and patterns", "src/document.cpp add_form_xobject, add_transparency_group, add_tiling_pattern")],
  ["resource dictionaries", "content streams"]),
P("C21", "A draw context is added whole and once, or stays as it was",
  "Adding a page, form XObject, transparency group or tiling pattern succeeds only for a context of that kind, of that document, with all saved states and sections closed; the object written then holds everything drawn and set on the context. A refused addition or setting leaves the context intact, so it can be completed and added later; after a successful addition the context is as good as new; contexts never added leave no trace.",
  ["histories", "inputs"], "all combinations of context kind, adder, document, kind of unclosed section and attribute set; symbolic bounding boxes, matrices and operands; every context is reused once and compared with a fresh one",
  "Tests add each context once, correctly; contents lost by a refused addition or left over for the next object are never looked for.",
  ["src/generator.cpp", "src/document.cpp", "src/drawcontext.cpp", "src/capi.cpp"],
  [("adders", "src/generator.cpp add_page, add_form_xobject; src/document.cpp add_tiling_pattern, add_transparency_group"), ("reset", "src/drawcontext.cpp PdfDrawContext::clear"), ("serialisation of the context", "src/drawcontext.cpp PdfDrawContext::serialize")],
  ["return codes", "page, form XObject and pattern objects of the written file"]),
P("C26", "Graphics states, functions, shadings and colour spaces keep their parameters",
  "A graphics state, halftone, function, shading, shading pattern, Lab or separation colour space written to the file has exactly the parameters the caller set, each under its own key, with alphas and colour components clamped to their range and unset parameters absent. Changing or destroying the caller's object after it was added changes nothing. Inconsistent objects (colours of different spaces, no functions, a separation without a calculator function, out-of-range tolerances) are refused.",
  ["inputs", "configurations"], "symbolic values for every numeric parameter (function, shading and matrix arrays of all permitted lengths up to the bound), every graphics state key alone, in pairs and together, overwritten or not; all three device colour spaces",
  "Tests set one or two keys with fixed values and compare pixels; most keys have no visible effect in the rendered test pages.",
  ["src/capi.cpp", "src/document.cpp", "src/pdfcommon.hpp"],
  [("graphics state dictionary", "src/document.cpp add_graphics_state"), ("function dictionaries", "src/document.cpp serialize_function"), ("shading dictionaries", "src/document.cpp add_shading, serialize_shading"), ("colour spaces", "src/document.cpp add_lab_colorspace, create_separation")],
  ["ExtGState, function, shading, pattern and colour space objects of the written file", "return codes"]),
P("C17", "Mesh shadings decode to the vertices, patches and colours given",
  "Read with the bit widths, Decode array and colour space it declares, the stream of a mesh shading yields exactly the triangles or Coons patches the caller added, in order, with their edge flags, coordinates and colours to within the encoding's resolution; points outside the declared rectangle are moved to its edge. A continuation before any element, an unknown edge flag, an element of the other shading type, a colour of another colour space or an empty rectangle is refused with an error.",
  ["inputs", "histories"], "all sequences of up to three element additions including refused ones with symbolic flags; each coordinate position and colour component in turn symbolic (9 bits, reaching outside the range) in ascending, descending and empty rectangles; every colour kind at every position",
  "The one mesh test of each type uses a fixed small mesh in a fixed rectangle and no continuation patches.",
  ["src/document.cpp", "src/capi.cpp", "src/pdfcommon.hpp"],
  [("mesh stream encoding", "src/document.cpp serialize_shade4, serialize_shade6, append_floatvalue"), ("element entry points", "src/capi.cpp capy_type4_shading_*, capy_type6_shading_*, grab_coons_data")],
  ["shading stream objects of the written file", "return codes"], note="Symbolic coordinates lie on a 1/256 grid of the rectangle and in rectangles with power-of-two sides."),
P("C22", "Embedded files are found by name with their exact contents",
  "Every embedded file of a written document is listed exactly once, under the name given, in the sorted embedded-files name tree and among the associated files; each entry leads to a stream with exactly the bytes and media type given or loaded from disk, and a file attachment annotation leads to the file it was made for. A second file of the same name and a file that cannot be read are refused without trace. A portfolio's view, default document and schema fields are those set.",
  ["inputs", "histories", "configurations"], "up to three files in any order of symbolic names, with symbolic contents, set or loaded, changed after embedding, duplicated; ordinary and PDF/A-4f documents; schemas of up to three fields with every combination of optional entries",
  "Tests embed one file; sorting, duplicates, the association between name, bytes and attachment in larger sets and changed source objects are not exercised.",
  ["src/document.cpp", "src/capi.cpp", "src/utils.cpp"],
  [("embedding", "src/document.cpp embed_file, create_name_dict, create_AF_dict, sort_names"), ("portfolio dictionary", "src/document.cpp create_catalog, set_collection"), ("file loading", "src/utils.cpp load_file_as_bytes")],
  ["EmbeddedFiles name tree, AF array, Filespec and EmbeddedFile objects", "Collection dictionary", "return codes"]),
P("C23", "Document information and conformance marks are those requested",
  "The information dictionary of a written document has exactly the title, author, creator and language given, with the given dates; the document identifies itself as the PDF/X or PDF/A level asked for and no other, with the output intent's identifier and colour profile, and with XMP metadata that is well-formed XML for every text and agrees with the dictionary. A conformance level, or the CMYK colour space, without the colour profile and identifier it needs is refused.",
  ["configurations", "inputs"], "every PDF/X and PDF/A level and none, with and without the required profiles; symbolic texts, including XML metacharacters and control characters, in every text property",
  "Tests produce one PDF/X and one PDF/A document with plain ASCII texts.",
  ["src/document.cpp", "src/capi.cpp", "src/pdfwriter.cpp", "src/xmlformatter.cpp"],
  [("info dictionary and XMP", "src/document.cpp generate_info_object, add_document_metadata_object"), ("output intent", "src/document.cpp create_output_intent")],
  ["Info dictionary, XMP metadata stream, OutputIntents, Catalog /Lang and /MarkInfo"], note="The PDF version header of PDF/A-1..3 files and the XMP title and author of PDF/A files are outside the statement."),
P("C14", "Raster images keep the size, samples and transparency they were built with",
  "An image built from samples appears in the file as an image XObject with exactly the given width, height, depth, colour space and samples, its alpha data as a soft mask of the same size, the requested interpolation, or as a stencil mask if that was asked for. Data given in compressed form is stored unchanged. Images whose data does not match their size and depth, masks that are not one-bit gray, and images the document's standard forbids are refused, as is adding the same image twice.",
  ["inputs", "configurations"], "all sample values of images of several sizes, every colour space, depth and alpha depth, arbitrary 32-bit sizes and depths against fixed data, masks, interpolation modes, compressed input, and PDF/X and PDF/A documents",
  "Tests render a handful of 8-bit images; padding of rows, unusual depths, alpha of another depth, mis-sized data and state left in the builder do not occur.",
  ["src/document.cpp", "src/capi.cpp", "src/generator.cpp"],
  [("image objects", "src/document.cpp add_image, add_mask_image, add_image_object"), ("image builder", "src/capi.cpp capy_raster_image_builder_*")],
  ["image XObjects and soft masks of the written file", "return codes"], note="Compressed input is trusted to have the right uncompressed size."),
P("C15", "Image files load with the pixels, alpha and profile they hold, or are refused",
  "Loading a PNG, TIFF or JPEG file, from disk or memory, gives an image with that file's size, colour space, samples (scaled to eight bits, or one bit for black and white palettes), alpha channel and ICC profile; JPEG data is embedded unchanged. Files are recognised by extension or else by signature, and every damaged, unsupported, unrecognised or missing file is refused with an error, without crashing and without leaking decoder objects.",
  ["inputs", "configurations", "fault_sequences"], "PNG files of every colour type and bit depth, palettes of one to four entries with and without transparency, TIFF files with arbitrary photometric, depth, layout and channel counts, JPEG files with arbitrary colour space and precision, all first bytes and lengths of unnamed files, and decoder errors at each stage",
  "Tests load a few ordinary files; 16-bit or packed samples, short alpha tables, missing TIFF fields, planar layouts, CMYK JPEG with a profile and truncated files do not occur.",
  ["src/imagefileops.cpp", "src/document.cpp", "src/generator.cpp"],
  [("decoding", "src/imagefileops.cpp do_png_load, do_tiff_load, load_jpg_metadata"), ("format detection", "src/imagefileops.cpp load_image_file, load_image_from_memory"), ("JPEG embedding", "src/document.cpp embed_jpg")],
  ["image XObjects of the written file", "return codes", "decoder objects alive after the call"], note="libpng, libtiff and libjpeg are replaced by models of their interfaces. PNG colour keys (tRNS of gray and RGB images) are outside the statement."),
P("C16", "Colour conversions use the right profiles, and ICC profiles are stored exactly",
  "Converting an image to another colour space transforms every pixel once from its embedded profile, or else the document's profile for its colour space (or the built-in one), to the document's profile for the target, with the requested intent; alpha is kept, the source image is unchanged, and images that cannot be converted are refused without reading outside their data. ICC profiles added to a document are stored byte for byte with their channel count and are refused if invalid or of another channel count, as are unsuitable device profiles.",
  ["inputs", "configurations"], "all pixel and alpha values; every source and target colour space, intent, set of device profiles and kind of embedded profile; arbitrary sizes and depths against fixed data; sequences of three profile additions",
  "Tests convert one or two images and look at the rendering; a wrong intent, profile or alpha handling is hardly visible, and mismatched profiles and data sizes are not tried.",
  ["src/colorconverter.cpp", "src/document.cpp", "src/capi.cpp"],
  [("image conversion", "src/colorconverter.cpp convert_image_to"), ("profile loading", "src/colorconverter.cpp construct; src/document.cpp add_icc_profile, load_icc_file")],
  ["converted images and ICC streams of the written file", "return codes", "memory accesses"], note="The colour transform of lcms is replaced by a function of the two profiles, the formats and the intent; profile parsing is done by lcms itself."),
P("C11", "Embedded TrueType subsets hold exactly the glyphs used, in a well-formed font",
  "The embedded font program parses as a TrueType file with sorted, aligned, non-overlapping, checksummed tables and with head, maxp, loca, glyf and hmtx tables that agree with each other. It holds, unchanged, the outline, metrics, hinting programs and (recursively) the component glyphs of every character shown and of .notdef, with component references renumbered to the subset; for variable fonts it holds the outlines of the instance that was selected.",
  ["inputs"], "eight-glyph fonts with symbolic outline, metric, component argument and table bytes, every component flag combination and nesting of two, short and long loca, plain and collection files, optional tables in any combination, up to three characters shown in any order, and variable outlines of up to three points",
  "Tests render a few real fonts; a wrong checksum, a misnumbered component, lost hinting data or trailing metrics only matter for other fonts and stricter readers.",
  ["src/ft_subsetter.cpp", "src/fontsubsetter.cpp", "src/document.cpp"],
  [("subset writer", "src/ft_subsetter.cpp generate_font, serialize_font"), ("glyph choice", "src/fontsubsetter.cpp handle_subglyphs")],
  ["the embedded font program of the written file", "return codes", "memory accesses"], note="FreeType is a model that answers from the same font description the font file was built from."),
P("C13", "Text shows the right glyphs, extracts as the original text and is measured right",
  "Text given as strings, code points, raw glyphs, ligatures, kerning and actual text, in any order and with any fonts, is written so that each code selects the outline and width of its glyph in the font in force, kerning and marked spans are in place, and the ToUnicode map (with valid blocks and UTF-16 values) yields the original text. Characters that a font lacks and invalid code points are refused without a trace; text widths are the sum of advances and kerning; font descriptors are in glyph space.",
  ["inputs", "programs"], "sequences of up to two items (three in the thorough tier) of every kind over an eight-glyph font with characters from all planes; two fonts used in any order; up to 101 characters in one font; several sizes and units per em",
  "Tests compare renderings, which do not show the text that is extracted, and they never reuse one glyph for two texts, one text for two glyphs, several fonts or characters outside the BMP.",
  ["src/fontsubsetter.cpp", "src/drawcontext.cpp", "src/pdfwriter.cpp", "src/generator.cpp", "src/capi.cpp"],
  [("glyph codes", "src/fontsubsetter.cpp get_glyph_subset"), ("text operators", "src/drawcontext.cpp serialize_charsequence"), ("ToUnicode and widths", "src/pdfwriter.cpp create_cidfont_subset_cmap, build_subset_width_array"), ("text width", "src/generator.cpp utf8_text_width")],
  ["content streams, fonts and ToUnicode maps of the written file", "measured widths", "return codes", "memory accesses"], note="FreeType is a model that answers from the same font description the font file was built from."),
P("C09", "A damaged TrueType file is refused or used safely, and never spoils the document",
  "Whatever bytes a TrueType font file or collection holds, loading it and showing text with it terminates without touching memory out of bounds, exhausting memory or the stack, or aborting; each call either works or returns an error. After an error the document can still be completed and written, text that was refused leaves no font resource behind, the glyph references in an embedded subset stay within the subset, and all FreeType objects are released.",
  ["inputs"], "a small font file with any four consecutive bytes (at even positions) replaced by any values, cut to any length, with any glyph and metric counts together, with composite glyphs of any flags, references and sizes, any references between its glyphs, collections with any header, and any glyph numbers asked for by the caller",
  "Tests load a few intact fonts; a reader of an untrusted binary format fails on values nobody put into a file on purpose, one in 2^32 at the right place.",
  ["src/ft_subsetter.cpp", "src/fontsubsetter.cpp", "src/document.cpp", "src/generator.cpp"],
  [("file parser", "src/ft_subsetter.cpp parse_font_file, load_and_parse_font_file, load_loca, load_hmtx, load_GLYF_glyphs"), ("components", "src/ft_subsetter.cpp composite_subglyphs; src/fontsubsetter.cpp add_glyph_components")],
  ["return codes", "memory accesses", "the written file"], note="Of values that say how many glyphs there are and where a table lies, the small ones, those near the true one and the extremes are explored (all others that lie outside the file are one case). FreeType is a model that accepts every file; Apple and CFF fonts are outside."),
P("C12", "Embedded CFF subsets hold the glyphs used and everything that draws them",
  "The embedded program of an OpenType font with CFF outlines parses as a CID-keyed CFF font: header, indexes, dictionaries and offsets are consistent, the charset is the identity and every glyph selects an existing font dictionary. Each code shown selects the unchanged charstring of its glyph, and that glyph keeps its global and local subroutines, its private dictionary, the font matrices (integer and real operands alike) and the strings its dictionaries refer to; the PDF describes it as a CIDFontType0.",
  ["inputs"], "five-glyph fonts, name-keyed and CID-keyed with up to three font dictionaries in any assignment, all offset sizes, charset and FDSelect formats, symbolic charstring and subroutine bytes, dictionary operands of every encoding with symbolic bytes, with and without subroutines, private dictionaries and matrices, two or three characters shown (also as raw and ligature glyphs)",
  "Tests render two fonts; a lost subroutine, a dictionary operand of another encoding or a glyph tied to the wrong dictionary only shows in fonts that have them.",
  ["src/cffsubsetter.cpp", "src/ft_subsetter.cpp", "src/pdfwriter.cpp"],
  [("parser", "src/cffsubsetter.cpp parse_cff_data, load_index, unpack_dictionary, unpack_fdselect"), ("subset writer", "src/cffsubsetter.cpp CFFWriter, write_private_dict, build_fdselect3")],
  ["the embedded font program of the written file"], note="Charstrings are opaque: accented characters built with endchar (seac) and the optional entries PaintType, StrokeWidth and CharstringType are outside. FreeType is a model."),
]
NOT_APPLICABLE = []
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for s in SPEC:
            a = {"files": s["files"], "mechanism": [{"name": n, "where": w} for n, w in s["mech"]], "observe_at": s["observe"], "hook_needed": None}
            if s["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in s["state"]]
            f.write(json.dumps({"id": s["id"], "title": s["title"], "statement": s["statement"], "quantifier": {"over": s["over"], "text": s["qtext"]}, "why_tests_cant": s["why"], "anchors": a}) + "\n")
    na = {p for p, _ in NOT_APPLICABLE}
    man = {"version": 1, "setup_cmd": "python3 check.py --setup",
           "checks": [{"property": s["id"], "quick_cmd": "python3 check.py %s --tier quick" % s["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % s["id"], "evidence_file": "evidence/%s.json" % s["id"],
                       "technique": s["technique"] or TECH, "level": "model_checking", "level_note": (s["note"] + " " if s["note"] else "") + LEVEL} for s in SPEC if s["id"] not in na],
           "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
           "notes": "Run from /verif. check.py regenerates the IR of /repo's current sources (cached by content hash under build/), runs the executor in engine/, and replays every counterexample on a native AddressSanitizer build before reporting it. Exit 2 = the check could not decide."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
