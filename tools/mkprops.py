import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Opening a classic .wz archive yields exactly the stored directory tree",
 "For every well-formed classic (PKG1) archive, opening it and parsing its root node yields a tree with exactly the stored directories and images: every name, nesting level, image start and image size is the stored one, nothing is dropped, added or merged, and each image parses to the content stored at its place. Directories nest up to a fixed limit of 100 levels. This holds with and without the stored version field, for every header length, with entry names stored inline or shared by reference, with ignorable entries present, and for every string cipher and patch version.",
 ["inputs","configurations"],"all well-formed PKG1 archives (tree shapes, names, sizes, header lengths, versions, ciphers, entry encodings), opened with detected or explicit version/cipher",
 "The tests open two fixed sample archives (version 123) and compare a handful of nodes; they never vary header length, entry kinds, ciphers, sizes, nesting or version.",
 ["src/file.rs","src/directory.rs","src/header.rs","src/util/offset.rs","src/util/version/pkg1.rs","src/node.rs"],
 [("archive open and root parse","WzFile::from_file / WzFile::parse, src/file.rs"),("entry table decoding","WzDirectory, src/directory.rs"),("offset decryption","src/util/offset.rs"),("header layout","WzHeader, src/header.rs")],
 ["WzNode::from_wz_file_full, WzNode::parse, WzNode::children, WzImage fields"])
p("C02","Image property trees decode to exactly the stored values and order",
 "For every well-formed image (inside an archive or a standalone .img file), parsing yields exactly the stored property tree: every property keeps its name, kind, numeric value bit for bit, string text, vector, convex points and nested children, in stored order when the ordered child list is requested; properties nest up to a fixed limit of 100 levels. A property of unknown extended kind becomes an empty value and never disturbs its siblings; text, packed-text and script images yield their single payload node.",
 ["inputs"],"all well-formed images: every property kind and encoding form (short/long ints, inline/referenced strings, zero/non-zero floats), any nesting, any position inside the file, any cipher",
 "Tests parse small parts of one sample image; value extremes, reference strings at non-zero image offsets, rare kinds and block-size skipping are never sampled.",
 ["src/wz_image.rs","src/util/parse_property.rs","src/property/mod.rs","src/reader.rs","src/node_cast.rs"],
 [("image header dispatch","WzImage::resolve_children, src/wz_image.rs"),("property list decoding","parse_property_list / parse_property_node / parse_more, src/util/parse_property.rs"),("typed access","WzNodeCast, src/node_cast.rs")],
 ["WzImage::resolve_children, WzNode::parse, WzNodeCast"])
p("C03","Primitive reads return the encoded value and stop right after it",
 "For every byte buffer and position, each primitive read (fixed-width integers and floats, compressed integers, encrypted ASCII and Unicode strings, string blocks and their lazy descriptors, archive-directory strings) returns exactly the value encoded there and leaves the cursor exactly after its encoding, including for by-reference strings where the cursor stays after the reference. Reading at an explicit position never moves the cursor, and a lazily described string later resolves to the same text as an immediate read. A text written by the library's own encoder reads back unchanged under the same cipher.",
 ["inputs"],"all values, encodings, lengths (incl. long-form and multi-kilobyte strings), positions, base offsets and ciphers",
 "Tests read a few hand-written buffers with short strings; length boundaries (126/127/128, beyond a key batch), negative values, offsets and cursor positions after each kind are unsampled.",
 ["src/reader.rs","src/property/string.rs"],
 [("reader trait","Reader / WzReader / WzSliceReader, src/reader.rs"),("lazy strings","WzString, WzStringMeta, src/property/string.rs")],
 ["WzSliceReader read_*, pos; WzString::get_string; resolve_string_from_meta"])
p("C04","Cipher keystreams are the specified ones, independent of use history",
 "For each cipher and key, position i of the keystream always has the value the format specifies, no matter in which order, in which sizes, from which threads or through which shared handle the key was previously grown or used; applying the cipher twice restores the input and the all-zero cipher leaves data unchanged. The shared key registry returns equivalent keys for equal parameters and never mixes two different ones.",
 ["inputs","histories","schedules"],"all ivs/keys, all growth/decrypt histories, concurrent users of one shared key",
 "Tests grow a key once, single-threaded, and compare a prefix with a stored table for two ivs.",
 ["src/util/string_decryptor/mod.rs","src/util/string_decryptor/ecb_decryptor.rs","src/util/string_decryptor/pkg2_decryptor.rs"],
 [("AES keystream growth","EcbDecryptor::ensure_key_size/at/decrypt_slice, src/util/string_decryptor/ecb_decryptor.rs"),("archive-directory key","Pkg2Decryptor, src/util/string_decryptor/pkg2_decryptor.rs"),("registry","SharedWzStringDecryptors, src/util/string_decryptor/mod.rs")],
 ["Decryptor::at / decrypt_slice / ensure_key_size, GLOBAL_STRING_DECRYPTOR"])
p("C05","Version and cipher detection is right, and wrong explicit keys are rejected",
 "Opening an archive or image without parameters selects a version and cipher under which it decodes to its true content, for every patch version in the supported detection range, with or without a stored version field, and whether or not detection state from earlier files exists. An explicitly supplied correct version and cipher opens the same content, and an explicitly supplied wrong patch version or image cipher is reported as an error instead of yielding a wrong tree.",
 ["inputs","configurations","histories"],"all patch versions 1..=2000 stored, 770..=780 implicit, all ciphers, archives and .img files, any order of opening files in one process",
 "Tests open two sample files of one version; other versions, collisions of the 8-bit version checksum, version-less archives and explicit wrong keys are not explored.",
 ["src/file.rs","src/util/version/mod.rs","src/util/version/pkg1.rs","src/util/string_decryptor/mod.rs","src/wz_image.rs"],
 [("version brute force","VersionGen, src/util/version/pkg1.rs; WzFile::parse, src/file.rs"),("iv verification","verify_iv_from_wz_img / guess_iv_from_wz_img / verify_iv_from_wz_file, src/util/version/mod.rs"),("decryptor guess","guess_decryptor_from_wz_file, src/util/string_decryptor/mod.rs")],
 ["WzNode::from_wz_file_full, WzNode::from_img_file(_with_iv), WzFile::wz_file_meta"])
p("C06","PKG2 archives of every supported generation decode to the stored tree",
 "For every well-formed second-generation (PKG2) archive of each supported generation, including the two with scrambled headers, opening and parsing yields exactly the stored directories and images with their names, starts, sizes and content. This holds with and without previously cached generation data, for nested directories and for every generation's own name cipher.",
 ["inputs","configurations"],"all PKG2 archives of the seven supported generations: tree shapes, names, hashes, header noise",
 "No PKG2 sample archive exists in the test suite: only single helper functions are tested on one constant each.",
 ["src/file.rs","src/directory.rs","src/header.rs","src/util/offset.rs","src/util/profile.rs","src/util/version/pkg2.rs","src/util/string_decryptor/pkg2_decryptor.rs"],
 [("profile selection","WzProfile / PKG2_PROFILE_CACHE, src/util/profile.rs"),("header descrambling","WzHeader, src/header.rs"),("directory layouts","WzDirectory pkg2 readers, src/directory.rs"),("offset formulas","src/util/offset.rs")],
 ["WzNode::from_wz_file_full, WzNode::parse"])
p("C07","PKG2 version-hash search is sound and complete",
 "For every pair of stored hashes, each generation's version-hash search yields only hashes that satisfy that generation's check equation, and it yields the true hash whenever the pair was produced from one. Each offset formula decodes what its inverse encodes.",
 ["inputs"],"all header hash pairs and all version hashes, all positions and encrypted offsets",
 "Tests check one constant pair per generation.",
 ["src/util/version/pkg2.rs","src/util/version/pkg1.rs","src/util/offset.rs"],
 [("hash generators","src/util/version/pkg2.rs"),("offset formulas","src/util/offset.rs")],
 ["util::version::pkg2 generators, util::offset functions"])
p("C08","Direct path access equals parsing and then looking up",
 "For every image and every path of property names, direct access without parsing returns a node with the same name, kind, value and subtree as parsing the whole image and walking the same path, and reports not-found for every path the parsed image does not have. This holds for paths through every kind of property that can carry children and at every position in the list, and leaves the tree unparsed; on-demand parsing along a path agrees with parsing step by step. Direct access does not follow links: a link property on or at the end of the path is returned as stored, with no children.",
 ["inputs"],"all well-formed images x all existing and non-existing paths, archives parsed or not",
 "Tests query a few top-level paths of one sample image.",
 ["src/util/parse_property.rs","src/wz_image.rs","src/util/node_util.rs","src/node.rs"],
 [("skip-scan","util::get_node, src/util/parse_property.rs"),("image shortcut","WzImage::at_path, src/wz_image.rs"),("tree shortcut","get_node_without_parse / get_image_node_from_path, src/util/node_util.rs"),("parse on demand","WzNode::at_path_parsed, src/node.rs")],
 ["WzImage::at_path, node_util::get_node_without_parse, WzNode::at_path_parsed"])
p("C09","Parse and unparse are idempotent, repeatable and loss-free",
 "Parsing a parsed node changes nothing (same child handles), a failed parse leaves the node unparsed, childless and retryable, and unparse followed by parse restores an equal subtree for every parseable node kind. A whole-tree walk reaches every listed place of the tree exactly once (a node that a resolved link lists a second time is reached at each place), parsing every unparsed node on the way when asked to and none otherwise. Dropping the root releases every node and the file mapping.",
 ["histories","inputs"],"all sequences of parse, unparse, lookup and walk operations on any nodes of any archive",
 "Tests parse once and never unparse nested nodes, re-parse, retry after failure or check release.",
 ["src/node.rs","src/util/walk.rs","src/directory.rs","src/file.rs","src/ms/file.rs"],
 [("lifecycle","WzNode::parse / unparse, src/node.rs"),("walk","walk_node, src/util/walk.rs")],
 ["WzNode::parse/unparse, util::walk_node, Weak handles"])
p("C10","Parent links, paths and lookups describe one consistent tree",
 "After any parse, every child's parent is the node that lists it and its name is the name it is listed under (a place that holds a resolved link lists the link's target, which keeps its own parent and name), so that the path a node reports from the root leads back to that very node, relative lookups with '..' invert lookups by name, and the nearest enclosing image or base file is the true one. Moving children from one node into another keeps every node exactly once, merges same-named subtrees recursively without losing children, and re-parents what it moves; repairing parents after deserialisation restores all links.",
 ["inputs","histories"],"all trees and all sequences of add, transfer and lookup operations",
 "Tests use fixed 3-level trees with a single transfer.",
 ["src/node.rs","src/util/node_util.rs","src/node_name.rs"],
 [("navigation","WzNode::at*/get_*path*/filter_parent, src/node.rs"),("merging","WzNode::transfer_childs, src/node.rs"),("repair","resolve_childs_parent, src/util/node_util.rs")],
 ["WzNode public methods"])
p("C11","Links resolve to the node they name, and only to it",
 "After parsing, a link property whose relative path leads to an existing non-link node of the same image is replaced by that very node, and one that leads nowhere, or to itself or a node that contains it, stays an unresolved link with its text intact; siblings are untouched. In-image and base-relative canvas links yield the pixels of the canvas they name, parsing what is needed on the way, and fall back to the canvas's own pixels when the target is missing; links that lead in a circle end in an error. The textual link helper computes the path that this resolution follows.",
 ["inputs"],"all placements, depths and targets of relative links, in-image links and base-relative links, dangling ones included",
 "Tests resolve one link of each kind in a hand-built tree.",
 ["src/util/node_util.rs","src/util/parse_property.rs","src/property/png.rs","src/node.rs"],
 [("relative links","resolve_uol, get_resolved_uol_path, src/util/node_util.rs"),("canvas links","resolve_inlink / resolve_outlink, src/util/node_util.rs; get_image, src/property/png.rs")],
 ["WzNode::parse, property::get_image, node_util::*"])
p("C12","Canvas pixels decode exactly for every supported format and size",
 "For every supported pixel format, every width and height the format admits, and every stored form (plain zlib with any level, or cipher-chunked), decoding a canvas yields an image of exactly the stored dimensions whose pixels are the ones the format defines for the stored bytes. Unsupported formats are reported as errors.",
 ["inputs","configurations"],"all formats x all sizes (including ones not divisible by a block) x all pixel data x all ciphers and chunkings, with and without multi-threaded decoding",
 "Tests decode a few sample canvases whose sizes are multiples of four and compare none of the rarer formats.",
 ["src/property/png.rs","src/util/color.rs"],
 [("inflate and decrypt","WzPng::get_raw_data, src/property/png.rs"),("pixel conversion","get_image_from_*, src/property/png.rs; src/util/color.rs")],
 ["WzPng::extract_png, property::get_image"])
p("C13","Sound, video, raw and script payloads are the stored bytes",
 "For every stored sound, video, raw-data, text and script property the extracted payload is byte for byte the stored (for scripts: deciphered) content with the stored length and duration, the sound kind follows the stored sound header, and wave sounds get a header consistent with the stored format and length. Buffer access, streaming to a writer and saving to a file produce the same bytes, the file carrying the extension of its kind.",
 ["inputs"],"all payload sizes, header forms, positions and script ciphers (any text, including non-ASCII)",
 "Tests cover one synthetic script of 14 bytes and sample sounds' lengths.",
 ["src/property/sound.rs","src/property/video.rs","src/property/raw_data.rs","src/property/lua.rs","src/util/parse_property.rs"],
 [("sound","WzSound, src/property/sound.rs"),("script","WzLua, src/property/lua.rs"),("blob ranges","WzRawData, WzVideo")],
 ["WzSound::get_buffer/write_to/save, WzVideo::get_buffer, WzRawData::get_buffer, WzLua::extract_lua"])
p("C14","MS packs decode to exactly the stored entries",
 "For every well-formed .ms pack of both generations and any ASCII file name and salt (the format's keys are made of their bytes), opening and parsing yields exactly the stored entries under their stored names, and each entry, decrypted on demand, parses to the stored image. This is independent of the entry's position, size, order of access and of other entries.",
 ["inputs","histories"],"all packs: entry counts, names, sizes around cipher-block and page boundaries, salts, file names, both generations",
 "No .ms sample exists in the tests; only cipher primitives are tested on fixed vectors.",
 ["src/ms/file.rs","src/ms/header.rs","src/ms/ms_image.rs","src/ms/snow2_reader.rs","src/ms/snow2_decryptor.rs","src/ms/chacha20_reader.rs"],
 [("pack header","MsHeader, src/ms/header.rs"),("entry table","MsFile::parse, src/ms/file.rs"),("entry decryption","MsImage::to_wz_image, src/ms/ms_image.rs")],
 ["WzNode::from_ms_file, WzNode::parse"])
p("C15","JSON export is faithful and total; exported trees load back",
 "For every parsed tree, the simple JSON export contains every named property exactly once with its decoded value and never fails or panics whatever the stored values are; the full JSON export carries each node's name, kind, value and children. Loading a full export back yields a tree equal in names, structure and plain values; non-finite numbers are null in JSON, and raw bytes, videos and scripts have no full export.",
 ["inputs"],"all property trees incl. extreme and non-finite numbers, links, canvases with children, empty containers",
 "Tests export a hand-built tree of small integers.",
 ["src/node.rs","src/property/mod.rs","src/property/string.rs","src/property/vector.rs","src/node_name.rs","src/object.rs"],
 [("simple export","WzNode::to_simple_json, src/node.rs"),("full export","Serialize/Deserialize derives, src/node.rs, src/object.rs, src/property/mod.rs")],
 ["WzNode::to_json, WzNode::to_simple_json, serde_json::from_value"])
p("C16","Malformed input yields an error or a partial tree, never a crash or hang",
 "Whatever bytes a .wz, .img or .ms file contains (truncated, bit-flipped, with forged lengths, counts, offsets or nesting), opening, parsing, walking and extracting every payload ends with a value or an error: no panic, abort, stack overflow, out-of-bounds access, runaway allocation or endless loop. Memory and work stay in proportion to the file, apart from what its compressed data expands to and what its shared names and links repeat. A failed read of one image does not affect the reading of the others.",
 ["inputs","fault_sequences"],"all byte strings, in particular every truncation and field corruption of well-formed files",
 "Tests only feed valid files and two trivially wrong headers.",
 ["src/reader.rs","src/directory.rs","src/file.rs","src/header.rs","src/wz_image.rs","src/util/parse_property.rs","src/util/version/mod.rs","src/property/png.rs","src/property/sound.rs","src/property/lua.rs","src/ms/file.rs","src/ms/header.rs","src/ms/ms_image.rs"],
 [("bounds-checked reads","Reader, src/reader.rs"),("error types","Error enums of file, directory, image, property, png, ms")],
 ["public open/parse/walk/extract API under panic, signal, allocation and step monitors"])
p("C17","Concurrent use is deadlock-free and sees parses all-or-nothing",
 "Any number of threads may parse, unparse, walk, look up, decode and export nodes of one shared tree: no combination of these deadlocks or panics, and every thread that reads a node sees it either unparsed with no children or fully parsed with all of its children. Racing parsers of one node leave exactly one set of children, and every value decoded concurrently equals the one decoded alone. (Questions upwards from a node its asker holds locked are a listed exception when others look downwards from an ancestor they hold locked.)",
 ["schedules","histories"],"all interleavings of the public operations on a shared tree by any number of threads",
 "The one multi-threaded test spawns a few threads that parse disjoint nodes; it does not provoke writers waiting between nested readers, linked canvases, or mixed operations.",
 ["src/node.rs","src/util/walk.rs","src/util/node_util.rs","src/property/png.rs","src/util/string_decryptor/mod.rs","src/reader.rs"],
 [("per-node locks","WzNodeArc = Arc<RwLock<WzNode>>, src/node.rs"),("lock order root to leaf","WzNode::at_path_parsed, walk_node, resolve_outlink"),("shared keystreams","SharedWzStringDecryptor, src/util/string_decryptor/mod.rs")],
 ["public API from many threads; futex-wait quiescence of the worker process"])
p("C18","Split game data resolves into one merged tree",
 "Resolving a base file or a category directory merges all parts that exist on disk, numbered ones included, into one tree in which every image and directory of every part appears exactly once at its place under its category, with the parent links set; parts that do not exist are skipped without error, and files outside the naming scheme are ignored. The result does not depend on the order of the directory listing.",
 ["inputs","configurations"],"all layouts of base files, category directories, numbered parts and nested category directories on disk",
 "No test covers multi-file resolution.",
 ["src/util/resolver.rs","src/node.rs"],
 [("directory merge","resolve_root_wz_file_dir_full, src/util/resolver.rs"),("base resolution","resolve_base, src/util/resolver.rs")],
 ["util::resolve_base, util::resolve_root_wz_file_dir"])
p("C19","Build features change speed and order only, never results",
 "For every input, all combinations of the optional build features (multi-threaded decoding, the alternative inflate backend, ordered child maps) yield the same trees, values, pixels, payloads and JSON; with ordered child maps, children iterate in stored order. (What a corrupted deflate stream decodes to is up to the inflate backend.)",
 ["configurations","inputs"],"feature combinations x inputs",
 "The test suite runs in one feature combination; the others are only type-checked.",
 ["Cargo.toml","src/lib.rs","src/property/png.rs","src/util/version/pkg2.rs","src/node.rs"],
 [("feature gates","#[cfg(feature = ...)] in src/property/png.rs, src/lib.rs, src/util/version/pkg2.rs, src/node.rs")],
 ["digests of decoded trees of each feature build"])
p("C20","Typed access answers what a node is and holds",
 "For every node of every kind (file, pack, directory, image, property container, canvas, sound, convex shape, every value), made by parsing or by hand, each typed question answers exactly when the node is of its kind and then gives the stored value; the string question also answers for links. Helpers that take a node give that node's text or image, or an error when it has none, never a panic. A node made by hand keeps its name, value and parent; an object made over a range of a buffer reads that range; vectors calculate componentwise and their distance is the Euclidean one for all coordinates.",
 ["inputs"],"all node kinds x typed questions, all texts and ciphers, all ranges of buffers, all pairs of vectors",
 "Tests ask a hand-picked node per kind one or two questions, with short ASCII texts and small numbers.",
 ["src/node_cast.rs","src/object.rs","src/node.rs","src/property/mod.rs","src/property/string.rs","src/property/vector.rs","src/property/png.rs","src/property/raw_data.rs","src/property/video.rs","src/property/lua.rs","src/property/sound.rs"],
 [("typed questions","WzNodeCast, src/node_cast.rs"),("conversions","From impls, src/object.rs"),("helpers","resolve_string_from_node, get_image"),("texts made by hand","WzString::from_str, src/property/string.rs"),("vectors","Vector2D, src/property/vector.rs")],
 ["WzNodeCast, WzNode::new/from_str/empty, WzString, Vector2D"])
p("C21","What a holder keeps stays readable; what nobody keeps is freed",
 "A node handle, a text, a payload or a copied object stays readable with the same values as long as its holder keeps it: after its root is dropped, its ancestors are unparsed, the file is deleted from disk, and from any thread; a kept container that is not parsed yet still parses. Questions upwards find exactly what is still alive. Nodes nobody holds are freed, and the file mapping with the last one.",
 ["histories"],"all orders of keeping, dropping, unparsing, deleting and asking, over all kinds of files and nodes",
 "Tests keep the root alive for as long as they read.",
 ["src/node.rs","src/reader.rs","src/file.rs","src/wz_image.rs","src/ms/ms_image.rs","src/ms/file.rs","src/property/string.rs","src/property/png.rs"],
 [("shared readers","Arc<WzReader> held by every object"),("parents held weakly","WzNode::parent, src/node.rs"),("unparse","WzNode::unparse, src/node.rs")],
 ["handles (WzNodeArc), Weak, copies of WzObjectType, the process's own list of mappings"])
p("C22","An opened file tells what was written",
 "Whatever file is opened (archive of either kind, pack, standalone image), its node and its record tell what it is and what was written: the node's kind, its name (without the extension; an image keeps it), its parent, the path it was opened by, the stored and the real length, where the content starts, the stored version or hashes, the patch version and hash it was parsed with, a pack's salt, entry count and places; readers of buffers tell the same of their headers. Parsing, unparsing and parsing again changes nothing but the parsed mark and the children. Paths that are not text, have no name or lead nowhere end in an answer or an error, never a panic.",
 ["inputs","histories"],"all header layouts, file names and paths, explicit and detected parameters, repeated parsing",
 "Tests look at the name of one file and the hash of one header.",
 ["src/header.rs","src/file.rs","src/ms/header.rs","src/ms/file.rs","src/ms/utils.rs","src/wz_image.rs","src/node.rs","src/reader.rs"],
 [("headers","WzHeader::read_from_buf, src/header.rs; MsHeader, src/ms/header.rs"),("records","WzFileMeta, src/file.rs"),("names","WzNode::from_wz_file_full, from_ms_file, from_img_file, src/node.rs")],
 ["WzNode::from_wz_file_full, from_ms_file, from_img_file; WzFile, MsFile, WzImage, WzReader::header"])
p("C23","Files opened in one process do not influence each other",
 "However many archives of either kind, packs and standalone images are opened, read, damaged or dropped in one process, in any order and from any number of threads, each file tells exactly what was written into it: while others are opened beside it, when it is looked at again, when it is unparsed and parsed again, and when it is opened once more. This holds although the keys of the known ciphers and the list of generations found so far are shared by the whole process, and although a key object is handed from one file to another, fitting or not: a key object handed to a file stays the key it is.",
 ["histories","schedules"],"all mixes of files and ciphers, all orders of opening, reading, growing keys and extending the generation list, all interleavings of the threads",
 "Tests open one file at a time and look at it once.",
 ["src/util/string_decryptor/mod.rs","src/util/string_decryptor/ecb_decryptor.rs","src/util/string_decryptor/pkg2_decryptor.rs","src/util/profile.rs","src/file.rs","src/reader.rs","src/wz_image.rs","src/property/lua.rs"],
 [("keys of the process","GLOBAL_STRING_DECRYPTOR, src/util/string_decryptor/mod.rs"),("generations of the process","PKG2_PROFILE_CACHE, src/util/profile.rs"),("keys handed over","WzFile::from_file, src/file.rs"),("keys of names","WzFile::update_keys, src/file.rs")],
 ["WzNode::from_wz_file_full with existing_key, from_ms_file, from_img_file; shared handles of the registry"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
