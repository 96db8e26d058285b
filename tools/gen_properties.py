#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

SP, AP, NP = "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"
XM, OC, CS, LB = "src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/lib.rs"
ST, AT, RT, OM = ("src/obj_types/string_types.rs", "src/obj_types/arc_types.rs",
                  "src/obj_types/rc_types.rs", "src/obj_types/mod.rs")
UT = "src/utils.rs"
NOPBF = "No test of the repository opens a PBF stream at all (the two pbf test files are not compiled)."

p("P01", "PBF reading delivers every stored object exactly once, in file order",
  "For every well-formed PBF file made of any sequence of header, data and unknown blobs, any number of primitive groups per block (dense nodes, ways, relations, or none; not plain, non-dense nodes, which the library refuses) and uncompressed or zlib-compressed blobs, reading yields exactly the objects stored in the file, each once, in file order, and then ends; once ended it stays ended. Blobs that are not data blobs, and data blocks without objects, contribute nothing and never end the stream early.",
  ["inputs"], "All sequences of blobs x compression x groups per block x objects per group.",
  NOPBF + " The space of blob/group layouts is unbounded; a sample of real extracts uses one layout only (one group per zlib block).",
  [SP, AP], [("get_next_osmdata_blob loop", SP), ("blob_raw_data", SP), ("next: refill while buffer empty", SP), ("decode_block_to_objs over groups", AP)],
  [("buffer", "objects decoded from the current block and not yet delivered", SP + " PBFReader.buffer")],
  ["OSMReader::next / objects() on stringpbf::PBFReader and arcpbf::PBFReader"])
p("P02", "PBF objects decode to exactly the ids, tags, refs and members encoded",
  "For every well-formed primitive group, each decoded object carries exactly the id, the tags (same keys and values, same order), the way node references, the relation members (type, id and role, in order) and the version, changeset, uid, user and visibility that were encoded for that object. Delta-coded sequences and the string table are interpreted per group and per block: nothing carries over from one object, group or block into another.",
  ["inputs"], "All sequences of objects, with all id/ref/member deltas (positive, zero, negative, beyond 32 bits), tag counts and string tables.",
  NOPBF + " Delta decoding is stateful across objects: a slip shows only for particular sequences (several tags, a tagless node between tagged ones, a second group).",
  [SP, AP], [("decode_dense_nodes accumulators and keys_vals cursor", SP), ("decode_ways refs accumulator", SP), ("decode_relations memids/roles/types zip", SP), ("same three in arcpbf", AP)],
  [("last_id, last_changset, last_uid, last_user_sid, last_timestamp, keys_vals_index", "delta accumulators and tag cursor", SP + " decode_dense_nodes")],
  ["accessor methods of every object returned by both PBF readers"])
p("P03", "PBF coordinates and timestamps honour each block's granularity and offsets",
  "For every block, a node's position equals offset + granularity * stored value in nanodegrees, to within the library's 100 nanodegree unit (exactly, when it is a multiple of that unit), and an object's timestamp equals stored value * date granularity, to the library's resolution of one second (exactly, when it is a whole number of seconds), whatever granularities and offsets the block declares. Position and time are those of that block's declaration, never of another block's.",
  ["inputs"], "All granularities, date granularities and offsets, all coordinates in range, all multi-block files mixing them.",
  NOPBF + " Almost every real file uses the default granularities, so even large samples never leave one point of this space.",
  [SP, AP, NP], [("scale_factor / internal_lat computation", SP), ("same", AP), ("same", NP), ("date_granularity / 1000", SP)],
  [("last_raw_lat, last_raw_lon, last_timestamp", "delta accumulators in stored units", SP)],
  ["Node::lat_lon().inner(), timestamp().to_epoch_number(), PBFNodePositionReader items"])
p("P04", "PBF objects without optional metadata are read, as present and visible",
  "Every PBF object whose optional metadata (version, timestamp, changeset, uid, user, visibility) is wholly or partly absent is still delivered, with the absent fields reported as absent and all other fields intact. An object is reported deleted if and only if the file explicitly marks it as not visible.",
  ["inputs"], "All subsets of metadata fields present, per object kind, mixed within a file.",
  NOPBF + " 2^6 presence patterns per object kind; ordinary extracts use one of them.",
  [SP, AP], [("info/denseinfo field access", SP), ("visible default", SP), ("same", AP)], [],
  ["version(), changeset_id(), timestamp(), uid(), user(), deleted() on both readers"])
p("P05", "The three PBF readers agree on every file",
  "For every well-formed PBF file the string-based reader and the shared-string reader yield the same sequence of objects with equal contents, and the node-position reader yields exactly the (id, latitude, longitude) of the nodes in that sequence, in the same order.",
  ["inputs"], "All well-formed PBF files.",
  NOPBF + " The three decoders are separate copies of the same logic, so they can drift apart one at a time.",
  [SP, AP, NP], [("three independent decode loops", SP), ("arc copy", AP), ("position-only copy", NP)], [],
  ["lockstep output of stringpbf::PBFReader, arcpbf::PBFReader, PBFNodePositionReader"])
p("P06", "Typed iteration yields exactly the objects of that type, in any call history",
  "For every reader and every history of reading single objects and of starting, partly consuming and abandoning iterations over nodes, ways, relations or all objects, each typed iteration yields exactly the not-yet-passed objects of its type, in file order, each once. Using a typed iteration never changes what later reads deliver from the following blocks or elements.",
  ["histories", "inputs"], "All interleavings of next, objects, nodes, ways, relations (fully or partly consumed) over all files; with the sorted assumption set (assume_sorted), over files that are sorted.",
  "No test calls nodes(), ways() or relations() on any reader, and none mixes them; the PBF reader keeps a filter and a buffer between calls, so the result depends on the call history.",
  [SP, LB, XM, OC], [("object filter set by nodes()/ways()/relations()", SP), ("filtered group decode", SP), ("default nodes/ways/relations", LB)],
  [("object_filter", "which object kinds block decoding keeps", SP + " PBFReader"), ("buffer", "decoded objects waiting", SP + " PBFReader")],
  ["items of nodes(), ways(), relations(), objects(), next()"])
p("P07", "Damaged PBF data yields a true prefix of the objects, never a normal end",
  "If a PBF file is cut at any byte, or its source fails at any read, or a data blob uses a compression the reader does not support or cannot be decompressed, the objects delivered are exactly those of the blocks that precede the damage, unaltered and in order; no object is invented, altered or taken from after the damage. A cut anywhere but between two blocks, a failing source, and an unsupported or undecodable blob are signalled (the reader refuses to continue) rather than silently treated as the end of the file or skipped.",
  ["crash_points", "fault_sequences", "inputs"], "All files x all cut positions / failing reads / positions of an unsupported blob.",
  NOPBF + " Cut positions and failing reads are a per-byte dimension that no sample covers.",
  [SP, AP], [("read_u32().ok()? end-of-file detection", SP), ("read_exact of header and blob", SP), ("blob_raw_data on unsupported data", SP)], [],
  ["sequence of items, then end or refusal, of the PBF readers over a damaged source"])
p("P08", "XML and OSC writing followed by reading gives the objects back unchanged",
  "For every sequence of nodes, ways and relations, writing them with the XML writer or the change-file writer and reading the result with the corresponding reader yields the same objects, in order, with equal id, version, visibility, user, uid, changeset, timestamp, position, tags, node references and members. This holds for objects that lack any of the optional fields, and for every text that XML can represent.",
  ["inputs"], "All object sequences (whose tag keys are distinct within an object); all presence patterns of optional fields; all texts of characters XML can represent.",
  "Tests write a single untagged node and check escaping of eight ASCII strings; nothing reads the output back.",
  [XM, OC], [("write_obj", XM), ("write_obj", OC), ("xml_elements_to_osm_obj and *_xml_elements_to_osm_obj", XM), ("write_xml_escaped", XM)], [],
  ["objects read back from the bytes delivered to the sink"])
p("P09", "Writers follow their open/close protocol and emit one well-formed document",
  "In every sequence of calls on a writer, the header is emitted exactly once and before any object, headers can be set only before that, nothing but the document end is emitted after closing, writing or setting a header after closing is refused with an error, and the writer reports itself open exactly until it is closed. However the sequence ends (explicit close, repeated close, or simply dropping the writer), the bytes delivered form one complete well-formed document containing the successfully written objects in order.",
  ["histories"], "All finite sequences of set_header (of names that are XML attribute names), write_obj, close, is_open and drop on the XML and OSC writers.",
  "One test writes one object and closes; call sequences are unbounded, and the one tested sequence pins a malformed document for the XML writer.",
  [XM, OC, LB], [("State Initial/WritingObjects/Closed", XM), ("ensure_header", XM), ("close and Drop", XM), ("same", OC)],
  [("_state", "Initial, WritingObjects or Closed", XM + " XMLWriter"), ("headers", "pending root attributes", XM)],
  ["return values, is_open(), bytes delivered to the sink"])
p("P10", "No text value can break out of its place in written XML",
  "For every text placed in a user name, tag key, tag value, member role, timestamp or header value (any characters that XML can represent, including quotes, angle brackets, ampersands, line breaks, tabs and non-ASCII), an independent XML parser reading the written document sees exactly the intended elements and attributes, and exactly that text as the value. No text changes the structure of the document or the value of any other field.",
  ["inputs"], "All strings over the XML character range in every text position of both writers.",
  "Eight fixed strings are checked against the escaping function alone; the places where it must be applied (and values that bypass it) are not tested.",
  [XM, OC], [("write_xml_escaped", XM), ("attribute writing in write_obj", XM), ("attribute writing in write_obj", OC), ("header values in ensure_header", XM)], [],
  ["document as parsed by an independent XML parser"])
p("P11", "A failing output sink is reported as an error, never as success or a crash",
  "If the output sink of a writer fails at any point, the call during which it fails returns an error, calls that completed before had all their output delivered, and the bytes delivered before the first failure are a prefix of what would have been delivered without it. Neither that call, nor later calls, nor dropping the writer crashes the program, whether the failure is transient or permanent.",
  ["fault_sequences", "histories"], "All call sequences x every possible failing sink write, transient or permanent, and all short-write patterns.",
  "Tests only use an in-memory vector, which never fails.",
  [XM, OC], [("? on every write!", XM), ("Drop calling close", XM), ("same", OC)], [],
  ["return values and bytes accepted by a fault-injecting sink"])
p("P12", "XML and OSC reading delivers every valid object, in order, whatever the markup",
  "For every well-formed OSM XML or change document, reading yields exactly one object per node, way or relation element that has a usable id, in document order, with the attributes and children of that element only; attribute order, quoting, character references, white space, comments, self-closing form and unknown elements or attributes make no difference. Attributes that are missing or unusable (including a node's position) are reported as absent, and an element that cannot be represented is left out without hiding any object after it.",
  ["inputs"], "All well-formed documents (without namespace prefixes, in UTF-8): element sequences x attribute presence/validity x markup variants; tag keys distinct within an object.",
  "Tests parse four small documents for one property of their ways; none has a missing attribute, unknown element, relation, or an unusable object followed by a good one.",
  [XM, OC], [("next: event accumulation until end element", XM), ("next", OC), ("get_xml_attribute/get_tags/get_nodes/get_members", XM)],
  [("elements, should_push", "events of the object being assembled", XM + " XMLReader::next")],
  ["objects returned by XMLReader and OSCReader"])
p("P13", "Objects in the delete sections of a change file are reported as deleted",
  "For every change file with any arrangement of create, modify and delete sections, each object is delivered once and in order, and every object inside a delete section is reported as deleted, while one in a create or modify section is reported as deleted only if it is itself marked as not visible.",
  ["inputs"], "All sequences of create/modify/delete sections with any objects, with and without visibility attributes.",
  "No test reads a change file.",
  [OC, XM], [("OSCReader::next", OC), ("visible attribute handling", XM)], [],
  ["deleted() of objects returned by OSCReader"])
p("P14", "Changeset reading returns each changeset with exactly its own fields and tags",
  "For every changeset dump, reading yields one result per changeset element, in document order: the changeset with exactly its own id, times, open flag, user, uid, counts and tags, whether or not the element is self-closing, however it is formatted and whatever other content (such as discussions) it contains. A changeset that cannot be represented yields an error for that changeset only and leaves the ones before and after it unaffected.",
  ["inputs"], "All sequences of changeset elements: self-closing or not, tags (with distinct keys within a changeset), other content, absent optional and mandatory attributes, malformed values; dumps in UTF-8.",
  "The changeset module has only a compile-time example as test.",
  [CS], [("next_changeset event loops", CS), ("attribute match (two copies: Start and Empty)", CS)],
  [("builder, tags", "changeset being assembled", CS + " next_changeset")],
  ["items of ChangesetReader"])
p("P15", "Changeset reading always terminates, and truncation yields only true prefixes",
  "For every input, every call to a changeset reader returns, and iterating ends. If a dump is cut at any byte, the complete changesets before the cut are returned unaltered and in order, and no changeset is reported as complete with fields or tags missing because of the cut.",
  ["crash_points", "inputs"], "All dumps x all cut positions, for the full and the tag-only changeset reader.",
  "No test reads a changeset dump, complete or truncated.",
  [CS], [("Event::Eof handling in the outer and inner loops", CS), ("Event::Eof in next_tag", CS)], [],
  ["items of ChangesetReader and ChangesetTagReader over a cut source"])
p("P16", "The tag-only changeset reader agrees with the full reader, without leaks",
  "For every changeset dump, the tag-only reader returns, in document order, the id and the tags (in document order) of every changeset element that is not self-closing, equal to those the full reader returns for it. Tags or ids never leak from one changeset into another, whatever malformed or incomplete changesets lie between.",
  ["inputs", "histories"], "All dumps mixing tagged, untagged, self-closing and malformed changesets (tag keys distinct within a changeset; ids in the range of the library's id type, 32 bits).",
  "No test uses the tag-only reader; it keeps the current id and tag list across events and calls.",
  [CS], [("curr_id/tags carried in ChangesetTagReader", CS)],
  [("curr_id", "id of the changeset being read", CS), ("tags", "tags collected so far", CS)],
  ["items of ChangesetTagReader and ChangesetReader on the same dump"])
p("P17", "Editing an object changes exactly the edited field or tag",
  "In every history of edits on any object type (all representations of nodes, ways and relations, directly or through the any-object wrapper), setting a field or tag makes exactly that value visible and leaves all other fields and tags, and the order of the other tags, unchanged. Tags behave as an insertion-ordered map: a set key has exactly the last value set, a removed key is absent, stripping metadata clears user, uid and changeset and nothing else, and a rejected position leaves the object unchanged.",
  ["histories"], "All sequences of setter, tag, node-list, member and position operations on all twelve object types, from objects whose tag keys are distinct.",
  "Tests never modify an object; the semantics is implemented separately for nine types and three wrappers.",
  [ST, AT, RT, LB], [("set_tag/unset_tag/tag", ST), ("same", AT), ("same", RT), ("wrapper dispatch macros", ST), ("set_lat_lon, strip_metadata", LB)],
  [("_tags", "ordered list of key/value pairs", ST)],
  ["all accessors after each operation"],
  "constructor for the Rc types, which have no public constructor (cfg osmio_verif)")
p("P18", "Converting shared-string objects to string objects preserves everything",
  "For every object in the shared (Arc) or local (Rc) representation, in any state reachable by reading and editing, converting it to the string representation yields an object of the same kind with the same id, metadata, visibility, position, tags in order, node references and members in order.",
  ["inputs", "histories"], "All reachable object states of the six concrete source types and two wrappers (tag keys distinct).",
  "No test performs a conversion; each is written out field by field six times.",
  [OM], [("From<Arc*> / From<Rc*> for String*", OM)], [],
  ["accessors before and after conversion"],
  "constructor for the Rc types (cfg osmio_verif)")
p("P19", "Timestamps convert exactly and compare by the instant they denote",
  "For every instant expressible in OSM data, in either representation, converting between the ISO text and the epoch number (and serialising and reading back) is exact in both directions, including instants before 1970 and after 2038. Equality and ordering of timestamps agree with the instants denoted, whatever mix of representations (and UTC offsets) is compared, and hence are transitive and total over valid timestamps.",
  ["inputs"], "All whole seconds of the years 0 to 9999 x both representations x UTC offsets; all pairs and triples for comparison.",
  "Ten fixed comparisons near 2000-2020; conversion is exercised once (second 700).",
  [LB, UT], [("to_iso_string, to_epoch_number", LB), ("PartialEq/PartialOrd for TimestampFormat", LB), ("epoch_to_iso, iso_to_epoch", UT)], [],
  ["to_iso_string, to_epoch_number, from_str, ==, partial_cmp"])
p("P20", "Coordinates convert to the nearest representable value or are rejected",
  "For every coordinate, converting degrees (text or number) gives the nearest multiple of 1e-7 degree, values outside the representable range and values that are not numbers are rejected, and every representable value survives conversion to degrees, text or its serialised form and back unchanged, for latitude and longitude alike. Values compare as the degrees they denote.",
  ["inputs"], "All 2^32 representable values and all decimal inputs (sign, magnitude, digits); of two nearest values either will do, also when the input is closer to such a tie than a double can tell.",
  "Doc tests convert five values.",
  [LB], [("lat_lon_impl macro: from_str, TryFrom<f64>, degrees, Display", LB)], [],
  ["Lat/Lon inner(), degrees(), Display, FromStr, TryFrom"])
p("P21", "What a reader delivers does not depend on how its source delivers the bytes",
  "For every reader (PBF, XML, change file, changeset) and every valid input, the delivered objects are the same however the source splits the bytes into reads, including single-byte and interrupted reads, and however a bzip2-compressed input is divided into concatenated streams; opening a file by name gives the same objects as reading its contents.",
  ["schedules", "inputs"], "All partitions of the input into reads, with interruptions; all divisions into bzip2 streams.",
  "All tests use an in-memory slice, which is delivered in one read; none opens a file or a bzip2 stream.",
  [SP, AP, NP, XM, OC, CS, LB], [("read_exact/read_u32", SP), ("BufReader wrapping", XM), ("MultiBzDecoder in from_filename*", XM), ("MultiBzDecoder in from_filename/from_bz2_reader", CS)], [],
  ["objects delivered from a scheduling source, a file, or a bzip2 stream"])
p("P22", "Changeset export to SQLite is complete and exact, or stores nothing",
  "For every changeset dump, the export tool either succeeds and the database holds exactly one row per changeset returned by the tag-only reader, with its id and its tags as a JSON array in order, or it fails with a non-zero exit and the database holds no rows. It never touches a database file that already exists.",
  ["inputs", "fault_sequences"], "All dumps (including malformed changesets and duplicate ids at any position, truncated compression) x target file present or absent; ids the database can hold (others must be refused).",
  "The binary has no test.",
  ["src/bin/osmio-changeset-tags-to-sqlite.rs", CS], [("exists check", "src/bin/osmio-changeset-tags-to-sqlite.rs"), ("single transaction with commit at the end", "src/bin/osmio-changeset-tags-to-sqlite.rs")], [],
  ["exit status and rows of the database file"])
p("P23", "Derived queries always agree with the object's contents",
  "For every object of every type and in every state: tag lookup, presence, counts, iteration (with its announced length) and the JSON rendering describe the same tags; node count and indexed access describe the same node list; a way is closed exactly when it is non-empty and starts and ends at the same node, and an area exactly when closed and not tagged area=no; kind tests and narrowing conversions succeed for exactly the object's own kind. Object kind names and their parsing are inverse to each other, and kinds are ordered as nodes, ways, relations.",
  ["inputs", "histories"], "All object states reachable by reading and editing, all twelve object types (tag keys distinct).",
  "Tests check is_closed/is_area on four ways and the parsing of seven names.",
  [LB, ST, AT, RT], [("tags_json_string, num_tags, tagged, has_tag", LB), ("is_closed, is_area", LB), ("into_*/as_* in each wrapper", ST), ("OSMObjectType FromStr/Display/name_*", LB)], [],
  ["all query methods on the same object"],
  "constructor for the Rc types (cfg osmio_verif)")

p("P24", "A PBF reader reads no further than the block it delivers from, so its source can be taken back",
  "A PBF reader (string, shared-string, or of node positions) takes its source block by block: after any history of reads and typed iterations, the source has been read to the end of the block that holds the last object delivered (to its end, when a read reported the end; not at all, before the first read), and no object of a later block has been taken from it. The source given back by into_inner (or lent to the reader), handed to a new PBF reader of any kind, hence delivers exactly the objects of the following blocks, and inner() (of the reader and of its iterators) shows the same position.",
  ["histories", "inputs"], "All histories of reads, typed iterations and hand-overs between readers of different kinds x all files.",
  "No test calls into_inner() or inner() on any reader; a reader that reads ahead loses objects only for those who take the source back.",
  [SP, AP, NP, LB], [("FileReader.into_inner / inner", SP), ("same", AP), ("next: one block at a time", SP), ("typed iteration stops with the object delivered", SP)],
  [("buffer", "objects of the current block, lost with the reader", SP + " PBFReader")],
  ["position of the source after each call; objects delivered by the next reader of the same source"])

p("P25", "A cut, failing or malformed XML or change document is never taken for a complete one",
  "Reading an OSM XML or change document (directly, or through bzip2) that is cut off before the end of its root element, whose source fails, or whose tags are not well-formed delivers exactly the objects whose elements are complete before the damage, intact and in document order, and then refuses visibly (an error or a panic): it never reports the end of the document, never delivers an incomplete object and never skips what it cannot parse to go on behind it. A source in which there is no document is refused as well. Damage behind the end of the root element may be ignored, and a document merely cut there is complete.",
  ["inputs", "faults"], "All documents x all positions x cut, source failure of any kind (other than an interruption), and structural malformation (tags that do not match, broken attributes, undefined entities); cuts of the compressed file.",
  "Tests parse well-formed documents only; a reader that takes a parser's error for the end of the file loses the rest of the data silently, and passes them all.",
  [XM, OC], [("next: what it does with the parser's error", XM), ("next", OC), ("from_filename_bz2, from_filename_uncompressed", XM), ("read_xml", LB)],
  [("elements", "events of the object that is incomplete at the damage", XM + " XMLReader::next")],
  ["objects delivered before the damage, and how the reading ends"])

p("P26", "The command line tools account for every object of their file, or fail",
  "osmio-pbf-read-speed exits successfully exactly when the PBF file it is given can be read to its end, and then its last report names the number of all objects stored in it, whatever the blocks, however many objects; osmio-osc-debug shows every object of a change file, once and in document order, and exits successfully exactly when the document is complete. For a file that is missing, cut, malformed or cannot be decoded they exit with a failure, read-speed without a report of a total, osc-debug after showing the objects before the damage. Neither changes any file.",
  ["inputs", "faults"], "All PBF files and change documents x all cuts (and, for documents, malformations); missing files.",
  "No test runs the tools; a miscount, or an exit status of success after half of the file, shows in no type and no assertion.",
  ["src/bin/osmio-pbf-read-speed.rs", "src/bin/osmio-osc-debug.rs", SP, OC], [("counting loop and final report", "src/bin/osmio-pbf-read-speed.rs"), ("dbg! of each object", "src/bin/osmio-osc-debug.rs")], [],
  ["exit status and output of the processes"])

p("P27", "Objects are values: copies are independent, and equality is equality of contents",
  "Two objects of a type compare as equal exactly when they are of the same kind and have the same id, version, changeset, user id, user, visibility and instant of time, the same tags in the same order, and the same position, node list or members; it does not matter how they came about (read from any block of a file, built, edited, copied), in which form a time is held, or whether an untagged node comes from a block where others are tagged. No user and an empty user name differ. A copy, however it is made, is equal to its original, and no later edit or drop of any of the objects, in any history of copies and edits, changes what another one contains.",
  ["histories", "inputs"], "All histories of copies (clone, clone_from, replacement), edits and drops over several objects of all twelve types; all pairs of objects which differ by up to two edits.",
  "No test copies an object or compares two; the types share strings between copies and keep absent tags in two ways, and equality must be right for every pair of contents and origins.",
  [ST, AT, RT, AP, LB], [("derived PartialEq and Clone", ST), ("Option of tags of nodes; unset_tag", AT), ("same", RT), ("tags of dense nodes", AP), ("PartialEq of TimestampFormat", LB)],
  [("_tags", "None or a list, of nodes", AT)],
  ["==, != and all accessors of all objects after each step"],
  "constructor for the Rc types, which have no public constructor (cfg osmio_verif)")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
