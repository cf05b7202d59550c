import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
ENC="smdiff-encoder/src/"
p("C01","Encode then apply reconstructs the target exactly",
 "For every source, every target and every encoder configuration, encoding succeeds, and applying the resulting patch to the same source succeeds and yields exactly the target, byte for byte and no longer. This includes absent and empty sources, empty targets, inputs larger than the matchers' windows, every naive-test choice and every secondary compression at every level (brotli with any valid options of RFC 7932).",
 ["inputs","configurations"],"all (source, target, configuration) triples the public API can express",
 "The encode tests use a dozen hand-made strings and big files that are not in the repository; hash collisions, window slides, overlapping-op resolution and size boundaries depend on content that no sample reaches.",
 [ENC+"encoder.rs",ENC+"op_maker.rs",ENC+"src_matcher.rs",ENC+"trgt_matcher.rs",ENC+"hasher.rs",ENC+"hashmap.rs",ENC+"lib.rs","smdiff-decoder/src/lib.rs"],
 [("match search and lazy matching",ENC+"encoder.rs encode_inner"),("overlap resolution into contiguous ops",ENC+"op_maker.rs translate_inner_ops"),("apply loop","smdiff-decoder/src/lib.rs apply_ops")],
 [("cur_o_pos","encoder position in the target",ENC+"encoder.rs"),("fwd_hash/fwd_pos","rolling hash of each matcher",ENC+"src_matcher.rs, trgt_matcher.rs")],
 ["encode()","apply_patch()"])
p("C02","The encoder only emits patches that are legal on the wire",
 "Every patch the encoder produces is a well-formed patch: all operations are within the format's length limits and none is empty, every copy lies inside the source or inside output generated earlier, every section header states exactly its operation count, output size and add-byte count, no section exceeds the section size limit, and exactly the last section is marked terminal with nothing after it.",
 ["inputs","configurations"],"all inputs and configurations accepted by the encoder",
 "Round-trip tests with the repository's own decoder accept whatever both sides agree on; nothing judges the emitted bytes against the written format, and only a few op lengths occur in the tests.",
 [ENC+"op_maker.rs",ENC+"writer.rs",ENC+"lib.rs","smdiff-writer/src/lib.rs"],
 [("op splitting at the size limits",ENC+"op_maker.rs make_add_ops/make_copy_ops/make_run_ops"),("section partition","smdiff-writer/src/lib.rs make_sections")],None,["bytes written by encode()"])
p("C03","Written sections read back as the same operations",
 "For every list of legal operations, in both layouts, with any section size and any secondary compression, and for any number of sections or patches following one another in one stream, reading what was written returns the same operations in the same sections with the same header facts, and consumes exactly the bytes that were written. Writing something that the format cannot express fails instead of producing a patch that means something else.",
 ["inputs","histories"],"all operation lists, layouts, section sizes; all sequences of writes to one stream",
 "Writer and reader tests compare a handful of hand-assembled sections whose op lengths and addresses stay below 63 and 64; the multi-byte forms, address deltas of any sign and the section boundaries are not sampled.",
 ["smdiff-writer/src/lib.rs","smdiff-reader/src/lib.rs","smdiff-common/src/lib.rs",ENC+"writer.rs"],
 [("op serialisation","smdiff-writer/src/lib.rs write_ops"),("op parsing","smdiff-reader/src/lib.rs read_ops_no_comp/read_op")],
 [("last_d_addr/last_o_addr","base of the address deltas, reset per section","smdiff-writer, smdiff-reader")],["write_section_header/write_ops","SectionIterator"])
p("C04","The bytes follow the published layout, in both directions",
 "What the writer emits decodes, by the rules of the format document alone, to the operations it was given; and the readers accept every encoding those rules allow (any of the size forms that can hold a length, any varint that fits 64 bits) with the meaning the rules give it. Patches therefore interoperate with independent implementations and with files written earlier.",
 ["inputs"],"all operations and headers, all legal alternative encodings of each",
 "Tests that encode and decode with the same code cannot notice both sides drifting together; the few golden byte strings cover only one-byte fields.",
 ["smdiff-writer/src/lib.rs","smdiff-reader/src/lib.rs","smdiff-common/src/lib.rs","spec.md"],
 [("op byte and size forms","smdiff-writer write_op_byte_and_size; smdiff-reader read_op_byte"),("header layout","write_section_header/read_section_header")])
p("C05","Applying a patch performs exactly its operations, in order",
 "For every well-formed patch and matching source, application produces the concatenation of what its operations denote: literals, repeated bytes, the addressed source range, or the addressed range of output already produced, including output of earlier sections. Output positions and the source are addressed from their starts, wherever the streams stand when the call is made and however far into them the addresses reach; application leaves the source as it was.",
 ["inputs"],"all well-formed patches (from any producer) and sources",
 "The decoder tests apply three tiny fixed patches; most legal patches (self-reaching copies, many sections, mixed layouts and compressions) never come from the encoder and so are never applied.",
 ["smdiff-decoder/src/lib.rs","smdiff-decoder/src/reader.rs"],
 [("apply loop","smdiff-decoder/src/lib.rs apply_ops")],[("cur_o_pos","output produced so far, across sections","apply_patch")],["sink after apply_patch()"])
p("C06","Section partitioning loses, reorders and misdescribes nothing",
 "For every operation list and every requested size, dividing it into sections yields consecutive groups whose concatenation is the original list, each within the effective size limit, each with a header stating its exact counts and sizes, only the last one terminal, and none empty unless the list is empty.",
 ["inputs"],"all op lists and all requested section sizes, including sizes outside the permitted range",
 "No test covers partitioning on its own, and inputs that need more than one section do not occur in the unit tests.",
 ["smdiff-writer/src/lib.rs"],[("partition loop","smdiff-writer/src/lib.rs make_sections")])
p("C07","Secondary compression is transparent",
 "Whatever secondary compression is used for a section, and however compressed and uncompressed sections, layouts and algorithms are mixed in one patch, reading gives the same operations and applying gives the same output as the uncompressed patch would; the next section is always found.",
 ["inputs","configurations","histories"],"all section contents (also empty ones), algorithms and parameters, all mixtures of sections",
 "One transcoding test covers one algorithm on one section; the boundary between a compressed section and the next one, empty sections and large compressed sections are untested.",
 ["smdiff-decoder/src/reader.rs",ENC+"writer.rs"],[("decompress then read","smdiff-decoder/src/reader.rs read_ops"),("compress","smdiff-encoder/src/writer.rs section_writer")],
 [("win_data / BufReader position","where the next section starts","smdiff-decoder/src/reader.rs")])
p("C08","A merged patch equals applying its patches one after another",
 "For every chain of patches where each applies to the previous one's output, the merged patch applied to the first source yields exactly the final output of the chain, for every source and whether it is written out, written with any options, or used as operations directly; and the written form has the layout, the compression and the section size that were asked for.",
 ["histories","inputs"],"all chains of patches of any length; all sources",
 "Merge tests use two fixed chains of two patches; slicing operations at arbitrary offsets, copies that span many operations, nested output references and chains longer than two are not covered.",
 ["smdiff-merger/src/lib.rs"],[("resolve output copies","deref_copy_o"),("slice predecessor","get_exact_slice"),("splice","expand_to")],
 [("terminal_patch/terminal_copy_indices","current summary and what still depends on the source","Merger")],["SummaryPatch"])
p("C09","Merging finishes exactly when nothing depends on the source any more",
 "Starting or continuing a merge reports a finished summary exactly when the summary no longer copies from any source, and otherwise reports that a predecessor is still needed. A finished summary reproduces the final output with no source at all.",
 ["histories"],"all chains of patches and every step of merging them",
 "Only the 'still needs a predecessor' and 'no copies at all' answers are sampled, on three fixed patches.",
 ["smdiff-merger/src/lib.rs"],[("termination test","Merger::new, Merger::merge")])
p("C10","Transcoding changes the representation, never the meaning",
 "For every readable patch and every target layout, compression and section size, transcoding succeeds and the new patch has the requested layout and compression, obeys the format's limits, and denotes for every source the same output as the original.",
 ["inputs","configurations"],"all readable patches x all transcoding options",
 "One five-operation patch is transcoded in the tests; joining of adjacent operations, runs long enough to be re-expressed as copies, and their position in the output are not covered.",
 ["smdiff-merger/src/transcoder.rs"],[("join and re-emit","join_adjacent_adds/join_adjacent_runs/make_run_ops")])
p("C11","Slicing an operation list covers exactly the requested range",
 "For every contiguous operation list and every non-empty output range, the operation found for a position is the one that produces that byte; the exact slice produces precisely the bytes of the range, with correct positions and no empty operations, and is refused exactly when the range is not fully covered.",
 ["inputs"],"all contiguous op lists and ranges",
 "Slices are tested on one list with a few ranges; the boundary positions (first/last byte of an op, one past the end, a range inside one op) are where errors live.",
 ["smdiff-merger/src/lib.rs"],[("binary search","find_controlling_op"),("clip","get_exact_slice, MergeOp::skip/trunc")])
p("C12","Converting a VCDIFF delta preserves the file it describes",
 "For every valid VCDIFF delta that the reader library interprets correctly, conversion succeeds and the resulting patch, applied to the same source, yields exactly the target that the VCDIFF delta describes, whatever mixture of windows, window kinds, instruction sizes and periodic copies it contains. A delta whose windows do not produce the sizes they declare, or that ends inside a window or its header, is refused, not half converted.",
 ["inputs"],"all VCDIFF deltas (RFC 3284, default code table, no secondary compression) and sources",
 "The three conversion unit tests fail at this commit (they predate the current layout), so nothing checks conversion today.",
 ["smdiff-vcdiff/src/lib.rs"],[("instruction translation","convert_vcdiff_to_smdiff")],
 [("cur_o_pos, ssp, vcd_trgt","output position and window kind","convert_vcdiff_to_smdiff")])
p("C13","Untrusted bytes never crash, hang or exhaust the reading side",
 "For every byte string given as a patch (and every source), reading, applying, extracting, merging, transcoding and VCDIFF conversion return either a result or an error in time and memory bounded by the input's size and the sizes its sections declare. They never panic, loop forever or allocate out of proportion.",
 ["inputs"],"all byte strings up to the explored bounds, random and adversarially mutated",
 "No test feeds malformed input at all.",
 ["smdiff-reader/src/lib.rs","smdiff-decoder/src/lib.rs","smdiff-decoder/src/reader.rs","smdiff-merger/src/lib.rs","smdiff-merger/src/transcoder.rs","smdiff-vcdiff/src/lib.rs","smdiff-common/src/lib.rs"],
 [("validation of fields","read_section_header, read_op, read_u_varint"),("range checks","apply_ops, extract_patch_instructions")])
p("C14","A truncated or inconsistent patch is rejected, never half-believed",
 "Application reports success only for patches that are complete and consistent: every proper prefix of a patch, every header that disagrees with its operations, every copy outside the source or outside output already produced, every length or number outside the format's range makes it fail.",
 ["inputs","crash_points"],"all truncation points and all inconsistent field values of all patches",
 "No test checks that anything is rejected.",
 ["smdiff-reader/src/lib.rs","smdiff-decoder/src/lib.rs","smdiff-decoder/src/reader.rs"],
 [("sum checks","read_ops_no_comp"),("range checks","apply_ops")])
p("C15","The integer encodings are exact over their whole range",
 "For every 64-bit value, the variable-length and zig-zag encodings decode to the value they encode, use the shortest form when written, occupy the predicted number of bytes, and reject what does not fit in 64 bits; and the address delta of any two addresses leads from the one to the other.",
 ["inputs"],"all 64-bit unsigned and signed values, all pairs of addresses, all byte strings read as a varint",
 "Tests sample a dozen values; carries across limbs, the sign change and the tenth byte are boundary cases of the whole 64-bit range.",
 ["smdiff-common/src/lib.rs"],[("varint","write_u_varint/read_u_varint"),("zig-zag","zigzag_encode/zigzag_decode"),("address deltas","diff_addresses_to_i64/diff_addresses_to_u64")])
p("C16","I/O failures surface as errors and partial transfers do no harm",
 "If any read, write or seek on a caller's stream fails, the operation using it reports an error and never success; and if streams merely transfer fewer bytes than asked for per call, the result is the same as with full transfers. A call that is interrupted, or once transfers nothing in the middle, leads to an error or to the same result, never to a shorter one reported as success.",
 ["fault_sequences","crash_points"],"every I/O call of every operation as the failing one; all ways to split transfers",
 "All tests use in-memory streams that never fail and always transfer everything.",
 ["smdiff-decoder/src/lib.rs","smdiff-decoder/src/reader.rs",ENC+"writer.rs",ENC+"lib.rs","smdiff-writer/src/lib.rs","smdiff-merger/src/lib.rs","smdiff-merger/src/transcoder.rs","smdiff-vcdiff/src/lib.rs"],
 [("error propagation","every ? on I/O"),("read_exact/write_all","all byte access")])
p("C17","Extracted operations carry true positions, counts and sizes",
 "For every readable patch, extraction lists all operations of all sections in order with the output position at which each takes effect, and the statistics equal the real counts and byte totals per kind of operation and the real output size. Resolving the output copies of the extracted operations leaves none of them, true positions, and the same meaning. Headers handed out by the readers state the section's real operation count, output size and number of add bytes in both layouts.",
 ["inputs"],"all readable patches",
 "Statistics are not asserted anywhere, positions only on one patch.",
 ["smdiff-merger/src/lib.rs","smdiff-reader/src/lib.rs"],[("extraction","extract_patch_instructions"),("stats","Stats")])
p("C18","Section iteration ends where the patch ends",
 "Both section readers return each section once, in order, then report the end forever after the terminal section without touching bytes that follow it; owned and borrowed iteration agree, mixing them included. The plain reader leaves the underlying stream exactly behind the terminal section, so that further patches or data in the same stream remain readable; the same holds when the stream is taken back between sections, or a section is read directly.",
 ["inputs","histories"],"all streams of patches followed by arbitrary data; all sequences of owned and borrowed reads",
 "Tests iterate over one or four sections, never past the end, never mixing the two kinds of reads, never with data behind the patch.",
 ["smdiff-reader/src/lib.rs","smdiff-decoder/src/reader.rs"],[("done flag","SectionIterator::next_borrowed/next_owned")],[("done","terminal section seen","SectionIterator")])
p("C19","The encoder honours its configuration",
 "The emitted patch has the requested layout and compression in every section and respects the requested section size (clamped to the permitted range); without source matching or without a source it never refers to a source, so that it applies on its own; without target matching, copies from the output only repeat runs. The shorthand constructors and setters yield the configuration they name.",
 ["inputs","configurations"],"all configurations and inputs",
 "Configurations are exercised by one or two samples each, and only for round trip.",
 [ENC+"lib.rs",ENC+"writer.rs",ENC+"encoder.rs"],[("configuration plumbing","encode, section_writer")])
p("C20","Similar files give small patches",
 "Encoding a file against itself, against a version with data added at the start, the end or the middle, or with long blocks moved or removed costs literal bytes on the order of the new data only, and a few operations per change plus about one per 65,535 bytes of unchanged data, at every compression level; with target matching enabled, content that repeats inside the target is not stored again as literals, and a long stretch of one byte costs a few operations.",
 ["inputs","configurations"],"all incompressible contents of sufficient length and all compression levels",
 "Tests only check reconstruction; an encoder that stores everything literally would pass all of them.",
 [ENC+"encoder.rs",ENC+"src_matcher.rs",ENC+"trgt_matcher.rs",ENC+"hashmap.rs",ENC+"hasher.rs"],
 [("source index","add_start_positions_to_matcher"),("target index","TrgtMatcher::store/find_best_trgt_match")])
p("C21","Any sequence of tool operations keeps versions reconstructable",
 "Starting from any set of file versions, after any sequence of encoding, transcoding, merging, re-encoding and applying operations with any options, every patch held for a pair of versions still turns the first into the second.",
 ["histories"],"all histories of operations over a set of versions",
 "The tests exercise each tool once on its own; feeding one tool's output to another (a merged, transcoded, recompressed patch merged again) is only covered by a manual program with files that are not in the repository.",
 ["smdiff-encoder/src/lib.rs","smdiff-merger/src/lib.rs","smdiff-merger/src/transcoder.rs","smdiff-decoder/src/lib.rs"],
 [("composition of the tools","public API of all crates")])
p("C22","Encoding is a function of its inputs",
 "Encoding the same source, target and configuration gives byte-identical patches every time: regardless of earlier encodings with the same configuration value, of other encodings under way at the same time, of how the input streams deliver their bytes, and of buffers reused between sections.",
 ["histories","schedules"],"all inputs, configurations and histories of earlier calls",
 "No test encodes twice.",
 [ENC+"lib.rs",ENC+"writer.rs",ENC+"trgt_matcher.rs",ENC+"src_matcher.rs"],[("per-call state","encode clones its configuration"),("sec_data_buffer reuse","section_writer")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80
print(len(P))
