#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
O = "src/object"
D = "src/object/database"
K = D + "/packed"
R = "src/reference"
def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": hook}}
    assert len(title) <= 80, title
    return d
L = [
P("P01", "A written object reads back as written, under its SHA-1 address",
  "Writing any bytes as an object succeeds in a writable repository, returns the SHA-1 of exactly those bytes, and stores a zlib stream of exactly those bytes at the path made of that id's hexadecimal digits. From then on the object reads back byte for byte, in that process and after reopening the repository, whatever else has been or is later written. Writing bytes that are already stored returns the same id and changes no stored object.",
  ["inputs", "histories"], "every byte string, every sequence of writes and reads in one repository, before and after reopening",
  "The tests write random strings below 1000 bytes once each; the guarantee is for every content (empty, large, incompressible), every history of earlier writes, and every later reader.",
  [D + "/loose.rs", D + ".rs", D + "/reader.rs", "src/object.rs"],
  [("the id is the hash of the bytes", "src/object.rs Id::from_hash"), ("path from the id, temporary file, rename", D + "/loose.rs write_object"), ("same path when reading", D + "/loose.rs read_object")],
  ["ObjectDatabase::write_object", "ObjectDatabase::read_object", "files under objects/"]),
P("P02", "A write that fails or is cut short never leaves a wrong object behind",
  "Whatever file operation a write is stopped or fails at, any file that bears an object's name afterwards holds that complete object, and objects stored before stay readable. If the write reports success the object is stored completely. A later write of the same bytes succeeds and makes the object readable.",
  ["crash_points", "fault_sequences", "inputs"], "every file operation of a write, failing or being the last one the process performs, for every content and state of the object folder",
  "No test injects a failure or stops a write; the property quantifies over every point at which one can happen.",
  [D + "/loose.rs"],
  [("write to a temporary name, then rename", D + "/loose.rs write_object"), ("unique temporary names", D + "/loose.rs create_temp_file"), ("errors of finishing the stream are returned", D + "/loose.rs write_compressed")],
  ["files under objects/", "ObjectDatabase::write_object"]),
P("P03", "An object's envelope (kind, declared length, body) is decoded exactly",
  "A stored object is accepted exactly when it is one of the four kind names, one space, a decimal length (digits, which one plus sign may precede), a zero byte and a body of exactly that many bytes which is valid for that kind. The kind reported is the kind named, and the body handed to the kind's decoder is exactly the bytes after the zero byte. A length which is malformed, does not fit, or differs from the length of the body is an error, never a truncated, padded or differently typed object.",
  ["inputs"], "every byte string stored as an object, loose or in a pack",
  "The tests decode a few well-formed objects; the grammar has to be decided for every byte string, including wrong kinds, overflowing and lying lengths, and truncations at any byte.",
  [O + "/parse.rs", "src/parse/buffer.rs", "src/parse/parser.rs", O + "/blob.rs"],
  [("header grammar", O + "/parse.rs parse_object_header"), ("kind names", O + "/parse.rs ObjectKind::from_bytes"), ("exact body length", "src/parse/buffer.rs read_to_end_into_parser"), ("dispatch on the kind", O + "/parse.rs parse_object_body")],
  ["ObjectDatabase::parse_object"], "an entry point that parses an object from any reader"),
P("P04", "Decoding does not depend on how the bytes arrive",
  "The result of decoding an object, a delta, a pack entry header or a reference is a function of the bytes alone: it is the same whether the source returns them all at once, one by one, in any other pieces, or interrupts reads with retryable errors. No byte is lost, repeated or read past the end. A source that fails for good makes the decoder report that failure and never a decoded value made of part of the data.",
  ["inputs", "schedules", "fault_sequences"], "every byte string, every way of cutting it into reads, every placement of interruptions and failures",
  "The tests read from in-memory slices which return everything at once; the buffer management only shows its errors for particular cuts.",
  ["src/parse/buffer.rs", O + "/parse.rs", D + "/reader.rs"],
  [("buffer invariant: unread data is kept in order", "src/parse/buffer.rs fill_buf_to, clear_buffer"), ("retry on interruption", "src/parse/buffer.rs"), ("decompression starts at the unread data", "src/parse/buffer.rs decompress")],
  ["Reference::from_reader", "ObjectReader::reader"], "an entry point that parses an object from any reader"),
P("P05", "Tree objects decode to exactly their entries",
  "Decoding a tree succeeds exactly when its body is a sequence of entries, each an octal mode, a space, a name ended by a zero byte, and a 20-byte id, with nothing left over. The entries come back all, in order, with exactly the mode, name bytes and id that are stored. A tree cut off inside an entry, or with a mode that is not a 16-bit octal number, is an error.",
  ["inputs"], "every byte string as the body of a tree",
  "One fixed tree is tested; names of any bytes, any number of entries, modes at the edge of 16 bits and every truncation are not.",
  [O + "/tree.rs", "src/parse/parser.rs"],
  [("entry loop", O + "/tree.rs Tree::parse"), ("stored ranges of names", O + "/tree.rs Tree::entries")],
  ["Tree::entries", "TreeEntry::mode", "TreeEntry::filename", "TreeEntry::id"]),
P("P06", "Commit objects decode to exactly their fields",
  "Decoding a commit yields the tree id, all the parent ids in order, the author and the committer, the encoding if there is one, and the message as exactly the bytes after the blank line, for every commit laid out that way. Additional author lines after the first, and additional header lines between the committer and the blank line, do not change these fields; the last line that begins with `encoding ` gives the encoding. A commit without its tree line, author, committer or blank line, or with a malformed id, is an error.",
  ["inputs"], "every byte string as the body of a commit",
  "A couple of fixed commits are tested; any number of parents, multi-line and binary messages, extra headers and every truncation are not.",
  [O + "/commit.rs", "src/parse/parser.rs"],
  [("field order and ranges", O + "/commit.rs Commit::parse"), ("id lines", "src/parse/parser.rs parse_hex_id_line"), ("prefix lines", "src/parse/parser.rs parse_prefix_line")],
  ["Commit::tree", "Commit::parents", "Commit::author", "Commit::committer", "Commit::encoding", "Commit::message"]),
P("P07", "Tag objects decode to exactly their fields",
  "Decoding an annotated tag yields the id and kind of the tagged object, the tag's name, the tagger if there is one, and the message as exactly the bytes after the blank line if there is one. A tag with a malformed id line, an unknown kind, or no name line is an error.",
  ["inputs"], "every byte string as the body of a tag",
  "One or two fixed tags are tested; tags without tagger or message, all four kinds, arbitrary names and messages and every truncation are not.",
  [O + "/tag.rs", O + "/parse.rs", "src/parse/parser.rs"],
  [("field order and ranges", O + "/tag.rs Tag::parse"), ("kind names", O + "/parse.rs ObjectKind::from_bytes")],
  ["Tag::object", "Tag::kind", "Tag::tag", "Tag::tagger", "Tag::message"]),
P("P08", "Signatures split into exactly name, e-mail, time and zone",
  "For every signature line of the form name, space, e-mail in angle brackets, then optionally a space, a decimal timestamp and optionally a space and a time zone, the name, e-mail, timestamp and zone returned are exactly those bytes, whatever bytes other than the delimiters they contain. The e-mail ends at the last `>` of the line and begins after the last ` <` before it; white space, control characters and the characters `.,:;<>'`, quotes and backslashes in front of a name or an e-mail do not belong to it; a line without an e-mail is an error. A missing time or zone is reported as absent. The fields of one signature never contain bytes of another line.",
  ["inputs"], "every name, e-mail, time and zone as bytes, including empty, non-ASCII and invalid UTF-8 ones",
  "A few plain ASCII signatures are tested; the field boundaries must be right for every content.",
  [O + "/signature.rs", O + "/commit.rs", O + "/tag.rs"],
  [("the pattern of a signature", O + "/signature.rs Signature::regex"), ("one line per signature", O + "/signature.rs parse_signature")],
  ["Signature::name", "Signature::email", "Signature::timestamp", "Signature::timezone"]),
P("P09", "Object ids convert to and from hexadecimal without loss",
  "An id printed as text is the 40 lowercase hexadecimal digits of its 20 bytes, and reading that text, in either case, gives the same id back. Text is accepted as an id exactly when it is 40 hexadecimal digits. Two ids are equal exactly when their bytes are, and they are ordered as their bytes.",
  ["inputs"], "every 20-byte value and every byte string as text",
  "The tests convert a handful of ids; the codec must be exact for all 2^160 values and reject all other text.",
  ["src/object.rs", "src/parse/parser.rs", R + "/direct.rs"],
  [("decoding", "src/object.rs Id::from_hex"), ("encoding", "src/object.rs Id::to_hex"), ("id lines", "src/parse/parser.rs parse_hex_id_line")],
  ["Id::from_hex", "Id::to_hex", "Id::from_str", "Direct::from_bytes"]),
P("P10", "An abbreviated id matches exactly the ids it is a prefix of",
  "An abbreviated id stands for a full id, wherever an id is looked up by it, exactly when its digits are the first digits of that id. Comparing the two agrees with the order of their bytes, in both directions of the comparison: an abbreviated id comes just before the ids it is the beginning of, and is equal to a full id only if it has all of its digits. Abbreviated ids of an even number of digits convert to and from text without loss. A full id used as an abbreviated one matches only itself.",
  ["inputs"], "every id and every abbreviation with an even number of digits",
  "The tests compare a few pairs; search relies on the comparison being consistent with the byte order for all pairs.",
  ["src/object.rs"],
  [("comparison", "src/object.rs ShortId::cmp_id, Id::cmp_short"), ("prefix test", "src/object.rs Id::starts_with")],
  ["ShortId::cmp_id", "Id::cmp_short", "ShortId::from_hex"]),
P("P11", "A pack index finds every object it lists, at its offset, and nothing else",
  "For every well-formed pack index of version 1 or 2, looking up the full id of an object it lists gives exactly the offset recorded for it, including offsets of 2 GiB and more, and looking up an id it does not list reports not found. Looking up an abbreviated id gives the object when exactly one listed id begins with it, reports not found when none does, and reports ambiguity when several do.",
  ["inputs"], "every set of ids and offsets, in both index versions, and every id looked up",
  "One hand-made index with three ids is tested per version; fan-out boundaries, first and last entries, large-offset tables and shared prefixes of any set of ids are not.",
  [K + "/index.rs", "src/object.rs"],
  [("fan-out and binary search", K + "/index.rs find_offset"), ("large offsets", K + "/index.rs offsets"), ("prefix order", "src/object.rs cmp_short, starts_with")],
  ["ObjectDatabase::read_object"], "an entry point that looks up an abbreviated id in an index file"),
P("P12", "A damaged pack index is rejected when opened or looked up, never misread",
  "A file is accepted as a pack index only if its version is known, its fan-out table never decreases, and its length fits the number of objects the table gives. Every other file is an error when it is opened. In an accepted index whose tables are inconsistent, a lookup ends with a result or an error and never with an offset read from outside of the tables.",
  ["inputs"], "every byte string as an index file",
  "The tests only open valid index files.",
  [K + "/index.rs"],
  [("validation", K + "/index.rs parse"), ("bounds of the tables", K + "/index.rs entries_v1, entries_v2, offsets")],
  ["ObjectDatabase::read_object"], "an entry point that opens an index file"),
P("P13", "Pack entry headers and base offsets are decoded exactly",
  "The kind and length in the header of a pack entry and the distance to the base of a delta are decoded to exactly the values that pack files encode, for every encoding length up to the full range of the integers. The data that follows starts at the byte right after the header. A kind that is not defined, a length that does not fit, or a header without an end is an error and not some other value.",
  ["inputs"], "every byte string at the position of an entry header or base distance",
  "Two longest encodings are tested; intermediate lengths, carries between the bytes and overflow are not.",
  [K + "/pack.rs", "src/parse/buffer.rs"],
  [("entry header", K + "/pack.rs read_pack_object_header"), ("base distance", K + "/pack.rs read_delta_offset"), ("search for the last byte", "src/parse/buffer.rs read_until")],
  ["ObjectDatabase::read_object"], "entry points that decode an entry header and a base distance from any reader"),
P("P14", "Applying a delta gives exactly the object its instructions describe",
  "A delta applied to its base gives exactly the concatenation of the ranges copied from the base and the literal bytes, for every sequence of copy and insert instructions, with every encoding of offsets and lengths. The result is returned only if the delta's recorded base and result lengths are the true ones. A delta that is cut short, copies from outside of its base, contains a reserved instruction, or records a wrong length is an error.",
  ["inputs"], "every base and every byte string as a delta",
  "The repository of the tests holds few deltas; instruction encodings with omitted bytes, the 64 KiB default length, ranges at the edge of the base and damaged deltas are not reached.",
  [K + "/delta.rs", "src/parse/buffer.rs"],
  [("instruction decoding", K + "/delta.rs read_command"), ("lengths", K + "/delta.rs read_delta_header"), ("bounds of a copy", K + "/delta.rs apply_delta")],
  ["ObjectDatabase::read_object"], "an entry point that applies a delta"),
P("P15", "A packed object reads as itself however it is stored",
  "Reading a packed object gives the same kind and bytes whether it is stored whole or as a delta against a base given by distance or by id, through chains of any length, in any order of reads and any number of times. An object stored as a delta has the kind of the object at the bottom of its chain. Reading ends with an error, and never runs forever, when a chain is circular, leaves the pack, or a link is damaged.",
  ["inputs", "histories"], "every pack of objects and delta chains, and every sequence of reads in one process",
  "The fixture pack has shallow chains and each object is read once; the cache makes the result depend on which objects were read before.",
  [K + "/pack.rs", K + "/delta.rs", K + ".rs"],
  [("chain walk and loop check", K + "/pack.rs find_chain"), ("application from the base upwards", K + "/pack.rs read_object"), ("cache of offsets", K + "/pack.rs apply_delta")],
  ["ObjectDatabase::read_object", "ObjectDatabase::parse_object"]),
P("P16", "A pack is only used with the index that belongs to it",
  "Objects are read from a pack file only if it starts with the pack signature, has version 2 or 3, and its object count and trailing checksum equal those recorded in its index. In every other case reading an object that is not found elsewhere reports an error, not absence and not data.",
  ["inputs", "configurations"], "every pair of pack and index files",
  "The tests only use one matching pair.",
  [K + ".rs", K + "/pack.rs", K + "/index.rs"],
  [("count and id comparison", K + ".rs Entry::open"), ("signature and version", K + "/pack.rs open")],
  ["ObjectDatabase::read_object"]),
P("P17", "An object is found wherever it is stored, and failures are told apart",
  "An object is found if any pack or the loose object folder contains it, including a pack added after the repository was opened once packs are looked for again. It is reported as not found exactly when no place contains it and none of the places looked at is damaged, and the error names the id asked for. Damage, an unreadable file or an ambiguous id is reported as such and never as not found.",
  ["inputs", "histories", "configurations"], "every distribution of objects over loose files and packs, every state of those files, every order of lookups and additions",
  "The tests look up present objects in one fixed repository.",
  [D + ".rs", K + ".rs", D + "/loose.rs", "src/object.rs"],
  [("order of the places and the retry", D + ".rs read_object"), ("refresh of the list of packs", K + ".rs refresh"), ("classification", D + ".rs From impls, src/object.rs ReadObjectError")],
  ["ObjectDatabase::read_object", "ReadObjectError::is_not_found", "ReadObjectError::is_ambiguous", "ReadObjectError::id"]),
P("P18", "Reference files decode to exactly the id or name they contain",
  "The first line of a reference file which is not empty and does not start with a space or `#` decides what the file says; what comes before and after it does not. If it starts with `ref: `, the reference is symbolic, and its name is the rest without white space at its end, which must not be empty. Otherwise the text up to the first space, if there is one, is set aside, and the rest, without white space at its end, is a name if it contains a `/`, and otherwise must be 40 hexadecimal digits: the id of a direct reference. What was set aside before a name must be 40 hexadecimal digits too: the id which the name is said to lead to. Names and ids are reported byte for byte, and a name that is not UTF-8 is no less a name. A file with anything else, or with no such line, is an error, and so is one that cannot be read to its end.",
  ["inputs"], "every byte string as a reference file, however its bytes arrive",
  "A few fixed files are tested; line endings, trailing data, names that look like ids and invalid bytes are not.",
  [R + "/parser.rs", R + "/symbolic.rs", R + "/direct.rs", "src/reference.rs"],
  [("the patterns of reference lines", R + "/parser.rs"), ("name and id", R + "/symbolic.rs, " + R + "/direct.rs")],
  ["Reference::from_bytes", "Reference::target", "Reference::name"]),
P("P19", "Symbolic references resolve to the object at the end of their chain",
  "Peeling a reference gives the object whose id is found by following the symbolic references, for every chain of up to four links; a reference whose file also says which id its name leads to is taken at its word. A reference to a missing file or a missing object is an error that says so. A circular chain is an error; resolving never runs forever and never overflows the stack.",
  ["inputs", "configurations"], "every arrangement of reference files, including circular ones",
  "One direct and one symbolic reference are tested; longer chains, dangling links and cycles are not.",
  ["src/reference.rs", R + "/symbolic.rs", R + "/direct.rs", R + "/database.rs"],
  [("depth limit", R + "/symbolic.rs peel_to_depth"), ("lookup by name", R + "/database.rs reference")],
  ["Reference::peel", "ReferenceTarget::peel"]),
P("P20", "Listing references gives each one exactly once, by its full name",
  "The names of branches, tags and remote branches are exactly the paths, relative to the git directory, of the files below the corresponding folder, at any depth, each once, byte for byte; whatever is not itself a folder counts as a file. The list of all references is the union of the three. A folder that does not exist contributes nothing and is not an error; a folder or an entry that cannot be read is an error, never left out silently. A name that was listed can be looked up.",
  ["inputs", "configurations"], "every arrangement of files and folders below refs/",
  "One fixed arrangement is tested; nesting, empty and missing folders and non-UTF-8 names are not.",
  [R + "/database.rs"],
  [("folder walk", R + "/database.rs get_all_file_paths_from_dir"), ("relative names", R + "/database.rs reference_name_from_file")],
  ["ReferenceDatabase::reference_names", "ReferenceDatabase::head_reference_names"]),
P("P21", "Looking up a reference never leaves the git directory",
  "Whatever bytes are given as the name of a reference, or stored as the target of a symbolic one, only the path that the name has below the git directory is opened. An empty name, an absolute name, one with a part `..`, and one whose first part is `.`, is reported as an invalid name, and nothing else is. A name whose file does not exist is reported as not found, and one whose file exists gives that file's content.",
  ["inputs"], "every byte string as a name, given by the caller or read from a file",
  "The tests look up two or three ordinary names.",
  [R + "/database.rs", R + "/symbolic.rs"],
  [("components are checked before joining", R + "/database.rs read_reference_file")],
  ["ReferenceDatabase::reference", "ReferenceDatabase::read_reference_file", "Reference::peel"]),
P("P22", "No stored or given bytes make decoding an object or id panic",
  "Decoding any bytes as a loose object of any kind, as an id or as an abbreviated id, and using every accessor of the result, ends with a value or an error. It never panics, overflows, reads out of bounds, overflows the stack or runs forever.",
  ["inputs"], "every byte string as a stored object or textual id",
  "The tests decode valid objects; a panic needs a particular malformed input.",
  [O + "/parse.rs", O + "/tree.rs", O + "/commit.rs", O + "/tag.rs", O + "/signature.rs", "src/object.rs", "src/parse/buffer.rs", "src/parse/parser.rs"],
  [("ranges are within the data", "src/parse/buffer.rs, src/parse/parser.rs"), ("lengths are compared before slicing", "src/parse/parser.rs")],
  ["ObjectDatabase::parse_object", "Id::from_hex", "ShortId::from_hex"]),
P("P23", "No pack or index file makes reading an object panic",
  "Reading any object from a repository with arbitrary bytes as its pack and index files ends with a value or an error. It never panics, overflows an integer, reads out of bounds, overflows the stack or runs forever.",
  ["inputs"], "every pair of byte strings as pack and index files, and every id",
  "The tests read valid packs; a panic needs a particular malformed file.",
  [K + "/pack.rs", K + "/index.rs", K + "/delta.rs", K + ".rs", "src/parse/buffer.rs"],
  [("validation on open", K + "/index.rs parse"), ("checked arithmetic on stored numbers", K + "/pack.rs, " + K + "/delta.rs")],
  ["ObjectDatabase::read_object"], "entry points for index, delta and entry header decoding"),
P("P24", "No reference file or name makes a reference operation panic",
  "Reading, looking up, listing, comparing and peeling references ends with a value or an error for any bytes in the files and any bytes given as a name. It never panics, overflows the stack or runs forever.",
  ["inputs", "configurations"], "every byte string as a reference file or name, and every arrangement of files",
  "The tests use valid files and names.",
  [R + "/parser.rs", R + "/symbolic.rs", R + "/direct.rs", R + "/database.rs", "src/reference.rs"],
  [("errors instead of unwrapping", R + "/*.rs")],
  ["Reference::from_bytes", "Reference::peel", "ReferenceDatabase::reference"]),
P("P25", "Memory use follows the data that is present, not the lengths it declares",
  "Reading a loose object, a delta or a pack entry never requests memory beyond a fixed amount plus a small multiple of the bytes actually stored, decompressed or produced. A declared length alone, however large, makes reading fail without such a request.",
  ["inputs"], "every declared length and every amount of data really present",
  "The tests declare true lengths.",
  ["src/parse/buffer.rs", K + "/delta.rs", O + "/parse.rs"],
  [("buffers grow in bounded steps as data arrives", "src/parse/buffer.rs fill_buf_to, read_to_end"), ("the result of a delta grows with its instructions", K + "/delta.rs apply_delta")],
  ["ObjectDatabase::parse_object"], None),
]
with open(V + "/properties.jsonl", "w") as f:
    for d in L:
        f.write(json.dumps(d) + "\n")
import subprocess
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "rustc --cfg rusty_git_verif", "enable": "RUSTFLAGS=\"--cfg rusty_git_verif\" (the harness crate in /verif/harness depends on /repo by path)", "source_commits": hooks},
     "checks": [], "not_applicable": [],
     "notes": "Every check extracts the functions of /repo's current source, adds the contracts of /verif/contracts, and has Verus discharge every obligation; beside it a harness searches for a failing input on the real code. See DESIGN.md."}
for d in L:
    c = PROPS[d["id"]]
    if c.get("na"):
        m["not_applicable"].append({"property": d["id"], "reason": c["na"]})
        continue
    m["checks"].append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + d["id"],
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
