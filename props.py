"""What decides each property: the functions whose obligations it consists of,
and what is only bounded."""

TRUSTED_ALWAYS = [
    "the Verus verifier, its encoding and Z3",
    "the rewrites R1-R24 of vext (listed in vext/src/rewrite.rs and DESIGN.md)",
    "the contracts of shim functions which stand for std, bytes, hex, sha-1, flate2 and the operating system",
    "usize is 64 bits wide",
]
BASELINE_ONLY = []

PARSER = "src/parse/parser.rs|*"
BUFFER = "src/parse/buffer.rs|*"
OBJECT = "src/object.rs|*"
OPARSE = "src/object/parse.rs|*"
SIGNATURE = "src/object/signature.rs|*"
TREE = "src/object/tree.rs|*"
COMMIT = "src/object/commit.rs|*"
TAG = "src/object/tag.rs|*"
BLOB = "src/object/blob.rs|*"
DELTA = "src/object/database/packed/delta.rs|*"
PACK = "src/object/database/packed/pack.rs|*"
INDEX = "src/object/database/packed/index.rs|*"
READER = "src/object/database/reader.rs|*"
PACKED = "src/object/database/packed.rs|*"
LOOSE = "src/object/database/loose.rs|*"
DATABASE = "src/object/database.rs|*"
ERRORS = ["src/object.rs|ReadObjectError::new", "src/object.rs|ReadObjectError::id", "src/object.rs|ReadObjectError::is_ambiguous", "src/object.rs|ReadObjectError::is_not_found",
          "src/object.rs|<From<ParseObjectError> for ReadObjectErrorKind>::from", "src/object.rs|<From<database::ReadError> for ReadObjectErrorKind>::from", "src/object.rs|<From<Id> for ShortId>::from", "src/object.rs|<fmt::Display for ReadObjectError>::fmt"]
REPO = "src/repository.rs|*"
REFERENCE = "src/reference.rs|*"
RPARSER = "src/reference/parser.rs|*"
SYMBOLIC = "src/reference/symbolic.rs|*"
DIRECT = "src/reference/direct.rs|*"
RDB = "src/reference/database.rs|ReferenceDatabase::"
LOOKUP = [RDB + n for n in ("open", "head", "reference", "parse_reference", "read_head", "read_reference_file", "path_to_bytes", "bytes_to_path")]
LISTING = [RDB + n for n in ("reference_names", "head_reference_names", "tag_reference_names", "remote_reference_names", "reference_names_from_dir",
                             "get_all_file_paths_from_dir", "reference_name_from_file", "path_to_bytes", "bytes_to_path")]
HASH = ["src/object.rs|Id::from_hash", "src/object.rs|Id::to_hex"]

IDS = ["src/object.rs|Id::from_bytes", "src/object.rs|Id::from_hex", "src/object.rs|Id::to_hex", "src/object.rs|Id::as_bytes"]
SHORTS = ["src/object.rs|ShortId::from_hex", "src/object.rs|ShortId::to_hex", "src/object.rs|ShortId::as_bytes", "src/object.rs|ShortId::cmp_id",
          "src/object.rs|ShortId::first_byte", "src/object.rs|Id::cmp_short", "src/object.rs|Id::starts_with"]
TECH = "contract-based deductive verification (Verus) of the extracted real functions"
STAND_IN = "Searched only within the time of the run: seeded cases on the real crate."


def C(roots, note, technique=TECH, level="proof", **k):
    d = {"roots": roots, "note": note, "technique": technique, "level": level}
    d.setdefault("bounded", STAND_IN)
    d.update(k)
    return d


def NA(reason):
    return {"na": reason}


NYET = "no contract decides this yet"
PROPS = {
    "P01": C([LOOSE, DATABASE, READER] + HASH,
             "Postconditions of writing and reading over a world in which other processes act at any time: a write that reports success has put a complete stream of exactly these bytes under the name made of their SHA-1; a read delivers the decompressed content of that very file. A stored object stays, as no function ever opens, truncates, removes or renames over such a name except with a complete stream of the bytes that hash to it."),
    "P02": C([LOOSE] + HASH,
             "Preconditions of the operations which change files: a file gets the name of an object only by being renamed to it once all of a stream that hashes to the name is in it; proved at every call, so it holds wherever the process stops or an operation fails. Durability of what the operating system has acknowledged is assumed."),
    "P03": C([OPARSE, BLOB, PARSER, BUFFER, READER],
             "Postconditions of the header and body decoders against a grammar over the whole byte string, for every input and every reader; the decoders of the kinds have their own properties."),
    "P04": C([BUFFER, OPARSE, READER],
             "The buffer's invariant and the postconditions of its operations speak of the remaining bytes of the source only, for every reader which returns any pieces, interruptions and errors."),
    "P05": C([TREE, PARSER], "Postcondition of the tree decoder: the decoded entries are those of a recursive specification of the format, for every body."),
    "P06": C([COMMIT, PARSER, "src/object/signature.rs|Parser::parse_signature"], "Postcondition of the commit decoder against a specification of the format, for every body. Extra headers are skipped up to the blank line as specified."),
    "P07": C([TAG, PARSER, "src/object/signature.rs|Parser::parse_signature"], "Postcondition of the tag decoder against a specification of the format, for every body."),
    "P08": C([SIGNATURE, "src/object/commit.rs|Commit::author", "src/object/commit.rs|Commit::committer", "src/object/tag.rs|Tag::tagger"], "The pattern in the source is parsed, on every run, by the parser that the regex library itself uses, and becomes the program of a matcher specified in the contracts (leftmost, first alternative, greedy). That this program finds exactly the fields defined by the last `>` and the last ` <` before it is proved for every line, and so is that what is written as a signature is read as it. Assumed: the regex library does what its documentation says."),
    "P09": C(IDS + ["src/object.rs|<fmt::Display for Id>::fmt", "src/object.rs|<fmt::Debug for Id>::fmt", "src/object.rs|<PartialEq for Id>::eq", "src/object.rs|<Ord for Id>::cmp", "src/object.rs|<PartialOrd for Id>::partial_cmp", "src/object.rs|<FromStr for Id>::from_str", "src/parse/parser.rs|Parser::parse_hex_id_line", "src/parse/parser.rs|Parser::parse_id"], "Postconditions of the id codec over all byte strings; the hex crate's two functions have assumed contracts."),
    "P10": C(SHORTS + IDS + ["src/object.rs|<fmt::Display for ShortId>::fmt", "src/object.rs|<fmt::Debug for ShortId>::fmt"], "Postconditions of the comparisons over all ids and prefixes, and the order lemmas."),
    "P11": C([INDEX] + SHORTS, "Postcondition of the lookup against the tables of the file, for every well-formed index of both versions and every id; well-formed is a specification over the bytes of the file."),
    "P12": C([INDEX], "Postcondition of opening an index: accepted exactly if the specification of a well-shaped index holds of the bytes; every access to the tables stays inside of them, for every file."),
    "P13": C(["src/object/database/packed/pack.rs|Buffer::read_pack_object_header", "src/object/database/packed/pack.rs|Buffer::read_delta_offset", "src/object/database/packed/pack.rs|Buffer::read_delta_reference",
              "src/object/database/packed/pack.rs|Buffer::read_pack_file_header", BUFFER, PARSER],
             "Postconditions of the three decoders against a specification of the encoding, for every byte string at the entry and every way of reading it."),
    "P14": C([DELTA, BUFFER, PARSER], "Postcondition of the delta application against a recursive specification of the instructions, for every base and every delta."),
    "P15": C([PACK, DELTA, READER, "src/object/database/packed/index.rs|IndexFile::find_offset"],
             "Postcondition of the read: the object returned is the one which a recursive specification of entries and deltas gives at that offset, whatever the cache holds under its invariant; an error means that no such object exists with a chain as long as the pack allows."),
    "P16": C([PACKED, "src/object/database/packed/pack.rs|PackFile::open", "src/object/database/packed/pack.rs|PackFile::count", "src/object/database/packed/pack.rs|PackFile::id",
              "src/object/database/packed/pack.rs|Buffer::read_pack_file_header", "src/object/database/packed/index.rs|IndexFile::open", "src/object/database/packed/index.rs|IndexFile::parse",
              "src/object/database/packed/index.rs|IndexFile::id", "src/object/database/packed/index.rs|IndexFile::count"],
             "Invariant of an entry of the map of packs, established by opening it: signature, version, count and checksum of the pack are those of its index, for every pair of files; everything read comes from such an entry."),
    "P17": C([REPO, DATABASE, PACKED, LOOSE, INDEX] + ERRORS + SHORTS,
             "Postconditions of the lookup over a world in which packs and files appear and vanish at any time: not found means that there was a moment at which the object had no file of its own and after which none of the packs, looked for again, lists it; damage and ambiguity keep their kind; every error has the id asked for."),
    "P18": C([RPARSER, SYMBOLIC, DIRECT, "src/reference.rs|Reference::from_reader", "src/reference.rs|Reference::from_bytes", "src/reference.rs|Reference::name", "src/reference.rs|Reference::target", "src/object.rs|Id::from_hex"],
             "Postcondition of the parser against a recursive specification of the file, for every byte string and every reader; white space is defined in the contracts; that the bstr crate takes exactly it off the end is assumed."),
    "P19": C([REFERENCE, RPARSER, SYMBOLIC, DIRECT] + LOOKUP,
             "Postcondition of peeling against a recursive specification of what following the names leads to, over a world in which files change at any time; the recursion has a measure, so it ends."),
    "P20": C([REPO] + LISTING, "Invariant of the folder walk and postconditions of the four listings, over a world in which files and folders come and go during the walk: every file that was there all the time is listed once, and nothing that was never there; what the operating system says of folders and entries is assumed, and that no listing gives an entry twice."),
    "P21": C([REPO] + LOOKUP, "Postcondition of the lookup for every byte string as a name: the content is that of the file at the name below the folder, and a name is refused exactly if the specification of names that stay inside says so; how a path is taken apart into components is assumed of std."),
    "P22": C([PARSER, BUFFER, OBJECT, OPARSE, SIGNATURE, TREE, COMMIT, TAG, BLOB] + ["src/object/%s.rs|Debug" % f for f in ("tree", "commit", "tag", "blob")] + ["src/object.rs|Debug"], "No overflow, no out-of-bounds access, no failed unwrap and termination, proved for every function under contract, for all inputs."),
    "P23": C([PACK, INDEX, DELTA, BUFFER, PARSER, PACKED, READER] + SHORTS + ["src/object/database/packed/pack.rs|Debug", "src/object/database/packed/index.rs|Debug"], "No overflow, no out-of-bounds access, no failed unwrap and termination, proved for every function between the files and the caller, for all files and ids."),
    "P24": C([REFERENCE, RPARSER, SYMBOLIC, DIRECT, "src/reference/symbolic.rs|Debug", "src/object.rs|Id::from_hex"] + LOOKUP + LISTING, "No overflow, no out-of-bounds access, no failed unwrap and termination, proved for every function of references, for all files and names."),
    "P25": C([BUFFER, DELTA, PACK, INDEX, OPARSE, TREE, READER, PACKED],
             "Preconditions of every allocation: what is asked for is at most 16 MiB, or a small multiple of bytes that are there or have been produced; proved at each call. Growth of a vector by the library is by doubling, which is assumed."),
}
