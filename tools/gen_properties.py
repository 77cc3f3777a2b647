#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Written metadata reads back exactly",
  "Writing any set of metadata values into a valid MPEG-4 file and reading that file again yields the same identifiers, the same values of the same types, in the same order, for every value type (bytes, utf-8, utf-16, jpeg, png, bmp, signed integers), every four-character identifier other than the reserved padding identifier `free`, and every freeform (mean, name) identifier. "
  "The stored bytes are also what the iTunes/QuickTime metadata format prescribes, so an independent decoder of the file sees the same items. "
  "This holds whether the file had no user data, had user data without metadata, had metadata without an item list or without a handler, or already had other metadata.",
  ["inputs", "configurations"],
  "every tag (any identifiers, any typed values incl. empty strings, non-BMP text, NULs, empty and large blobs, several values per identifier) x every valid container shape",
  "tests write two fixed ASCII tags into four sample files that all have complete metadata; no utf-16, no freeform besides two, no missing levels of the hierarchy, no empty values",
  ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/ilst.rs", "src/atom/meta.rs", "src/atom/udta.rs", "src/tag/mod.rs"],
  [("write_tag_to", "src/atom/mod.rs"), ("AtomData::write/parse/len", "src/atom/mod.rs"), ("Data::write_typed/parse/len", "src/atom/data.rs"), ("Ilst::parse_atom", "src/atom/ilst.rs")],
  ["Tag::write_to", "Tag::write_to_path", "Tag::read_from", "bytes of the written file"])

p("C02", "Writing metadata preserves the rest of the container",
  "After a successful write into a valid file, the file is still a well-formed atom tree in which every atom's length exactly covers its contents and the file ends where its last atom ends. "
  "Apart from the metadata item list (and the user data, metadata and handler atoms created when they were missing), every atom of the original is still present, in the same order, under the same parent and byte for byte unchanged, except for the lengths of the enclosing atoms and the chunk-offset entries. "
  "A metadata atom that had no handler atom ends up with exactly one (type `mdir`, manufacturer `appl`), and an existing handler is left as it was. "
  "A write that would make an atom too long for its 32-bit length is refused and leaves the file unchanged. This holds for files of any size, including those beyond 2 and 4 GiB.",
  ["inputs", "configurations"],
  "every valid container (any order of atoms at every level, extended 64-bit headers, unknown and decoy atoms, several tracks, padding, data after the item list, sizes across the I/O buffer size and beyond 4 GiB) x every tag growing, shrinking or keeping the item list",
  "tests never look at the bytes outside the metadata, only at the tag and the audio information read back from four sample files",
  ["src/atom/mod.rs", "src/atom/head.rs", "src/atom/moov.rs", "src/atom/udta.rs", "src/atom/meta.rs", "src/atom/hdlr.rs"],
  [("write_tag_to: update_atoms, moved_data, set_len", "src/atom/mod.rs"), ("Size/Head/AtomBounds", "src/atom/head.rs"), ("FindAtom impls", "src/atom/*.rs")],
  ["bytes of the file before and after Tag::write_to, parsed by an independent parser"])

p("C03", "Media samples stay addressable after a write",
  "After a successful write, every entry of every 32-bit and 64-bit chunk-offset table of every track points at the same media bytes it pointed at before the write, wherever the media data atoms lie relative to the movie atom (before it, after it, or several on both sides) and wherever the tables lie relative to the metadata. "
  "The number and order of the entries do not change. "
  "A write that would need an offset that does not fit its table is refused and leaves the file unchanged instead of storing a wrapped offset.",
  ["inputs", "configurations"],
  "every valid container of any size (also beyond 4 GiB) with any number of tracks, tables, media data atoms and any atom order x every change in metadata length (growing, shrinking, equal)",
  "no test reads a chunk-offset table or a sample after writing; the sample files cover one atom order each",
  ["src/atom/mod.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/stbl.rs", "src/atom/trak.rs", "src/atom/mdat.rs"],
  [("sample table chunk offset adjustment in write_tag_to", "src/atom/mod.rs"), ("Stco/Co64 parse", "src/atom/stco.rs, src/atom/co64.rs")],
  ["bytes addressed through stco/co64 before and after Tag::write_to"])

p("C04", "A file's state depends only on the last tag written",
  "Writing any sequence of tags one after the other leaves exactly the same file as writing only the last of them to the original file, and writing the same tag twice changes nothing the second time. "
  "Reading a file and writing the tag back unchanged does not change what a reader sees: same metadata, same audio information, same file type. "
  "In particular repeated writes never make the file grow, leave remnants of earlier metadata, or drift chunk offsets.",
  ["histories", "inputs"],
  "every sequence of writes (growing, shrinking, empty, re-reading in between, copying tags between files) x every valid container",
  "the one test that writes three tags in a row only reads back the last one through the same library and compares a few fields",
  ["src/atom/mod.rs", "src/atom/ilst.rs", "src/tag/mod.rs"],
  [("write_tag_to", "src/atom/mod.rs"), ("read_tag_from", "src/atom/mod.rs")],
  ["file bytes after each write of a sequence", "Tag equality"])

p("C05", "Metadata written by other software is decoded exactly",
  "Reading a valid file yields exactly the items of the movie-level metadata item list: for every item its identifier (four-character, or freeform from its mean and name in whatever order the sub-atoms appear; `----` itself if one of them is missing) and all its values with their types, in file order, with repeated items of the same identifier merged at the position of the first. "
  "Padding and unknown sub-atoms, locale indicators, sub-atom order, header forms and item lists elsewhere (file level, inside tracks) have no influence. "
  "A file whose movie has no item list yields an empty tag rather than an error.",
  ["inputs", "configurations"],
  "every valid item list as another encoder may lay it out (sub-atom order, duplicates, padding, unknown atoms, extended headers, locale, all seven supported types) in every valid container",
  "tests read two fixed samples produced by one encoder and files written by the library itself",
  ["src/atom/mod.rs", "src/atom/ilst.rs", "src/atom/meta.rs", "src/atom/data.rs", "src/atom/head.rs"],
  [("AtomData::parse", "src/atom/mod.rs"), ("Ilst::parse_atom merging", "src/atom/ilst.rs"), ("ParseAtom impls", "src/atom/*.rs")],
  ["Tag::read_from", "Tag::data"])

p("C06", "Audio information and file type are decoded exactly",
  "For every valid file the reported duration equals movie duration divided by time scale (both movie header versions, exact to the nanosecond), the sample rate, channel configuration, maximum and average bitrate equal those in the decoder descriptors of the first track that has an MPEG-4 audio sample entry, unknown indices are reported as absent, and the file type string equals the content of the file type atom. "
  "Missing atoms make the corresponding value absent, never an error or a made-up value; a decoder configuration that is cut short never yields a value it does not hold. "
  "Writing, changing, removing or clearing metadata, in a tag or in a file, never changes any of this information.",
  ["inputs", "configurations"],
  "all time scales, durations, descriptor contents, descriptor length encodings, unknown descriptors, numbers and kinds of tracks and sample entries, atom orders",
  "tests check one value set from two samples; version 1 movie headers, other descriptor layouts, several tracks and large durations never occur",
  ["src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/stsd.rs", "src/atom/ftyp.rs", "src/atom/mod.rs", "src/types.rs", "src/tag/readonly.rs"],
  [("Mvhd::parse_atom", "src/atom/mvhd.rs"), ("parse_esds, parse_es_desc, parse_dc_desc, parse_ds_desc", "src/atom/mp4a.rs"), ("read_tag_from", "src/atom/mod.rs")],
  ["Tag::audio_info", "Tag::duration", "Tag::channel_config", "Tag::sample_rate", "Tag::avg_bitrate", "Tag::max_bitrate", "Tag::filetype"])

p("C07", "Reading any bytes terminates cleanly with a tag or an error",
  "Reading a tag from any sequence of bytes - truncated, corrupted, hostile or random - always returns either a tag or an error. "
  "It never panics (arithmetic overflow included), never loops forever, and never allocates memory out of proportion to the size of the input, whatever lengths the atoms claim. "
  "The same holds for displaying and inspecting a tag that was read from such input.",
  ["inputs"],
  "every byte sequence; in particular every valid file with any number of bytes changed, removed, inserted, duplicated, or with any atom length, version, count or descriptor length replaced",
  "no test reads a malformed file",
  ["src/atom/mod.rs", "src/atom/head.rs", "src/atom/data.rs", "src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/stsd.rs", "src/atom/ftyp.rs"],
  [("parse_head, content_len, seek_to_end", "src/atom/head.rs"), ("ReadData::read_u8_vec/read_utf8/read_utf16", "src/atom/data.rs"), ("every parse loop", "src/atom/*.rs")],
  ["Tag::read_from result, panics, number of reader operations, bytes allocated"])

p("C08", "A write that is refused leaves the file untouched",
  "Writing metadata to any file whatsoever - valid, malformed, truncated or not MPEG-4 at all - either succeeds or returns an error; it never panics, loops forever or allocates out of proportion to the file. "
  "Whenever it returns an error because of the file's content, the file is byte for byte (and in length) what it was before the call. "
  "When it succeeds on a well-formed file (strict atom tree, descriptors and headers within bounds, a single movie atom) whose metadata could be read before, reading the file yields the written metadata.",
  ["inputs"],
  "every tag x every byte sequence as file content, in particular valid containers with any length, version, entry count or byte changed or the file cut anywhere",
  "no test writes to a malformed file or compares a file after a failed write",
  ["src/atom/mod.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/head.rs", "src/atom/meta.rs"],
  [("write_tag_to: parse everything before the first write", "src/atom/mod.rs"), ("Stco/Co64 validation", "src/atom/stco.rs, src/atom/co64.rs")],
  ["Tag::write_to result and file bytes before/after"])

p("C09", "Dumped metadata is well formed and reads back",
  "Dumping any tag to a writer produces one file type atom (`M4A `, compatible with `isom` and `iso2`) followed by one movie atom that contains the complete hierarchy user data, metadata, handler (type `mdir`, manufacturer `appl`) and item list, with every length exact. "
  "Reading the dump yields the same identifiers and values as the tag, in the same order, and no audio information. "
  "The dumped bytes depend only on the metadata of the tag, and dumping to a path produces the same bytes as dumping to a writer, replacing any previous content of the file. "
  "Items that are too long for a 32-bit length are refused, longer metadata of several items gets 64-bit lengths where needed.",
  ["inputs"],
  "every tag (any identifiers, types and values); every writer (accepting any number of bytes per call)",
  "tests dump the two fixed tags and compare a few fields read back",
  ["src/atom/mod.rs", "src/atom/ftyp.rs", "src/atom/moov.rs", "src/atom/udta.rs", "src/atom/meta.rs", "src/atom/ilst.rs", "src/atom/hdlr.rs"],
  [("dump_tag_to", "src/atom/mod.rs"), ("WriteAtom impls and sizes", "src/atom/*.rs")],
  ["Tag::dump_to", "Tag::dump_to_path", "Tag::read_from"])

p("C10", "I/O failures surface as errors, partial I/O is transparent",
  "If any read, write, seek or resize operation fails while a tag is read, written or dumped, the call returns an error instead of panicking or reporting success with a wrong result: success is only ever reported when the tag is exactly the file's metadata, or the file or writer holds exactly the complete result. "
  "Operations that transfer fewer bytes than requested or are interrupted do not change the result. "
  "The error is of the kind Io and contains the original I/O error. "
  "A failed read, seek or resize before the first modification, or writes and resizes that fail from the start, leave the file unchanged; writing to a path that does not exist does not create it.",
  ["fault_sequences", "inputs"],
  "every single I/O operation of every read, write and dump made to fail, to be interrupted, or to transfer only part of its data",
  "tests run on a healthy file system only",
  ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/head.rs", "src/tag/mod.rs", "src/error.rs"],
  [("error propagation in read_tag_from, write_tag_to, dump_tag_to; explicit flush", "src/atom/mod.rs"), ("read_exact/write_all", "src/atom/*.rs")],
  ["result of Tag::read_from/write_to/dump_to under injected faults", "file bytes"])

p("C11", "A tag behaves as an ordered multimap of typed values",
  "For every sequence of generic operations (set, set all, add, add all, get, get mutable, take, remove, retain and clear, per identifier or for the whole tag, for bytes, strings, images or all data) the tag behaves like an insertion-ordered map from identifiers to non-empty ordered lists of values: set replaces the list of that identifier, add appends, take removes the identifier and returns its values of the requested kind, remove deletes (the typed removes only values of their kind), retain keeps exactly the values of the given kind that match plus all values of other kinds, and all other identifiers and values stay as they were. "
  "Typed views show exactly the values of their kind in list order, mutable views change exactly the value they expose, and identifiers with no value left disappear, so that a tag is empty exactly when it has no value. File type and audio information are never affected.",
  ["histories", "inputs"],
  "every sequence of operations over four-character and freeform identifiers and values of all seven types, including mixed types under one identifier, empty lists and retain predicates",
  "doc tests show each operation once on one or two values; sequences, mixed types and the interplay of operations are not sampled",
  ["src/tag/mod.rs", "src/atom/data.rs", "src/atom/ident.rs"],
  [("data accessors of Tag", "src/tag/mod.rs"), ("typed views of Data", "src/atom/data.rs"), ("PartialEq<DataIdent>", "src/atom/ident.rs")],
  ["Tag::data and all *_of accessors after every operation"],
  [{"name": "atoms", "meaning": "the ordered list of identifier/values pairs", "where": "src/tag/mod.rs"}])

p("C12", "Named accessors touch exactly their documented atom",
  "Each named accessor (album, artist, lyrics, bpm, compilation, artwork, media type, advisory rating, ISRC, lyricist, ...) reads and writes only the atom named in its documentation, with the value type of that atom: strings as utf-8, integers as big-endian signed-integer data of 2 or 4 bytes, flags as one byte 1, images by their format. "
  "A value set through an accessor is returned by the matching getter (also after writing to a file or dump and reading again), set replaces, add appends, take returns and removes, remove deletes, and no other atom is affected. "
  "On arbitrary existing data a getter returns the first value (a plural getter all values) of the fitting kind, or nothing when there is none or it is too short.",
  ["inputs", "histories"],
  "every named accessor x every argument value x every prior content of the tag, incl. data of unexpected types and lengths under the same identifier",
  "tests set each accessor to one or two values on an empty tag; interference, prior data of other types and most integer values are not sampled",
  ["src/tag/mod.rs", "proc/src/lib.rs", "src/atom/ident.rs", "src/types.rs", "src/atom/data.rs"],
  [("accessor macros", "proc/src/lib.rs"), ("identifier constants", "src/atom/ident.rs"), ("be_int!", "src/atom/data.rs"), ("artwork, media type, advisory rating", "src/tag/mod.rs")],
  ["named accessors of Tag and Tag::data"])

p("C13", "Track and disc numbers are two independent optional numbers",
  "The number and the total of tracks (and likewise of discs) behave as two independent optional 16-bit values where 0 means absent: setting or removing one never changes the other, setting both sets both, and getters agree with each other. "
  "Tracks and discs never affect each other, other bytes of an existing value are preserved when one number is changed, and values of any length found in a file are read without failure (missing numbers are absent). "
  "Removing a number when the other one is absent removes the atom, so that nothing of it remains in the tag.",
  ["histories", "inputs"],
  "every sequence of set/remove operations over all 16-bit values x every pre-existing value of any type and length",
  "the test performs one sequence with small values on an empty tag",
  ["src/tag/tuple.rs", "src/atom/data.rs"],
  [("set_track*, remove_track*, set_disc*, remove_disc*", "src/tag/tuple.rs"), ("be_int!, set_be_int!", "src/atom/data.rs")],
  ["track/disc accessors of Tag and Tag::bytes_of"])

p("C14", "Genre accessors combine standard and custom genres consistently",
  "The combined genre getters list the names of the valid standard genre codes (1 to 80, code n naming ID3v1 genre n-1) followed by the custom genres, and the singular getter is always the first element of the plural one; unknown codes and too short values are skipped. "
  "Setting a genre leaves exactly the given custom genres and no standard genre, adding appends a custom genre and leaves the rest, removing leaves none. "
  "Taking genres returns the same names as the corresponding getter and removes all custom genres and leaves the standard genre codes.",
  ["histories", "inputs"],
  "every sequence of standard-, custom- and combined-genre operations over all 16-bit codes and any strings, on any pre-existing genre data",
  "one test runs one sequence with two valid codes and two strings",
  ["src/tag/genre.rs", "src/tag/mod.rs", "proc/src/lib.rs"],
  [("genres, genre, take_genre(s), set_genre(s), standard_genres", "src/tag/genre.rs"), ("STANDARD_GENRES", "src/tag/genre.rs")],
  ["genre accessors of Tag"])

p("C15", "Codes and enumerations correspond one to one",
  "Media types, advisory ratings, channel configurations and sample rates convert from their numeric codes exactly as documented: every documented code gives its value, every other code is an error carrying that code for media type and channel configuration, an error for sample rate, and Explicit for advisory rating. "
  "A media type or advisory rating set on a tag is stored as its documented code and read back as the same value, also through a file. "
  "Channel counts and sample rates in Hz are those of the MPEG-4 audio tables.",
  ["inputs"],
  "all 256 codes of each enumeration; every enumeration value through every accessor",
  "tests touch two media types, two ratings, one channel configuration and one sample rate",
  ["src/types.rs", "src/tag/mod.rs"],
  [("TryFrom<u8>/From<u8> and code()", "src/types.rs"), ("media_type/advisory_rating", "src/tag/mod.rs")],
  ["MediaType, AdvisoryRating, ChannelConfig, SampleRate conversions; Tag accessors"])

p("C16", "Data values have one kind, an exact length and consistent views",
  "Every data value is of exactly one type, its type predicates and typed accessors (borrowed, mutable and consuming) agree with that type, and it is exactly one of bytes, string or image. "
  "Its reported length is exactly the number of bytes the value occupies in a file, and it is empty exactly when that is zero. "
  "Changing a value through a mutable view is visible through all other views and nothing else changes; image values convert to and from images without changing format or data.",
  ["inputs"],
  "every data value of all seven types with any content (any unicode text for both encodings)",
  "doc tests use short ASCII values; utf-16 values are never stored",
  ["src/atom/data.rs", "src/types.rs"],
  [("Data accessors and len", "src/atom/data.rs"), ("Img and From<Img>", "src/types.rs, src/atom/data.rs")],
  ["Data accessors; bytes of a dump"])

p("C17", "Displaying a tag is total and shows every value that is set",
  "Formatting any tag for display never fails or panics, whatever values the tag holds or audio information it was read with. "
  "Every present value of a named accessor appears on a line labelled with that accessor's name (all values of multi-valued ones, in order), including artworks by format and size, genres, track and disc numbers, duration, bitrates, sample rate and channel configuration, freeform atoms and the file type. "
  "Values that are absent do not appear.",
  ["inputs"],
  "every tag built from any combination of values and read from any valid file",
  "tests print tags without looking at the output",
  ["src/tag/mod.rs", "src/tag/readonly.rs", "src/tag/tuple.rs", "src/tag/genre.rs", "proc/src/lib.rs", "src/types.rs"],
  [("Display for Tag and format_* functions", "src/tag/mod.rs")],
  ["format!(\"{}\", tag)"])

p("C18", "Identifiers compare and convert coherently",
  "Two identifiers, borrowed or owned, four-character or freeform, match exactly when they denote the same atom: the same four bytes, or the same mean and the same name (case sensitive, no normalisation); a four-character identifier never matches a freeform one. "
  "All the ways to compare (equality operators between borrowed and owned identifiers, the match function, lookup in a tag) agree, and converting between borrowed and owned forms preserves identity. "
  "Displaying an identifier shows the four characters (each byte as its Latin-1 character) or `----:mean:name`. "
  "Each public identifier constant denotes the atom its documentation names.",
  ["inputs"],
  "all pairs of identifiers over arbitrary four bytes and arbitrary mean and name strings, including equal prefixes, empty strings, strings containing the separator and swapped mean and name",
  "tests never compare identifiers that differ in only one part",
  ["src/atom/ident.rs", "src/tag/mod.rs"],
  [("Ident, PartialEq<DataIdent>, idents_match, From impls", "src/atom/ident.rs")],
  ["Fourcc, FreeformIdent, DataIdent, idents_match, Tag::data_of"])

p("C19", "Equivalent representations of a file are treated alike",
  "Re-encoding a valid file without changing its meaning - 64-bit instead of 32-bit headers, inserting padding or unknown atoms at any level, reordering sibling atoms, moving the movie before or after the media data, different descriptor length encodings - does not change the tag that is read nor what a write followed by a read yields. "
  "The result does not depend on how the file is accessed either: by path, through an open file, a memory buffer, a buffered or an unbuffered reader, and writing by path or through a file handle produce the same tag and the same bytes.",
  ["inputs", "configurations"],
  "every valid container x every composition of meaning-preserving re-encodings x every access path",
  "each sample file has one representation and is accessed by path only",
  ["src/atom/head.rs", "src/atom/mod.rs", "src/tag/mod.rs", "src/atom/*.rs"],
  [("parse_head", "src/atom/head.rs"), ("skip of unknown atoms in every parse loop", "src/atom/*.rs"), ("read_from/read_from_path/write_to/write_to_path", "src/tag/mod.rs")],
  ["Tag equality across representations and entry points"])

p("C20", "Unsupported or invalid content is rejected with the right error",
  "A file that is valid except for one unsupported or invalid element the reader needs is rejected with an error of the documented kind carrying the offending value: first atom not a file type atom, no movie atom, an item without data, an unknown data type, an unknown version of a versioned atom, text that is not valid utf-8 or utf-16 (unpaired surrogates), a missing sample descriptor, an atom length too small for its header, or an atom or descriptor too short for its fields. "
  "It is never silently misread as something else. "
  "Writing rejects files without file type or movie atom, or with an unsupported version of the metadata atom or - when media data has to move - of a chunk-offset atom or a chunk-offset count that contradicts the atom's length, in the same way and without modifying them.",
  ["inputs"],
  "every valid container with exactly one such defect, with every possible offending value",
  "no test provokes an error",
  ["src/atom/mod.rs", "src/atom/head.rs", "src/atom/data.rs", "src/atom/meta.rs", "src/atom/stsd.rs", "src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/ftyp.rs", "src/error.rs"],
  [("version and type checks", "src/atom/*.rs"), ("ErrorKind", "src/error.rs")],
  ["Error::kind of Tag::read_from and Tag::write_to"])

p("C21", "A truncated file is never misread",
  "Reading any prefix of a valid file either fails or yields exactly the tag of the complete file. "
  "Metadata items, values or audio information are never silently dropped, shortened or replaced because data is missing.",
  ["inputs", "fault_sequences"],
  "every valid file x every cut position",
  "no test reads an incomplete file",
  ["src/atom/mod.rs", "src/atom/data.rs", "src/atom/head.rs", "src/atom/ilst.rs"],
  [("read_exact based parsing, length driven loops", "src/atom/*.rs")],
  ["Tag::read_from on prefixes"])

p("C22", "Errors carry their cause, their data and their context",
  "Every failure of reading, writing or dumping tells what went wrong. An I/O failure is reported as ErrorKind::Io with the very io::Error of the "
  "reader, writer or file - its kind, OS error code and payload - and std::error::Error::source returns it, so that applications which walk the chain "
  "of sources find it; no error has a source that is not its cause. Conversions from io::Error, FromUtf8Error and FromUtf16Error keep the converted "
  "error. Display and Debug of an Error contain the kind's name, the kind's value and the description. The description of a failure inside of nested "
  "atoms names the atoms it happened in, from the outside to the inside.",
  ["inputs", "fault_sequences"],
  "every defect and every failing operation of a file x every kind of I/O error and payload x every kind and description",
  "no test looks at an error beyond its kind",
  ["src/error.rs", "src/atom/mod.rs", "src/atom/head.rs"],
  [("Error, ErrorKind, their conversions, Display, Debug and source", "src/error.rs"), ("ParseAtom::parse, FindAtom::find: context added to descriptions", "src/atom/mod.rs"), ("parse_head: I/O errors wrapped", "src/atom/head.rs")],
  ["mp4ameta::Error of Tag::read_from, write_to, dump_to", "std::error::Error::source"])

p("C23", "Calls by path act on exactly the named file",
  "Reading, writing and dumping by path work on the file that the operating system resolves the path to, whatever the path is: absolute or relative, with or without extension, of any bytes (utf-8 or not), "
  "through links, `.` and `..`, given as any path type. The outcome is that of the same call on the content of this file. "
  "Nothing else is touched: no other file is created, changed, renamed or removed, a file written to or dumped over remains the same file with its permissions and hard links, links stay links, reading changes nothing, "
  "only dumping creates a file that is missing, and every file opened is closed when the call returns.",
  ["inputs", "histories"],
  "every directory tree x every path x every sequence of calls",
  "tests use a handful of plain relative paths",
  ["src/tag/mod.rs"],
  [("read_from_path, write_to_path, dump_to_path", "src/tag/mod.rs")],
  ["results of the calls by path", "the directory tree before and after"])

p("C24", "The outcome of a call depends only on its arguments",
  "Reading, writing, dumping, displaying and editing are functions of the file content and the tag given: the outcome (tag, bytes, error, text) is the same whenever the call is made: the first time or again, "
  "in whatever order with other calls, after calls that failed or unwound half-way, while another call is in the middle of an I/O operation - on the same thread or on another - and whether or not the file is open elsewhere. "
  "Reading by path always sees the present content, also when it was replaced by content of the same length and times. Tags, values and errors can be used from any thread.",
  ["inputs", "histories", "schedules"],
  "every set of contents and tags x every history of calls x every interleaving of their I/O operations",
  "tests make one call at a time, each once",
  ["src/tag/mod.rs", "src/atom/mod.rs", "src/atom/data.rs"],
  [("read_tag_from, write_tag_to, dump_tag_to", "src/atom/mod.rs"), ("read_from, read_from_path, write_to, write_to_path, dump_to", "src/tag/mod.rs")],
  ["results of the calls", "files after the calls", "Send and Sync"])

p("C25", "Equality is equality of content, copies are independent",
  "Two tags are equal exactly when they hold the same items in the same order with the same typed values in the same order, the same file type and the same audio information, however they were made; likewise two values (same type and "
  "content), images, identifiers, audio information and enumeration values. Equality is symmetric and agrees with `!=`. A clone equals its original, is displayed and dumped alike, and neither changes when the other does. "
  "The default tag is empty.",
  ["inputs", "histories"],
  "every pair of tags or values x every change of a copy",
  "tests compare a few tags that are equal",
  ["src/tag/mod.rs", "src/atom/data.rs", "src/atom/mod.rs", "src/atom/ident.rs", "src/types.rs"],
  [("Tag: Clone, Default, Eq, PartialEq", "src/tag/mod.rs"), ("Data: Clone, Eq, PartialEq", "src/atom/data.rs"), ("AtomData", "src/atom/mod.rs"), ("AudioInfo, Img, ImgFmt, MediaType, ...", "src/types.rs")],
  ["==, != and Clone of Tag, Data, DataIdent, Fourcc, Img, ImgFmt, AudioInfo and enumerations"])

p("C26", "Reading and writing cost what the metadata costs",
  "Reading a tag skips what it does not decode - media data, padding, sample tables, unknown atoms - by seeking, however large it is and wherever it lies: the bytes it transfers, the operations it performs and the memory it takes are bounded by the size "
  "of the metadata and the number of atoms and do not grow with the length of the file, so that files of any size, beyond the memory of the machine, can be read through a reader, a file or by path. "
  "Writing likewise transfers and holds only the structure of the file, the chunk-offset tables, the metadata and what lies behind the metadata; media data in front of it is neither read nor written. "
  "Dumping writes every byte once.",
  ["inputs", "configurations"],
  "every valid container x huge atoms without a meaning at every place x every way of access x every tag",
  "tests use files of a few kilobytes and never look at costs",
  ["src/atom/mod.rs", "src/atom/head.rs", "src/tag/mod.rs"],
  [("read_tag_from, write_tag_to, dump_tag_to", "src/atom/mod.rs"), ("seek_to_end", "src/atom/head.rs"), ("unknown atoms skipped by parse_atom and find_atom", "src/atom/*.rs"), ("read_from_path, write_to_path", "src/tag/mod.rs")],
  ["operations and bytes of the reader, writer and file", "peak of live allocations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
