AI="abstract interpretation of the SSA form (relational numeric domain, inlined calls)"
FL=AI+" with I/O fault flags as path-sensitive ghost state"
more={
 "C06":(FL,"Every write and seek on the output may fail at any call, including those the standard library makes for the module. Trusts the models of io.CopyN, binary.Write and the encoders (each returns the writer's error)."),
 "C07":(FL,"Every read and seek on the input may fail or end early at any call; io.Reader.Read may be short. Trusts the models of io.ReadFull, io.CopyN, binary.Read and ioutil.ReadAll."),
 "C08":(AI,"Nil-ness of value and error decided at every exit of the loaders, extractors and constructors. Errors from outside are arbitrary non-nil values."),
 "C09":(AI+", case split on the certificate entry and the option","All inputs; file sizes up to 2^60 bytes assumed (no wrap of int64 sums). 'Left out' means the last copy ends at or before the certificate when the certificate ends the file."),
 "C10":(FL,"All inputs and options; a refusal after the first output operation is accepted only on a path where an I/O fault happened; the copies after that are proved to stay inside the file, whose size is assumed not to change meanwhile."),
 "C13":(AI,"All inputs and initial positions; compared with the refusal condition of WriteToEXE without options."),
 "C04":(AI,"Every make with a run-time size reachable from the parsing entry points; 'small constant' is 4 times the input plus 64 KB. Amortised growth of appended slices and of bytes.Buffer/io.ReadAll is bounded by what was actually read and is not an obligation. The number of separate allocations is not bounded by this check."),
 "C05":(AI+" with ranking functions","Every loop reachable from the parsing and patching entry points is ranked in every calling context (map ranges end by the language definition); recursion is followed until the constants that select it run out. Standard library and image codecs are assumed to terminate. The time needed is not bounded."),
 "C18":("SSA dataflow: order-taint classification of map loops, sort-before-use, source whitelist","Every map loop of the module, callees followed. Comparators are accepted only when they compare whole elements. Trusts that encoding/json, encoding/xml and text/template do not depend on map order, and that entries of one map do not alias those of another. A Timestamp's time zone is part of the value, so its JSON text follows the zone it carries."),
 "C26":("type-directed layout comparison and SSA provenance of byte order, sizes and hand-assembled bytes","Every call of encoding/binary and every hand-assembled or hand-split integer. A structure whose type is renamed is compared by widths only; fields that are renamed likewise."),
}
CP="constant propagation on the SSA form (abstract interpreter with constant folding), "
more.update({
 "C29":(CP+"plus static analysis of the template's syntax tree and of the reader's struct tags","Every declared value of each enumeration combined with all boolean options off and on; every single option and every pair of options flipped from all-off and all-on; version numbers and free texts symbolic. Triples and more of options are not enumerated (each condition of the template and each assignment of the reader tests one option). encoding/xml, text/template and the predefined html escaper are modelled. Undeclared enumeration values are outside."),
 "C30":("static analysis of the template's syntax tree joined with the abstract value of every hole","All manifests. Trusts that the predefined escaper of text/template makes text safe in XML element content and quoted attributes."),
 "C31":(CP+"over the finite enumerations, and abstract interpretation for all other values and texts","Every declared value; every other value as one symbolic case; every spelling found in the comparisons, in five styles of writing, plus an arbitrary text. Case folding is that of strings.ToLower."),
 "C37":(CP+"over all 32 flag combinations and 3 file types","Each combination with the other fields all absent and all present; the string tables are left out of the decoded document. encoding/json is modelled from the struct tags. File type values other than the declared ones cannot be encoded apart (they become Unknown)."),
})
more.update({
 "C16":(AI+" with a string-content predicate","All ways of adding; the predicate 'contains NUL' is tied to the strings and bytes functions and to range loops over the string. A nil Identifier passed by the caller is outside the statement."),
 "C21":(AI+" with relational facts between the counters and the identifiers","All sets and images; Set is followed at each image. Images stored directly into the maps without Set are reported by C16's rules."),
 "C22":("SSA storage-origin (escape/alias) tracing of every write","Every store, copy, append, delete and external call of the module; storage that comes from the caller, a set or a global must not be written by exporting operations. Documented writers (ordering caches of the value itself) are listed."),
 "C25":(AI+", with the exact value of every lossy conversion kept aside until it is proved in range","All sets, icons and cursors; sums of sizes of objects in memory are assumed below 2^63. Patching: conversions only, sums of header fields are C01's and C14's matter. The checksum, which folds by design, is left out."),
 "C27":(AI,"All images (bounds arbitrary but the same at every call) and all files. Sizes are compared as exact integers (sides below 2^31 assumed). The resizer's result is an arbitrary image."),
 "C28":(AI+" with ghost counters for entries, lengths and images","All icons, cursors and files. The images of one value are identified by index; sorting is an arbitrary permutation. Assumes that no image of a constructed icon is nil."),
 "C11":("abstract interpretation of WriteToEXE (value, ghost and difference-bound domains) comparing the summing pass with the writing pass","Split on ForceCheckSum and on the original field being zero. Each piece summed and written: same code place, length, source position, and equal output position until the first run of zeros; runs of zeros are compared by the lengths asked for. The arithmetic of the checksum itself is left to the unit tests."),
 "C24":("abstract interpretation of WriteObject (abstract shapes of everything written, counters relating relocations to address fields)","Header constants per architecture, the symbol, the number and order of relocation entries and their addresses, as offsets of address fields recorded while the section was laid out. That the section itself is right is left to C26 and C18."),
 "C12":("abstract interpretation of WriteToEXE (symbolic header fields, store effects on the header storage, provenance of section pointers) and of every accessor","Any option. Fields of the file and optional headers are compared symbol by symbol with what was read; directories and section headers are followed by storage and by the field each store hits. The values given to the allowed fields are left to C11 and C14. An accessor whose name contains no field name is only compared between the two formats."),
 "C14":("abstract interpretation of WriteToEXE (output and input positions, header fields and named minima as symbolic quantities); the functions writing blanks are proved against a contract and then used by it","All inputs, with and without a resource section, any option. Sums of 64-bit sizes are assumed not to wrap. What follows the resource section (its new place) is not compared with the shifted headers of later sections."),

 "C15":("symbolic evaluation of the type-checked SSA over a resource tree of arbitrary shape (linear forms with sums over maps, one summary per loop), with the lists of keys in any valid state; path-sensitive typestate of those lists in the editing function","Every function that reads the tree, every path of the one that edits it, by induction over histories: lists are absent or complete and sorted before, and after. Callbacks do not modify the set, as documented."),
 "C17":("symbolic evaluation of the type-checked SSA over a resource tree of arbitrary shape (linear forms with sums over maps, one summary per loop); case evaluation of the order relation","Any number of types, names and languages. sort.Slice, sort.Search and map iteration are trusted. String comparison is that of Go, by bytes."),
 "C19":("symbolic evaluation of the type-checked SSA over a resource tree of arbitrary shape (linear forms with sums over maps, one summary per loop), path by path with what is present and what is found empty","All paths of the editing function; counts are compared as symbolic sums. Assumes a tree whose levels are not empty, which the check preserves."),
 "C20":("symbolic evaluation of the type-checked SSA over a resource tree of arbitrary shape (linear forms with sums over maps, one summary per loop); nests of loops around the call of the callback compared with those around the writing of data","All paths of Walk, WalkType and write; the callback is arbitrary."),
 "C23":("symbolic evaluation of the type-checked SSA over a resource tree of arbitrary shape (linear forms with sums over maps, one summary per loop); positions of emissions compared with announced offsets as symbolic sums","Any tree. Narrowing of offsets and counts is C02's; the relocation addresses themselves are C24's; the placement in an executable is C14's."),
 "C34":("provenance labels (made during the call, or reachable from the arguments) over the type-checked SSA of Table, SplitTranslations and MergeTranslations and of everything they call","All inputs; interprocedural, by labels of the arguments. Code of other packages is assumed to return storage reachable from its arguments unless it only makes strings or errors. time.Time is taken as immutable."),
 "C32":("bit-provenance analysis of the type-checked SSA of the encoder and the decoder of the fixed block, path by path and through the functions they call","Every path; each bit of each field is a known bit or a bit of a named input. The block itself is written and read by encoding/binary (order and size: C26). Dates are C40."),
 "C33":("abstract interpretation (conditions on strings, symbolic tables) of the setters, decoders, splitting, merging and copying of version structures","Arbitrary arguments and data; one condition per string for containing NUL, however it is searched. Tables of a structure given by the caller are assumed to obey the property, which no code outside the package can break."),
 "C03":(AI+", with container invariants of the tables and an SSA proof that gathered keys are present","Decoders on arbitrary data, all other operations on arbitrary structures whose languages have tables (assumed of what is received, proved of what is made). Receivers are not nil. Trusts the models of encoding/json, fmt and unicode/utf16."),
 "C42":(AI+", counting the entries emitted and read","Any icon, cursor, file or set, and any number of images. Of a freshly allocated copy only the length is compared, not what was copied to it; the hotspot that extraction decodes from the first four bytes is not compared with those bytes."),
})
na_more={
 "C35":"the announced lengths are sums, modulo 16 bits, over the UTF-16 lengths of strings held in maps at run time, patched in after nested nodes were written; equality of such sums with the bytes emitted is arithmetic over run-time contents that the domains built here do not carry. What a static argument reaches is claimed apart: the fixed block's layout (C32), sizes and byte order of the structures (C26), order of the output (C18)",
 "C36":"which strings end up under which language is a relation between the contents of maps keyed by run-time values; the static part of it, that tables are copied and never shared, is claimed as C34, and that the strings stored are valid as C33",
}
