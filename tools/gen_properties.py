#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept so the statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SAMPLE = "The tests feed a few hand-made files; the guarantee is over every byte string, and the failing ones need a specific combination of header fields."

p("C01", "A malformed executable never crashes the caller",
  "Whatever bytes are presented as an executable, loading resources from it, asking whether it is signed, and patching it either succeed or return an error; none of them panics (index or slice out of range, nil dereference, division by zero, negative allocation, failed conversion).",
  ["inputs"], "every byte content and every length of the executable, any seekable reader with or without a size method, both 32- and 64-bit headers, every patch option",
  SAMPLE, ["exe.go", "winres.go", "rsrc.go", "reader.go"],
  [("header parsing", "exe.go readPEHeaders/readPEOffset"), ("section bookkeeping", "exe.go fillSectionsInfo/requiresNewSection/updateHeaders"), ("directory walk", "rsrc.go read/readDirTable/readData/readName")])

p("C02", "A malformed icon or cursor never crashes the caller",
  "Whatever bytes are presented as an ICO or CUR file, and whatever bytes are stored in the resource set as icon groups, cursor groups, icon images or cursor images, loading the file or extracting the icon or cursor returns a result or an error and never panics.",
  ["inputs"], "every content and length of the file, and every content and length (including empty) of the stored group and image resources",
  "Tests use a few malformed files; short images (0 to 15 bytes) and truncated groups at each length are not enumerated.",
  ["icon.go", "cursor.go"], [("file loaders", "icon.go LoadICO, cursor.go LoadCUR"), ("group extraction", "icon.go GetIconTranslation, cursor.go GetCursorTranslation"), ("DIB header peek", "cursor.go readDIBBitCount")])

p("C03", "Malformed version data never crashes the caller",
  "Whatever bytes are presented as a binary version structure, decoding returns a value or an error and never panics; and every value obtained by decoding binary or JSON version data, or built through the public setters, can afterwards be encoded to binary or JSON, split, merged, queried for its table and its main translation without panicking.",
  ["inputs", "histories"], "every byte string given to the binary decoder; every JSON text (including null tables, empty keys and values); any later sequence of the encoding and query operations",
  "Tests decode a few dozen fixed inputs; the node length, value length and padding fields interact at byte granularity.",
  ["version/binary.go", "version/json.go", "version/version.go"], [("node parser", "version/binary.go readNode/readChildren/readString/readStringWithLength"), ("JSON decoder", "version/json.go UnmarshalJSON"), ("main translation", "version/version.go GetMainTranslation/findMainTranslation")])

p("C04", "Memory allocated from file fields is bounded",
  "While parsing an executable, an icon, a cursor, a resource directory or a binary version structure, no length field of the input makes the library allocate more memory at once than the larger of the input's real size (times a small constant) and the documented 10 MB per-image limit; an oversized length is refused before allocating.",
  ["inputs"], "every value of every length or count field (section raw size, data entry size, image length, directory counts, name length)",
  "A test would need a file for every oversized field; a huge allocation is not even visible as a failure on a large machine.",
  ["exe.go", "rsrc.go", "icon.go", "cursor.go", "version/binary.go"], [("section size check", "exe.go extractRSRCSection/requiresNewSection"), ("data entry check", "rsrc.go readData"), ("image limit", "icon.go LoadICO, cursor.go LoadCUR")])

p("C05", "Parsing always terminates",
  "Loading resources from an executable, icons, cursors, binary version data and patching an executable terminate for every input: every loop makes measurable progress towards a bound fixed before it starts, and recursion depth is bounded independently of the input.",
  ["inputs"], "every input, including self-referencing directories, zero-length nodes and zero alignments",
  "Non-termination needs a self-referencing or zero-progress input that the samples do not contain.",
  ["exe.go", "rsrc.go", "icon.go", "cursor.go", "version/binary.go"], [("child loop", "version/binary.go readChildren"), ("directory recursion", "rsrc.go walk"), ("padding loop", "exe.go writeBlank")])

p("C06", "A failed write is always reported",
  "If any write or seek on the output fails while writing an object file, patching an executable, or saving an icon or a cursor, the operation returns a non-nil error: success is never reported for output that was not entirely accepted by the writer.",
  ["fault_sequences"], "a failure at any single or several of the write/seek calls made on the output, for every resource set and every source file",
  "Tests inject failures at a handful of fixed offsets with one or two writers; a dropped error at another step passes.",
  ["rsrc.go", "coff.go", "exe.go", "icon.go", "cursor.go"], [("section writer", "rsrc.go write*"), ("object writer", "coff.go"), ("executable writer", "exe.go writeEXE/writeBlank"), ("file savers", "icon.go SaveICO, cursor.go SaveCUR")])

p("C07", "A failed or short read of the input is always reported",
  "If reading or seeking the input fails, or the input ends before the bytes an operation needs, then loading resources from an executable, patching it, testing its signature, or loading an icon or cursor returns a non-nil error rather than a result built from missing data.",
  ["fault_sequences", "inputs"], "a failure or premature end at any of the read/seek calls made on the input, for every input",
  "Tests inject failures at a handful of offsets; errors ignored elsewhere go unseen.",
  ["exe.go", "reader.go", "rsrc.go", "icon.go", "cursor.go"], [("reads", "reader.go readFull/binaryRead"), ("header and section reads", "exe.go readPEHeaders/extractRSRCSection/getSeekerSize"), ("icon and cursor reads", "icon.go LoadICO, cursor.go LoadCUR")])

p("C08", "Loaders return either a usable value or an error, never both or neither",
  "Every loading, extraction and constructor function returns a nil value whenever it returns an error and a non-nil value whenever it returns none; the only exception is an executable without resources, for which an empty, usable resource set accompanies the dedicated error.",
  ["inputs", "fault_sequences"], "every input and every I/O failure, for executables, icons, cursors and binary version data",
  "Tests check the pair for sampled errors only.",
  ["winres.go", "icon.go", "cursor.go", "version/binary.go"], [("resource loader", "winres.go loadFromEXE"), ("icon/cursor constructors", "icon.go, cursor.go"), ("version decoder", "version/binary.go fromBytes")])

p("C09", "A signed executable is only patched on explicit request",
  "When the executable carries a certificate entry, patching fails with the dedicated signed-file error and writes nothing, unless the caller explicitly asked to remove or to ignore the signature; with removal, the written certificate entry is zero in both address and size and certificate data that ends the file is left out.",
  ["inputs", "configurations"], "every executable with a certificate directory entry, every option combination including unknown option values and repeated options",
  "Tests patch a few sample files with each option.",
  ["exe.go", "winres.go"], [("signature gate", "exe.go preparePEWriter"), ("option plumbing", "winres.go WriteToEXE")])

p("C10", "A rejected executable leaves the output untouched",
  "Patching writes nothing to the output, and does not seek it, before every check that can refuse the executable (header parsing, signature, sections, room for a section header, truncated data) has passed; a refusal therefore leaves the output byte-for-byte as it was.",
  ["inputs", "configurations"], "every executable the library refuses, for each reason and each option",
  "Tests compare the output for a few refused files.",
  ["exe.go"], [("prepare then write", "exe.go replaceRSRCSection/preparePEWriter/writeEXE")])

p("C11", "The patched file's checksum is kept honest",
  "A patched executable's header checksum is computed over exactly the bytes that are then written, with the checksum field itself zero during the computation; it is set whenever the original had a non-zero checksum or the caller forces it, and is zero otherwise, never the stale original.",
  ["inputs", "configurations"], "every accepted executable and option combination",
  "Tests check the sum for a few golden files that are not in this tree.",
  ["exe.go", "pesum.go"], [("checksum pass", "exe.go replaceRSRCSection"), ("header reset", "exe.go updateHeaders")])

p("C12", "Patching changes only the header fields it must",
  "In a patched executable the file header differs from the original only in the section count, the optional header only in image size, initialised-data size and checksum, the data directories only in addresses and the resource and certificate entries, and an existing section header other than the resource section's only in its two location fields; 32- and 64-bit images get the same treatment, each value read from and written to the field it is named for.",
  ["inputs", "configurations"], "every accepted executable, both header formats, every option",
  "Golden comparisons cover a few files, and are not part of this tree.",
  ["exe.go"], [("header update", "exe.go updateHeaders"), ("accessors", "exe.go peOptionalHeader32/peOptionalHeader64")])

p("C13", "Asking whether a file is signed has no side effect and agrees with patching",
  "The signature query returns the reader to the position it had, on success and on failure, reads the file from its beginning whatever that position was, and answers yes exactly for the executables that patching without options refuses as signed.",
  ["inputs", "fault_sequences"], "every executable, every initial position of the reader",
  "Tests query a few files at one position.",
  ["winres.go", "exe.go"], [("query", "winres.go IsSignedEXE"), ("gate", "exe.go preparePEWriter")])

p("C14", "Resources land where the patched headers say",
  "In a patched executable the resource bytes start at the file offset the resource section header declares and fill exactly its declared raw size, the resource directory entry points at that section with the true data length, and every byte of the original that precedes the section data and lies between first and last section data is copied from the same relative place.",
  ["inputs"], "every accepted executable and resource set size, with or without an existing resource section",
  "Golden files cover a few layouts.",
  ["exe.go"], [("writer", "exe.go writeEXE"), ("layout", "exe.go updateHeaders")])

p("C15", "Any sequence of edits is fully reflected when the set is written",
  "After any sequence of additions, replacements, removals, enumerations and writes, enumerating or writing a resource set covers exactly the resources present at that moment: nothing added after an earlier enumeration or write is skipped, and nothing removed is still emitted.",
  ["histories"], "every interleaving of set, delete, walk, typed walk, icon/cursor operations and writes on one resource set",
  "Tests write each set once; the ordering caches only go wrong when an edit follows an enumeration.",
  ["rsrc.go", "winres.go"], [("ordering caches", "rsrc.go order functions"), ("invalidation", "winres.go set/delete")])

p("C16", "No resource with an invalid identifier ever enters a set",
  "Every way of adding a resource (direct, icon, cursor, or loading an executable) refuses, with an error, a zero numeric identifier, an empty name, and a name containing NUL, for both the type and the resource, so that no set reachable through the API contains one.",
  ["inputs", "histories"], "every identifier given to any adding operation or found in an executable",
  "Tests cover the direct path only for sampled identifiers.",
  ["id.go", "winres.go", "icon.go", "cursor.go", "rsrc.go"], [("gate", "id.go checkIdentifier"), ("adders", "winres.go Set, icon.go, cursor.go, rsrc.go read")])

p("C17", "Directories are emitted in canonical order",
  "At each level of the resource directory, names come first in ascending case-sensitive order, then numeric identifiers in ascending order, with the emitted name and identifier counts equal to the entries that follow; the order relation is a strict total order on identifiers.",
  ["inputs", "histories"], "every resource set and edit history",
  "Tests order a few sets.",
  ["id.go", "rsrc.go"], [("comparison", "id.go lessThan"), ("sorting", "rsrc.go order functions"), ("emission", "rsrc.go write functions")])

p("C18", "Output is deterministic",
  "Writing the same resources, icons, cursors, manifest or version data yields the same bytes every time: no emitted byte, emitted order, assigned identifier or returned error depends on map iteration order, the clock, randomness, the environment or memory addresses.",
  ["inputs", "schedules"], "every resource set and version structure; every map iteration order",
  "Map iteration order is random; a test sees a few orders.",
  ["rsrc.go", "coff.go", "version/binary.go", "version/json.go", "version/version.go"], [("sorted emission", "rsrc.go order functions, version/binary.go sortedKeys")])

p("C19", "Removal prunes and counting is exact",
  "Setting a resource to nil removes exactly that type/name/language entry and drops a name or type that became empty, leaves every other resource untouched, and is harmless for absent entries; the reported count is always the number of type/name/language entries enumerated.",
  ["histories"], "every edit history",
  "Tests remove from a few sets.",
  ["winres.go", "rsrc.go"], [("removal", "winres.go delete"), ("count", "rsrc.go numDataEntries")])

p("C20", "Enumeration matches what is written",
  "Walking the set visits every resource once, in the same type, name and language order in which its data is written into the section; a typed walk visits the same sub-sequence, and both stop as soon as the callback asks.",
  ["inputs", "histories"], "every resource set",
  "Tests walk a few sets.",
  ["winres.go", "rsrc.go"], [("walkers", "winres.go Walk/WalkType"), ("emission", "rsrc.go writeData")])

p("C21", "Adding an icon or cursor never overwrites another's images",
  "Each image added with an icon or cursor gets an image identifier higher than any image identifier ever stored in the set, including ones added directly or loaded from an executable, and the group entry written for the image carries that same identifier; when no identifier is left the operation fails instead of reusing one.",
  ["histories"], "every history of direct sets, icon and cursor additions, loads and removals",
  "Tests add a few icons to fresh sets.",
  ["winres.go", "icon.go", "cursor.go"], [("highest-identifier tracking", "winres.go set"), ("allocation", "icon.go SetIconTranslation, cursor.go SetCursorTranslation")])

p("C22", "Exporting never alters resources or shared state",
  "Writing, walking, extracting, saving and encoding operations never write into resource bytes held by the set or passed in by the caller, and no operation of the library modifies package-level state, so independent sets can be used concurrently.",
  ["schedules", "histories"], "every operation sequence; concurrent use of distinct sets",
  "Aliasing bugs show only when a later operation looks at the shared bytes.",
  ["rsrc.go", "winres.go", "icon.go", "cursor.go", "exe.go", "version/binary.go"], [("data ownership", "winres.go Set doc"), ("relocation patching on a private buffer", "exe.go applyReloc, winres.go bytes")])

p("C23", "Declared section size and offsets equal the bytes emitted",
  "When a resource section is written, the total size announced in the headers, the offset announced for each directory table, name, data entry and data block, and the number of bytes actually emitted before each of them agree exactly, for any number and size of resources.",
  ["inputs"], "every resource set",
  "Tests check a few sets byte by byte.",
  ["rsrc.go", "coff.go"], [("size computation", "rsrc.go fullSize/dirSize/size"), ("emission", "rsrc.go write functions")])

p("C24", "Every data entry is relocatable for the requested architecture",
  "An object file contains exactly one relocation per data entry, at that entry's address field, of the image-relative 32-bit kind that belongs to the machine type put in the header; machine and relocation kind are chosen consistently for each of the four architectures, and any other architecture is refused before anything is written.",
  ["inputs", "configurations"], "every resource set, every architecture string",
  "Tests write a few objects.",
  ["coff.go", "rsrc.go"], [("machine table", "coff.go writeObject"), ("relocation table", "coff.go writeRelocTable"), ("address collection", "rsrc.go resourceEntry.write")])

p("C25", "Counts and sizes never silently wrap when written",
  "When a set, an icon or a cursor has too many entries, names or bytes for the 16- or 32-bit field that must hold a count, length or offset, writing it fails with an error instead of emitting a truncated number.",
  ["inputs"], "every set, icon and cursor, including ones with more than 65535 entries or names longer than 65535 units",
  "No test builds a set that large.",
  ["coff.go", "rsrc.go", "icon.go", "cursor.go", "version/binary.go"], [("count fields", "coff.go writeObject, rsrc.go writeDirectoryTable/prepare"), ("group headers", "icon.go, cursor.go")])

p("C26", "Every binary structure is little-endian and of its documented size",
  "Every fixed binary structure read or written (directory tables, data entries, COFF and PE headers, icon and cursor headers, version blocks) is encoded little-endian with exactly the field widths and order of the published Windows format, and every size constant used for offsets equals the encoded size of the structure it stands for.",
  ["inputs"], "every read and write of a fixed structure",
  "Tests compare a few outputs; a structure used on an untested path is unchecked.",
  ["rsrc.go", "coff.go", "exe.go", "icon.go", "cursor.go", "version/binary.go"], [("structures", "struct declarations and sizeOf constants"), ("codec calls", "binary.Read/Write call sites")])

p("C27", "Image limits are enforced on every path",
  "An icon or cursor built from images contains only images that were checked to be non-empty and at most 256 pixels on each side, at most 30 sizes can be requested when resizing, and an image length above 10 MB found in an ICO or CUR file is refused before anything is allocated or read for it.",
  ["inputs"], "every image, size list and file",
  "Tests try a few sizes around the limits.",
  ["icon.go", "cursor.go"], [("image gate", "icon.go addImage, cursor.go addImage"), ("file gate", "icon.go LoadICO, cursor.go LoadCUR")])

p("C28", "Icon and cursor files and groups are self-consistent",
  "Every icon or cursor file or group written announces the right kind (1 for icons, 2 for cursors) and as many entries as it emits; in saved files each entry's offset and length describe exactly the bytes that are written for that image, in order; readers accept only headers of their own kind.",
  ["inputs"], "every icon and cursor, from images or from files or extracted from a set",
  "Tests save a few icons.",
  ["icon.go", "cursor.go"], [("savers", "icon.go SaveICO, cursor.go SaveCUR"), ("groups", "icon.go SetIconTranslation, cursor.go SetCursorTranslation")])

p("C29", "Every manifest option survives generation and parsing",
  "For every combination of application manifest options, the XML generated for it, when parsed back, yields the same option values: every option has exactly one element or attribute, emitted exactly when the option is set, read back from the same place, with every enumerated value mapped to a distinct spelling that is mapped back to it.",
  ["configurations"], "all combinations of the boolean options, every execution level, DPI mode and minimum OS",
  "There are several hundred thousand combinations; tests sample a few.",
  ["manifest.go"], [("template", "manifest.go manifestTemplate/makeManifest"), ("reader", "manifest.go AppManifestFromXML and helpers")])

p("C30", "Free text cannot break or inject into the manifest",
  "Every caller-supplied string that ends up in the generated manifest XML is escaped for its context, so that no name or description can add, close or alter an element or attribute.",
  ["inputs"], "every identity name and description string",
  "Tests try one or two special characters.",
  ["manifest.go"], [("template pipelines", "manifest.go manifestTemplate")])

p("C31", "Manifest enumerations map to text and back one-to-one",
  "For each of the three manifest enumerations every valid value has a text form, distinct from the others', that parses back to that value; every accepted spelling parses to one value whatever its case and surrounding spaces; every invalid value and every unknown text is refused with an error and leaves the destination unchanged.",
  ["inputs", "configurations"], "every enumeration value (valid or not) and every text",
  "Tests sample spellings.",
  ["manifest.go"], [("codecs", "manifest.go MarshalText/UnmarshalText")])

p("C32", "The fixed version block is encoded and decoded by the same layout",
  "Each part of the file version, product version, flags and file type is put by the encoder in the bits where the decoder looks for it and where the Windows format defines it, so that decoding an encoded block returns the same numbers, flags and type.",
  ["inputs"], "all values of the eight version numbers, five flags and the file type",
  "Tests try a few values; swapped words with equal values pass.",
  ["version/binary.go"], [("encoder", "version/binary.go fixedFileInfo"), ("decoder", "version/binary.go readFixedStruct")])

p("C33", "No invalid string enters a version structure",
  "However a version structure is built (setter, binary decoding, JSON decoding, splitting, merging), it never contains an empty key, or a key or value with a NUL character, and the setter reports such a string with an error without changing anything.",
  ["inputs", "histories"], "every key and value, through every entry point",
  "Tests cover the setter only.",
  ["version/version.go", "version/json.go", "version/binary.go"], [("setter gate", "version/version.go Set"), ("JSON import", "version/json.go UnmarshalJSON")])

p("C34", "Returned version tables are copies",
  "Tables returned by queries and structures produced by splitting or merging share no mutable storage with their source: changing one never changes the other.",
  ["histories"], "every sequence of queries, splits, merges and later modifications of either side",
  "Tests mutate one copy once.",
  ["version/version.go"], [("copying", "version/version.go Table/splitLangs/MergeTranslations")])

p("C35", "Version nodes are aligned and announce their real length",
  "In encoded version data every node starts on a 4-byte boundary relative to its parent, its announced length equals the bytes it occupies, and its announced value length has the unit its type demands, for any keys and values that fit the 16-bit length field.",
  ["inputs"], "every version structure whose encoding fits 64 KB",
  "Tests compare a few encodings.",
  ["version/binary.go"], [("node writer", "version/binary.go nodeBytes/writeAligned")])

p("C36", "Splitting and merging keep languages apart",
  "Splitting produces one structure per language, each containing only that language and each carrying the fixed information of the source, with own values taking precedence over defaults; merging stores each structure's strings only under the language it is mapped to.",
  ["inputs"], "every version structure and every map of structures",
  "Tests split and merge a few tables.",
  ["version/version.go"], [("split", "version/version.go splitLangs"), ("merge", "version/version.go MergeTranslations")])

p("C37", "Version flags and type survive JSON",
  "Every combination of the version flags and every file type that can be encoded to JSON decodes back to the same combination and type, with no flag's spelling contained in another's.",
  ["configurations"], "all 32 flag combinations and all file types",
  "Tests try a few combinations.",
  ["version/json.go"], [("encoder", "version/json.go MarshalJSON"), ("decoder", "version/json.go UnmarshalJSON")])

p("C38", "A full round trip through bytes preserves all content",
  "Reading back resources, icons, cursors or version data that the library wrote yields byte-identical resources and equal structures.",
  ["inputs"], "every set, icon, cursor and version structure",
  "Tests round trip a few samples.",
  ["rsrc.go", "icon.go", "cursor.go", "version/binary.go"], [("writer and reader pairs", "rsrc.go, icon.go, cursor.go, version/binary.go")])

p("C39", "The computed checksum is the one Windows computes",
  "The checksum of a byte stream is the standard PE checksum, whatever the sizes of the successive writes.",
  ["inputs", "schedules"], "every byte stream and every chunking of it",
  "One test with one stream.",
  ["pesum.go"], [("accumulator", "pesum.go")])

p("C40", "Version timestamps convert exactly",
  "A timestamp between 1678 and 2262 survives conversion to the 64-bit Windows format and back with 100 ns precision.",
  ["inputs"], "every timestamp in range",
  "Tests try a few dates.",
  ["version/timestamp.go"], [("conversions", "version/timestamp.go")])

p("C41", "Images keep their pixels",
  "Building an icon or cursor from an image preserves every pixel (up to centring in a square), and resizing keeps the aspect ratio.",
  ["inputs"], "every image",
  "Tests compare a few images.",
  ["icon.go", "cursor.go"], [("squaring", "icon.go imageInSquareNRGBA"), ("resizing", "icon.go resizeImage")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
