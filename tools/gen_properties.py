#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Parsing any bytes as an SFNT font ends in a font or an error",
 "For any byte string and any collection index, parsing it as an SFNT font (TrueType, OpenType/CFF, collection, or the relaxed PDF-embedded variant) returns either a font or an error. It never panics, never loops forever, and never allocates memory out of proportion to the input size.",
 ["inputs"], "all byte strings (valid fonts, structurally mutated fonts, truncations, noise) and all collection indexes",
 "Corrupt inputs form an unbounded space; a unit test samples a few broken files and the crash needs one particular combination of lengths, offsets and counts.",
 ["sfnt.go", "sfnt_cmap.go", "sfnt_truetype.go", "sfnt_cff.go", "sfnt_os2.go"],
 [("table directory bounds checks", "sfnt.go parseSFNT"), ("per-table length validation", "parseHead/parseMaxp/parseCmap/parseKern/parseName/parsePost/parseOS2/parseCFF")],
 ["ParseSFNT", "ParseEmbeddedSFNT", "ParseFont"])
prop("P02", "Decoding any bytes as WOFF, WOFF2, EOT or AFM ends cleanly",
 "For any byte string, decoding it as WOFF, WOFF2 or EOT, normalising it with the format-sniffing entry point, or parsing it as AFM returns a result or an error, without panicking or looping forever. Memory use stays bounded by a small multiple of the input size plus the library's stated memory limit, even when compressed data expands enormously.",
 ["inputs"], "all byte strings: valid containers, mutated headers, table directories and compressed streams, decompression bombs, and arbitrary noise",
 "The input space is unbounded and only adversarial combinations of declared and actual lengths trigger an out-of-range access or an unbounded allocation.",
 ["woff.go", "woff2.go", "eot.go", "font.go", "afm.go"],
 [("declared-size limits", "MaxMemory in util.go, woff.go ParseWOFF, woff2.go ParseWOFF2"), ("stream bounds checks", "woff2.go reconstructGlyfLoca/reconstructHmtx"), ("EOT header bounds", "eot.go ParseEOT"), ("line parser", "afm.go ParseAFM")],
 ["ParseWOFF", "ParseWOFF2", "ParseEOT", "ToSFNT", "ParseAFM"])
prop("P03", "Queries on any accepted font never panic",
 "Once a byte string has been accepted as a font, every read-only query (glyph lookup, inverse lookup, names, advances, bearings, kerning, bounds, outlines, component lists, vertical metrics, name records) returns a value or an error for every 16-bit glyph ID, every rune and every string, however broken the font's tables are. Queries also finish: their running time and memory do not explode for deeply or widely nested glyphs or subroutines.",
 ["inputs"], "all accepted fonts, including fonts with corrupt glyph, charstring, map and metric data, crossed with all glyph IDs, runes and names",
 "Most glyph data is decoded lazily, so acceptance says nothing about later queries; the failing glyph must be built on purpose.",
 ["sfnt.go", "sfnt_truetype.go", "sfnt_cff.go", "sfnt_cmap.go"],
 [("lazy glyph decoding", "sfnt_truetype.go contour / dependencies"), ("charstring interpreter", "sfnt_cff.go parseCharString"), ("range checks in lookups", "hmtxTable/locaTable/kernTable/cmap subtables")],
 ["GlyphPath", "GlyphBounds", "GlyphAdvance", "GlyphVerticalAdvance", "GlyphIndex", "GlyphToUnicode", "GlyphName", "FindGlyphName", "Kerning", "VerticalMetrics"])
prop("P04", "Rewriting any accepted font ends in a font or an error",
 "For any accepted font, however broken its tables are, and any list of glyph IDs, subsetting, merging, writing as SFNT and writing as WOFF2 each return a result or an error. None of them panics or runs away.",
 ["inputs", "programs"], "accepted fonts with corrupt or missing optional tables, arbitrary glyph lists (empty, duplicated, out of range), all table selections and merge options",
 "Requires combining an acceptable-but-broken font with an operation that touches the broken part.",
 ["sfnt_subset.go", "sfnt_merge.go", "sfnt.go", "woff2.go", "sfnt_cff.go"],
 [("subsetter", "sfnt_subset.go Subset"), ("merger", "sfnt_merge.go Merge"), ("WOFF2 transforms", "woff2.go transformGlyf/transformHmtx"), ("CFF rewriting", "sfnt_cff.go Write/ReindexSubrs")],
 ["Subset", "Merge", "Write", "WriteWOFF2"])
prop("P05", "Decoding is deterministic and never modifies the caller's bytes",
 "Sniffing, decoding, parsing, querying, subsetting, writing or merging a font never changes the byte slice the font was read from. Decoding and parsing the same bytes twice, in any order with other operations, gives equal results.",
 ["inputs", "histories"], "all container formats (including obfuscated EOT and uncompressed WOFF tables) and all operation sequences on fonts sharing the same input bytes",
 "Tables are kept as slices into the input, so a later in-place write corrupts the caller's data only for particular formats and operations; tests parse a file once and discard the bytes.",
 ["sfnt.go", "woff.go", "eot.go", "sfnt_merge.go", "sfnt_cff.go"],
 [("aliased table slices", "sfnt.go parseSFNT tables map"), ("in-place rewriting of table fields", "sfnt_merge.go, eot.go, woff.go")],
 ["ToSFNT", "ParseSFNT", "ParseEOT", "ParseWOFF", "Merge"])

prop("P06", "WOFF decoding reproduces the wrapped font",
 "Decoding a valid WOFF 1.0 file yields an SFNT with the same flavour and exactly the original tables, byte for byte, whichever tables were stored compressed or raw and whatever metadata or private blocks follow. The result has a correct sorted table directory and correct table and whole-font checksums, and parses to the same font as the unwrapped original.",
 ["inputs"], "all fonts x all per-table compression choices, levels, paddings, table orders in the data section, metadata and private blocks",
 "Unit tests cover only a handful of fixed WOFF files.",
 ["woff.go"], [("table inflation and directory rebuild", "woff.go ParseWOFF")], ["ParseWOFF", "ToSFNT", "ParseSFNT"])
prop("P07", "Corrupt WOFF files are rejected",
 "A WOFF 1.0 file is rejected with an error, rather than decoded to a damaged font, whenever its signature, declared total length, reserved field, table count, declared uncompressed size, table order, or table extents are wrong, data ranges overlap, a compressed length exceeds the original length, decompression fails or yields another length, or a table's checksum differs from its contents.",
 ["inputs"], "all single-fault corruptions of all generated WOFF files, over every header field, directory field and table payload byte",
 "Conformance vectors hold one example per fault class; a faulty check passes for other sizes, positions or tables.",
 ["woff.go"], [("validation", "woff.go ParseWOFF, tablePositions")], ["ParseWOFF"])
prop("P08", "WOFF2 decoding reproduces the wrapped font",
 "Decoding a valid WOFF2 file yields an SFNT in which every glyph has the same outline points, components, instructions and bounding box, every glyph the same advance and side bearing, and every other table the same bytes as the original, for every legal choice of transforms and encodings. Directory, checksums and glyph locations of the result are correct.",
 ["inputs"], "all fonts x transformed or raw glyph and metric tables, all triplet, length and bitmap encodings, glyph counts around multiples of 32, elided side bearings, known and custom tags",
 "The transform has hundreds of encoding cases (128 triplet classes, three length codes, implicit versus explicit boxes, bitmaps); sample files visit few of them.",
 ["woff2.go"], [("glyph reconstruction", "woff2.go reconstructGlyfLoca"), ("metrics reconstruction", "woff2.go reconstructHmtx"), ("variable length integers", "woff2.go readUintBase128/read255Uint16")], ["ParseWOFF2", "ToSFNT"])
prop("P09", "Corrupt WOFF2 files are rejected",
 "A WOFF2 file is rejected with an error whenever its signature, declared length, reserved field or table count is wrong, a variable-length number is malformed, the glyph and location tables are not both transformed or both raw or only one is present, an illegal transform version is used, a table is listed twice, the compressed stream is damaged, its decompressed size differs from the sum of the declared table lengths, or the transformed glyph data ends early or does not match the declared size of the glyph location table.",
 ["inputs"], "all single-fault corruptions of generated WOFF2 files over header, directory and streams",
 "Conformance vectors hold one example per fault class.",
 ["woff2.go"], [("validation", "woff2.go ParseWOFF2"), ("number decoding", "readUintBase128")], ["ParseWOFF2"])
prop("P10", "Writing WOFF2 loses nothing",
 "Any valid TrueType or CFF font written as WOFF2 is a well-formed WOFF2 file that a conforming decoder turns back into a font with the same outlines, components, instructions, explicit bounding boxes, metrics and unmodified bytes in all other tables (signatures aside). The library's own decoder also accepts the file and yields the same font.",
 ["inputs"], "all generated fonts (all glyph shapes, flags, composites with instructions, overlap bits, glyph counts, hmtx shapes, arbitrary extra tables) and fonts produced by subsetting or merging",
 "The encoder is exercised in tests only by fixed files; wrong output arises from particular deltas, bounding boxes, empty glyphs or counts.",
 ["woff2.go"], [("glyph transform", "woff2.go transformGlyf"), ("metric transform", "woff2.go transformHmtx"), ("directory writer", "woff2.go WriteWOFF2")], ["WriteWOFF2", "ParseWOFF2"])
prop("P11", "EOT decoding reproduces the wrapped font",
 "For every EOT header version, with any name strings, signature or root-string fields, and with or without XOR obfuscation of the font data, decoding an uncompressed EOT file yields exactly the wrapped font bytes. Files with another magic number or an unknown version, files that declare sizes extending beyond the file, and files that use compression are rejected with an error.",
 ["inputs"], "all wrapped fonts x all three header versions x field lengths x flag combinations x truncations",
 "Tests use one file per variant at most; string lengths and flags vary independently.",
 ["eot.go"], [("header walk and de-obfuscation", "eot.go ParseEOT")], ["ParseEOT", "ToSFNT"])
prop("P12", "Format sniffing recognises every supported container",
 "For every supported container the sniffed media type and file extension name that container's format, and normalising or directly parsing the file gives the same font as parsing the SFNT inside it; plain SFNT data passes through unchanged. Data of an unknown format or too short to identify is reported as an error by the media-type and normalisation entry points, without panicking.",
 ["inputs"], "generated fonts in all containers, plus arbitrary short and unknown byte strings",
 "Dispatch on a few header bytes must agree across several entry points for every file, not for the one sample file of each type.",
 ["font.go"], [("magic-number dispatch", "font.go MediaType/Extension/ToSFNT/NewSFNTReader/ParseFont")], ["MediaType", "Extension", "ToSFNT", "NewSFNTReader", "ParseFont"])

prop("P13", "Written SFNT files are well formed and lossless",
 "Writing a parsed font produces a file with a sorted, correctly counted table directory, 4-byte aligned zero-padded tables within the file, correct table checksums, correct search fields and a whole-file checksum that verifies. Every table has the same bytes as before, except the checksum adjustment and modification time in the head table, so writing and parsing again gives the same font.",
 ["inputs"], "all generated fonts of both flavours, any number of tables with any lengths and tags",
 "Alignment, search-field and checksum errors depend on the table count and each length modulo four.",
 ["sfnt.go", "util.go"], [("directory and checksum writer", "sfnt.go Write, util.go calcChecksum")], ["Write", "ParseSFNT"])
prop("P14", "Collection fonts are selected by index",
 "Parsing a font collection with index i yields exactly the i-th font of the collection, also when fonts share tables, appear in any order in the file, or sit at the file's end. An index outside the collection, or a non-zero index for a single font, is an error.",
 ["inputs"], "collections of 1..n generated fonts of mixed flavours with shared tables, both collection versions, all directory placements, all indexes",
 "No collection file is part of the test data.",
 ["sfnt.go"], [("ttcf header handling", "sfnt.go parseSFNT")], ["ParseSFNT"])

prop("P15", "Rune lookup follows the character map",
 "For every rune, glyph lookup returns the glyph that the font's supported character-map subtables (formats 0, 4, 6 and 12) assign to it, taking the first subtable in file order that maps it, and 0 when none does.",
 ["inputs"], "all runes x fonts with generated maps: arbitrary segments, deltas, range offsets, groups, dense and sparse ranges, several subtables and platforms, boundary code points",
 "Maps have a large structured space (segment boundaries, modular deltas, indirect arrays, code point 0xFFFF, supplementary planes).",
 ["sfnt_cmap.go"], [("subtable lookups", "sfnt_cmap.go cmapFormat0/4/6/12 Get"), ("subtable parsing", "sfnt_cmap.go parseCmap")], ["GlyphIndex"])
prop("P16", "Glyph-to-rune lookup is the exact inverse of rune lookup",
 "For every glyph other than the missing glyph, the inverse lookup returns exactly the runes for which rune lookup returns that glyph, each of them once. The answer does not depend on how often or in which order it is asked.",
 ["inputs", "histories"], "all glyphs x generated character maps x query orders",
 "The inverse has separate code per map format and a cache; agreement must hold for every glyph.",
 ["sfnt_cmap.go"], [("inverse lookups and cache", "sfnt_cmap.go ToUnicode")], ["GlyphToUnicode"])
prop("P17", "TrueType outlines follow the glyph format",
 "For every glyph, the drawn path has the contours prescribed by the TrueType format: implied on-curve midpoints, contours starting with off-curve points, empty glyphs, and composite glyphs with nested components, scale or 2x2 transforms and offsets. Position and scale arguments place the path exactly at the requested origin and size, and every contour is closed.",
 ["inputs"], "all generated simple and composite glyphs (every flag and repeat encoding, coordinates over the full range, nesting, transforms, location formats) x positions x scales",
 "Point streams, flag packing and component transforms combine into an unbounded space; tests check a few glyphs of one font.",
 ["sfnt_truetype.go"], [("glyph decoding", "sfnt_truetype.go contour"), ("path conversion", "sfnt_truetype.go ToPath")], ["GlyphPath"])
prop("P18", "CFF outlines follow the Type 2 charstring format",
 "For every glyph of a CFF font, the drawn path is the one a reference charstring interpreter produces, for all path, curve, flex, hint, mask, width and subroutine operators and all number encodings, with local and global subroutine numbering. Position and scale arguments place the path exactly.",
 ["inputs"], "all generated charstrings over the operator grammar, with subroutine sets around the bias limits (1240, 33900), nested calls, widths, hint masks, and name-keyed fonts with all charset formats",
 "The operator grammar with implicit alternation, optional arguments and mask byte counts is unbounded; tests cover one font.",
 ["sfnt_cff.go"], [("charstring interpreter", "sfnt_cff.go parseCharString/ToPath"), ("subroutine bias", "sfnt_cff.go GetSubr")], ["GlyphPath"])
prop("P19", "Glyph bounds enclose the glyph as the font declares",
 "For a TrueType glyph the reported bounds are the bounding box stored with the glyph; for a CFF glyph they are the integer box enclosing the control points of its outline, rounding outwards. Glyphs without an outline have an all-zero box.",
 ["inputs"], "all generated glyphs of both flavours, in all four quadrants",
 "Depends on the sign and fraction of coordinates of each glyph.",
 ["sfnt.go", "sfnt_util.go"], [("bounds", "sfnt.go GlyphBounds, sfnt_util.go bboxPather")], ["GlyphBounds"])
prop("P20", "Advances, bearings and line metrics are those of the font",
 "For every glyph, horizontal and vertical advances and bearings equal those the metric tables assign, with trailing glyphs sharing the last advance, and vertical advance falling back to the em size without vertical metrics. Ascender, descender and line gap follow the documented selection between typographic, Windows and horizontal-header values for every combination of those fields.",
 ["inputs"], "all glyph counts and long-metric counts, all metric values, all combinations of OS/2 presence, version, flags and signed values",
 "Off-by-one and overflow errors appear only for particular counts and extreme values.",
 ["sfnt.go"], [("metric lookups", "sfnt.go hmtxTable/vmtxTable"), ("line metrics", "sfnt.go VerticalMetrics")], ["GlyphAdvance", "GlyphVerticalAdvance", "Hmtx.LeftSideBearing", "VerticalMetrics"])
prop("P21", "Kerning lookups agree with the kern table",
 "For every ordered pair of glyphs the kerning value is the one defined by the font's horizontal pair-list kern subtables, combined according to their accumulate, minimum and override flags, and 0 for pairs that are not listed. Subtables of other kinds are skipped without affecting the rest.",
 ["inputs"], "all glyph pairs x generated kern tables (pair counts 0..n, several subtables, coverage flags, extreme values, interleaved unsupported subtables)",
 "Binary search and flag handling errors need particular counts, neighbours and flag combinations.",
 ["sfnt_truetype.go"], [("pair search", "sfnt_truetype.go kernFormat0.Get"), ("subtable parsing and combination", "parseKern / kernTable.Get")], ["Kerning"])
prop("P22", "Glyph names and name lookup agree with the font",
 "For every glyph the name is the one stored in the font (standard or custom PostScript names, or the CFF charset), and empty when the font stores none. Looking up a name returns a glyph carrying exactly that name, and 0 for a name no glyph carries; for unique names the two lookups are inverse.",
 ["inputs"], "all generated name sets over post versions 1, 2 and 3 and CFF charset formats and standard strings, and all query strings",
 "Index arithmetic across the standard and custom ranges depends on the number and order of names.",
 ["sfnt.go", "sfnt_cff.go"], [("post names", "sfnt.go postTable Get/Find"), ("charset", "sfnt_cff.go charset parsing")], ["GlyphName", "FindGlyphName"])
prop("P23", "Font-wide fields and name records are read exactly",
 "Every exposed field of the head, horizontal and vertical header, maximum-profile, OS/2 and post tables has the value stored in the file, for every supported table version, and every name record is reported in file order with its platform, encoding, language, identifier and raw value, decoding to the original text for Unicode, Windows and Mac Roman records.",
 ["inputs"], "all field values, table versions and name record sets, including storage sizes near the 16-bit limit and overlapping strings",
 "Field offsets, signedness and version-dependent layouts fail for values tests do not use.",
 ["sfnt.go", "sfnt_os2.go"], [("fixed layouts", "sfnt.go parseHead/parseHhea/parseVhea/parseMaxp/parsePost, sfnt_os2.go parseOS2"), ("name records", "sfnt.go parseName, nameRecord.String")], ["SFNT.Head", "SFNT.Hhea", "SFNT.OS2", "SFNT.Post", "SFNT.Maxp", "SFNT.Name"])

prop("P24", "TrueType subsets keep every requested glyph's outline and order",
 "Subsetting a TrueType font to a list of glyphs gives a font whose glyphs are the requested glyphs in the requested order followed by any components they need that were not requested, each drawing exactly the outline it drew in the source with the same bounds and hinting instructions; only the missing glyph is made empty. References inside composite glyphs are renumbered to match.",
 ["inputs"], "all generated fonts with nested and shared composites x all glyph lists (any order, with or without the missing glyph or the components) x table selections",
 "Renumbering composites depends on the interaction of list order, sharing and nesting.",
 ["sfnt_subset.go", "sfnt_truetype.go"], [("glyph closure and renumbering", "sfnt_subset.go Subset"), ("component walk", "sfnt_truetype.go dependencies")], ["Subset", "GlyphPath"])
prop("P25", "Subsets keep metrics, character map and kerning",
 "Every kept glyph has in the subset, after writing and re-parsing, the same horizontal advance and bearing as its source glyph, and, when the kern table is kept, the same kerning with every other kept glyph other than the missing glyph. When the character map is kept, it maps exactly the runes of the kept glyphs to their new numbers, and nothing else, and the Unicode ranges of the OS/2 table are those of the kept runes.",
 ["inputs"], "all generated fonts x glyph lists x table selections that keep those tables",
 "Requires re-encoding of maps (segment splitting, format choice), pair lists and name lists, each with size and boundary dependent behaviour.",
 ["sfnt_subset.go", "sfnt_cmap.go", "sfnt_truetype.go", "sfnt.go"], [("map writer", "sfnt_cmap.go cmapWrite, cmapWriteFormat4/12"), ("kern writer", "sfnt_truetype.go kernTable.Write"), ("metric compaction", "sfnt_subset.go hmtx"), ("OS/2 range bits", "sfnt_os2.go os2UlUnicodeRange")], ["Subset", "Write"])
prop("P26", "CFF subsets keep every requested glyph's outline and name",
 "Subsetting a CFF font gives a font with the requested glyphs in order, each drawing exactly the outline it drew in the source and keeping its name (only the missing glyph is made empty), although unused subroutines are dropped and the remaining ones renumbered. The rewritten CFF table is valid for an independent decoder and keeps the font-wide values (name, matrix, hint zones, default widths).",
 ["inputs"], "all generated CFF fonts (shared and nested local and global subroutines, counts around the bias limits, hint masks, custom strings) x glyph lists",
 "Subroutine renumbering changes operand lengths and biases, and table offsets depend on each other; failures need particular counts.",
 ["sfnt_cff.go", "sfnt_subset.go"], [("subroutine reindexing", "sfnt_cff.go ReindexSubrs/updateSubrs"), ("CFF writer", "sfnt_cff.go Write")], ["Subset", "GlyphPath", "GlyphName"])
prop("P27", "Subsetting leaves its source untouched and honours table selection",
 "Subsetting changes nothing observable about the source font or the caller's glyph list, so any number of subsets of one font, in any order, are as if each was made from a fresh copy. The subset contains the tables of the chosen selection that exist in the source (minimal, all, PDF or an explicit list) and no others.",
 ["inputs", "histories"], "sequences of subset, query and write operations with any glyph lists and selections on one source font",
 "Sharing of table structures between source and subset shows only when the source is used afterwards.",
 ["sfnt_subset.go", "sfnt_cff.go"], [("table copying", "sfnt_subset.go Subset")], ["Subset", "Write"])
prop("P28", "A font in memory always equals its written and re-parsed form",
 "After subsetting, merging or renaming, every query answers the same on the resulting in-memory font as on the font obtained by writing it out and parsing it again, and the tables it holds are structurally valid (consistent glyph counts, monotone glyph locations, sorted unique map and pair entries, consistent headers).",
 ["inputs", "histories"], "all generated fonts and sequences of subset, merge and rename operations followed by write and parse",
 "Two representations (raw tables and parsed structures) are updated separately by each operation; only some inputs expose a difference.",
 ["sfnt_subset.go", "sfnt_merge.go", "sfnt.go", "sfnt_cff.go"], [("dual update of Tables and parsed structs", "sfnt_subset.go, sfnt_merge.go, SetGlyphNames")], ["Subset", "Merge", "SetGlyphNames", "Write", "ParseSFNT"])

prop("P29", "Merging keeps all glyphs of both fonts",
 "Merging a second font into a first appends the second font's glyphs, other than its missing glyph, after those of the first, for TrueType and for CFF fonts. After writing and re-parsing, every glyph of either font draws its original outline and keeps its advance, bearing and name, each font's kerning pairs still apply among its own glyphs, and every rune mapped by either font maps to the corresponding glyph.",
 ["inputs"], "all pairs of generated fonts of the same flavour with disjoint runes; both location formats, composites, subroutine counts around bias limits, with and without kerning and names",
 "Every table has to be rewritten with consistent renumbering; failures depend on both fonts' shapes (counts, parities, sizes, presence of tables).",
 ["sfnt_merge.go", "sfnt_cff.go"], [("glyph and table merging", "sfnt_merge.go Merge"), ("CFF index extension and subroutine shift", "sfnt_cff.go Extend/updateSubrs")], ["Merge", "Write", "GlyphPath"])
prop("P30", "Merge refuses conflicts and leaves the other font alone",
 "Merging fonts of different flavours, fonts whose character maps assign one rune to two different glyphs (without the rearranging option), or fonts with too many glyphs together, returns an error. Merging never changes the second font, nor any other font parsed from the same bytes as either font, whether it succeeds or fails.",
 ["inputs", "histories"], "all pairs of compatible and incompatible fonts, and sequences of merges of shared fonts",
 "Needs two related fonts and inspection of the bystander after the operation.",
 ["sfnt_merge.go", "sfnt_cff.go"], [("precondition checks", "sfnt_merge.go Merge"), ("copy discipline", "sfnt_merge.go, cffINDEX.Extend")], ["Merge"])
prop("P31", "Rearranged merges number all glyphs with consecutive runes",
 "Merging with the rearranging option never fails for conflicting runes: every glyph of the merged font other than the missing glyph is mapped from exactly one rune, consecutively in glyph order starting at U+0021, directly after merging as well as after writing and re-parsing. Outlines, advances and names are kept as in any merge.",
 ["inputs"], "pairs and chains of generated fonts with disjoint, overlapping or equal character maps",
 "Depends on the glyph counts and on what both maps held before.",
 ["sfnt_merge.go", "sfnt_cmap.go"], [("rune rearrangement", "sfnt_merge.go RearrangeCmap"), ("map writer", "sfnt_cmap.go cmapWrite")], ["Merge", "GlyphIndex"])
prop("P32", "Assigned glyph names stick",
 "After assigning one name per glyph, name queries and reverse lookups answer according to the new list only, immediately, after repeated assignments and earlier lookups, and after writing and re-parsing, for TrueType and CFF fonts. Names the format cannot store are refused with an error, and the font keeps the names it had.",
 ["inputs", "histories"], "sequences of assignments and lookups with arbitrary names (standard, custom, duplicate, empty, long) on both flavours and all name-table versions",
 "Stale lookup caches and index arithmetic appear only in particular call orders.",
 ["sfnt_subset.go", "sfnt.go", "sfnt_cff.go"], [("name assignment", "sfnt_subset.go SetGlyphNames"), ("lookup cache", "sfnt.go postTable.Find")], ["SetGlyphNames", "GlyphName", "FindGlyphName"])
prop("P33", "Read-only queries are safe to share between goroutines",
 "Any number of goroutines may query one parsed font at the same time, including the lazily built inverse lookups: there are no data races, and each call returns what it would return when called alone. The same holds for making subsets of that font, writing it, and merging it into other fonts, which leave it as it is.",
 ["schedules", "inputs"], "random query mixes over many goroutines on fresh fonts of both flavours, run with the race detector",
 "Lazy caches race only when first use coincides in several goroutines.",
 ["sfnt.go", "sfnt_cmap.go"], [("once-guarded caches", "sfnt.go postTable.once, sfnt_cmap.go cmapTable.once")], ["GlyphToUnicode", "FindGlyphName", "GlyphIndex", "GlyphPath"])

prop("P34", "Style names and numbers convert consistently",
 "Every style's text form parses back to the same style, and its weight and italic parts recombine to it. A CSS weight number (rounded to the nearest hundred and clamped to 100..900) with an italic flag maps to the corresponding style, and a textual name made of an accepted weight word and an accepted slant word, separated by nothing, a space or a hyphen and with surrounding space ignored, maps to that weight and slant. Any other text maps to the unknown style.",
 ["inputs"], "all styles, all integers as weights, generated style spellings and arbitrary strings",
 "The spelling space (weight synonyms x slant words x separators) is only sampled by tests.",
 ["system.go"], [("style parsing", "system.go ParseStyle/ParseStyleCSS/Style.String")], ["ParseStyle", "ParseStyleCSS", "Style.String", "Style.Weight", "Style.Italic"])
prop("P35", "Font matching finds the requested family and closest style",
 "Matching a comma-separated family list against a font collection picks the first listed family, with generic names expanded in place, that is present, and returns its font of the requested style or else of the nearest weight in CSS fallback order within the same slant; it fails only when no listed family is present or that family lacks the slant. Matching does not change the collection, so repeating or reordering queries gives the same answers.",
 ["inputs", "histories"], "generated collections, generic-name tables and family lists, and sequences of adds and queries",
 "The fallback order over 18 styles and generic expansion has a large configuration space, and aliasing shows only across repeated queries.",
 ["system.go"], [("matching", "system.go SystemFonts.Match"), ("registration", "system.go Add")], ["SystemFonts.Match", "SystemFonts.Add"])
prop("P36", "Font directory scans and caches are faithful",
 "Scanning directories finds every TTF and OTF file in them, at any depth, and records the path of each one that declares a known style, with the family and style that its English name records (Windows platform) declare, preferring the typographic names where present; other, unreadable and damaged files and unreadable directories are ignored without failing the scan. Saving the result and loading it again gives an equal collection.",
 ["inputs", "configurations"], "generated directory trees with fonts (all name record platforms, orders and languages), non-fonts and truncated files",
 "Metadata extraction is a separate parser whose result depends on record order, platform and encoding; the test suite does not scan generated trees.",
 ["system.go"], [("directory scan", "system.go FindSystemFonts"), ("metadata reader", "system.go getSFNTMetadata"), ("cache", "SystemFonts.Save, LoadSystemFonts")], ["FindSystemFonts", "LoadSystemFonts", "SystemFonts.Save"])
prop("P37", "AFM files are read faithfully",
 "Parsing an Adobe Font Metrics file yields, for every glyph, the name, character code mapping, advance and bounding box the file states, all kerning pairs by name or code, and the font-wide values; values are rounded to the nearest integer. Lookups of unlisted runes, names or pairs return zero values.",
 ["inputs"], "generated AFM files with any subset and order of keys, line endings, spacing, negative and fractional numbers, comments and unknown sections",
 "The format is a line grammar with optional keys in any order; the tests parse only the bundled core fonts.",
 ["afm.go"], [("AFM parser", "afm.go ParseAFM and helpers")], ["ParseAFM", "AFM.GlyphIndex", "AFM.GlyphAdvance", "AFM.GlyphBounds", "AFM.Kerning"])
prop("P38", "Fonts obtained through the Go font packages round-trip",
 "Converting a font opened with the freetype or x/image packages back to SFNT bytes yields a well-formed font with the same tables, which parses to the same glyphs, metrics and character map as the original file, and leaves the source font object usable and unchanged.",
 ["inputs"], "all generated TrueType fonts the other packages accept, and repeated conversions",
 "The bridge reads private fields of other packages and rebuilds a directory; sizes and missing tables vary per font.",
 ["font.go"], [("bridges", "font.go FromGoFreetype/FromGoSFNT")], ["FromGoFreetype", "FromGoSFNT"])
prop("P39", "The command line subsetter does what its options say",
 "The subset command keeps exactly the glyphs selected by its glyph-ID, name, character and Unicode range options (plus the missing glyph and components), in any input and output format it supports, and writes a font that parses and draws those glyphs as before. Bad option values and unusable files are reported as errors without crashing and without touching the input file.",
 ["inputs", "configurations"], "generated fonts and option combinations run through the built tool in a scratch directory",
 "The option grammar (ranges, escapes, class names, formats) is not covered by unit tests at all.",
 ["cmd/fontcmd/subset.go", "cmd/fontcmd/util.go"], [("option parsing and glyph selection", "cmd/fontcmd/subset.go"), ("input and output formats", "cmd/fontcmd/util.go")], ["fontcmd subset"])
prop("P40", "The command line merger and CSS/info commands are faithful",
 "The merge command writes one font with the glyphs and characters of all inputs in order, in the requested format; the CSS command writes one rule per named and mapped glyph with that glyph's name and code point; the info command lists the table directory stored in the font. Unusable inputs are reported as errors without a crash.",
 ["inputs", "configurations"], "generated fonts and option combinations run through the built tool in a scratch directory",
 "The commands have no unit tests.",
 ["cmd/fontcmd/merge.go", "cmd/fontcmd/css.go", "cmd/fontcmd/info.go"], [("commands", "cmd/fontcmd")], ["fontcmd merge", "fontcmd css", "fontcmd info"])
prop("P41", "Any history of edits keeps the font equal to its model",
 "After any sequence of subsetting, merging, renaming, writing, WOFF2 wrapping and re-parsing, the font has exactly the glyphs, outlines, advances, character map, kerning and names that the same sequence gives on a simple model of a font.",
 ["histories", "programs"], "random operation sequences on generated fonts of both flavours",
 "Errors that appear only when an operation is applied to the output of another (re-encoded maps, stale lengths, renumbered subroutines) need multi-step histories.",
 ["sfnt_subset.go", "sfnt_merge.go", "sfnt.go", "woff2.go", "sfnt_cff.go"], [("composition of rewriting operations", "Subset, Merge, SetGlyphNames, Write, WriteWOFF2")], ["all public operations on a font"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
