def t(i, tech, note):
    T[i] = (tech, "Exploration: every generated case was decided by the oracle; nothing is claimed about inputs not generated. " + note)
t("P01", "mutated fonts under panic, CPU and allocation guards", "Limits: 40 s CPU, allocation bounded by a constant plus a multiple of the input size.")
t("P02", "mutated and hostile containers under panic, CPU and allocation guards", "Trusts the Go runtime's allocation counters.")
t("P03", "queries on accepted damaged fonts under panic, CPU and memory guards", "Glyph IDs, runes and names are sampled per font with all edge values included.")
t("P04", "rewrites of accepted damaged fonts under panic, CPU and memory guards", "Glyph lists and options are sampled.")
t("P05", "byte-equality of inputs and observation equality over operation sequences", "The caller's slice is checked including its spare capacity.")
t("P06", "round trip through an independent WOFF encoder", "Trusts the harness's encoder and directory reader and the Go zlib package.")
t("P07", "single-fault injection into valid WOFF files, error expected", "The fault list is the one in the property.")
t("P08", "round trip through an independent WOFF2 encoder", "Trusts the harness's WOFF2 encoder and the brotli package.")
t("P09", "single-fault injection into valid WOFF2 files, error expected", "The fault list is the one in the property.")
t("P10", "written WOFF2 read by an independent decoder and by the library", "Trusts the harness's reference decoder and the brotli package.")
t("P11", "round trip and fault injection through an independent EOT encoder", "Trusts the harness's encoder.")
t("P12", "differential: every container against its plain SFNT", "Trusts the harness's encoders.")
t("P13", "written files read by a strict reference directory reader", "Trusts the harness's reader.")
t("P14", "differential: collection member against the single font", "Trusts the harness's collection builder.")
t("P15", "model-based: generated maps in all supported subtable encodings", "Trusts the harness's encoders; runes whose coverage is ambiguous (glyph 0 first, another later) are left out.")
t("P16", "metamorphic: exact inverse of rune lookup over all runes", "Rune lookup itself is the oracle, and is decided by P15.")
t("P17", "model-based: generated outlines in all glyf encodings against exact geometry", "Composite transforms are compared within the rounding of the 16-bit result; point-matched components are out of scope.")
t("P18", "model-based: generated Type 2 programs with known paths", "The generator's paths are cross-checked against a second, byte-level reference interpreter; arithmetic operators and seac are out of scope.")
t("P19", "model-based: stored boxes and exact control boxes", "Trusts the model.")
t("P20", "model-based: metric tables and line-metric selection", "The selection rule is the documented one.")
t("P21", "model-based: kern subtables of all kinds", "Trusts the harness's encoder.")
t("P22", "model-based: post and charset names", "Trusts the harness's encoders.")
t("P23", "model-based: header fields of all table versions", "Trusts the harness's encoders.")
t("P24", "metamorphic and reference-decoded: subset against its source", "Trusts the model and the reference readers.")
t("P25", "metamorphic: subset metrics, map and kerning against the source", "Trusts the model.")
t("P26", "metamorphic and reference-decoded: CFF subset against its source", "Trusts the reference CFF reader.")
t("P27", "source observation before and after; table selection against the model", "Observation covers the public queries and tables.")
t("P28", "differential: in-memory font against its written and re-parsed form", "Structural validity is judged by the strict reference readers.")
t("P29", "model-based: merged fonts against both inputs", "Trusts the model and reference readers.")
t("P30", "conflict injection, and observation of the other fonts before and after", "Observation covers the public queries and tables.")
t("P31", "model-based: rearranged merges", "Trusts the model.")
t("P32", "stateful: name assignments and lookups against the last list", "Trusts the model.")
t("P33", "concurrent histories under the race detector against sequential answers", "The race detector only sees executed interleavings.")
t("P34", "exhaustive and generated styles against an independent table", "Trusts the table.")
t("P35", "model-based: CSS matcher over generated collections", "Trusts the reference matcher.")
t("P36", "model-based: generated directory trees, and save/load round trip", "Runs in a scratch directory.")
t("P37", "model-based: generated AFM text", "Trusts the generator.")
t("P38", "round trip through the Go font packages", "Trusts the generator.")
t("P39", "model-based: generated command lines on the built binary", "Runs in a scratch directory.")
t("P40", "model-based: generated command lines on the built binary", "Runs in a scratch directory.")
t("P41", "stateful model-based: edit histories against a simple font model", "Trusts the model.")
