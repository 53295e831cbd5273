T = "property-based testing: "
CLAIMS = {
"W01": (T+"generated integers against an independent reference encoder, exhaustive over 16 bits", "seeded random search; 16-bit widths are exhaustive, larger widths sampled at every magnitude"),
"W02": (T+"generated values of 90 types against an independent reference encoder and round trip, contiguous and segmented buffers", "seeded random search over values and buffer splits"),
"W03": (T+"generated values, size compared with the reference encoding and the bytes written", "seeded random search"),
"W04": (T+"random, damaged and truncated inputs with an operation budget as termination oracle", "seeded random search over byte strings and damage"),
"W05": (T+"generated fields skipped by marker, model of identifier packing", "seeded random search"),
"W06": (T+"generated zero and non-zero payloads against the rule", "seeded random search"),
"P01": (T+"arbitrary text, token soup, damaged schemas and raw bytes; oracle: no panic, labels within the text", "seeded random search; texts up to 4 KiB and some up to about 1 MiB, nesting up to 64"),
"P02": (T+"schemas rendered from a generated model in random layouts; the parsed tree must equal the model", "seeded random search over the whole grammar"),
"P03": (T+"single grammar defects injected into generated valid schemas; all must be rejected", "seeded random search over defects and positions"),
"P04": (T+"format, parse again, compare with the model; idempotence; layout independence", "seeded random search over the whole grammar"),
"C01": (T+"generated schemas with generated rule violations against an independent reference of the rules", "seeded random search over schemas and defects"),
"C02": (T+"generated identifier sequences against a reference counter", "seeded random search over sequences of up to 13 elements"),
"C03": (T+"generated sets of schemas with generated reference defects against an independent name resolution", "seeded random search over sets of up to three schemas"),
"C04": (T+"simplified form compared with the model the schema was rendered from", "seeded random search over the whole grammar"),
"C05": (T+"JSON of generated schemas read back and compared with the model, validated by an independent JSON Schema interpreter", "seeded random search over the whole grammar"),
"M01": (T+"generated types against an independent computation of the size bounds; generated identifier sequences", "seeded random search over types nested up to 5 levels"),
"D01": (T+"pages of generated schemas parsed as HTML and compared with the model; link closure", "seeded random search over valid schemas; comments of words and of arbitrary text"),
"D02": (T+"comments generated as a tree of Markdown elements, their text documented, and the HTML found compared with the tree at every place a comment is shown", "seeded random search over Markdown nested up to 3 levels"),
"J01": (T+"generated file trees and globs against an independent glob matcher", "seeded random search over trees up to 4 levels deep"),
"P05": (T+"every recorded location of generated schemas compared with the element it belongs to", "seeded random search over the whole grammar"),
"P06": (T+"mistakes inserted at known places of generated schemas; every location of the report compared with the places of the elements around the mistake", "seeded random search over the whole grammar in all layouts"),
"G01": (T+"types generated from generated schemas, compiled, run with generated values against a reference codec derived from the schema", "seeded random search; per run a few dozen sets of schemas are compiled and run with many values each"),
"G02": (T+"types generated from generated schemas, compiled; size compared with the bytes written", "seeded random search over schemas and values"),
"G03": (T+"encodings with generated unknown fields, orders and gaps read by compiled generated code", "seeded random search over schemas, values and insertions"),
"G04": (T+"truncated and damaged encodings read by compiled generated code", "seeded random search over schemas, values and damage"),
"G05": (T+"code for generated schemas compiled with rustc, and parsed and compared with the model of the schema", "seeded random search; hundreds of sets compiled, thousands compared"),
"L01": (T+"generated edit histories on the real server over stdio, compared with a document freshly opened with the text an independent model of the protocol gives", "seeded random search over histories of up to a dozen changes in three encodings"),
"L02": (T+"generated schemas opened in the real server, answers compared with the model the schema was rendered from", "seeded random search over schemas, defects, settings and offered encodings"),
"L03": (T+"generated abnormal messages and workspaces against the real server; oracle: it stays alive, answers each request once and works as usual afterwards", "seeded random search over messages and workspace contents"),
"L04": (T+"generated interleavings of messages and delayed answers against the real server, model of the resulting state", "seeded random search over schedules the client controls"),
"L05": (T+"generated histories, ways to leave and delays of answers against the real server, answers and exit status", "seeded random search over histories and schedules the client controls"),
"K01": (T+"generated file trees, patterns and projects run through the real program against an independent selection and validity model", "seeded random search over trees with up to a dozen files"),
"K02": (T+"generated file trees run through the real program; file contents compared with the formatted model", "seeded random search over trees with up to a dozen files"),
"K03": (T+"generated projects run through the real program; files compared with the pages expected from the model", "seeded random search over projects with a few schemas"),
"O01": (T+"generated schemas translated, compared token by token with an independent translation of the model and parsed by gofmt", "seeded random search over the supported schemas; generated Go is parsed, not run (the Go runtime is not part of the repository)"),
"O02": (T+"generated projects run through the real program against a model of the files it has to write", "seeded random search over projects of one schema"),
"B01": (T+"generated projects with generated defects, former outputs and taken places, compiled through the build script interface; files compared with the model before and after", "seeded random search over projects of up to three schemas"),
"G06": (T+"constants of generated schemas compiled, run and compared with the model", "seeded random search over the constants of the compiled schemas"),
}
NOT_APPLICABLE = []
NOTES = "All checks share one seeded property-based testing engine (harness/pbt); check.sh builds the machinery against /repo and runs one property."
