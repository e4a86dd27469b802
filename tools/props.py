prop("C01", "Every unit spelling has its defined magnitude and dimension",
     "Every unit symbol, unit name and SI-prefixed spelling in the library's catalogue denotes exactly the dimension and, to rounding, the magnitude (and zero point, for affine temperature scales) that the SI, the international yard-and-pound agreement or its definition give it. "
     "The run-time evaluator, the type-forming macro and the quantity-forming macro agree on it. No other identifier is accepted as a unit, and units that take no SI prefix refuse one.",
     ["inputs", "programs"],
     "every catalogue spelling with every prefix and alternative symbol (1416 spellings), and every string of up to 3 letters of the catalogue alphabet (4 in the thorough tier)",
     "The tests look at a few dozen units; a wrong constant in a table of 90 units times 24 prefixes is invisible unless exactly that spelling is exercised against an independent value.",
     ["whippyunits-core/src/dimensions.rs", "whippyunits-core/src/units.rs", "whippyunits-core/src/prefix.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs"],
     [("unit catalogue with scale exponents, conversion factors and offsets", "whippyunits-core/src/units.rs"), ("prefix stripping and lookup by symbol or name", "whippyunits-core/src/dimensions.rs, prefix.rs")],
     "exhaustive enumeration of the catalogue and of all short strings against an independent SI table, on the real evaluator and on generated macro programs", "exploration",
     "Exhaustive over the catalogue's spellings and short strings; trusts the transcription of SI/NIST values in mc/ref.py.")

prop("C02", "Unit expressions follow the documented algebra or are rejected",
     "A unit expression built with *, ., /, ^, implicit exponents, parentheses, 1 and powers of ten denotes the product of its parts: dimensions and scales add, subtract and multiply exactly, quotients associate to the left, and spelling variants of one expression denote the same unit. "
     "Anything else (unknown unit, stray or missing token, other number, exponent out of range) is rejected with an error, at run time and at compile time, never a panic and never a silently different unit.",
     ["inputs", "programs"],
     "every token sequence up to length 5 (6 thorough) over a 14-token alphabet, every expression tree to depth 2 and all 3- and 4-operand shapes over a unit alphabet, exponents around every integer width limit",
     "Tests try a handful of well-formed expressions; associativity, precedence, exponent-width and silent-drop errors need the systematic space of expressions, including malformed ones.",
     ["whippyunits-core/src/parser.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs"],
     [("recursive-descent parser and evaluator of unit expressions", "whippyunits-core/src/parser.rs")],
     "bounded exhaustive enumeration of token sequences and expression trees against an independent parser model; macro conformance on generated programs", "exploration",
     "Exhaustive within the token and depth bounds; the model in mc/exprmodel.py is replayed against the run-time evaluator and both macros.")

prop("C04", "An operation compiles exactly when dimension, scale, storage and brand agree",
     "Adding, subtracting, taking remainders, comparing, assigning and annotating compile if and only if both quantities have the same dimension, scale, storage type and brand; multiplying and dividing need the same storage type and brand; rescaling and reading a value in a unit need the same dimension, storage type and brand. "
     "Bare numbers combine with a quantity only by multiplication, division and remainder and only in its own storage type. Two spellings of the same physical unit are always the same type, and different units never are.",
     ["programs"],
     "six base types against every type differing in one exponent (+1, -1, sign, swapped), storage type or brand, for every operator; scalars of all storage types; all pairs of 37 unit spellings for add, compare, annotate and rescale",
     "Whether a program is refused cannot be tested from inside a test that compiles; the existing compile-fail tests cover four programs.",
     ["src/arithmetic.rs", "src/api.rs", "src/quantity.rs", "src/scale_conversion.rs", "proc-macros/src/value_macro.rs", "src/rescale_macro.rs"],
     [("operator impls with shared exponent parameters", "src/arithmetic.rs, src/api.rs"), ("rescale functions fixing the dimension and freeing the scale", "src/scale_conversion.rs")],
     "exhaustive enumeration of typed programs; the compiler's accept/reject verdict is compared with a four-component compatibility model", "exploration",
     "Every generated program is judged by rustc; covers the enumerated type neighbourhood and operators on the stable tool chain.")

prop("C05", "Quantity arithmetic is number arithmetic plus exact exponent arithmetic",
     "For every storage type and every operator, the stored number of the result is bit-for-bit what the storage type's own operator gives on the stored numbers, with the operands in order, including overflow panics, division by zero, NaN and signed zero. "
     "The resulting unit has, in each base dimension and each scale factor, the sum (product), difference (quotient) or negation (inversion) of the operands' exponents, along any sequence of operations; storage type and brand are kept.",
     ["inputs", "histories", "programs"],
     "all pairs of i8 and u8 values for 16 operators and the comparisons, boundary values for the other 12 storage types; all sequences of * / and inversion over 10 units to depth 3 (4 thorough); every exponent slot against every other",
     "Tests use one or two values and units per operator, and only f64 and i32; a swapped operand, slot or storage type in one macro arm needs the cross product to show.",
     ["src/arithmetic.rs", "src/arithmetic_quantity_types.rs", "src/api.rs"],
     [("operator macros instantiated per storage type", "src/arithmetic.rs, src/api.rs")],
     "explicit-state breadth-first exploration of the type state space with every transition replayed on the implementation, plus exhaustive value pairs", "model_checking",
     "Every model transition is compiled and executed on the real types; values are exhaustive for 8-bit storage and boundary-complete otherwise.")

prop("C06", "Float rescaling multiplies by the exact ratio of the scales",
     "Rescaling an f32 or f64 quantity to another scale of the same dimension multiplies its number by the ratio of the two scales, correct to a few units in the last place for every pair of scales, however far apart, including powers of pi; equal scales leave the number bit-identical. "
     "NaN, infinities and signed zeros are preserved.",
     ["inputs", "configurations"],
     "1280 ratios: every 10^n for |n|<=60 alone and combined with 60s, every single-prime ratio to +-30 and around the ends of any precomputed table (+-100, +-200), the box of small exponents; 16 values each",
     "Tests exercise a few kilo/milli conversions; an error for one exponent of one prime, or past the range of a lookup table, shows only for that ratio.",
     ["src/scale_conversion.rs", "src/api.rs", "proc-macros/src/pow_lookup_macro.rs", "src/rescale_macro.rs"],
     [("log-scale difference and power lookup", "src/scale_conversion.rs, proc-macros/src/pow_lookup_macro.rs")],
     "exhaustive enumeration of scale ratios on the real rescale functions against exact rational arithmetic", "exploration",
     "Exhaustive over the listed ratios; values are a fixed alphabet (linearity makes one generic value decisive per ratio).")

prop("C07", "Integer rescaling is exact rational arithmetic or a panic",
     "Rescaling an integer quantity of any storage type gives value times the exact rational ratio of the scales (pi taken as 355/113), truncated toward zero, whenever that result fits the storage type, even if the ratio or the intermediate product does not. "
     "If it does not fit, the operation panics instead of returning a wrong number, and it always terminates.",
     ["inputs", "configurations"],
     "305 ratios with numerator and denominator below 2^127 for all 12 integer types plus the macro form: every i8/u8 value, every i16/u16 value for small ratios, and for wider types powers of two, type limits, representability limits and quotient steps",
     "Tests convert a few small i32 values; truncation of the ratio to a narrow type, negative overflow and non-termination occur only for particular ratio/value/type combinations.",
     ["src/scale_conversion.rs", "src/api.rs", "proc-macros/src/pow_lookup_macro.rs", "src/rescale_macro.rs"],
     [("rational scale factor, reduction and exact scaling", "src/scale_conversion.rs")],
     "exhaustive enumeration of (ratio, type, value) on the real rescale functions against exact integer arithmetic", "exploration",
     "Exhaustive for 8-bit and mostly for 16-bit values; boundary-complete for wider types; ratios beyond 128 bits are outside the bound.")

prop("C11", "Printed text names the value, unit, storage type and brand it belongs to",
     "Display and Debug of a quantity show its number to five significant figures (NaN and infinities as such) and, inside Quantity<...>, a unit that denotes the type: read with prefixes applying to the symbol or parenthesis they precede and exponents to the whole prefixed symbol before them, it has the type's dimensions and exactly its scale (to three significant figures where a decimal factor is shown), followed by storage type and non-default brand. "
     "Debug also lists the exact nonzero prime exponents of the scale and of the dimensions; a dimension name in it is the name of that dimension.",
     ["inputs", "configurations"],
     "all dimension vectors with up to 2 nonzero exponents in -3..3 (3 in -2..2 thorough) and every named dimension and its inverse, x about 290 scales (10^-36..10^36, each unit's scale to the powers -3..3 with prefixes, all 2/3/5/pi exponents in -1..1 or -2..2, large ones), both renderings; real Display/Debug on 16 storage types, with and without brand",
     "The naming rules (exact unit, prefix, aggregate factor, gram offset) interact: any dimension with any scale can be named wrongly; tests print a few types and mostly do not compare.",
     ["src/print/prettyprint.rs", "src/print/display_traits.rs", "src/print/name_lookup.rs", "src/print/utils.rs", "whippyunits-core/src/storage_unit.rs", "whippyunits-core/src/lib.rs"],
     [("unit name for a type", "whippyunits-core/src/storage_unit.rs"), ("assembling the text", "src/print/prettyprint.rs")],
     "exhaustive enumeration of (dimension, scale) types rendered by the implementation, each text parsed back by an independent reader and compared exactly", "exploration",
     "Scales beyond f64 range and types without a resolved dimension (editor output) are outside. std only (no_std prints <T>).")

prop("C16", "define_generic_dimension! traits hold for exactly the named dimensions",
     "A trait made by define_generic_dimension! from a list of dimension expressions is implemented by a quantity exactly when its dimension is one of those denoted, at every scale and storage type, and its Unit is that quantity's own type; the predefined atomic traits (Length, Mass, ...) likewise. "
     "Expressions follow the documented grammar: dimension names and single-character symbols, products, quotients, integer exponents of either sign, implicit exponents, parentheses and 1; unknown names and malformed expressions are compile errors.",
     ["programs", "configurations"],
     "about 900 traits: every dimension name and symbol, every exponent form, all pairs of operand forms with every operator, nested quotients, lists of up to 3 alternatives; each against the matching type and near-miss types (about 6300 refusals)",
     "Trait coherence and the expression evaluator decide which generic code accepts which quantity at compile time; tests define a handful of traits.",
     ["proc-macros/src/define_generic_dimension_macro.rs", "src/dimension_traits.rs", "whippyunits-core/src/dimensions.rs"],
     [("dimension expression grammar and evaluation", "proc-macros/src/define_generic_dimension_macro.rs"), ("atomic traits", "src/dimension_traits.rs")],
     "exhaustive enumeration of dimension expressions compiled and probed for trait membership against an independent evaluator", "exploration",
     "")

prop("C17", "Compile-time exponent arithmetic is exact over the supported range",
     "Multiplying and dividing quantities whose exponents lie anywhere in the supported range of -200 to 200 compiles and gives exactly the sum or difference in every exponent slot; inversion negates every exponent. "
     "Operands beyond the range are refused at compile time or handled exactly, never given a wrong unit.",
     ["programs"],
     "quick: every pair with |a|,|b|<=40, every pair touching +-127, +-128, +-199, +-200 or with results around +-200, +-256 and +-399, and a lattice; thorough: all 401x401 pairs for * and /; each of the twelve slots over its range",
     "The range is spelled out as two tables of several hundred literal entries; a test can only touch a few of the 321602 combinations.",
     ["whippyunits-core/src/num.rs", "src/api.rs", "src/arithmetic_quantity_types.rs"],
     [("integer/type-number correspondence tables and their add, sub, neg impls", "whippyunits-core/src/num.rs")],
     "exhaustive enumeration of exponent pairs compiled and read back from the resulting types", "exploration",
     "All pairs in the thorough tier; the quick tier covers the stated sub-lattice. Stable tool chain (default configuration).")

prop("C03", "All ways of declaring a quantity in a unit are interchangeable",
     "quantity!, unit! with new, the suffix literals (macro and custom-literal form), the declarator methods and the type aliases give, for the same unit and number, exactly the same type and the same stored number, and that number is the given one converted to the stored scale. "
     "Every storage type a form offers is honoured.",
     ["programs", "inputs"],
     "every catalogue spelling in every declaration form that exists for it, with every storage suffix (17486 expressions)",
     "Each form is generated by a separate macro with its own copy of the unit tables' arithmetic; tests exercise a few units in one or two forms each.",
     ["src/default_declarators.rs", "proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/quantity_macro.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/utils/literal_macros.rs", "proc-macros/src/utils/culit.rs"],
     [("generation of declarator traits and aliases", "proc-macros/src/generate_default_declarators_macro.rs"), ("generation of literal macros", "proc-macros/src/utils/literal_macros.rs")],
     "exhaustive enumeration of declaration forms compiled and executed, compared with each other and with the unit reference", "exploration",
     "Exhaustive over catalogue and forms; two values per storage class. Custom literals are not tried for suffixes starting with e/E, which Rust lexes as an exponent.")

prop("C08", "Putting a number in and reading it in another unit converts exactly",
     "For any two units of the same dimension, reading with value! a quantity made with quantity! gives the number times the exact ratio of the units, to rounding, including zero points of temperature scales, powers and compounds of units stored at another scale, any brand, and either float type. "
     "For integers the result is exact when both units have a scale of their own and otherwise within the truncation of the stored number.",
     ["inputs", "programs"],
     "every ordered pair of same-dimension units with every prefix; powers of every unit with implicit and explicit exponents; all pairs of compound spellings in nine families",
     "Tests read a handful of pairs; the conversion path is chosen per kind of unit and spelling, so a wrong branch shows only for particular pairs.",
     ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "whippyunits-core/src/parser.rs", "src/scale_conversion.rs"],
     [("conversion factor and offset of a unit expression", "whippyunits-core/src/parser.rs"), ("choice of conversion path", "proc-macros/src/quantity_macro.rs, value_macro.rs")],
     "exhaustive enumeration of unit pairs compiled and executed against exact rational arithmetic", "exploration",
     "Exhaustive over unit pairs; a few values per pair. Affine units inside compounds are outside the property.")

prop("C09", "Text and JSON forms of a quantity denote the same quantity",
     "Serializing a quantity (serde, serialize_to_json) writes a value and a unit expression that together denote the same physical quantity, and reading it back into the same type restores the number to rounding. "
     "from_string!, from_json! and Deserialize convert any value and unit expression of the right dimension into the target unit; a different dimension is reported as a mismatch, and malformed text as an error, never a panic and never another number.",
     ["inputs", "configurations"],
     "writer: over 2000 types (every base exponent, all pairs, the catalogue's dimensions) x 16 scales; reader: every catalogue spelling x 37 target units, compound spellings, every string of up to 5 characters over an 11-letter alphabet, every prefix, deletion and insertion of JSON documents",
     "Tests round-trip one length; scale, compound units and boundaries between number and unit need the systematic space.",
     ["src/serialization.rs", "src/print/name_lookup.rs", "whippyunits-core/src/parser.rs"],
     [("writer: coherent value and unit string", "src/serialization.rs"), ("reader: value/unit split, unit parsing, conversion", "src/serialization.rs")],
     "bounded exhaustive enumeration of types, values and input texts on the real reader and writer against an independent model", "exploration",
     "Exhaustive within the stated type, string and mutation bounds.")

prop("C10", "fmt(unit) shows the value in that unit or an error",
     "Displaying quantity.fmt(u) shows the quantity's value converted to u, correctly rounded to the requested precision, followed by u as written. If u has another dimension it shows a dimension mismatch naming u, and if u is not a unit expression a parse error; it never panics and never shows a wrong number.",
     ["inputs", "configurations"],
     "133 source quantities (37 units, storage types, brand, special values) x every catalogue spelling, compound spellings and every token sequence of up to 4 tokens (5 thorough) over a 14-token alphabet, three precisions",
     "Tests format two lengths and a mass; the conversion runs at display time for arbitrary strings.",
     ["src/quantity.rs", "src/serialization.rs", "whippyunits-core/src/parser.rs"],
     [("run-time conversion and display", "src/quantity.rs")],
     "bounded exhaustive enumeration of (quantity, unit text) on the real formatter against exact rational arithmetic", "exploration",
     "Exhaustive within the stated bounds; width and alignment flags are not claimed.")

prop("C14", "Erasing a ratio or an angle yields the number it denotes, and nothing else",
     "Converting a dimensionless or purely angular quantity into a number gives the value it denotes, in coherent units (radians): scale applied, exact for its own integer type (or a panic if it does not fit), to double precision and saturating for another number type. "
     "Dropping the angle of a compound quantity keeps its number, scale and other exponents. Quantities of any other dimension, other brands and bare numbers do not convert.",
     ["inputs", "programs"],
     "14x14 storage types for ratios at up to 80 scales (radian powers -9..9 for the supported types), 30 boundary values per type; compound erasures over 17 dimension vectors; about 100 refusals",
     "The conversions are generated for each exponent and type; a wrong branch, scale or width shows only for particular (power, scale, type, value) combinations, and refusals cannot be written as unit tests.",
     ["src/quantity.rs", "proc-macros/src/generate_all_radian_erasures_macro.rs", "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs"],
     [("From impls for ratios and angles", "src/quantity.rs"), ("generated radian erasures", "proc-macros/src/generate_all_radian_erasures_macro.rs")],
     "exhaustive enumeration of (type, target, scale, value) on the real conversions, and of compiler verdicts for the refusals", "exploration",
     "Exhaustive over the stated grid; integer erasure with pi exponents beyond +-8 is outside the bound.")

prop("C15", "A local namespace stores every quantity in its own base units",
     "In a namespace made by define_unit_declarators! with eight base units and an optional brand, quantity!, literals and declarator methods give a quantity whose scale is the product of the chosen base units, whose brand is the namespace's and whose number is the declared amount in those units: to rounding for floats, exactly truncated for integers, or a panic if it does not fit. "
     "A brand-only namespace keeps default units and adds the brand. Names that are not storage units of a base dimension are refused.",
     ["programs", "configurations"],
     "31 namespaces (Latin square: each base dimension with each of the 25 prefixes; minute/hour/day and degree/turn/gradian; branded; brand-only) x every unprefixed spelling, 25 compounds, prefixed spellings, all declarator methods, literals",
     "The space of base-unit choices times units is huge; tests use two namespaces with kilo/milli bases and a few units.",
     ["proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/utils/lift_trace.rs", "proc-macros/src/utils/literal_macros.rs", "src/api.rs"],
     [("namespace generation and rescaling quantity!", "proc-macros/src/define_unit_declarators_macro.rs"), ("type of a unit in local base units", "proc-macros/src/local_unit_type_macro.rs")],
     "exhaustive enumeration of (namespace, declaration) pairs compiled and executed against exact rational arithmetic", "exploration",
     "Exhaustive over base-dimension x prefix pairs and unprefixed units; combinations of bases are covered by the Latin square, not exhaustively.")

prop("C12", "Hovers and inlay hints name exactly the type that is there",
     "In hover responses (the code block of the declaration) and inlay hints, every complete Quantity type, in whichever form rust-analyzer prints it and inside whatever other type, is replaced by Quantity<unit, storage[, brand]> whose unit denotes exactly that dimension and scale. "
     "A type of which a part is unknown, elided or generic is never shown as a known unit. All other text, links, fields and messages stay as they are, an edit is only replaced by a unit! macro that declares that type, and no text makes the proxy panic.",
     ["inputs", "configurations"],
     "the dimension vectors and scales of C11 in rust-analyzer's printed form; 7x4 types x 8 storage/brand forms x 3 printed forms x 15 hover and 12 hint contexts x 5 configurations; about 2600 partly unknown types; every sequence of up to 5 (6) of 10 text tokens as hover and as label; 100 other messages; edits compiled",
     "Tests check a few responses, mostly without looking at the unit; printed types vary in elision, nesting, splitting into label parts and unknowns, and an error misleads the reader of the code.",
     ["lsp-proxy/src/lib.rs", "lsp-proxy/src/unit_formatter.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/inlay_hint_processor.rs", "lsp-proxy/src/quantity_detection.rs", "src/print/prettyprint.rs"],
     [("replacing types in text", "lsp-proxy/src/unit_formatter.rs"), ("label parts and edits of inlay hints", "lsp-proxy/src/inlay_hint_processor.rs")],
     "exhaustive enumeration of (type, printed form, context, configuration) messages through the real proxy, each answer read back by an independent reader; edits judged by the compiler", "exploration",
     "Contexts and printed forms were recorded from rust-analyzer 1.99.1. impl<..> signatures, function types as storage and quantities of quantities are outside.")

prop("C13", "The proxy forwards every message once, whole and in order, to the end",
     "Between editor and rust-analyzer, in each direction, every complete message sent is forwarded exactly once, in order, promptly and correctly framed, however the byte streams are cut, interleaved or held up; bodies arrive byte for byte, except that hover and hint responses have their types named. "
     "Closing the editor's input ends rust-analyzer's; when rust-analyzer closes its output, the proxy ends after forwarding everything. Arguments and display settings are honoured.",
     ["schedules", "histories", "faults"],
     "all single and most double cuts (all in the thorough tier) of 4 short and 3 long streams in each direction, byte by byte, around buffer sizes and up to 900 kB; all interleavings of 4+4 (5+5) pieces, stepwise and in bursts on a stopped process; all orders of up to 8 events (pieces, closings of each stream, stderr output, partial last message, editor gone); back-pressure on one side; 60 settings",
     "Framing and shutdown depend on how reads fall and on the order of events in three streams; no test starts the proxy process.",
     ["lsp-proxy/src/main.rs", "lsp-proxy/src/lib.rs"],
     [("session loop, framing and shutdown", "lsp-proxy/src/main.rs")],
     "stateless exploration of the real proxy process: a harness that is both editor and rust-analyzer executes every schedule of writes, reads and closings within the bounds, waiting for the pipe to be drained after each", "model_checking",
     "The scheduling inside the proxy's runtime is not controlled; the order in which it sees the events is. Bodies that are not UTF-8 are outside.")

prop("C18", "Compiler output passes through whippyunits-pretty with only its types named",
     "whippyunits-pretty passes on every line of its input, in order and as soon as it is complete; in it, each complete Quantity type becomes Quantity<unit, storage[, brand]> with the unit that denotes exactly that dimension and scale, types with elided or generic parts are never shown as known units, and nothing else changes. "
     "Files and streams give the same lines; raw lines are added only on request.",
     ["inputs", "schedules", "configurations"],
     "the dimension vectors and scales of C11 (about 100000 types) in both renderings; storage, brand and printed forms in 11 line contexts; about 2000 partly unknown types; every sequence of up to 5 (6) of 11 text tokens; the real compiler's messages for 306 (1836) ill-typed programs; every cut of a stream that includes bytes that are not UTF-8",
     "A compiler message with a wrong unit sends its reader the wrong way; tests look at one type in full form, while rustc elides whatever agrees.",
     ["whippyunits-pretty/src/main.rs", "whippyunits-pretty/src/rustc_pretty.rs", "lsp-proxy/src/unit_formatter.rs", "src/print/prettyprint.rs"],
     [("line filter", "whippyunits-pretty/src/rustc_pretty.rs"), ("stream and file loop", "whippyunits-pretty/src/main.rs")],
     "exhaustive enumeration of lines and stream cuts through the real tool, and replay of the real compiler's messages, each line read back by an independent reader", "exploration",
     "no_unicode is accepted but changes nothing (documented option, not claimed).")

prop("C19", "The library is the same in every build configuration",
     "The library builds with every combination of its features std, alloc and serde on stable Rust and of these with cge on nightly, and in each the parts that configuration offers declare, convert, combine, accept, refuse, print, read and write exactly as the other properties say. "
     "With cge, exponent arithmetic is exact over all of i16 and refused beyond it. Without std the library needs no standard library.",
     ["configurations", "programs", "inputs"],
     "all 10 distinct feature sets in the thorough tier (6 in the quick tier, which with the default one of the other checks cover every conditional item); in each the checks of the properties whose code it changes; with cge every pair of 27 exponents up to the limits of i16 in every slot",
     "The tests run in two configurations, and with cge only a few operations; conditional code in the others is not even compiled by them.",
     ["src/api.rs", "src/arithmetic_quantity_types.rs", "src/alloc.rs", "src/serialization.rs", "src/print/display_traits.rs", "whippyunits-core/src/num.rs"],
     [("generic_const_exprs variants of the operator types", "src/api.rs, src/arithmetic_quantity_types.rs"), ("feature-dependent items", "src/lib.rs, src/alloc.rs, src/print/display_traits.rs, src/serialization.rs")],
     "exhaustive enumeration of feature sets; in each the exhaustive checks of the other properties run against the library built that way", "exploration",
     "Each configuration is used from a std program on the host; that a program without the standard library links is a known finding (it does not).")

prop("C20", "A macro call means the same wherever it is written",
     "A call of quantity!, unit!, value!, rescale!, from_string!, from_json!, local_unit!, a literal or a namespace's macro compiles and gives the same quantity whatever names (types, functions, constants, variables, modules, macros, traits) the surrounding code has, in whatever expression, type or item position, module or edition it stands, and whether its arguments are written out or handed on by a user's macro. "
     "Names in its arguments mean what they mean at the call; each argument is evaluated exactly once, where it stands, and may return, break or await. The declaring macros work in any module; types written with unit! are ordinary types, in implementations, constants and signatures alike; using whippyunits needs no other crate.",
     ["programs", "configurations"],
     "45 forms of call x about 100 names (all of a form's own expansion) x 9 roles in the arguments and 10 of bystanders; 30 ways to hand an argument on; 34 places of a call, 29 of a unit's type; 9 uses of each argument with effects; 8 places of each declaring macro; editions 2018, 2021, 2024 and denied lints",
     "A macro's expansion meets the names of every program that uses it; the tests call the macros at a few places, with literals, next to nothing else. A captured name can silently change a number (it did).",
     ["proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/define_generic_dimension_macro.rs", "src/rescale_macro.rs", "src/serialization.rs"],
     [("expansion of quantity! and value!", "proc-macros/src/quantity_macro.rs, proc-macros/src/value_macro.rs"), ("rescale! and the parsing macros", "src/rescale_macro.rs, src/serialization.rs"), ("namespaces and their literals", "proc-macros/src/define_unit_declarators_macro.rs, proc-macros/src/utils/literal_macros.rs")],
     "exhaustive enumeration of call sites: every (form, name, role), (form, place), (argument, fragment) and (argument, effect) program is compiled against the real macros and run, the stored bits and the type compared with the same call standing alone", "exploration",
     "Storage types are named by their own names where a macro picks its rule by that name; a dependency renamed in Cargo.toml is outside; a namespace's name must be in scope where its macros are used.")

prop("C21", "Editor documentation is true",
     "In quantity!, unit! and value!, the documentation attached to every unit name gives that unit's full name and symbol (with a prefix: the prefix, its power of ten and the base unit) and points to the type that quantities of this unit have; the one of a non-metric declarator method states the storage unit and the conversion factor it really applies, the one of a literal's macro the quantity! call it stands for. "
     "Each base unit of define_unit_declarators! and each dimension of define_generic_dimension! is documented as itself and points to the type or trait of that base unit or dimension.",
     ["inputs", "programs"],
     "all 1416 unit spellings in 7 forms of expression (alone, powers, products, quotients) and pairs of them; every literal macro and declarator of the library; every base unit in every position; every dimension name and symbol",
     "The tests look at the documentation of a handful of units; the tables behind it cover every unit and prefix, and what an editor shows is invisible to a program that merely compiles and runs.",
     ["proc-macros/src/utils/shared_utils.rs", "proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/define_generic_dimension_macro.rs", "proc-macros/src/utils/literal_macros.rs"],
     [("documentation structs of the unit names", "proc-macros/src/utils/shared_utils.rs"), ("documentation of declarators and literals", "proc-macros/src/generate_default_declarators_macro.rs, proc-macros/src/utils/literal_macros.rs"), ("base units and dimensions", "proc-macros/src/define_unit_declarators_macro.rs, proc-macros/src/define_generic_dimension_macro.rs")],
     "exhaustive enumeration of unit spellings and expressions expanded by the real compiler; every documentation text and the type it points to is compared with an independent reference and with the types and values that the same spelling makes", "exploration",
     "The lift traces shown inside namespaces and the suggestions in error messages are not covered.")

prop("C22", "The catalogue answers truly and consistently",
     "The public API of whippyunits-core is right about the catalogue. Every unit, dimension, prefix and constant has the magnitude, exponents, zero point, symbols and name that define it, each is listed once, and looking one up by name, symbol, literal, prefix or exponents finds exactly it (for every string and every exponent vector: never another one, never one that is not there); a literal is found with its own meaning first, then with a prefix, which only the first unit of a dimension takes, then as a plural. "
     "Dimension and scale exponents add, subtract, negate, multiply and convert exactly, at run time and as types (type-level sums of -200 to 200), the named types, the run-time constants and the basis agree, parameters left out are zero, is_zero and as_basis answer for exactly the zero vector and the eight basis vectors, log10 for exactly the powers of ten. "
     "Superscripts, plurals and capitalised names are spelled right, and all identifiers of a unit expression are collected.",
     ["inputs", "programs"],
     "540 records of the catalogue; 279,000 strings [thorough: 2.6 million] (every name, symbol and prefix combined, capitalised, pluralised, doubled, and every string of up to 3 [4] characters) through 13 look-ups each; 8388 exponent vectors (all of -1..1 in 8 axes; named dimensions with neighbours, swaps and multiples) through every operation; 16,273 [all 160,801 pairs twice] type-level sums and differences; every i16 as superscript; 25,476 expression shapes",
     "The tests look up ten literals and add three vectors; a look-up that answers for the wrong strings, or a sum that goes wrong in one axis or one exponent, shows for particular names and exponents only.",
     ["whippyunits-core/src/dimensions.rs", "whippyunits-core/src/units.rs", "whippyunits-core/src/prefix.rs", "whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs", "whippyunits-core/src/num.rs", "whippyunits-core/src/lib.rs"],
     [("look-ups", "whippyunits-core/src/dimensions.rs, whippyunits-core/src/units.rs, whippyunits-core/src/prefix.rs, whippyunits-core/src/parser.rs"), ("exponents", "whippyunits-core/src/dimension_exponents.rs, whippyunits-core/src/scale_exponents.rs, whippyunits-core/src/num.rs"), ("text helpers", "whippyunits-core/src/lib.rs")],
     "exhaustive enumeration of strings, exponent vectors, scale vectors and type-level pairs on the real crate; every answer compared with an independent catalogue and integer algebra", "exploration",
     "Capitalised unit names without a prefix, plurals of symbols, prefixes of nothing and which of several decompositions strip_any_prefix_* picks are not judged; lumen's dimension is recorded under C01.")
