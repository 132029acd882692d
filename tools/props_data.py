# ruff: noqa
FEW = "The tests use a handful of fixture files and messages; the guarantee is over every "

prop(
    "P01", ".properties files: parsing follows the syntax and serializing inverts it",
    "Parsing a .properties source gives the comments, sections of comments, identifiers and unescaped values that the .properties syntax assigns to it. Serializing a supported resource gives a source that parses back to an equal resource (minus comments when they are trimmed), whatever characters its identifiers, values and comments hold, and serializing again is a fixpoint. Content that the syntax cannot carry is rejected rather than changed.",
    ["inputs"], "all resources of PatternMessages without placeholders (or with printf placeholders), and all sources made of key/value, comment, continuation and empty lines",
    FEW + "combination of characters, escapes, separators, continuations and comment positions.",
    ["formats/properties/parse.py", "formats/properties/serialize.py"],
    [("parser", "properties/parse.py PropertiesParser"), ("escaping", "properties/serialize.py")],
    ("round-trip and reference model of the syntax", "resources of up to ~10 entries, sources of up to ~15 lines; the oracle is an independent model of the .properties syntax and the round-trip."),
)
prop(
    "P02", "DTD files: parsing follows the syntax and serializing inverts it",
    "Parsing a DTD source gives the comments, entity names and values, and external entity references that it declares, with comments attached to the entity that directly follows and the first comment taken as the resource comment. Serializing a supported resource gives a source that parses back to an equal resource (minus comments when trimmed), and serializing again is a fixpoint. Identifiers, values, comments and metadata that DTD cannot carry, and sources with junk, are rejected.",
    ["inputs"], "all resources of DTD entities and references with arbitrary XML-text values, and all sources of entity declarations, references, comments and white space",
    FEW + "combination of quotes, entities, parameter references, comments and white space.",
    ["formats/dtd/parse.py", "formats/dtd/serialize.py"],
    [("tokenizing regular expressions", "dtd/parse.py"), ("escaping", "dtd/serialize.py")],
    ("round-trip and reference model of the syntax", "resources of up to ~8 entries; values range over XML characters without unescaped markup limits listed in the evidence."),
)
prop(
    "P03", ".inc files: parsing follows the syntax and serializing inverts it",
    "Parsing an .inc source gives the #define names and values, the comments and the #filter lines that it declares, in order. Serializing a supported resource gives a source that parses back to an equal resource (minus comments when trimmed), and serializing again is a fixpoint. Identifiers, values and metadata that the syntax cannot carry, and sources with other content, are rejected.",
    ["inputs"], "all resources of single-line values, and all sources of #define, #, #filter and empty lines",
    FEW + "arrangement of lines and characters.",
    ["formats/inc/parse.py", "formats/inc/serialize.py"],
    [("line parser", "inc/parse.py inc_parse"), ("serializer", "inc/serialize.py")],
    ("round-trip and reference model of the syntax", "resources of up to ~6 entries, sources of up to ~10 lines."),
)
prop(
    "P04", ".ini files: parsing follows the syntax and serializing inverts it",
    "Parsing an .ini source gives its sections, options, multi-line values and comments in order, with a comment attached to the section or option that directly follows. Serializing a supported resource gives a source that parses back to an equal resource (minus comments when trimmed), and serializing again is a fixpoint. Identifiers and messages that the syntax cannot carry, and sources with content outside of it, are rejected.",
    ["inputs"], "all resources of sections and single- or multi-line values, and all sources of section, option, continuation, comment and empty lines",
    FEW + "arrangement of lines and characters.",
    ["formats/ini/parse.py", "formats/ini/serialize.py"],
    [("iniparse line parsing and comment attachment", "ini/parse.py"), ("serializer", "ini/serialize.py")],
    ("round-trip and reference model of the syntax", "resources of up to 3 sections of 4 entries, sources of up to ~14 lines."),
)
prop(
    "P05", "Plain JSON: nesting maps to identifiers and back without loss",
    "Parsing a plain JSON source gives one entry per string leaf, with the path of keys as its identifier, in document order. Serializing a supported resource gives JSON that parses back to an equal resource with equal nesting. Conflicting or duplicate identifiers, comments (unless trimmed), metadata and non-string content are rejected rather than lost.",
    ["inputs"], "all JSON objects of nested string values, and all resources with arbitrary identifier tuples and section nesting",
    FEW + "nesting and key set.",
    ["formats/plain_json/parse.py", "formats/plain_json/serialize.py", "util/loads.py"],
    [("recursive parser", "plain_json/parse.py"), ("nesting builder", "plain_json/serialize.py")],
    ("round-trip against the json module", "objects of up to 4 levels."),
)
prop(
    "P06", "WebExtensions messages.json: placeholders and text survive parse and serialize",
    "Parsing a messages.json source gives one message per key, with its description as the comment and its $placeholders$, indexed arguments and $$ escapes represented so that the browser's view of the message is kept. Serializing a supported resource gives a source that parses back to an equal resource (minus comments when trimmed), and messages that the format cannot carry are rejected. Parsing does not modify its input.",
    ["inputs"], "all messages of text, named placeholders with content/example and positional arguments",
    FEW + "combination of $ signs, placeholder names and adjacent text.",
    ["formats/webext/parse.py", "formats/webext/serialize.py"],
    [("placeholder regex", "webext/parse.py webext_parse_message"), ("escaping", "webext/serialize.py")],
    ("round-trip and reference model of $-substitution", "messages of up to ~6 parts."),
)
prop(
    "P07", "Gettext: .po content, plurals and metadata survive parse and serialize",
    "Parsing a .po source gives the header as resource comment and metadata, and for each entry its msgid/msgctxt identifier, its unescaped message or its plural variants, and its comments, references, flags and obsolete state. Serializing a supported resource gives a .po source that parses back to an equal resource; with comments trimmed, only the comments, flags, references and obsolete entries are left out. Content that .po cannot carry is rejected rather than lost.",
    ["inputs", "configurations"], "all resources of gettext entries with any text, any plural-form count 1-6 and any option of the parser and serializer",
    FEW + "text, escape, plural count and metadata combination.",
    ["formats/gettext/parse.py", "formats/gettext/serialize.py"],
    [("mapping to and from polib", "gettext/parse.py, gettext/serialize.py")],
    ("round-trip and independent .po writer", "resources of up to ~5 entries; text without the line separators that polib does not support."),
)
prop(
    "P08", "Fluent: parse and serialize keep every message, term, attribute and variant",
    "Serializing a resource parsed from any valid Fluent source gives a source that is equivalent to the first: the same comments, identifiers, attributes, selectors, variants, placeables and text, and parsing it again gives an equal resource. Every supported message model serializes to Fluent that parses back to an equal message, whatever text it holds, and unsupported content is rejected. With escape_syntax disabled, the text of values and attributes is Fluent syntax.",
    ["inputs"], "all Fluent syntax trees, and all supported message models",
    FEW + "nesting of selectors, text with special characters at line starts, literals and call arguments.",
    ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
    [("variant flattening", "fluent/parse.py fluent_parse_message"), ("pattern building", "fluent/serialize.py fluent_serialize_message")],
    ("differential against the fluent.syntax reference AST and an evaluator; round-trip", "messages with up to 6 selectors and nested variants."),
)
prop(
    "P09", "Android strings.xml: content, plurals and markup survive parse and serialize",
    "Parsing a strings.xml source gives its strings, plurals, string arrays, entities and comments, with the escapes, quotes and white space of string values resolved as Android does. Serializing a supported resource gives XML that parses back to an equal resource (minus comments when trimmed), whatever text, placeholders and markup its messages hold. Content that the format cannot carry is rejected.",
    ["inputs", "configurations"], "all supported resources, all string sources built of text, escapes, quotes, CDATA, placeholders and markup, and all parser options",
    FEW + "combination of white space, quotes, escapes, printf placeholders and inline elements.",
    ["formats/android/parse.py", "formats/android/serialize.py"],
    [("escape processing", "android/parse.py"), ("escape generation", "android/serialize.py")],
    ("round-trip and reference model of Android string resolution", "resources of up to ~6 entries."),
)
prop(
    "P10", "XLIFF 1.2: structure, attributes and inline markup survive parse and serialize",
    "Parsing an XLIFF 1.2 document and serializing the result gives an equivalent document: the same files, groups, units, attributes, notes, sources, targets and inline elements. Every supported resource serializes to XLIFF that parses back to an equal resource, and with comments trimmed only comments and notes are left out. Documents that are not XLIFF 1.2 and unsupported content are rejected.",
    ["inputs"], "all XLIFF 1.2 documents of files, headers, groups, units and inline elements, and all supported resources",
    FEW + "nesting of groups, attributes, namespaces and inline markup.",
    ["formats/xliff/parse.py", "formats/xliff/serialize.py", "formats/xliff/parse_trans_unit.py", "formats/xliff/common.py", "formats/xliff/utils.py"],
    [("tree walking", "xliff/parse.py"), ("tree building", "xliff/serialize.py")],
    ("differential of normalized XML trees; round-trip", "documents of up to 2 files, 3 levels of groups."),
)
prop(
    "P11", "XLIFF from Xcode: plurals and printf variables map to messages and back",
    "Trans-units exported by Xcode for stringsdict and .xcstrings plurals and device variations are read as single messages with the same variants, and printf-style placeholders are recognised; the variants of multiple substitutions are all the combinations of theirs, each in its place. The notes of the units make up the comment of the message. Serializing such a parsed document gives trans-units with the same identifiers, sources, targets and attributes as the original.",
    ["inputs"], "all Xcode-style documents with plural, device and substitution units",
    FEW + "combination of plural categories, substitutions and missing targets.",
    ["formats/xliff/parse_xcode.py", "formats/xliff/serialize.py"],
    [("unit grouping", "xliff/parse_xcode.py")],
    ("differential of trans-unit sets; round-trip", "documents of up to ~5 plural messages."),
)
prop(
    "P12", "MessageFormat 2 syntax: parse and serialize are inverses and syntax is enforced",
    "Parsing the serialization of any well-formed message gives an equal message, and the serialization of any parsed message has the same meaning as the source. A source that the MessageFormat 2 grammar derives is accepted and read with the derivation's meaning, and a source outside the grammar is rejected with a parse error only.",
    ["inputs"], "all message models, and all sources derived from the MF2 ABNF grammar and mutations of them",
    FEW + "production of the grammar with white space, bidi controls, escapes and option/attribute forms.",
    ["formats/mf2/message_parser.py", "formats/mf2/serialize.py"],
    [("recursive-descent parser", "mf2/message_parser.py"), ("serializer", "mf2/serialize.py")],
    ("grammar-derived sources with known meaning; independent recognizer; round-trip", "messages of up to 3 selectors and ~6 parts."),
)
prop(
    "P13", "MessageFormat 2 validation and data-model JSON agree with the specification",
    "Validation accepts exactly the messages without variant key mismatch, missing fallback variant, missing selector annotation, duplicate declaration or duplicate variant. Representing a message as MF2 data-model JSON gives a value valid by the MF2 schema which reads back as an equal message, and JSON that is not of the data model is rejected.",
    ["inputs"], "all messages, valid or violating one of the data model rules, and all JSON values near the schema",
    FEW + "order and dependency of declarations and combination of variant keys.",
    ["formats/mf2/validate.py", "formats/mf2/to_json.py", "formats/mf2/from_json.py"],
    [("validation", "mf2/validate.py"), ("marshalling", "mf2/to_json.py, mf2/from_json.py")],
    ("reference validator; round-trip; JSON Schema", "messages of up to 4 declarations and 6 variants."),
)
prop(
    "P14", "Message and entry JSON: valid by its schema, and lossless both ways",
    "The JSON representation of every message and entry is plain JSON that is valid by the published message and entry schemas, and reading it gives back an equal message or entry, with the identifier, comment, metadata and properties of the entry. JSON of another shape is rejected.",
    ["inputs"], "all messages and entries",
    FEW + "identifier with dots or backslashes, option, attribute, markup and variant.",
    ["message/to_json.py", "message/from_json.py", "schemas/message.json", "schemas/entry.json"],
    [("marshalling", "message/to_json.py, message/from_json.py")],
    ("round-trip and JSON Schema", "messages of up to 3 selectors."),
)
prop(
    "P15", "Single messages and printf placeholders parse and serialize per format",
    "For each format, parsing a single message gives the same message as parsing a resource holding it, and serializing it gives a source that parses back to an equal message. Printf-style placeholders are recognised exactly where the format's syntax has them, keep their source form, and the text around them is unchanged.",
    ["inputs", "configurations"], "all formats, all message sources built from text, escapes and printf placeholders, and all base types",
    FEW + "placeholder form (flags, widths, positions, conversions) and its surroundings.",
    ["message/parse.py", "message/serialize.py", "util/printf.py"],
    [("dispatch", "message/parse.py, message/serialize.py"), ("placeholder regex", "util/printf.py")],
    ("differential between entry points; reference tokenizer", "messages of up to ~8 parts."),
)
prop(
    "P16", "Model utilities: normalization keeps meaning; metadata and emptiness are exact",
    "Normalizing a message or resource joins adjacent text and drops empty parts without changing what the message formats to, and is idempotent. Emptiness, metadata access and selector lookup give exactly what the stored values say, for every message and entry.",
    ["inputs", "histories"], "all messages, resources, and sequences of metadata operations",
    FEW + "message shape and history of metadata edits.",
    ["model.py", "util/normalize.py"],
    [("normalization", "util/normalize.py"), ("data classes", "model.py")],
    ("reference model", "messages of up to 3 selectors, histories of up to 8 operations."),
)
prop(
    "P17", "Format detection and dispatch read and write every format consistently",
    "A file is detected by its extension and content as the format it is written in, and parsing it through the common entry point gives the same resource as the format's own parser, from a path, text or bytes. Serializing through the common entry point gives the same source as the format's own serializer, for the resource's own or any requested format.",
    ["inputs", "configurations"], "all formats, file names, input kinds and resources",
    FEW + "pair of name and content.",
    ["formats/__init__.py", "resource/parse_resource.py", "resource/serialize_resource.py"],
    [("detection", "formats/__init__.py detect_format"), ("dispatch", "resource/parse_resource.py, serialize_resource.py")],
    ("differential between entry points; reference table", "small resources of each format."),
)
prop(
    "P18", "Adding entries merges resources without losing or reordering what exists",
    "Adding the entries of one resource to another adds exactly those that are missing, keeps every existing entry and comment in its order, and reports how many were changed. An added entry follows the entry that precedes it in the source, in the section of the same identifier; with an override, values that differ are replaced in place. The source is not modified.",
    ["inputs"], "all pairs of resources with overlapping sections, entries and comments",
    FEW + "overlap and order of two resources.",
    ["resource/add_entries.py"],
    [("merge", "resource/add_entries.py add_entries")],
    ("reference model and invariants", "resources of up to 3 sections of 5 entries."),
)
prop(
    "P19", "Resource equality ignores order and formatting, and nothing else",
    "Comparing two resources for localization equality holds for every reordering of sections, entries and metadata and for every empty section or comment difference that carries no content, and fails whenever an identifier, value, property, comment or metadata value differs. The comparison is symmetric and does not modify its arguments.",
    ["inputs"], "all pairs of resources, equal up to order or differing at one place",
    FEW + "single difference at any depth.",
    ["resource/l10n_equal.py"],
    [("comparison", "resource/l10n_equal.py l10n_equal")],
    ("metamorphic relation and reference comparison", "resources of up to 3 sections of 4 entries."),
)
prop(
    "P20", "Walking files gives exactly the files below the roots that are not ignored",
    "Walking a directory tree gives each file below it exactly once, leaving out exactly those that match the ignore patterns or sit below an ignored directory, with gitignore meaning for wildcards, leading and trailing slashes and later negations. Nothing outside of the tree is given, and the tree is not changed.",
    ["inputs", "configurations"], "all directory trees and ignore pattern lists",
    FEW + "tree shape and pattern interplay.",
    ["util/walk_files.py"],
    [("walk", "util/walk_files.py walk_files")],
    ("reference matcher over generated trees", "trees of up to ~20 files."),
)
prop(
    "P21", "TOML-configured paths: reference and target paths map to each other exactly",
    "For every L10n configuration, the reference files and target paths given for a locale are exactly those that its path rules, locale lists, filters and includes define, and looking up a target path gives back the reference path and locales it came from. Paths and locales that the configuration leaves out are not given.",
    ["inputs", "configurations"], "all configurations of bases, paths with wildcards and locale variables, locale lists, excludes and includes, over all directory trees",
    FEW + "configuration and tree.",
    ["paths/config.py"],
    [("configuration interpretation", "paths/config.py L10nConfigPaths")],
    ("reference model over generated trees", "up to 4 path rules and 2 included files."),
)
prop(
    "P22", "Discovered paths: every reference file maps to one target path and back",
    "For every directory tree of localization files, the discovered base and reference roots, locales and files are those the layout has, each reference file maps to one target path per locale, and looking that path up again gives the same reference file. Template files map to translation files, and ignored and hidden files are left out.",
    ["inputs", "configurations"], "all directory layouts with locale directories, reference directories and file names",
    FEW + "layout.",
    ["paths/discover.py"],
    [("discovery", "paths/discover.py L10nDiscoverPaths")],
    ("reference model over generated trees", "trees of up to ~20 files and 5 locales."),
)
prop(
    "P23", "Android locale codes: conversion to and from resource qualifiers is exact",
    "Every locale code maps to the Android resource qualifier that the platform documents, with legacy language codes and script subtags handled, and the qualifier maps back to the same locale. Strings that are not qualifiers give no locale.",
    ["inputs"], "all language, script and region combinations",
    FEW + "combination of subtags.",
    ["paths/android_locale.py"],
    [("conversion", "paths/android_locale.py")],
    ("reference table and round-trip", "all generated subtag combinations."),
)
prop(
    "P24", "Migrations add the produced entries in place and leave the rest untouched",
    "Applying a migration adds exactly the entries that its functions produce for each locale and that are not yet there, in the file and section they name, after the entries they are to follow or else at the end of the section, and leaves all other entries, comments and files as they were. Applying it again changes nothing, a dry run writes nothing, a function that fails or gives nothing leaves its entry out, and a file that can not be parsed or serialized is left as it was.",
    ["inputs", "histories", "configurations"], "all reference and target resources and migration maps",
    FEW + "arrangement of existing entries and repeated application.",
    ["migrate/__init__.py", "bin/migrate.py"],
    [("application", "migrate/__init__.py Migrate.apply")],
    ("reference model and invariants over file trees; repeated application", "up to 3 locales, 2 files, 4 entries per file."),
    ["files written, return values, raised exceptions"],
)
prop(
    "P25", "Migration helpers copy, rebuild and pluralize entries without altering sources",
    "Copying, getting and rebuilding entries and patterns gives exactly the value, comment, metadata and properties of the source entry with the requested changes, does not modify the source, and gives nothing when the source or a required part is missing. The plural helper gives one variant per given plural category, with a catch-all, and replacements apply to every variant of every pattern.",
    ["inputs"], "all source resources, identifiers and helper arguments",
    FEW + "message shape and combination of arguments.",
    ["migrate/utils.py"],
    [("helpers", "migrate/utils.py")],
    ("reference model", "resources of up to 5 entries."),
)
prop(
    "P26", "Builds contain exactly the localized messages of the source, per locale",
    "Building a target file gives, in the order of the source, the messages of the localization that the source has, with the metadata of the source, and with all comments and other messages left out, in valid syntax of the same format; messages missing from a localization are left out of Fluent files and taken from the source in other formats, also where a whole file is missing; files of other kinds are copied. The source and localization trees are not changed, and coverage counts match the files.",
    ["inputs", "configurations"], "all pairs of source and localization files of each format, and all locale sets",
    FEW + "overlap of source and localization and arrangement of files.",
    ["bin/build.py", "bin/build_file.py"],
    [("build", "bin/build.py write_target_file"), ("single file", "bin/build_file.py")],
    ("reference model over generated trees", "up to 3 locales, 4 files."),
    ["files written, exit status"],
)
prop(
    "P27", "Comparison reports exactly the missing messages of each localization",
    "Comparing localizations to their source reports for every localization exactly the messages of the source that are missing from it, whether the file lacks them or is missing itself, the files that could not be read, and the totals that follow, in text or JSON output. No file is changed.",
    ["inputs", "configurations"], "all source and localization trees",
    FEW + "overlap of the two trees.",
    ["bin/compare.py"],
    [("comparison", "bin/compare.py compare")],
    ("reference model over generated trees", "up to 3 locales, 4 files."),
    ["return values, printed report"],
)
prop(
    "P28", "Fixing files normalizes formatting only, and linting reports exactly bad files",
    "Fixing a localization file keeps its content (every message, comment and metadata value) and makes its formatting stable, so that fixing again changes nothing; files that cannot be parsed or serialized are reported and left untouched, as are files of unknown formats and encodings. Linting reports an error for exactly the files that cannot be parsed, and changes nothing. The exit status is an error exactly if a file failed.",
    ["inputs", "configurations", "histories"], "all directory trees of valid and broken localization files",
    FEW + "file content and tree.",
    ["bin/fix.py", "bin/lint.py", "bin/utils.py"],
    [("fix", "bin/fix.py fix_file"), ("lint", "bin/lint.py")],
    ("differential over file trees; idempotence", "trees of up to 6 files."),
    ["files written, exit status"],
)
prop(
    "P29", "Any input is either read or cleanly rejected, and what is read can be kept",
    "For every format, any source text is either parsed or rejected with an ordinary exception, in time that its size bounds, and never with a crash or hang. A resource that was parsed from any source serializes, and parsing that gives the same messages again, or the serializer rejects it. Its entries, messages and patterns are each its own, so that changing one does not change another.",
    ["inputs"], "all sources, in particular those one or more edits away from valid files",
    FEW + "malformed input.",
    ["formats", "resource/parse_resource.py", "resource/serialize_resource.py"],
    [("parsers and serializers", "formats/*/parse.py, formats/*/serialize.py")],
    ("mutation-based fuzzing from a corpus, round-trip oracle", "mutations of generated and bundled files up to 4 kB."),
)
prop(
    "P30", "JavaScript: normalizing, comparing and testing messages keeps their meaning",
    "In the JavaScript package, normalizeMessage() joins adjacent text and drops empty text and the declarations that are not used, directly or by others, and nothing else, as in Python, without failing for any variable names. messagesEqual() tells whether two messages are the same, whatever the order of their declarations and options and the names of their catch-all keys, in both directions. messageIsEmpty() is true exactly for messages without contents, or with an option, for those with any variant without contents.",
    ["inputs"], "all messages in the JSON data model, with any names and values",
    FEW + "dependency of declarations, name, and way to write the same message.",
    ["js/src/model-utils.ts", "js/src/model.ts"],
    [("normalization and equality", "js/src/model-utils.ts")],
    ("reference model, differential against the Python package, and relations known from the construction of the pair", "messages of up to 4 declarations and 3 variants."),
)
prop(
    "P31", "JavaScript: serialized messages are read back as the same message",
    "For every format, what the JavaScript package serializes from a message is valid syntax, on its own and in a file, and is read by the Python package as the same message. A message that the format can not represent is rejected with a SerializeError; with an error callback nothing is thrown, and the callback is called exactly when it would have been, and all that is supported is still written. Arguments are not modified.",
    ["inputs"], "all messages in the JSON data model that the format can represent, and arbitrary patterns for errors",
    FEW + "characters, placeholders, options and variants.",
    ["js/src/index.ts", "js/src/android-serialize.ts", "js/src/fluent-serialize.ts", "js/src/mf2-serialize.ts", "js/src/properties-serialize.ts", "js/src/webext-serialize.ts", "js/src/xliff-serialize.ts", "js/src/xml-utils.ts"],
    [("serializers", "js/src/*-serialize.ts")],
    ("round trip through the Python package, and through an evaluator of Fluent syntax trees", "messages of up to ~6 parts and 3 selectors; the DOM and the Fluent and MF2 syntax tree libraries are stand-ins, see Takes as given."),
)
prop(
    "P32", "JavaScript: messages are parsed as they are in Python",
    "For every format, the JavaScript package reads the source of a message as the same message as the Python package does, or rejects what Python rejects, with a ParseError within the range of the source. With an error callback nothing is thrown, and no text is lost.",
    ["inputs"], "all sources of single messages, valid and mutated",
    FEW + "combination of escapes, placeholders, elements and mistakes.",
    ["js/src/index.ts", "js/src/android-parse.ts", "js/src/fluent-parse.ts", "js/src/mf2-parse.ts", "js/src/properties-parse.ts", "js/src/webext-parse.ts", "js/src/xliff-parse.ts"],
    [("parsers", "js/src/*-parse.ts")],
    ("differential against the Python package, and an evaluator of Fluent syntax trees", "sources of up to ~8 tokens; the DOM and the Fluent and MF2 syntax tree libraries are stand-ins, see Takes as given."),
)
prop(
    "P33", "Messages of every format are valid MessageFormat 2",
    "Every message read from a file of any format is a valid MessageFormat 2 message: its names, declarations, selectors and variants pass validation, it can be written in MessageFormat 2 syntax by the Python and by the JavaScript package, and reading that, or its data-model JSON or JSON form, gives the same message again, with the variable, function, option and attribute names and values that it had.",
    ["inputs"], "all sources in all formats, with any names of placeholders",
    FEW + "format, placeholder name and value.",
    ["formats", "formats/mf2", "message", "js/src/mf2-serialize.ts"],
    [("parsers", "formats/*/parse.py"), ("validation", "formats/mf2/validate.py mf2_validate_message")],
    ("round trip through the MF2 syntax and JSON", "files of up to ~8 messages, messages of up to ~8 tokens."),
)
prop(
    "P34", "Content moved between formats keeps its identifiers, text and comments",
    "Entries with text values that are read from one format and written in another have the same identifiers, text and comments when read back from that, and writing them in the first format again gives its original source; text that a format can represent is never rejected. A resource with string values is written as one with messages of that literal text, and adding entries read from another format gives a resource that can be written and read with all of the entries, in the same order as before.",
    ["inputs"], "all pairs of formats, and all texts that both formats can represent",
    FEW + "pair of formats and special character.",
    ["formats", "resource/serialize_resource.py", "resource/parse_resource.py", "resource/add_entries.py"],
    [("parsers and serializers", "formats/*/parse.py, formats/*/serialize.py"), ("dispatch", "resource/serialize_resource.py serialize_resource")],
    ("round trips through two formats", "up to 4 entries, text of up to 8 tokens."),
)
prop(
    "P35", "Without lxml, everything but the XML formats works the same",
    "Where lxml is not installed, the package can be imported, and every resource and message of the other formats is detected, parsed, serialized, compared and merged exactly as with it. Android and XLIFF content is rejected as unsupported rather than misread, and the error for a file or source that is XML says that lxml is required.",
    ["inputs", "configurations"], "all files and messages in all formats, with lxml installed and not",
    FEW + "input, with each of the two installations.",
    ["resource/parse_resource.py", "resource/serialize_resource.py", "message/parse.py", "message/serialize.py", "formats/__init__.py"],
    [("optional imports", "resource/parse_resource.py, message/parse.py"), ("detection", "formats/__init__.py detect_format")],
    ("differential between the package with and without lxml", "files of up to ~8 messages with up to 3 edits."),
)
