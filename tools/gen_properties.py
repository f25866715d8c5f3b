"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = "python/moz/l10n/"
R = []


def path(f):
    return f[1:] if f.startswith("/") else P + f


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    R.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [path(f) for f in files],
            "mechanism": [{"name": n, "where": path(w)} for n, w in mechanism],
            **({"state": [{"name": n, "meaning": m, "where": P + w} for n, m, w in state]} if state else {}),
            **({"observe_at": observe} if observe else {}),
        },
    })


RT = ("Serializing any representable {n} resource and parsing the result gives back the same ids, values, comments and order, "
      "and any {n} text that parses keeps all of its content when serialized and parsed again. "
      "{extra}")
WHY = ("The tests hold one or two fixture files and a few hand-picked strings per format; the guarantee quantifies over every key, "
       "value and comment, and escaping bugs live in the position of one character next to another (start, end, after a backslash, before a placeholder).")

prop("C01", "Java .properties resources survive parse and serialize unchanged",
     RT.format(n=".properties", extra="Parsed keys, values and comments are those defined by the .properties escape, separator, line-continuation and comment rules."),
     ["inputs"], "every key, value, comment and source text, every nesting position of every special character",
     WHY, ["formats/properties/parse.py", "formats/properties/serialize.py"],
     [("line parser and unescaper", "formats/properties/parse.py"), ("key/value escaping", "formats/properties/serialize.py")],
     ["parse_resource", "serialize_resource"])
prop("C02", "DTD resources survive parse and serialize unchanged",
     RT.format(n="DTD", extra="The serialized text is well-formed entity declarations, from which an XML parser reads the same entities."),
     ["inputs"], "every entity name, value, comment and source text", WHY,
     ["formats/dtd/parse.py", "formats/dtd/serialize.py"],
     [("regex tokenizer", "formats/dtd/parse.py"), ("quoting and entity escaping", "formats/dtd/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C03", "Mozilla .inc resources survive parse and serialize unchanged",
     RT.format(n=".inc", extra="Lines that are neither comments, definitions nor blank are rejected rather than dropped."),
     ["inputs"], "every name, value, comment and source text", WHY,
     ["formats/inc/parse.py", "formats/inc/serialize.py"],
     [("line parser", "formats/inc/parse.py"), ("serializer", "formats/inc/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C04", "INI resources survive parse and serialize unchanged",
     RT.format(n=".ini", extra="Every entry stays in its own section, under its own key."),
     ["inputs"], "every section, key, value (incl. multi-line), comment and source text", WHY,
     ["formats/ini/parse.py", "formats/ini/serialize.py"],
     [("iniparse line walk", "formats/ini/parse.py"), ("serializer", "formats/ini/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C05", "Gettext resources survive parse and serialize unchanged",
     RT.format(n="gettext PO", extra="This includes contexts, plural source and translation forms, flags, source references, obsolete entries and the PO header, and options for plural categories and skipping obsolete entries do what they say."),
     ["inputs", "configurations"], "every combination of id, context, plural forms, flags, references, comments and plural option", WHY,
     ["formats/gettext/parse.py", "formats/gettext/serialize.py"],
     [("polib entry mapping", "formats/gettext/parse.py"), ("polib entry construction", "formats/gettext/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C06", "Plain JSON resources survive parse and serialize unchanged",
     RT.format(n="JSON", extra="Nested objects keep their key paths, and serialized text is valid JSON holding the same tree of strings."),
     ["inputs"], "every tree of object keys and string values", WHY,
     ["formats/plain_json/parse.py", "formats/plain_json/serialize.py", "util/loads.py"],
     [("flattening", "formats/plain_json/parse.py"), ("tree building", "formats/plain_json/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C07", "WebExtension messages.json survives parse and serialize unchanged",
     RT.format(n="messages.json", extra="Placeholders, dollar signs and placeholder contents expand to the same text before and after, as the WebExtension i18n rules define."),
     ["inputs"], "every sequence of text, dollar signs and placeholder references, with every set of placeholder definitions", WHY,
     ["formats/webext/parse.py", "formats/webext/serialize.py"],
     [("placeholder parser", "formats/webext/parse.py"), ("placeholder serializer", "formats/webext/serialize.py")], ["parse_resource", "serialize_resource", "parse_message", "serialize_message"])
prop("C08", "Fluent resources survive parse and serialize unchanged",
     RT.format(n="Fluent", extra="Values, attributes, terms and the three comment levels are kept where they were, and every serialized text is free of syntax errors."),
     ["inputs"], "every message, attribute, placeable, selector and comment structure", WHY,
     ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
     [("FTL to message model", "formats/fluent/parse.py"), ("message model to FTL", "formats/fluent/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C09", "Android string resources survive parse and serialize unchanged",
     RT.format(n="Android XML", extra="Strings, string arrays, plurals, inline markup, xliff:g placeholders and printf placeholders are covered, and unescaped values are those the Android resource compiler defines."),
     ["inputs"], "every character sequence, placeholder and markup nesting in a string, and every entry sequence", WHY,
     ["formats/android/parse.py", "formats/android/serialize.py"],
     [("XML to message", "formats/android/parse.py"), ("message to XML and escaping", "formats/android/serialize.py")], ["parse_resource", "serialize_resource", "parse_message", "serialize_message"])
prop("C10", "XLIFF 1.2 resources survive parse and serialize unchanged",
     RT.format(n="XLIFF", extra="Files, groups, sources, targets, notes, inline elements and element attributes are all kept."),
     ["inputs"], "every nesting of files, groups, units, notes and inline elements", WHY,
     ["formats/xliff/parse.py", "formats/xliff/parse_trans_unit.py", "formats/xliff/serialize.py", "formats/xliff/common.py"],
     [("element walk and metadata paths", "formats/xliff/parse.py"), ("element reconstruction from metadata", "formats/xliff/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C11", "Xcode plurals in XLIFF are read as plural messages and written back",
     "Xcode string-catalog and stringsdict plural units are combined into one message whose variants are exactly the units' texts, selected on the right argument and category. "
     "Serializing gives back units with the same ids, sources and targets.",
     ["inputs"], "every set of plural categories, variables, formats and unit orders",
     "Two fixture files cover one plural layout each; the splitting and recombination depends on which categories and variables are present and in what order.",
     ["formats/xliff/parse_xcode.py", "formats/xliff/serialize.py"],
     [("plural unit recombination", "formats/xliff/parse_xcode.py"), ("plural unit output", "formats/xliff/serialize.py")], ["parse_resource", "serialize_resource"])
prop("C12", "MessageFormat 2 messages survive serialize and parse unchanged",
     "Every valid message serializes to MessageFormat 2 syntax that parses back to an equal message. "
     "Serializing what was parsed from any accepted text gives text that parses to the same message again.",
     ["inputs"], "every pattern, declaration, selector, key, literal and option value",
     "The syntax tests sample the spec fixtures; quoting, escaping, name and number rules interact with every character and position.",
     ["formats/mf2/message_parser.py", "formats/mf2/serialize.py"],
     [("parser", "formats/mf2/message_parser.py"), ("serializer", "formats/mf2/serialize.py")], ["mf2_parse_message", "mf2_serialize_message", "parse_message", "serialize_message"])
prop("C13", "MessageFormat 2 parsing accepts exactly the language, with its meaning",
     "Text is accepted if and only if it is a valid message of the MessageFormat 2 grammar free of data model errors, every other text being rejected with a parse error. "
     "An accepted text gives the data model which the specification's grammar assigns to it.",
     ["inputs"], "every text over the syntax's characters and tokens",
     "Conformance fixtures list a few hundred strings; acceptance is a statement about every string, including those that only a wrong parser would accept.",
     ["formats/mf2/message_parser.py", "formats/mf2/validate.py"],
     [("recursive-descent parser", "formats/mf2/message_parser.py"), ("name/number regular expressions", "formats/mf2/validate.py")], ["mf2_parse_message"])
prop("C14", "Message and entry JSON survives round trips and matches its schema",
     "Converting any valid message or entry to its JSON data model gives a JSON document valid by the published schema, and converting it back gives an equal message or entry. "
     "Distinct entry ids stay distinct in JSON.",
     ["inputs"], "every message shape (patterns, expressions, markup, options, attributes, variants) and every id",
     "A handful of sample messages are converted in the tests; none enumerates the shapes, escapes or empty cases.",
     ["message/to_json.py", "message/from_json.py", "formats/mf2/to_json.py", "formats/mf2/from_json.py"],
     [("to JSON", "message/to_json.py"), ("from JSON", "message/from_json.py")], ["message_to_json", "message_from_json", "entry_to_json", "entry_from_json", "mf2_to_json", "mf2_from_json"])
prop("C15", "Message validity checks accept exactly the valid messages",
     "Validation accepts a message if and only if it satisfies the data model's rules: variables and options well-typed, selectors declared with a function, variant keys complete, distinct and with a fallback. "
     "Everything the MessageFormat 2 parser returns is valid.",
     ["inputs"], "every message structure up to a bound, including every single ill-formed deviation",
     "Tests check a few invalid messages; a validity predicate is an if-and-only-if over all structures.",
     ["formats/mf2/validate.py"],
     [("mf2_validate_message", "formats/mf2/validate.py")], ["mf2_validate_message"])
prop("C16", "Trimming comments removes every comment and nothing else",
     "Serializing any resource in any format with comments trimmed gives output with no resource, section, entry or standalone comment left, from which the same entries, values and order are read back.",
     ["inputs", "configurations"], "every placement of resource, section, standalone and entry comments, in every format",
     "Each format's test trims one fixture; the combination of comment positions with entry kinds is not enumerated.",
     ["formats/properties/serialize.py", "formats/dtd/serialize.py", "formats/inc/serialize.py", "formats/ini/serialize.py", "formats/gettext/serialize.py", "formats/webext/serialize.py", "formats/fluent/serialize.py", "formats/android/serialize.py", "formats/xliff/serialize.py"],
     [("trim_comments", "resource/serialize_resource.py")], ["serialize_resource"])
prop("C17", "Adding entries merges two resources without loss or duplication",
     "After adding a source resource's entries to a target, every id of either resource is present exactly once, target-only entries and their order are untouched, shared entries follow the use-source rule, and the reported count is the number of changes. "
     "New entries land in their own section, next to the entries they follow in the source, and repeating the operation changes nothing (where the source does not itself give several sections one id).",
     ["histories", "inputs"], "every pair of small resources and every sequence of such merges",
     "Tests merge a few hand-written resources; position and count depend on the interleaving of sections, ids and comments.",
     ["resource/add_entries.py"], [("add_entries", "resource/add_entries.py")], ["add_entries"])
prop("C18", "Localization equality is an equivalence that sees every content change",
     "Comparison of resources is reflexive, symmetric and transitive, ignores entry, section and metadata order, empty sections and standalone comments as documented, and is false whenever an id, value, property, attached comment or metadata item differs; metadata counts as a set of items, and names of catch-all keys do not count. "
     "Comparing never changes its arguments.",
     ["inputs"], "every pair and triple of small resources",
     "Tests compare a few pairs; an equivalence relation is a statement about all pairs and triples.",
     ["resource/l10n_equal.py"], [("l10n_equal", "resource/l10n_equal.py")], ["l10n_equal"])
prop("C19", "Normalizing a message preserves what it formats to",
     "Normalizing a message drops only declarations that nothing in the message uses directly or through another declaration, joins adjacent text and drops empty text, and changes nothing else. "
     "It is idempotent, and the result formats to the same text for every choice of variables.",
     ["inputs"], "every declaration dependency graph and pattern up to a bound",
     "Tests normalize a few messages; dependency chains and cycles among declarations are not enumerated.",
     ["util/normalize.py", "model.py"], [("normalize helpers", "util/normalize.py")], ["PatternMessage.normalize", "SelectMessage.normalize"])
prop("C20", "Flattened Fluent selectors format as the nested originals do",
     "A Fluent message with any nesting and mixture of select expressions, once read as a flat list of variants, formats to the same text as the Fluent original for every value of its selectors. "
     "The same holds for the Fluent text that is written from the flat variants.",
     ["inputs"], "every nesting of selectors, variants and defaults, times every assignment of selector values",
     "Tests compare the structure of a few messages with expected literals; equivalence quantifies over all structures and all selector values.",
     ["formats/fluent/parse.py", "formats/fluent/serialize.py"],
     [("select flattening", "formats/fluent/parse.py"), ("select reconstruction", "formats/fluent/serialize.py")], ["fluent_parse", "fluent_parse_message", "fluent_serialize_message"])
prop("C21", "Configured paths map references and targets one to one",
     "For a project configuration, every reference file maps to a target path for each of its locales exactly as the configured patterns, variables, locale lists and includes say, and looking a target path up gives back the reference file and locale that it came from. "
     "A path that no reference maps to, for any values of its variables, is not attributed to one.",
     ["configurations", "inputs"], "every small configuration, file tree and locale set",
     "Tests hold one configuration tree; the mapping combines wildcards, variables, per-path locales and included files.",
     ["paths/config.py"], [("L10nConfigPaths", "paths/config.py")], ["L10nConfigPaths.all", "L10nConfigPaths.target", "L10nConfigPaths.find_reference", "L10nConfigPaths.ref_paths"])
prop("C22", "Discovered paths map references and targets one to one",
     "For a discovered directory layout, the reference root and locales are those which the layout rules define, every reference file maps to one target path per locale, and looking that target path up gives back the reference file. "
     "Hidden and ignored files, and files outside the reference directory, are never included.",
     ["configurations", "inputs"], "every small directory tree",
     "Tests hold a few trees; discovery chooses between competing candidate directories, which only an enumeration of trees exercises.",
     ["paths/discover.py", "util/walk_files.py"], [("L10nDiscoverPaths", "paths/discover.py")], ["L10nDiscoverPaths"])
prop("C23", "Walking files honours ignore rules and yields every other file once",
     "Walking a directory yields every file below it exactly once, except hidden ones and those that the ignore files in effect exclude, as their rules define. "
     "Files outside of the root, or of the directories to walk, are never yielded.",
     ["configurations"], "every small tree of files, hidden names and ignore files",
     "Tests have a single tree with one ignore file.",
     ["util/walk_files.py"], [("walk_files", "util/walk_files.py")], ["walk_files"])
prop("C24", "Android locale codes map to BCP 47 codes and back without collision",
     "Every BCP 47 locale of the supported form has one Android resource directory code, from which the same locale is read back, and distinct locales never share a code. What is not a valid code is rejected.",
     ["inputs"], "every language, script, region and variant combination up to the bound",
     "Tests try around ten locales; injectivity is a property of the whole set.",
     ["paths/android_locale.py"], [("conversion functions", "paths/android_locale.py")], ["get_android_locale", "parse_android_locale"])
prop("C25", "Migrations add what they produce and leave all else as it was",
     "Applying a migration adds each migrated entry that the target lacks, in the section of its id, after the last of the entries it is made from and those before it in the migration, or else at the end, and never removes, reorders or alters anything that was there. "
     "The reported changes are exactly those written, a dry run writes nothing, and a second application of a migration whose entries do not depend on ones it adds later changes nothing.",
     ["histories", "configurations"], "every small reference, target and migration map, and every sequence of applications",
     "Tests apply a few migrations to one tree; preservation quantifies over the contents of reference and target files.",
     ["migrate/__init__.py", "migrate/utils.py"], [("Migrate.apply", "migrate/__init__.py")], ["Migrate.apply"])
prop("C26", "Failing operations never destroy localization files",
     "When migrating, fixing or building fails while reading, parsing, converting or serializing any file, every localization file that existed beforehand still has its previous contents in full or its complete new contents. "
     "An existing file that cannot be parsed is never overwritten.",
     ["fault_sequences", "crash_points"], "every position of a failing entry or file in a run over several files",
     "The tests never inject a failure between two writes, nor serialize something unserializable over an existing file.",
     ["migrate/__init__.py", "bin/fix.py", "bin/build.py", "bin/build_file.py"],
     [("target writing", "migrate/__init__.py"), ("fix_file", "bin/fix.py"), ("write_target_file", "bin/build.py")], ["Migrate.apply", "fix", "build", "build_file"])
prop("C27", "Built files hold the reference entries with available translations",
     "Every file built for a locale holds exactly the entries of its reference file, each with the locale's translation where there is one, and with the reference's value or no entry where there is none, as the format's rule says. "
     "Entries unknown to the reference never appear, and building twice gives the same bytes.",
     ["inputs", "configurations"], "every pair of reference and localization files up to a bound, for every format",
     "Tests build one small tree; the merge depends on which side has which entry, attribute and section.",
     ["bin/build.py", "bin/build_file.py"], [("build and write_target_file", "bin/build.py"), ("build_file", "bin/build_file.py")], ["build", "build_file", "l10n-build", "l10n-build-file"])
prop("C28", "Comparison reports exactly the missing entries and erroneous files",
     "Comparing a locale with the reference reports a message as missing if and only if the reference has it and the locale has not, and counts the rest as present, each message being identified by its file, section and id. "
     "Files that cannot be parsed are reported as errors, and missing files contribute all of their messages.",
     ["inputs", "configurations"], "every pair of reference and localization trees up to a bound",
     "Tests compare one tree.", ["bin/compare.py"], [("compare", "bin/compare.py")], ["compare"])
prop("C29", "Fixing a file keeps its content and reaches a fixed point",
     "Fixing any parseable localization file leaves a file with the same entries, values and comments, and a second fix leaves it byte for byte unchanged. "
     "Files that cannot be parsed or serialized are reported and left untouched, files outside the selection are never written, and unless told to continue, neither are those after the first that fails.",
     ["inputs", "histories"], "every small file of every format, every directory selection",
     "Tests fix a few files once.", ["bin/fix.py"], [("fix", "bin/fix.py")], ["fix"])
prop("C30", "Linting fails exactly on files with errors and changes nothing",
     "Linting reports failure if and only if some selected file cannot be parsed, or is in no known format and is not skipped as such, and success otherwise, whatever the order and kinds of files. "
     "It never writes to any file.",
     ["inputs", "configurations"], "every small set of valid and invalid files of every format",
     "Tests lint a few files.", ["bin/lint.py"], [("lint", "bin/lint.py")], ["lint"])
prop("C31", "Detected formats agree with file names, contents and parsers",
     "A file with a distinctive extension is given that format whatever its contents. Otherwise contents that are a JSON object of strings, at any depth, are WebExtension messages if each value is a message object and plain JSON if not; "
     "XML with a resources root is Android and with an XLIFF 1.x namespace is XLIFF; and anything else is not recognized, without an error. Valid contents that are recognized are parsed as that format, with all of their entries. "
     "Text given as str, bytes or a file gives the same resource.",
     ["inputs"], "every extension times every small JSON or XML document or plain text",
     "Tests try one file per format.", ["formats/__init__.py", "resource/parse_resource.py", "util/loads.py"],
     [("detect_format", "formats/__init__.py"), ("parse_resource", "resource/parse_resource.py")], ["detect_format", "parse_resource"])
prop("C32", "Single messages survive parse and serialize in every format",
     "Parsing a single message's text and serializing it gives back text with the same meaning, and doing so again changes nothing, for each supported format. "
     "Placeholders are recognized exactly where the format defines them, and the text around and inside them is kept in full and in order.",
     ["inputs"], "every sequence of text, placeholders and escapes", WHY,
     ["message/parse.py", "message/serialize.py", "util/printf.py"],
     [("parse_message", "message/parse.py"), ("serialize_message", "message/serialize.py"), ("printf placeholder scanner", "util/printf.py")], ["parse_message", "serialize_message"])
prop("C33", "Source line positions point at the entries they belong to",
     "Fluent and .properties parsers report the line positions of entries, comments and sections, and each reported position names the lines on which that comment, entry or section starts, has its key and value, and ends, whatever precedes it in the file.",
     ["inputs"], "every sequence of comments, blank lines, entries and multi-line values",
     "Tests assert positions in one fixture per format.",
     ["formats/properties/parse.py", "formats/fluent/parse.py", "formats/dtd/parse.py", "formats/ini/parse.py", "formats/inc/parse.py"],
     [("line counting", "formats/properties/parse.py"), ("span to line mapping", "formats/fluent/parse.py")], ["Entry.linepos", "Comment.linepos", "Section.linepos"])
prop("C34", "Parsing and serializing have no side effects",
     "Parsing, serializing, comparing and converting never modify the resources, messages or options they are given, and their results depend on nothing but their arguments, in whatever order and however often calls are made. "
     "Results of separate calls share no mutable state.",
     ["histories", "schedules"], "every interleaving of calls up to a bound, over every format",
     "Tests call each function once on fresh data.", ["resource/parse_resource.py", "resource/serialize_resource.py", "message/parse.py", "message/serialize.py"],
     [("pure functions over dataclasses", "resource/serialize_resource.py")], ["parse_resource", "serialize_resource", "parse_message", "serialize_message"])
prop("C35", "Metadata operations act as an ordered multimap",
     "Getting, testing, setting and deleting metadata on resources, sections and entries act on the items with that key only, in order, and leave every other item as it was.",
     ["histories"], "every sequence of metadata operations up to a bound",
     "Tests run one short sequence.", ["model.py"], [("get_meta, has_meta, set_meta, del_meta", "model.py")], ["get_meta", "has_meta", "set_meta", "del_meta"])
prop("C36", "Conversion between string formats keeps ids and values",
     "Serializing a resource of one format as another either fails with an error or gives text from which entries with the same ids and plain values are read in the same order, with their comments and those of the resource and its sections if the format has comments. "
     "Nothing is silently dropped or merged.",
     ["inputs", "configurations"], "every ordered pair of formats and every small resource",
     "Tests convert one pair of formats.", ["resource/serialize_resource.py"],
     [("format override", "resource/serialize_resource.py")], ["serialize_resource"])
prop("C37", "Invalid localization text is rejected, and parsed resources are well-formed",
     "Any text given to a parser is either parsed into a resource that is well-formed as the data model documents it (identifiers, comments, metadata, messages with valid expressions, declared selectors and matching variants), or rejected with an error such as ValueError. "
     "No identifiers, text or comments of messages are silently dropped, text that is not well-formed XML or JSON is not accepted, and no parse runs forever.",
     ["inputs"], "every short text over each format's token alphabet",
     "Tests feed a few invalid snippets.", ["resource/parse_resource.py"],
     [("parsers", "resource/parse_resource.py")], ["parse_resource"])
prop("C38", "JSON messages are read as their schemas describe",
     "Any document that the published schemas for messages and entries accept is read as exactly the message or entry it describes, without being modified; any document that is not valid MessageFormat 2 message JSON is refused with an MF2ValidationError, in whatever part the fault is.",
     ["inputs"], "every change of JSON documents that use all parts of the forms",
     "Tests read a few invalid documents.", ["formats/mf2/from_json.py", "message/from_json.py"],
     [("checks of JSON types", "formats/mf2/from_json.py"), ("JSON reader", "message/from_json.py")], ["mf2_from_json", "message_from_json", "entry_from_json"])

prop("C39", "Lookups find exactly the matching entries, patterns, and variables",
     "get_entry() gives the first entry whose section and own identifier add up to the given one, or None; get_pattern() gives the pattern of the variant, else the fallback variant's, else the default if there is one; insert_entry_after() adds an entry, in the sections with its identifier, after the last of the given entries and changes nothing else; all_entries(), variable_refs(), is_empty(), selector_expressions(), and plural_message() give exactly what their documentation says; and the representation of any model object evaluates to an equal one.",
     ["inputs", "histories"], "every resource, message, and part of a few sections, entries, variants, and elements",
     "Tests look up a few entries by one-part identifiers.", ["migrate/utils.py", "model.py"],
     [("lookups and insertion", "migrate/utils.py"), ("accessors and representations", "model.py")], ["get_entry", "get_pattern", "insert_entry_after", "plural_message", "all_entries", "is_empty", "variable_refs"])

prop("C40", "Results don't depend on the order of directory listings and sets",
     "Discovered and configured paths, walked files, parsed and written resources, and the files, exit codes and reports of every command are the same in whichever order the file system lists directories and sets are iterated, as both orders may differ between systems and runs; only the order in which files are processed and reported may change.",
     ["schedules", "inputs"], "every combination, up to some number of deviations, of the orders of all directory listings and set iterations of a run, for trees, configurations, documents and commands",
     "Tests run on one file system, and mostly on sets of one item.", ["paths/discover.py", "paths/config.py", "util/walk_files.py", "bin/compare.py", "bin/build.py", "migrate/__init__.py"],
     [("discovery", "paths/discover.py"), ("missing messages", "bin/compare.py")], ["L10nDiscoverPaths", "L10nConfigPaths", "walk_files", "the command line"])

prop("C41", "Every way to read and write a text gives the same result",
     "A text is read as the same resource, or refused, whether it is given as a string, as bytes, as a path, or as a path and its contents, by parse_resource() and by the functions of each format, from its syntax tree, and entry by entry; and a resource is written as the same text by serialize_resource(), the functions of each format, its syntax tree, and those for single entries and messages. "
     "Options act the same in all of these, options of other formats change nothing, and custom message parsers and serializers get each value and have their result used.",
     ["inputs", "configurations"], "every short text, document and resource, with every way to read and write it and every set of options",
     "Tests use one way to read or write each fixture.", ["resource/parse_resource.py", "resource/serialize_resource.py", "message/parse.py", "message/serialize.py", "formats/fluent/parse.py", "formats/fluent/serialize.py", "formats/xliff/parse.py", "formats/android/parse.py"],
     [("choice of format and options", "resource/parse_resource.py"), ("entries and syntax trees", "formats/fluent/serialize.py")], ["parse_resource", "serialize_resource", "parse_message", "serialize_message", "fluent_parse_entry", "fluent_serialize_entry"])

prop("C42", "What a format cannot represent is refused, and never silently dropped",
     "Serializing a resource or message either writes all of it (identifiers, properties, metadata, comments, text, placeholders with their options, markup, selectors, and variants with their keys), as is found on reading the result, or fails with a ValueError; no part of what is given is left out without an error. (Excepted, by design: a metadata entry of an Xcode plural that names a variant its message does not have may be left out.)",
     ["inputs", "configurations"], "every message of a few parts, every select message with one or two selectors, and every set of other fields, in every format",
     "Tests check a few unsupported values.", ["resource/serialize_resource.py", "message/serialize.py", "formats/fluent/serialize.py", "formats/android/serialize.py", "formats/gettext/serialize.py", "formats/xliff/serialize.py", "formats/webext/serialize.py", "formats/properties/serialize.py"],
     [("refusals of unsupported values", "formats/android/serialize.py"), ("refusals of unsupported values", "formats/fluent/serialize.py")], ["serialize_resource", "serialize_message"])

prop("C43", "JavaScript: messages are compared and normalized by their contents",
     "In the JavaScript package, messagesEqual() is true exactly for messages with the same contents in their JSON form: whatever the order of their declarations, options and attributes, with empty and missing options or attributes being the same, all default keys being the same, and a pattern being the same as a message without declarations. "
     "normalizeMessage() joins adjacent texts, drops empty ones, and drops exactly the declarations which are not used by the pattern, a variant, a selector or a used declaration; a second normalization changes nothing, its argument is never modified, and its result shares no objects with it. messageIsEmpty() and the type guards tell messages and pattern parts apart by the same data model. Any valid name may be used for variables and options, including those of Object's own properties such as constructor.",
     ["inputs"], "every pair of messages of a few parts, every message with a few declarations which refer to each other, and every pattern of a few parts",
     "Tests compare a few pairs of messages, with names that are not otherwise used.", ["/js/src/model-utils.ts", "/js/src/model.ts", "/js/src/index.ts"],
     [("comparison", "/js/src/model-utils.ts"), ("unused declarations", "/js/src/model-utils.ts")], ["messagesEqual", "normalizeMessage", "messageIsEmpty"])

prop("C44", "JavaScript: messages are written and read as the Python library does",
     "The JavaScript package matches the Python library, with the JSON form of messages between them: each valid message it writes as MessageFormat 2 is read by the Python library as the same message; each .properties, WebExtension and plain text is read as the same pattern, and refused if the Python library refuses it, and patterns are written so that either reads them back unchanged (and .properties values with the spaces at their ends escaped); and each message or entry that it writes as Fluent is read as the one the Python library writes, while what the Python library refuses to write is refused with a SerializeError. "
     "(For Fluent: for patterns without white space at their ends, variants grouped by their keys, default keys of a selector having one name, and no placeholder with a function having a declaration as well. Its parsers for Fluent and MessageFormat 2, which require packages that aren't installed here, are not included.)",
     ["inputs", "configurations"], "every short text, every message with any text in each position, every expression, markup and set of declarations, variants and properties of a few parts",
     "The JavaScript tests have a few messages for each format, and are never compared with the Python library.", ["/js/src/index.ts", "/js/src/mf2-serialize.ts", "/js/src/fluent-serialize.ts", "/js/src/properties-parse.ts", "/js/src/properties-serialize.ts", "/js/src/webext-parse.ts", "/js/src/webext-serialize.ts"],
     [("escaping and quoting", "/js/src/mf2-serialize.ts"), ("nesting of select expressions", "/js/src/fluent-serialize.ts")], ["parsePattern", "serializePattern", "mf2SerializeMessage", "fluentSerializeMessage", "fluentSerializeEntry"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["id"]
        for fn in r["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
