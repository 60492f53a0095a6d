#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Load, save, reload and autosave keep file and memory in step",
  "Loading a spec file and saving it without edits writes back exactly the bytes that were read (LF-terminated text in any encoding, with or without a final newline). Saving (explicitly, by leaving the Specfile context even because of an exception, or by autosave when an editing context ends) writes exactly the current in-memory text to the current path and nothing else; reloading replaces the in-memory text by the current file content. Without autosave or an explicit save the file on disk never changes.",
  ["histories", "inputs", "configurations"],
  "every file content, every sequence of open / edit / save / reload / external modification / autosave switch / path change",
  "Tests open a dozen fixed files and do one save each; byte identity is asserted for two of them and interleavings of autosave, reload, path changes, exceptions and external edits are never explored.",
  ["specfile/specfile.py"],
  [("text lines plus final-newline flag", "Specfile._read_lines / __str__"), ("save/reload/__exit__", "Specfile.save, Specfile.reload, Specfile.__exit__"), ("autosave at the end of the lines context", "Specfile.lines")],
  ["file bytes", "str(specfile)"],
  [("lines", "in-memory text", "Specfile._lines"), ("final newline flag", "whether the text ends in a newline", "Specfile._trailing_newline")])

p("C02", "Looking at a spec file through any view changes nothing",
  "Opening and closing any view (lines, sections, tags of any package section, macro definitions, changelog, prep, sources, patches), alone or nested, or reading any property or attribute through it, leaves the text of the spec file unchanged character for character as long as nothing was assigned, added or removed. A view that cannot interpret the content fails with an exception and also leaves the text unchanged.",
  ["inputs", "histories"],
  "every spec file text and every combination of read-only accesses",
  "The tests check reconstruction of a handful of hand-written sections; continuation lines, bracketed multi-line values, conditional expansions, odd whitespace, quoting and comments combine without bound.",
  ["specfile/specfile.py", "specfile/sections.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/changelog.py", "specfile/prep.py", "specfile/sourcelist.py", "specfile/options.py"],
  [("parse / reconstruct pairs", "Sections.parse+get_raw_data, Tags.parse+get_raw_section_data, MacroDefinitions.parse+get_raw_data, Changelog.parse+get_raw_section_data, Prep.parse+get_raw_section_data, Sourcelist.parse+get_raw_section_data")],
  ["str(specfile)", "reconstructed section data"])

p("C03", "Sections partition the text and can be edited independently",
  "The sections of a spec file are exactly the preamble followed by one section per line that starts a section (case-insensitive name, optional arguments, not inside the body of a macro definition and not continued by a backslash), each owning the lines up to the next one. A section is found by its name and arguments regardless of the case of the name, and replacing, inserting, removing or reordering sections or lines of a section changes those lines only.",
  ["inputs", "histories"],
  "every text, every sequence of section-level edits",
  "Tests use two fixed texts; boundary decisions depend on all macro definitions, line continuations, case and arguments, and no test combines edits with re-parsing.",
  ["specfile/sections.py", "specfile/constants.py", "specfile/options.py"],
  [("section header recognition", "Sections.parse"), ("lookup by id", "Sections.find / __getattr__ / __setattr__ / __delattr__"), ("reconstruction", "Section.get_raw_data, Sections.get_raw_data")],
  ["Specfile.sections()", "Sections.parse / get_raw_data"])

p("C04", "Tags are parsed as RPM sees them and tag edits are local",
  "Every recognized tag line (any case, optional number or qualifier, optionally wrapped in a conditional macro expansion, possibly spanning several lines inside brackets) appears exactly once, in order, with its literal value and the comment lines directly above it; lookup by name is case-insensitive and prefers the first valid occurrence. Changing a value, name or comment of one tag changes only the text of that tag, inserting adds only the new tag (never inside a condition block that ends right there), and deleting removes only the tag and its own comments, keeping all other non-blank lines in order.",
  ["inputs", "histories"],
  "every package section content and every sequence of tag edits",
  "Unit tests exercise single edits on two small lists; interplay of comments, blank lines, conditions, multi-line values, prefixes and positions is unbounded.",
  ["specfile/tags.py", "specfile/constants.py", "specfile/utils.py"],
  [("tag recognition and bracket continuation", "Tags.parse, count_brackets, split_conditional_macro_expansion"), ("comments and preceding lines ownership", "Comments.parse"), ("edit operations", "Tags.insert / __delitem__ / find / get, Tag.get_position")],
  ["Specfile.tags()", "Tags.parse / get_raw_section_data"])

p("C05", "Macro definitions are found and edited without collateral changes",
  "Every %global/%define line, including ones commented out with %dnl or #, indented ones, ones with arguments and ones whose body continues over several lines, is listed once in order with its exact name, body, scope and commented-out state. Changing body, name, scope or commented-out state rewrites only that definition (commenting out and back restores the original text), deleting one keeps every other line, and lookup by name prefers the first valid definition.",
  ["inputs", "histories"],
  "every text and every sequence of edits to macro definitions",
  "Tests parse two fixed lists; the pattern has lazy and conditional groups and continuation rules whose combinations are unbounded.",
  ["specfile/macro_definitions.py", "specfile/utils.py"],
  [("definition recognition and continuation", "MacroDefinitions._parse, count_brackets"), ("rendering", "MacroDefinition.get_raw_data"), ("lookup and deletion", "MacroDefinitions.find / get / __delitem__ / __delattr__")],
  ["Specfile.macro_definitions()", "MacroDefinitions.parse / get_raw_data"])

p("C06", "Validity reflects the branch RPM would take",
  "A tag, macro definition, source or list entry is reported valid exactly if it is not inside a branch of a %if/%ifarch/%ifnarch/%ifos/%ifnos ... %elif ... %else ... %endif block that is not taken, at any nesting depth, where at most the first true branch of a block is taken. Conditions inside macro definition bodies are ignored, expressions may continue over lines, and values of macros are those of the spec file's own context.",
  ["inputs", "configurations"],
  "every nesting of condition blocks with every combination of truth values, and every set of overriding macros",
  "Tests cover two fixed blocks with mocked expansion; the number of nesting/branch/truth combinations is unbounded.",
  ["specfile/conditions.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/sourcelist.py"],
  [("branch stack", "process_conditions"), ("expression evaluation", "resolve_expression")],
  ["valid attribute of tags / macro definitions / sources", "process_conditions"])

p("C07", "Sources and patches are listed with RPM's numbers and names",
  "The sources (and, separately, patches) of a spec file are all Source (Patch) tags of the preamble in order followed by all %sourcelist (%patchlist) entries in order; each has the number RPM gives it: the explicit number, or one more than the previous entry. Location, comments, validity, file name (part after the last slash, honouring a trailing #/name or ?x=name fragment) and remoteness are those of the underlying entry, and membership, counting, indexing and slicing agree with that list.",
  ["inputs"],
  "every mix of numbered and unnumbered tags and list sections",
  "Tests enumerate a few fixed tag lists; mixes of explicit, implicit, zero-padded numbers and several list sections are unbounded.",
  ["specfile/sources.py", "specfile/sourcelist.py", "specfile/utils.py"],
  [("enumeration and numbering", "Sources._get_tags, Sources._get_items"), ("filename extraction", "get_filename_from_location")],
  ["Specfile.sources()", "Specfile.patches()"])

p("C08", "Adding and removing sources and patches keeps all the others",
  "Inserting a source or patch (by index, by number, appended, or through add_patch) adds exactly one entry with the requested location next to its neighbours, in the numbering style in use and with a number distinct from its neighbours (renumbering only followers that would collide); every previously present entry keeps its location, comments and order. Duplicate locations are refused unless allowed and a refused or failed addition changes nothing; removing by index, slice, location or number removes exactly the designated entries.",
  ["inputs", "histories"],
  "every initial list, numbering style, position, number and sequence of additions and removals",
  "Tests sample about thirty single insertions; sequences, padding styles, condition blocks and list sections are not combined.",
  ["specfile/sources.py", "specfile/sourcelist.py", "specfile/tags.py", "specfile/specfile.py"],
  [("insertion", "Sources.insert, Sources.insert_numbered, _get_tag_format, _get_initial_tag_setup, _deduplicate_tag_names"), ("removal", "Sources.__delitem__, remove, remove_numbered"), ("add_patch", "Specfile.add_patch")],
  ["Specfile.sources()", "Specfile.patches()", "Specfile.add_patch()", "str(specfile)"])

p("C09", "The changelog is an ordered list of entries that edits locally",
  "A changelog section is split into entries at header lines, oldest entry first in the list, with header, content and EVR, timestamp style and day padding read from the header; lines before the first header and blank lines between entries are kept. Changing, adding or deleting entries (any index or slice, including negative ones) affects only those entries, and filtering by EVR range returns the contiguous range from the oldest entry reaching the lower bound to the newest not exceeding the upper bound.",
  ["inputs", "histories"],
  "every changelog text, every sequence of edits, every pair of bounds",
  "Tests use one five-entry changelog and a few bounds; entry boundaries and blank-line ownership under sequences of edits are not explored.",
  ["specfile/changelog.py", "specfile/utils.py"],
  [("entry splitting", "Changelog.parse"), ("deletion", "Changelog.__delitem__"), ("filter", "Changelog.filter"), ("header attributes", "ChangelogEntry.evr / extended_timestamp / day_of_month_padding")],
  ["Specfile.changelog()", "Changelog.parse / get_raw_section_data / filter"])

p("C10", "add_changelog_entry adds exactly one well-formed newest entry",
  "Adding a changelog entry puts exactly one new entry on top of every %changelog section that does not use %autochangelog and changes nothing else; it does nothing when there is none. The header carries the given or current date in the section's format (weekday, month and day padding preserved, extended form for datetimes or when the newest entry uses it), the given author and e-mail or the guessed packager, and the expanded EVR with %dist empty.",
  ["inputs", "configurations"],
  "every changelog layout (none, empty, several, automatic, padded, extended), every date, author, e-mail and EVR",
  "Tests add an entry with one fixed date to one-changelog files; several sections, paddings, extended timestamps and all dates are not covered.",
  ["specfile/specfile.py", "specfile/changelog.py"],
  [("entry assembly", "ChangelogEntry.assemble"), ("section loop", "Specfile.add_changelog_entry, Specfile.contains_autochangelog")],
  ["str(specfile)"])

p("C11", "%prep macros are found, edited, added and removed precisely",
  "Every line of %prep that invokes %setup, %patch, %autosetup or %autopatch appears once in order with its literal name, options and patch number, and no other line does (e.g. %patches); all other text is kept verbatim. Changing options or the number of one macro rewrites only that macro, adding a %patch macro puts it after the nearest lower-or-equal numbered (before the nearest higher) one, and removing by number, name or index removes exactly that line wherever it stands.",
  ["inputs", "histories"],
  "every %prep content and every sequence of edits",
  "Tests use single fixed sections; removal of the first macro, prefixes, conditional wrappers and edit sequences are not reached.",
  ["specfile/prep.py", "specfile/options.py"],
  [("macro recognition", "Prep.parse"), ("patch number", "PatchMacro.number"), ("add/remove", "Prep.add_patch_macro, Prep.remove_patch_macro, PrepMacros.__delitem__")],
  ["Specfile.prep()", "Prep.parse / get_raw_section_data"])

p("C12", "Option strings behave as getopt mappings and re-render faithfully",
  "Tokenizing an option string follows popt quoting rules with macro expansions kept as opaque units, and rendering it again gives a string that tokenizes to the same tokens. Reading an option gives its last occurrence's value (attached or separate, quoted or not), its default or False when absent; setting makes it read back as that value, deleting makes it absent, positional arguments behave as a list, and each of these leaves all other options and arguments and their order untouched, while type mismatches (flag vs. argument) are refused without any change.",
  ["inputs", "histories"],
  "every option string, option specification and sequence of reads, sets, deletes and positional edits",
  "Tests enumerate about fifty fixed cases; quoting, macros, attached arguments and edit sequences combine without bound.",
  ["specfile/options.py", "specfile/value_parser.py"],
  [("tokenizer", "Options.tokenize"), ("renderer", "Token.__str__, Options.__str__"), ("mapping", "Options._find_option, __getattr__, __setattr__, __delattr__"), ("positionals", "Positionals")],
  ["Options", "Options.tokenize", "Options.positional"])

p("C13", "Values are split into macro nodes exactly as RPM delimits them",
  "Parsing a value yields a sequence of literals, macro substitutions, conditional expansions, shell/expression expansions and built-ins whose concatenated texts are the value, with macro boundaries (nested brackets, escaped characters, %% escapes, ?/! prefixes) where RPM's expander puts them; an unterminated macro is reported as such. Macro-use detection (autorelease, autochangelog, conditional wrappers) sees a macro exactly when it occurs outside literal text, also inside conditional expansions.",
  ["inputs"],
  "every value string",
  "Tests parse about fifteen fixed strings; bracket nesting, escapes and prefixes combine without bound.",
  ["specfile/value_parser.py", "specfile/utils.py", "specfile/specfile.py"],
  [("node parser", "ValueParser.parse, ValueParser.flatten"), ("wrapper splitting", "split_conditional_macro_expansion"), ("detection", "Specfile.has_autorelease, Specfile.contains_autochangelog")],
  ["ValueParser.parse", "Specfile.has_autorelease", "Specfile.has_autochangelog"])

p("C14", "Updating a tag through its macros makes it expand to the new value",
  "After update_tag(name, value) the named tag expands to what the requested value expands to, obtained by changing only that tag, tags and macro definitions the old value refers to (directly or transitively, defined before the use and valid), and by enabling or disabling macro definitions tested in it. Definitions and tags matching the protected pattern are never changed, all other text stays the same, and the original macro references are kept whenever the requested value can be matched against them.",
  ["inputs", "configurations"],
  "every arrangement of macro definitions and tag values, every requested value and protection pattern",
  "Tests update three fixed spec files; chains, repeated references, conditional macros, protection and ambiguous matches combine without bound.",
  ["specfile/specfile.py", "specfile/value_parser.py"],
  [("pattern construction", "ValueParser.construct_regex"), ("recursive update and synchronisation", "Specfile.update_value, Specfile.update_tag")],
  ["Specfile.update_tag / update_value", "str(specfile)", "expanded tag values"])

p("C15", "Version and release are read and set consistently",
  "Reading version, release (without the dist suffix and minor bump), raw release, epoch and the other tag properties gives the value of the first valid tag of that name (nothing if missing); setting the release keeps the dist macro as written and drops a minor bump, and setting one property changes no other tag. Bumping the release increments exactly the number rpmdev-bumpspec would (in a release/baserelease macro if one is defined, otherwise in the tag, never with %autorelease), and updating the version with a pre-release pattern yields base~suffix and toggles the pre-release macro accordingly.",
  ["inputs", "histories"],
  "every release/version string form and every sequence of setters and bumps",
  "Tests sample a dozen release strings; forms of dist, minor bumps, pre-release markers and macro placement are unbounded.",
  ["specfile/specfile.py"],
  [("release split", "Specfile._split_raw_release, _get_updated_release"), ("bump", "Specfile._bump_release_string, bump_release"), ("prerelease", "Specfile.update_version")],
  ["Specfile properties", "str(specfile)"])

p("C16", "Nested editing contexts share one state and commit once, in order",
  "While a view of a Specfile is open, opening the same view with the same arguments again gives the same live object, so edits made through either are seen by both; different arguments or a different Specfile never share. When the opener leaves - normally or because of an exception - its edits become part of the enclosing view and finally of the text exactly once; leaving an inner reuse commits nothing, and afterwards opening the view again starts from the current text.",
  ["histories", "schedules"],
  "every properly nested sequence of opening, editing, leaving (normally or by exception) over all views, arguments and two Specfile objects",
  "Tests nest at most two contexts in one order; reuse, exceptions, several instances and mixed views in arbitrary nesting are not explored.",
  ["specfile/context_management.py", "specfile/specfile.py"],
  [("generator registry keyed by function arguments", "ContextManager.__call__"), ("consuming wrapper", "GeneratorContextManager"), ("write-back", "finally blocks of Specfile.lines/sections/tags/...")],
  ["view objects' identity and content", "str(specfile)", "file bytes with autosave"],
  [("open contexts", "suspended generators and their values per arguments", "ContextManager.generators / values")])

p("C17", "Expansions always reflect the current state of their own spec file",
  "Expanding an expression, reading expanded values, the parsed spec or the list of active macros through a Specfile gives what a fresh process would give for that object's current text, extra macros, source directory and call-specific macros. This holds after any history of edits, macro changes, failed parses, copies, and operations on other Specfile objects, none of which may leak into the result.",
  ["histories", "schedules", "configurations"],
  "every interleaving of edits, macro changes, expansions with and without extra macros, failing parses, creation, copying and deletion of several Specfile objects",
  "Parsing is skipped when a global fingerprint matches; tests check two interleavings while staleness depends on whole histories over several objects.",
  ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/macros.py"],
  [("parse fingerprint", "SpecParser.parse"), ("macro context reset", "SpecParser._do_parse, Macros.reinit"), ("invalidations", "SpecParser.__init__, SpecParser.__deepcopy__")],
  ["Specfile.expand", "expanded_* properties", "Specfile.rpm_spec", "Specfile.get_active_macros"],
  [("global parse fingerprint", "inputs of the last successful parse", "SpecParser._last_parse_hash"), ("global macro context", "RPM's process-wide macro table", "rpm")])

p("C18", "Parsing leaves files, environment and streams as they were",
  "Parsing a spec file, whether it succeeds, fails or is forced with missing sources, leaves the source directory exactly as before (no placeholder left behind, no existing file touched or removed), restores LANG/LC_ALL and the standard error stream, and leaves no temporary file. Forced parsing succeeds when only missing sources or includes in the source directory prevented it, reports that as tainted, and otherwise fails with the RPM error.",
  ["inputs", "fault_sequences", "configurations"],
  "every combination of present/missing sources, includes and loads, parse failures, unwritable or odd source names, environment settings",
  "Tests cover one include spec with all files missing; combinations with failures, pre-existing files and file-system errors are not explored.",
  ["specfile/spec_parser.py", "specfile/context_management.py"],
  [("placeholder sources", "SpecParser._make_dummy_sources"), ("environment sanitising", "SpecParser._sanitize_environment"), ("stderr capture", "capture_stderr"), ("forced parse", "SpecParser._do_parse")],
  ["source directory content", "os.environ", "file descriptor 2", "Specfile.tainted"])

p("C19", "EVR objects order like RPM and round-trip through strings",
  "Comparisons of EVR objects agree with RPM's version comparison (epoch, then version, then release) and therefore form a total preorder with consistent ==, !=, <, <=, >, >= and equal hashes for equal objects; NEVR/NEVRA objects are ordered only when name (and architecture) agree and are unequal otherwise. Parsing a string and printing it gives back an equal object, and strings that are not a valid E:V-R, N-E:V-R or N-E:V-R.A are refused.",
  ["inputs"],
  "every pair and triple of version strings",
  "Tests compare a dozen pairs; order laws quantify over all triples of arbitrary strings.",
  ["specfile/utils.py"],
  [("comparison", "EVR._cmp and rich comparison methods of EVR, NEVR, NEVRA"), ("parsing", "from_string"), ("hash", "__hash__")],
  ["EVR, NEVR, NEVRA"])

p("C20", "Copies are equal and independent, representations evaluate back",
  "A deep copy of a Specfile, of any view or of any of their elements equals the original and shares no editable state with it, so edits to either never show in the other; a shallow copy or slice holds the same elements in an independent list. Equality distinguishes objects whose text differs, and evaluating the repr of a library object whose parts have literal representations gives an equal object.",
  ["inputs", "histories"],
  "every object reachable from a spec file, every edit after copying",
  "Tests copy one instance of each class and change one attribute; which parts stay shared is only visible for particular later edits.",
  ["specfile/specfile.py", "specfile/tags.py", "specfile/sections.py", "specfile/changelog.py", "specfile/macro_definitions.py", "specfile/prep.py", "specfile/options.py", "specfile/sources.py", "specfile/formatter.py", "specfile/spec_parser.py"],
  [("copy protocol", "__deepcopy__ / copy() methods and copying constructors"), ("equality", "__eq__ methods"), ("repr formatting", "format_expression, __repr__ methods")],
  ["copy.copy / copy.deepcopy", "==", "repr"])

p("C21", "Process-wide macro operations do what they say",
  "Defining a macro makes it expand to the new body whatever was defined before, removing it makes it undefined no matter how often it was stacked, and the dump lists every defined macro once with its name, options, body (continued lines joined) and level. Reinitialising restores the macros of RPM's configuration and drops everything above the chosen level; a failing expansion raises an RPM error carrying RPM's message and changes no macro.",
  ["histories", "inputs"],
  "every sequence of define, remove, stack, reinitialise and expand operations over arbitrary names and bodies",
  "Tests do one define/remove each; stacked definitions, odd names, multi-line bodies and sequences are not explored.",
  ["specfile/macros.py", "specfile/exceptions.py"],
  [("remove until undefined", "Macros.remove"), ("define", "Macros.define"), ("dump parser", "Macros._parse, Macros.dump"), ("reinit", "Macros.reinit")],
  ["Macros.define / remove / expand / dump / reinit"])

p("C22", "The packager is guessed from the documented places in order",
  "The guessed packager is the RPM_PACKAGER environment variable if set, otherwise the %packager macro if defined, otherwise composed of the git user e-mail and the git user name or, lacking one, the Unix full name or login name, in the form 'Name <e-mail>' or whichever part is available. Adding a changelog entry without an author uses it and refuses with an error, changing nothing, when nothing can be guessed.",
  ["configurations"],
  "every combination of set, empty and missing environment variable, macro, git configuration and passwd entry",
  "Tests mock a few of the combinations one at a time.",
  ["specfile/changelog.py", "specfile/specfile.py"],
  [("lookup order", "guess_packager, _getent_name"), ("failure", "Specfile.add_changelog_entry")],
  ["guess_packager", "Specfile.add_changelog_entry"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
