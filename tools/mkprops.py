#!/usr/bin/env python3
"""Maintainer aid: writes properties.jsonl from the table below."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("P01", "Every object reference obtained is handed on or given back, exactly once",
  "On every way through every operation, including each early failure return, a reference to a context, configuration, mold or other "
  "library object that the operation obtained is either handed to its caller, stored in a structure that owns it, or given back before "
  "the operation returns. Nothing is kept alive by an operation that failed, and no operation drops a reference it was not given.",
  ["inputs", "fault_sequences", "histories"],
  "every path of every function of the library, the bundled storage formats and the command line tool, for every input and every "
  "failure status of the calls it makes",
  "The tests run without leak checking and reach few of the failure exits; a reference lost on an error exit changes no asserted result.",
  ["lib/context.c", "lib/context_keyval.c", "lib/context_default.c", "lib/context_section.c", "lib/context_restriction.c",
   "lib/context_documentation.c", "lib/generate.c", "lib/update.c", "lib/validate.c", "lib/query.c", "lib/compare.c",
   "lib/disir_config_query.c", "lib/disir_mold.c", "lib/disir_config.c", "lib/fslib", "cli"],
  [("reference counted contexts", "lib/context.c (dc_putcontext, dc_destroy, dc_finalize)"),
   ("owning handles", "disir_config_finished / disir_mold_finished")])

p("P02", "Temporary memory, streams, handles and descriptors are always given back",
  "On every way through every operation, each block of memory, open stream, directory, archive handle, descriptor or collection that "
  "the operation obtained is handed to its caller, stored in a structure that will give it back, or given back before the operation "
  "returns. This includes the exits taken after a partial failure.",
  ["inputs", "fault_sequences"],
  "every path of every function of the library, the bundled storage formats and the command line tool, for every failure of the calls made",
  "Leaks are invisible to the assertions of the tests, and the failing allocations, opens and reads that lead to them are never provoked.",
  ["lib/disir_import.c", "lib/disir_export.cc", "lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/fslib", "lib/disir_plugin.c",
   "lib/disir.c", "lib/util.c", "lib/context_value.c", "lib/element_storage.c", "cli"],
  [("archive sessions", "lib/disir_archive.cc, lib/disir_import.c"), ("entry lists", "disir_entry_finished"),
   ("storage readers and writers", "lib/fslib/read.c, lib/fslib/write.c")])

p("P03", "Nothing is used or given back after it was given back",
  "No operation, on any path, reads, writes, hands out or gives back again an object or memory block whose only hold on it that "
  "operation has already given back. A failed operation leaves the caller's handle either still valid or cleared.",
  ["inputs", "histories", "fault_sequences"],
  "every path of every function, for every status the calls it makes can return",
  "Reading freed memory usually still shows the old bytes in a test run; the orders of failure that lead there are not exercised.",
  ["lib/context.c", "lib/disir.c", "lib/disir_import.c", "lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/query.c", "lib/update.c",
   "lib/fslib", "lib/collection.c", "lib/element_storage.c"],
  [("release operations", "dc_putcontext, dc_destroy, dc_finalize, *_finished, free, close calls")])

p("P04", "Public operations refuse missing arguments instead of crashing",
  "Calling any exported operation of the library with a missing (null) object, text or output location where one is required is "
  "answered with an error status or ignored; it never reads or writes through the missing pointer, neither directly nor in an "
  "operation it calls.",
  ["inputs"],
  "every pointer argument of every exported function, on every path",
  "Tests try null for a handful of arguments of a handful of functions, and never in combination with the other arguments that select the path.",
  ["lib/context.c", "lib/context_keyval.c", "lib/context_value.c", "lib/context_default.c", "lib/context_documentation.c",
   "lib/context_restriction.c", "lib/context_section.c", "lib/compare.c", "lib/collection.c", "lib/disir.c", "lib/disir_config.c",
   "lib/disir_config_query.c", "lib/disir_mold.c", "lib/disir_import.c", "lib/disir_export.cc", "lib/generate.c", "lib/query.c",
   "lib/update.c", "lib/util.c", "lib/validate.c"],
  [("argument validation", "the first statements of every exported function; CONTEXT_NULL_INVALID_TYPE_CHECK")])

p("P05", "Context operations check the kind of context before using its content",
  "A context is a section, keyval, default, documentation, restriction, configuration or mold, and only content belonging to its actual "
  "kind is ever read or written. An operation given a context of a kind it does not serve reports a wrong-context status (or another error) "
  "and leaves the context unchanged, whatever kind it is given.",
  ["inputs", "programs"],
  "every access to kind-specific content in the library, for all seven kinds a caller can pass",
  "Tests pass the wrong kind to a few entry points only; most of the (operation, kind) matrix, and all of it below internal helpers, is unexplored.",
  ["lib/context.c", "lib/context_private.h", "lib/context_util.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_default.c",
   "lib/context_documentation.c", "lib/context_restriction.c", "lib/query.c", "lib/validate.c", "lib/generate.c", "lib/update.c"],
  [("kind test", "dc_context_type, CONTEXT_TYPE_CHECK, CONTEXT_NULL_INVALID_TYPE_CHECK"), ("kind-specific content", "lib/include/context_private.h")])

p("P06", "No operation acts on, or answers with, a value that was never set",
  "Every status, count, pointer or text an operation returns, tests or passes on has been given a value on the path that leads there. In "
  "particular an operation that stops early answers with a defined status, and outputs it reports as filled are filled.",
  ["inputs", "fault_sequences"],
  "every local variable and output of every function, on every path",
  "An unset local usually happens to hold zero in a test process; the early exits that skip the assignment are not taken.",
  ["lib", "lib/fslib", "cli", "plugins"],
  [("status variables", "every function returning a status"), ("outputs filled by callees", "out-parameters")])

p("P07", "Optional plugin operations are only invoked when the plugin provides them",
  "A plugin may leave any operation it does not support unset. The library invokes an operation of a plugin only after establishing "
  "that this plugin provides it, and otherwise answers with a defined error or skips that plugin.",
  ["programs", "configurations"],
  "every invocation of a plugin-provided operation, for every subset of operations a plugin may provide",
  "The plugins used by the tests provide nearly every operation, so the missing-operation paths run for at most one of them.",
  ["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_plugin.c", "lib/fslib", "include/disir/plugin.h", "include/disir/fslib/util.h"],
  [("operation table", "include/disir/plugin.h struct disir_register_plugin"), ("dispatch", "lib/disir_config.c, lib/disir_mold.c")])

p("P08", "Failed allocations, lookups and calls are never treated as results",
  "The result of an operation that can fail by yielding nothing (an allocation, a lookup, an opened stream, a called function that reports "
  "failure) is used as an object only on paths where it is known to have succeeded. Running out of memory or not finding something leads "
  "to an error status, never to a crash.",
  ["fault_sequences", "inputs"],
  "every fallible call in the library, the bundled storage formats and the command line tool, and every later use of its result",
  "Allocation never fails in the test runs, and lookups are made for things that exist.",
  ["lib", "lib/fslib", "cli"],
  [("allocation", "malloc, calloc, strdup, asprintf results"), ("lookups", "query.c, disir_plugin.c, element_storage.c")])

p("P13", "Versions are totally ordered and take effect from their own version on",
  "Comparing two versions orders them by major number, then by minor number, over the whole range of both: exactly one of older, equal "
  "and newer holds, whatever the numbers. Wherever the library tests an element's introduced or deprecated version against a version of "
  "interest, the element counts as introduced in the version that introduces it and all later ones, and as deprecated in the version that "
  "deprecates it and all later ones; neither boundary is one step off.",
  ["inputs"],
  "every pair of versions, and every place where an introduced or deprecated version is tested against another version",
  "Tests compare small, hand-picked versions; the boundary itself and large numbers are sampled at two or three points.",
  ["lib/util.c", "lib/context_default.c", "lib/context_documentation.c", "lib/context_restriction.c", "lib/update.c", "lib/context.c", "lib/validate.c"],
  [("order", "dc_version_compare"), ("selection by version", "callers of dc_version_compare")])

p("P14", "Every kind has one name, and the names written are the names read",
  "Each status, context kind, value type and restriction type has its own text, texts are looked up within their table whatever value is "
  "asked for, every value and restriction type the library writes by name is recognised as that same type when read back, and the keys "
  "under which molds and configs are written to JSON are exactly the keys under which they are read.",
  ["inputs"],
  "every enumerator of every named enumeration, every number passed for one, every name and key of the JSON formats",
  "Tests round-trip a few documents; an enumerator, key or out-of-range number no test uses is not noticed.",
  ["lib/util.c", "lib/context_util.c", "lib/context_restriction.c", "lib/fslib/json/jsonIO.cc", "lib/fslib/json/json_serialize_mold.cc",
   "lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json/json_serialize_config.cc", "lib/fslib/json/json_unserialize_config.cc"],
  [("name tables", "disir_status_strings, disir_context_type_string, disir_value_type_string, disir_restriction_strings"),
   ("reader tables", "lib/fslib/json/jsonIO.cc"), ("keys", "lib/include/json/dplugin_json.h")])

p("P16", "Messages are formatted from fixed text with arguments that match it",
  "Every formatted message, text or query is built from a format that is part of the program (or the caller's own format parameter, passed "
  "on), never from names, values or messages that come from configuration data, and the arguments given agree in number and type with "
  "what the format asks for.",
  ["inputs"],
  "every call of a formatting function (printf family and the project's own variadic functions) in library, storage formats, tool and plugins",
  "A wrong conversion prints a plausible text on the test platform; a percent sign in a name is not among the test data; debug messages are not produced.",
  ["lib", "lib/fslib", "cli", "plugins"],
  [("formatting functions", "dx_log_disir, dc_fatal_error, dc_query_resolve_context, snprintf and others with a format parameter")])

p("P18", "Two values compare equal exactly when type and content are the same",
  "Comparing two values reports equality exactly when they have the same type and the same content: the same text over its full length, "
  "the same integer over its whole range, the same float, the same truth value. No difference is lost to rounding, truncation, wrap-around, "
  "a common prefix or letter case.",
  ["inputs"],
  "every pair of values of every type",
  "Update conflicts and difference reports are tested with a few values that differ plainly.",
  ["lib/util.c", "lib/update.c", "lib/compare.c"],
  [("value comparison", "dx_value_compare"), ("uses", "disir_update_continue, dc_compare")])

p("P19", "Every loop moves towards its end on every path through it",
  "Each time round a loop of the library, the tool or the plugins, whatever the path taken through its body, something its condition "
  "depends on moves on: the next element is taken, the counter steps, the input is consumed. No list, queue, collection or file content "
  "makes an operation walk the same element for ever.",
  ["inputs", "programs"],
  "every loop, every path from its head back to its head",
  "The skipping branches that forget to advance are taken only for particular mixtures of elements; a test that hits one hangs rather than fails.",
  ["lib", "lib/fslib", "cli", "plugins"],
  [("queue iteration", "lib/include/mqueue.h MQ_FOREACH and its users"), ("collection iteration", "dc_collection_next loops"),
   ("directory iteration", "lib/fslib/query.cc")])

p("P25", "No library operation ends the program that calls it",
  "Whatever it is given, an operation of the library answers with a status. None of its paths reaches a call that ends the process: the "
  "internal assertions that do so stand only where no state of the contexts and no argument can lead.",
  ["inputs", "programs"],
  "every path of every library function to a call of abort, exit or the internal crash function",
  "Each such call sits behind a combination of kind and state that the tests never construct.",
  ["lib/context.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_documentation.c", "lib/context_restriction.c",
   "lib/validate.c", "lib/util.c", "lib/log.c"],
  [("crash function", "dx_crash_and_burn"), ("kind switches", "default branches of switches over dc_context_type")])

p("P10", "Every write into a buffer stays inside the buffer",
  "Whatever the lengths of names, paths, values and messages, every text or byte written into a buffer or array, by the library, its storage "
  "formats, the command line tool or the plugins, lands inside the memory set aside for it: each copy, append, formatted print and indexed "
  "store is bounded by the size of its destination, also where destination and size were handed down from a caller; the last "
  "character of a text is only looked at when there is one. Sizes stated by the user "
  "of the library are taken to be true.",
  ["inputs"],
  "every call that writes text or bytes and every store at a computed index; every length and index",
  "An overrun needs a path, name or value of one particular length; the tests use short ones, and a few bytes too many often go unnoticed.",
  ["lib", "lib/fslib", "cli", "plugins"],
  [("path buffers", "lib/fslib/util.cc, lib/fslib/query.cc, lib/disir_archive.cc"), ("string values", "lib/util.c dx_value_set_string, dx_value_stringify"),
   ("messages", "lib/log.c, lib/error.c"), ("names", "lib/context.c, lib/query.c")])

p("P11", "An operation whose step failed does not answer OK",
  "When a step an operation depends on fails (an operation of the library or of a plugin it calls answers with a failure, memory runs out, a "
  "file, directory, stream or archive cannot be read or written), the operation answers with a failure too; it never answers OK for work it "
  "did not do. Exempt are giving back resources, lookups whose answer is that there is nothing, content that is invalid and is marked so, and "
  "searches over several plugins or directories, which pass over the ones that fail.",
  ["inputs", "fault_sequences", "crash_points"],
  "every function answering with a status x every step in it x every path to an OK answer",
  "The failure of a particular step (the third allocation, the last flush to a full disk, a truncated archive) never happens in a test run.",
  ["lib", "lib/fslib", "cli", "plugins"],
  [("writing configs and molds", "lib/fslib/*/*.cc, lib/disir_archive.cc, lib/instance.c"), ("reading", "lib/fslib/json, lib/fslib/toml"),
   ("updates and defaults", "lib/update.c, lib/generate.c")])
p("P12", "A config only takes values its mold allows",
  "An integer, float or enum value is allowed exactly when one of the value restrictions of the keyval that are in force for the config's "
  "version (introduced no later, not deprecated yet) allows it, or when none is in force (an enum needs one): a range allows its ends and all "
  "between, a numeric or enum restriction what is equal. A value that is not allowed is never stored in a finalized keyval that was valid, and "
  "setting it never answers OK. A keyval of a config that has no counterpart in the mold, a value of another type than the mold says, a value "
  "that is not allowed or a malformed name is never validated as OK.",
  ["inputs", "histories"],
  "every value and type, every combination of restrictions, versions and bounds in every order relation (lists up to the stated length)",
  "The verdict depends on how the value, the bounds and three versions stand to each other, for every restriction of a list; the tests try a few.",
  ["lib/context_restriction.c", "lib/context_value.c", "lib/validate.c"],
  [("verdict", "lib/context_restriction.c dx_restriction_exclusive_value_check"), ("setting", "lib/context_value.c dc_set_value_*"),
   ("validation", "lib/validate.c dx_validate_context")])
p("P20", "A valid config holds as many of each entry as its mold says, all of it valid",
  "How many of a keyval or section there must and may be is what the newest minimum and maximum restriction introduced no later than the version "
  "asked about says (one without a restriction, any number for a maximum of zero, a maximum below the minimum counts as the minimum), and "
  "none for an entry not introduced yet or deprecated by then. A section or config that holds fewer or more of any entry of its mold, or that "
  "holds something invalid, is never validated as OK, and no entry beyond the maximum is accepted into a finalized parent.",
  ["inputs", "histories"],
  "every list of restrictions and defaults (up to the stated length) in every order of their versions; every count, minimum and maximum",
  "The answer depends on the order of up to seven versions and on which restriction comes first in the list; the tests cover a handful.",
  ["lib/context_restriction.c", "lib/validate.c"],
  [("numbers", "lib/context_restriction.c dx_restriction_entries_value"), ("validation", "lib/validate.c validate_inclusive_restrictions, validate_children")])

p("P09", "A request for a group goes to its plugins, in their order, and to no other",
  "Reading, writing, removing, querying and listing entries of a group calls only plugins registered for exactly that group, through the "
  "function of that operation, with the instance, that plugin's own record and what the caller gave. A config or mold is read from the first "
  "plugin, in the order of registration, that says it holds the entry; an entry is written and removed through the first plugin of the "
  "group; a query is answered by the first that holds the entry; a list holds every name once, from the first plugin that has it. What the "
  "plugin answers is answered; without a plugin to answer, or without an argument that must be given, nothing is called and the answer is "
  "not OK; an entry that names a namespace is never written or removed.",
  ["inputs", "histories"],
  "every queue of up to two plugins (three in the thorough check), of the group or not, with or without each function, and every answer of theirs",
  "The tests register one plugin, or two that answer alike; which one is called depends on the order, the groups and the answers of all.",
  ["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_plugin.c"],
  [("configs", "lib/disir_config.c disir_config_read, disir_config_write, disir_config_remove, disir_config_entries, disir_config_query"),
   ("molds", "lib/disir_mold.c disir_mold_read, disir_mold_write, disir_mold_entries, disir_mold_query"),
   ("by group", "lib/disir_plugin.c dx_retrieve_plugin_by_group")])
p("P22", "An import writes the entries resolved for it and no other, and says which",
  "An entry of an archive is OK and without conflict only when the system has its group and its mold, it can be read and is valid, it has the "
  "mold's version and no config stands in its place; a config in its place is always marked as a conflict. An entry is marked for import only "
  "by an option its state admits, after the update that option asks for, with a config found valid; an option that is refused leaves the entry as "
  "it was. Finishing the import writes every marked entry once, under its group and name, goes on when one fails, writes nothing else, and "
  "reports exactly the written ones as imported; discarding it writes nothing.",
  ["inputs", "histories"],
  "every state of an entry x every option; every list of up to two entries (three in the thorough check) x every outcome of writing each",
  "The tests import a few archives in which every write succeeds; the guarantee is over all states, orders and failures.",
  ["lib/disir_import.c"],
  [("classifying", "lib/disir_import.c dx_resolve_config_import_status"), ("resolving", "lib/disir_import.c disir_import_resolve_entry"),
   ("finishing", "lib/disir_import.c disir_import_finalize")])
p("P24", "A plugin is registered in order, loaded while registered, and told once it ends",
  "The plugins a config lists are loaded and registered in its order, each under the name, group and base identifiers of its own element; one "
  "that lacks a file, a name or a group, or fails to load or to register, makes the instance refused and is unloaded, and what was built is "
  "destroyed while a config the caller gave stays the caller's. A plugin registered goes behind those that were there with all it was "
  "given; a refused one leaves the instance as it was. Destroying the instance tells every plugin once that it is finished, with its own "
  "record, before its code is unloaded, and unloads each loaded plugin once.",
  ["inputs", "histories"],
  "every config listing up to two plugins, every subset of their keyvals missing one by one, every step of loading failing; every queue of up to two plugins",
  "Tests load plugins that exist and register; a failure half way through, and the order of finishing and unloading, are never exercised.",
  ["lib/disir.c", "lib/disir_plugin.c"],
  [("loading", "lib/disir.c load_plugin, load_plugins_from_config, disir_instance_create"), ("registering", "lib/disir_plugin.c disir_plugin_register"),
   ("ending", "lib/disir.c disir_instance_destroy")])

p("P23", "An object lives as long as somebody holds it, and what it owns goes with it",
  "Taking a reference to a context adds one and giving one back takes one; the context is freed when the last is given back and not before. "
  "Destroying a context marks it destroyed, removes it from where its parent keeps it, gives back the references the tree held (its own, and those to its parent and root), destroys what it "
  "owns once, and leaves the caller no pointer; beginning a child gives the caller one reference and the child one to its parent and root, or nothing at all "
  "when it fails; finalizing one hands the caller's reference to the parent when it is accepted and leaves it with the caller when it is not. "
  "Every string, value, storage, list and collection a context of any kind has been given is freed with it exactly once.",
  ["inputs", "histories"],
  "every kind of context x kind of parent x state x answer of what is called, with one reference or any number above it; every combination of what it was given",
  "A count that is one too low or too high shows long after, in another call; the tests see the results of calls, not what is left behind.",
  ["lib/context.c", "lib/context_config.c", "lib/context_mold.c", "lib/context_section.c", "lib/context_keyval.c", "lib/context_documentation.c",
   "lib/context_default.c", "lib/context_restriction.c"],
  [("references", "lib/context.c dx_context_incref, dx_context_decref, dc_putcontext"), ("destroying", "lib/context.c dc_destroy, dx_context_destroy; dx_*_destroy of each kind"),
   ("beginning and finalizing", "lib/context.c dc_begin, dc_finalize, dc_finalize_keep_reference")])
p("P21", "A collection hands out each living context once, in order",
  "Each call for the next context of a collection answers the next that is not destroyed, in the order they were put in, as a reference the caller "
  "owns, and then that it is exhausted; contexts destroyed between the calls, before or behind the iterator, are left out and make it neither skip nor repeat another. "
  "The size is the number of those not destroyed; a reset starts over; the collection gives back each reference it holds once, when a destroyed context is left out "
  "or the collection is finished.",
  ["inputs", "histories"],
  "every collection of up to three contexts (four in the thorough check), every subset of them destroyed, every position of the iterator, every capacity",
  "The tests destroy one context at one position; the order of destruction and iteration is what matters.",
  ["lib/collection.c"], [("collection", "lib/collection.c dc_collection_next, dc_collection_size, dx_collection_coalesce, dx_collection_push_context")])
p("P17", "Elements are found under their name and in the order they were added",
  "An element added to a storage is in it once, under the name it was added with and behind those added before; one that cannot be added leaves the storage as it "
  "was. A lookup by name and index answers the element of that name added at that position, as a reference of the caller's, a lookup of all of a name or of all elements "
  "a collection of exactly those, in the order of addition, and that there is none otherwise. Removing an element takes "
  "that one out of both orders and no other, and gives back the reference the storage held; destroying the storage gives back all.",
  ["inputs", "histories"],
  "every storage of up to two elements (three in the thorough check) with equal or different names, every element and index asked for, every allocation failing",
  "The storage keeps a map and a list in step; the tests seldom remove, and never make an addition fail.",
  ["lib/element_storage.c", "lib/context.c"],
  [("storage", "lib/element_storage.c"), ("lookup", "lib/context.c dc_find_element, dc_find_elements, dc_get_elements")])

p("P15", "What counts for a version is the newest introduced no later",
  "Documentation, defaults, restrictions, keyvals and sections that are finalized are in what they belong to, once: documentation and defaults in the order of "
  "the versions that introduce them, whatever the order they were added in, restrictions and elements behind those added before; what is refused (a second documentation "
  "of one version, an element without a name or without room) is not in it, and whether it is valid is answered. The documentation and the default of a version, for "
  "reading it as text and for setting a keyval to it, is the newest introduced no later than that version, the newest of all when no version is given, and there is none "
  "only when none was added. Introduced and deprecated versions are kept and answered as given, and a mold has the newest version of anything finalized in it.",
  ["inputs", "histories"],
  "every list of up to two entries (three in the thorough check), every order of their versions, of the one added and the one asked about, every kind of parent, "
  "every answer of the validation",
  "The tests add two or three versions in ascending order and ask for one of them.",
  ["lib/context_default.c", "lib/context_documentation.c", "lib/context_restriction.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_mold.c",
   "lib/context.c"],
  [("in force", "lib/context_default.c dx_default_get_active, lib/context_documentation.c dc_get_documentation"),
   ("put in", "dx_documentation_add, dx_default_finalize, dx_restriction_finalize, dx_keyval_finalize, dx_section_finalize"),
   ("versions", "lib/context.c dc_add_introduced, dc_finalize; lib/context_mold.c dx_mold_update_version")])

p("P26", "Unpacking an archive stays within its folder and is whole when it is OK",
  "Whatever an archive contains, unpacking it writes only below the folder it is unpacked to: an entry is written under that folder and its own name, "
  "a name that leads out of it or is cut off, a hard link, a symbolic link or a device is refused, and nothing is written through a symbolic link. "
  "When unpacking answers OK every entry up to the end of the archive has been written with all of its data, and neither reading the archive "
  "nor writing an entry failed.",
  ["inputs"], "every archive of up to two entries (three in the thorough check) of any kind, name, link and size, every answer of libarchive",
  "The tests unpack archives that the library itself has written.",
  ["lib/disir_archive_util.cc", "lib/disir_archive.cc", "lib/disir_export.cc"],
  [("unpacking", "lib/disir_archive_util.cc dx_archive_extract")])

p("P30", "What is written to a storage format reads back equal",
  "A mold or config serialized by any of the storage formats and read back through the same format compares equal to what was written, for "
  "every content a context can hold.",
  ["inputs"], "every mold and config x every storage format",
  "Tests write and read a few fixed documents; the guarantee is over all contents.",
  ["lib/fslib"], [("formats", "lib/fslib/json, lib/fslib/toml")])
p("P31", "Updating a config to a new mold version keeps what the user changed",
  "After an update every keyval whose value the user had changed has that value, every other has the default of the new version, and nothing "
  "else differs, over any sequence of mold versions.",
  ["inputs", "histories"], "every config, mold and pair of versions",
  "Depends on whole documents and on the history of the mold.", ["lib"], [("update", "lib/update.c")])
p("P32", "A config generated from a mold is valid for the version it is generated for",
  "Generating a config from any valid mold, for any version the mold knows, gives a config that validates.",
  ["inputs"], "every mold and version", "The tests generate from a few molds.", ["lib"], [("generate", "lib/generate.c")])
p("P33", "A write that is interrupted leaves the old entry or the new one",
  "Whatever the point at which writing a config or mold stops (power loss, full disk, kill), the entry on disk is afterwards the complete old "
  "one or the complete new one.",
  ["crash_points"], "every write x every point of interruption", "Tests do not interrupt writes.", ["lib/fslib"],
  [("writing", "lib/fslib/write.c, lib/instance_mold.c")])
p("P34", "A difference report lists every difference and nothing else",
  "Comparing two contexts reports an entry for each element that differs, and none when they are equal.",
  ["inputs"], "every pair of contexts", "The tests compare a few pairs.", ["lib"], [("comparison", "lib/compare.c")])

#MORE

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as o:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            o.write(json.dumps(x) + "\n")
