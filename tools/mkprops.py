#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the long lines are editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": files[0]}]}
    if state: a["state"] = [{"name": state.split(":")[0], "meaning": state.split(":")[1].strip()}]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "First-found precedence across hierarchy levels and locations",
  "With the default merge strategy a lookup returns the value of the first hierarchy level, in configured order, and within a level of the first location, in listed order, that defines the key; a value that is explicitly null, false, empty or zero counts as defined. "
  "A location that doesn't exist, a file without the key and a function that reports not-found are skipped, nothing after the first hit is consulted for the key, and when no level defines the key the outcome is not-found rather than an empty value or an error. "
  "The same precedence holds between several top-level providers that are combined in one session.",
  "inputs", "every hierarchy (levels, locations, kinds of data functions), every placement of a key in the data files, every key",
  "The tests use a few fixed hierarchies with one or two levels; the precedence rule quantifies over all placements of present, absent, null and missing-file across levels and locations.",
  ["session/invocation.go", "merge/strategy.go", "internal/datahashprovider.go", "internal/lookupkeyprovider.go", "provider/configlookupkey.go", "provider/muxlookupkey.go"],
  "MergeHierarchy iterates the data providers and MergeLocations the locations of each of them; the first-found strategy stops at the first non-nil value")

p("P02", "Merge strategies combine the found values exactly as specified",
  "unique yields an array with every element of every found value exactly once, arrays flattened, in precedence order (a value that is not an array stays as it is when the hierarchy has only one place that could define it); hash yields one map with the union of the keys where the highest precedence value of each key wins as a whole; deep does the same recursively through nested maps and joins non-empty arrays to one array without duplicates, higher precedence first. "
  "Values of a kind that the strategy cannot combine never corrupt the result: the higher precedence value is kept for hash and deep. "
  "Merging never alters the source data, skips levels that lack the key, and finds a value exactly when at least one level defines the key.",
  "inputs", "all tuples of values (scalars, null, arrays, nested arrays, maps, mixed kinds) found at any combination of levels and locations, for every strategy",
  "Table tests cover a handful of value pairs; the law must hold for any number of values of any shape, including mixed kinds, empty collections and values merged at both the location and the level stage.",
  ["merge/strategy.go", "merge/deepmerge.go", "session/invocation.go"],
  "doLookup folds the strategy's merge over the variants; Deep recurses over maps and arrays; applied once over the locations of a provider and once over the providers")

p("P03", "Merge strategy selection and lookup_options",
  "The strategy of a lookup is the one explicitly requested, else the one that lookup_options gives for the root of the looked up key (as a name or as a hash with a strategy), else first; an unknown strategy is an error. "
  "lookup_options are assembled by deep-merging the lookup_options of every level of the hierarchy with higher levels taking precedence, and the options of one key never influence another key. "
  "lookup_options itself is never returned as data, not even when a part of it is looked up with a dotted key.",
  "inputs", "all distributions of lookup_options over the levels, all keys, all explicit merge requests",
  "Tests exercise one options hash in one file; selection depends on the interplay between explicit option, per-level options, key roots and several top-level providers.",
  ["session/invocation.go", "session/resolvedconfig.go", "provider/configlookupkey.go", "provider/muxlookupkey.go"],
  "resolvedConfig.Resolve deep-merges lookup_options at resolve time; SetMergeStrategy gives precedence to the explicit option; Lookup refuses lookup_options")

p("P04", "Key syntax and digging into nested values",
  "A key is split at dots into segments; a segment that is quoted in whole or in part is taken literally (dots included) and is always a string while an unquoted segment that is a decimal integer is an index; empty unquoted segments, unterminated quotes and an unquoted integer in first position are errors, never silently something else. "
  "The first segment selects the value and each following segment either selects the element with that index of an array, the value of that key of a map, or makes the whole lookup not-found; an out of range index or a segment applied to a scalar is not-found, never an error and never another element. "
  "The outcome of a dotted lookup is the outcome of looking up the first segment followed by digging, whatever the merge strategy.",
  "inputs", "all strings used as keys, all values that the first segment may resolve to",
  "Key strings form an unbounded language (quotes, dots, signs, digits, empty segments) and digging is a partial function of arbitrary nested values; the tests list a few keys.",
  ["api/key.go", "session/invocation.go", "provider/configlookupkey.go"],
  "NewKey parses with parseUnquoted and parseQuoted; Key.Dig walks the parts; ivContext.Lookup looks up the root and then digs")

p("P05", "Interpolation of data values",
  "Every %{...} expression in a string found in data, at any depth in arrays, map values and map keys, is replaced: a plain expression or scope() by the (possibly dotted) scope variable, lookup()/hiera() by the string form of the looked up value, literal() by its argument; unresolved expressions and the empty forms become the empty string and all other text is preserved unchanged. "
  "alias() and strict_alias() are accepted only as the entire string and then yield the looked up value with its type intact; when the target isn't found alias yields an empty string and strict_alias makes the value not-found. "
  "Unknown methods and malformed keys in expressions are errors, and values of scope variables are themselves interpolated.",
  "inputs", "all strings with zero or more expressions nested in any data structure, all scopes, all chains of references",
  "The expression language and its placement in nested data is unbounded; tests cover single expressions in flat strings.",
  ["session/interpolate.go", "internal/datahashprovider.go", "session/invocation.go"],
  "InterpolateString replaces the matches of a pattern using getMethodAndData; doInterpolate recurses through arrays and maps; InterpolateInScope digs into the scope")

p("P06", "The configuration determines exactly which data is consulted",
  "For each hierarchy entry the data function, its options, the data directory, plugin directory and the ordered list of locations (path, paths, glob, globs, uri, uris, mapped_paths) are those of the entry, else those of the defaults section, else the built-in defaults (including the directory environment variables and the default hierarchy used when no config file or hierarchy exists), with relative directories based on the directory of the config file. "
  "Variables in these settings are replaced using the scope of the invocation, globbed files are consulted in alphanumerical order and mapped_paths yields one location per element of its variable in order, with the element visible only to its own template. "
  "A function receives precisely the configured options plus the resolved location and the key that is looked up.",
  "inputs", "all configurations that are valid, all scopes, all sets of files on disk, all values of the two environment variables",
  "The tests pin a few configurations; resolution is a product of entry kind, location kind, defaults, scope values, environment and file system content.",
  ["config/config.go", "config/entry.go", "config/path.go", "config/glob.go", "config/uri.go", "config/mappedpaths.go", "config/function.go", "session/resolvedconfig.go", "internal/datahashprovider.go", "internal/lookupkeyprovider.go", "internal/datadigprovider.go"],
  "config.New creates the entries, entry.Resolve interpolates and inherits defaults, Location.Resolve expands to existing files, providers merge path into the options")

p("P07", "Invalid configuration and unreadable data are always reported",
  "A hiera config that isn't a YAML hash of the documented version 5 form, uses a reserved option name, repeats a hierarchy name, gives an entry more than one data function or more than one kind of location, or uses method syntax in its settings makes every lookup in its scope an error, never a partially or silently defaulted configuration; every valid configuration is accepted. "
  "A data file that exists but is malformed or isn't a hash makes the lookup an error, whereas a data or config file that doesn't exist never does. "
  "The verdict is the same for the first and all later lookups of a session.",
  "inputs", "all YAML documents as config and as data files",
  "The set of malformed and well-formed documents is unbounded; the tests try a few malformed files and only the first lookup after it.",
  ["config/config.go", "config/entry.go", "provider/yamldata.go", "provider/jsondata.go", "session/invocation.go"],
  "the config type in config.go is checked before createConfig; entry.initialize and createEntry panic on conflicts; YamlData/JSONData panic unless the content is a map")

p("P08", "Every lookup terminates and cycles are reported as errors",
  "A lookup always ends with a value, not-found or an error; data that refers to itself through lookup, hiera, alias or strict_alias expressions, directly or over any number of keys, levels and functions, and scope variables that refer to themselves, yield an error that names the recursion. "
  "The process survives and the session and invocation remain usable, with lookups of keys that are not part of a cycle unaffected. "
  "References that are deep or shared but not cyclic are never reported as recursive.",
  "inputs", "all reference graphs between keys and scope variables",
  "Each reference graph is a different input and the failure mode (stack exhaustion) kills the test process; no test has a cycle.",
  ["session/invocation.go", "session/interpolate.go"],
  "WithKey keeps a stack of the keys being looked up and varStack one of the scope variables being interpolated; a repeated entry panics",
  state="nameStack, varStack: the keys and the scope variables that an invocation is currently resolving")

p("P09", "Concurrent lookups in one session are safe and share one configuration",
  "Any number of goroutines, each using its own invocation of one session, get exactly the outcomes that they would get one at a time, without data races, deadlocks or panics caused by the concurrency. "
  "The config file of a session is successfully loaded at most once and all invocations see that same configuration, no matter how their first lookups interleave and even if the file changes. "
  "A load that fails is reported to its caller and never blocks or poisons other invocations: they load again.",
  "schedules", "all interleavings of first and later lookups by any number of goroutines, successes and failures of config loading included",
  "Tests are sequential; the lock-and-publish protocol of the config cache, the shared caches and the plugin loader only misbehave in particular interleavings.",
  ["session/invocation.go", "session/session.go", "session/serverctx.go", "provider/modulelookupkey.go", "internal/datahashprovider.go"],
  "Config() publishes a per-path lock with LoadOrStore in the shared sync.Map and stores the config before releasing it",
  state="shared cache: the parsed config and the lock guarding its load, per config path")

p("P10", "Lookups are functions of the snapshot: no history dependence",
  "Within one invocation the outcome of a lookup depends only on the key, the options, the scope, the configuration of the session and the data files as they were when the invocation first used them; repeating a lookup, reordering lookups, or interleaving them with other successful, not-found or failing lookups and with other invocations never changes an outcome. "
  "A new invocation sees the data files as they are at its first lookup, while the configuration stays as first read by the session until a new session is created. "
  "A lookup that fails leaves no trace: what could be looked up before it can be looked up after it.",
  "histories", "all sequences of lookups, failures, file changes, new invocations and new sessions",
  "Tests do one lookup per session; stale caches, leaked state on error paths and order dependence appear only in longer histories.",
  ["session/invocation.go", "session/session.go", "internal/datahashprovider.go", "session/resolvedconfig.go"],
  "resolved configs and their hashes are cached per invocation, parsed configs per session; error paths unwind by panic",
  state="config caches: parsed configs per session, resolved configs with loaded hashes per invocation")

p("P11", "Scope: invocation variables shadow session variables and never leak",
  "A variable is resolved in the scope of the invocation first and in the scope of the session second, a key that is absent in the first falls through to the second and one that is present shadows it, for interpolation in data, in configuration and through the scope function alike. "
  "The session scope is fixed when the session is created, later changes made by the caller to the map it passed have no effect, and no invocation ever observes variables of another invocation. "
  "Variables bound temporarily during mapped_paths expansion are invisible afterwards, also when the expansion fails.",
  "histories", "all pairs of session and invocation scopes, all sequences of invocations and lookups between them",
  "Leaks between invocations need histories with several invocations and failures; tests use one scope per session.",
  ["session/session.go", "session/invocation.go", "session/interpolate.go", "provider/scopelookupkey.go", "config/mappedpaths.go"],
  "nestedScope.Get, FrozenCopy of the session scope, DoWithScope with scopeWithVar")

p("P12", "Plugin process lifecycle",
  "A plugin executable is started when a function that it provides is first needed and at most one process per executable is running for a session, however many lookups, functions and goroutines use it; a start that fails in any way (not executable, exit, garbage, wrong protocol, missing address or functions, silence) is an error of the lookup within bounded time, leaves no process behind and is tried again by a later lookup. "
  "Killing the plugins of a session, which also happens when the function that the session was created for returns or fails, ends every process that was started, forcefully if it ignores the request, and returns. "
  "Nothing else that the session did is affected by it.",
  "fault_sequences", "all sequences of lookups and kills combined with all failure behaviours of plugin executables",
  "The tests use one well-behaved plugin; each failure point of the start-up handshake and of the shutdown is a different fault and the leak of processes is not asserted anywhere.",
  ["session/pluginloader.go", "session/session.go", "hiera/hiera.go"],
  "startPlugin holds the registry lock, performs the handshake and kills on panic; stopAll kills each plugin with SIGINT then SIGKILL",
  state="plugin registry: the running plugin process per executable path")

p("P13", "Plugin functions are called faithfully",
  "A call of a plugin function is made to the process that provides it with the kind and name of the function, the exact key and the exact options, and the value it responds with reaches the lookup with structure and types intact; not-found responses are not-found and any other response, a malformed body, a broken connection or a missing response within the time limit is an error of that lookup only. "
  "Functions provided in-process take precedence over plugins, and the plugin file and directory configured for an entry decide which executable is used. "
  "Repeated calls don't accumulate connections.",
  "inputs", "all keys, options and values (any characters, nested structures), all response statuses and bodies",
  "Encoding and decoding over HTTP must be faithful for all keys and values; tests use a few plain strings.",
  ["session/pluginloader.go", "session/session.go", "internal/lookupkeyprovider.go", "internal/datahashprovider.go", "internal/datadigprovider.go"],
  "makeOptions/callPlugin encode options and key as query parameters and map the response status; LoadFunction picks the loader namespace")

p("P14", "Explaining a lookup is transparent, complete and accurate",
  "Attaching an explainer never changes the outcome of a lookup, be it a value, not-found or an error, and whatever the outcome the explanation is well nested: each step that is opened is closed. "
  "The explanation lists, in order, precisely the providers, locations, interpolations, sub lookups and modules that were consulted with for each of them whether it was found and the value found there, the merge strategy used and its result. "
  "How lookup_options were found is included when asked for, and only then.",
  "inputs", "all lookups (all configurations, data, keys, strategies), all explain modes, repeated use of one explainer",
  "The tests compare the explanation text of some lookups that succeed; transparency, nesting on error paths and accuracy of each step quantify over all lookups.",
  ["session/invocation.go", "explain/explainer.go", "api/key.go", "merge/strategy.go"],
  "With* push a node and pop it in a defer; Report* record outcomes; ForData/ForLookupOptions/ForConfig drop the explainer depending on mode")

p("P15", "Values converted to Sensitive are never disclosed",
  "When lookup_options convert a key to Sensitive, the value is delivered wrapped as Sensitive and its clear text appears neither in the string form of the result, nor in text that another value interpolates it into, nor in an explanation of the lookup in any mode, text or structured; this holds for every shape of value, merge strategy and for values assembled by interpolation and nested lookups. "
  "The wrapped value itself is exact. "
  "Redaction ends with the lookup: later lookups of other keys are explained in full.",
  "inputs", "all values, hierarchies and strategies for a key with a sensitive conversion, all explain modes, all sequences of sensitive and other lookups",
  "A leak through any one of many reporting points is enough to break it; the tests only check the string form of one result.",
  ["session/invocation.go", "explain/explainer.go"],
  "LookupAndConvertData runs sensitive lookups in DoRedacted and wraps the result; reporting functions redact")

p("P16", "Conversion, defaults and overrides of the lookup API",
  "A multi-key lookup returns the first hit in the order: override hash over all names, then each name looked up in turn, then the default-values hash over all names, then the default value, then the default function, which is called only if reached; looking up all keys yields precisely the keys that have an override, a found value or a default-values entry, in that order of preference. "
  "convert_to converts the found value with its arguments before it is returned, and never applies when nothing was found. "
  "The returned value is always an instance of the requested type, converted when possible and otherwise an error.",
  "inputs", "all combinations of names, found or not, overrides, default hash, default value, default function, conversion and requested types",
  "The combinations are many and tests check each option in isolation.",
  ["hiera/hiera.go", "session/invocation.go"],
  "Lookup2, LookupAll, ensureType, LookupAndConvertData/extractConversion")

p("P17", "REST responses mirror lookups and requests are isolated",
  "A GET of /lookup/<key> responds 200 with the JSON of the value if the key is found or a default is given, 404 if not found and 500 with the error if the lookup, merge, type or variables are in error, and never any other status; the server stays available after any request. "
  "The default, merge, type and var parameters act on their own request only: no concurrent or later request ever observes variables, defaults or options of another, while variables given at server start apply to all requests. "
  "All requests share one session, thus one configuration, and see current data.",
  "schedules", "all sequences and interleavings of requests, all keys and parameters",
  "Isolation failures (shared slices, shared option structs) need particular interleavings and particular start flags; the tests make single requests.",
  ["hieraserver/rest/rest.go", "hiera/hiera.go", "provider/muxlookupkey.go"],
  "doLookup copies the command options, recovers panics and maps the outcome to a status")

p("P18", "The provider cache is a session-wide map with exact semantics",
  "A value stored by a provider function under a key is returned by every later read of that key, in all invocations of the session and no other session, until it is replaced; storing returns the value that was replaced or nothing if there was none, storing several entries at once stores each of them, and enumeration visits precisely the stored entries. "
  "Cached values survive failing lookups, and options given to the provider are those of its own call. "
  "Concurrent use never loses entries of other keys.",
  "histories", "all sequences of cache operations in any invocations and sessions",
  "Cache semantics quantify over operation sequences across invocations; tests only store and read one key.",
  ["session/serverctx.go", "session/session.go"],
  "serverCtx Cache/CacheAll/CachedValue/CachedEntries on the TopProviderCache sync.Map")

p("P19", "Module data is confined to the module's own namespace",
  "A key with a module prefix is looked up in the hierarchy of the module whose directory matches the prefix case-insensitively in the first module path that has it with a config file, after the global hierarchy, and merges with it when a merge strategy says so; a key without prefix never consults modules and a key of one module never consults another. "
  "lookup_options of a module apply only to keys of that module and the global ones take precedence. "
  "A module that doesn't exist or has no configuration is not-found, not an error, and an invalid configuration of one module affects only keys of that module.",
  "inputs", "all module paths and module directory layouts, all keys, data and lookup_options in global and module hierarchies",
  "Tests cover one module; confinement is a for-all over keys and modules.",
  ["provider/modulelookupkey.go", "session/resolvedconfig.go", "provider/muxlookupkey.go"],
  "ModuleLookupKey maps the prefix to a cached config function; resolvedConfig.LookupOptions filters by module name")

p("P20", "Command line: variables, facts, defaults and output",
  "The scope of a command line lookup consists of the inline variables, overridden by those of the variable files in given order, overridden by those of the fact files, with the facts also available under the name facts; a variable argument is name and value separated by the first suitable = or :, and one that isn't is an error. "
  "The found value is rendered faithfully: output as yaml or json parses back to the value and text output is the string form; when nothing is found and there is no default nothing is printed and that is not an error, and an error leads to an error message and a failing exit status. "
  "All keys lookups print a map with precisely the found keys, and an explain option prints the explanation instead of the value.",
  "inputs", "all argument lists, variable and fact files, values and render formats",
  "Argument combinations and renderable values are unbounded; tests use some fixed command lines.",
  ["cli/hiera.go", "hiera/hiera.go", "hiera/render.go"],
  "createScope, parseCommandLineValue, LookupAndRender and Render")

p("P21", "A protected REST server serves nobody else",
  "A server that is started with a key and a certificate accepts requests only over TLS and identifies itself with that certificate; with verification of clients on, it answers only clients that present a certificate, valid for clients, that is vouched for by one of the authorities it was given, and all of those. "
  "A key and certificate that don't belong together, or a file of any of them that is missing or has none, is a startup failure with a message, never a server that is less protected than asked for. "
  "What was read at startup is what counts, and admitted clients get the same answers as they would from an unprotected server.",
  "inputs", "all combinations of key, certificate, authority and verification flags, contents of their files and kinds of clients",
  "Whether an unwanted client is kept out depends on the combination of flags and certificates; tests start the server without protection only.",
  ["hieraserver/rest/rest.go"],
  "startServer, makeTLSconfig and loadCertPool of the REST command")

p("P22", "yaml2json: the same data or a failure",
  "For every YAML document that has nothing but strings for keys, the yaml2json command writes one JSON document of precisely the same data, however the YAML is written, and exits successfully. "
  "For input that isn't YAML, or that has a key that JSON cannot express at any depth, it writes nothing on standard output, writes a message on standard error and has a failing exit status.",
  "inputs", "all YAML documents",
  "Data and ways to write it are unbounded; no test covers the command.",
  ["yaml2json/main.go"],
  "main and stringKeys")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
