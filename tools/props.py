"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "conda_recipe_manager/"
CMD, PAR, FET, GRA, SCA = P + "commands/", P + "parser/", P + "fetcher/", P + "grapher/", P + "scanner/dependency/"
T = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    T.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, na=na, state=state or []))


prop("C01", "A version bump binds every checksum to its own source",
     "When `crm bump-recipe -t VERSION` succeeds, every HTTP source of the written recipe carries exactly the SHA-256 of the bytes served at that source's own URL as it reads with the new version substituted, whatever order, latency or retry count the downloads have. Sources that are not HTTP archives keep their entries, no source ends up with another source's checksum or a checksum of the old version, and a single source whose checksum lives in a recipe variable gets that variable updated.",
     ["schedules", "fault_sequences", "inputs"],
     "All completion orders of the concurrent downloads, all latencies and transient network faults per source, all recipes with 1..6 sources (single map, list, V0 and V1, checksum in place, missing, or in a variable).",
     "The CLI tests mock the network with instant, never-failing, mostly single-source downloads; they cannot run under the installed dependency set and none varies completion order, delay or faults.",
     [CMD + "bump_recipe.py", FET + "artifact_fetcher.py", FET + "http_artifact_fetcher.py", PAR + "recipe_parser.py"],
     [("futures mapped back to source path", CMD + "bump_recipe.py:_update_sha256"), ("source path table", FET + "artifact_fetcher.py:from_recipe")],
     ["exit code and the recipe file after the run"],
     "deterministic simulation: seeded thread schedules, latencies and network faults against a text-level model of the expected recipe",
     "Samples schedules and fault sequences; the network below requests' transport adapter is simulated, everything above (requests, urllib3 response, thread pool, parser) is real.")
prop("C02", "A bump that fails leaves the recipe file untouched and says why",
     "If `crm bump-recipe` cannot finish (unreadable or unparsable recipe, missing build section, non-integer build number, a source that cannot be downloaded within the retry limit, or a change that cannot be applied) it exits with the documented exit code for that failure, never 0 and never a traceback, and the recipe file is byte-for-byte what it was. A dry run never modifies any file, whether it succeeds or fails.",
     ["fault_sequences", "schedules", "inputs"],
     "All permanent network faults on any subset of sources, at any attempt, under any download order; all bad recipes of the listed kinds; read faults on the recipe.",
     "Tests sample a few error recipes; none injects a network fault mid-body, a corrupt archive, a partial success among several sources, or an I/O fault.",
     [CMD + "bump_recipe.py", CMD + "utils/types.py", FET + "http_artifact_fetcher.py"],
     [("write only after every update", CMD + "bump_recipe.py:bump_recipe"), ("exit on failed fetch/patch", CMD + "bump_recipe.py:_exit_on_failed_fetch")],
     ["exit code, stderr, recipe bytes, directory tree"],
     "deterministic simulation: permanent and mixed network/disk faults under seeded schedules, exit code and frame oracle",
     "Samples fault sequences; simulated network and disk faults.")
prop("C03", "Transient download failures are retried with bounded, growing back-off",
     "A source that fails at most four times and then downloads makes `crm bump-recipe` succeed with the same recipe as a fault-free run; a source that fails five times makes it fail. Each source is requested at most five times per bump, the wait after the n-th failed attempt is n times the retry interval, waits of different sources overlap, and no server behaviour (refused, silent, stalled, truncated, endless redirect) can keep the command waiting without bound.",
     ["fault_sequences", "schedules"],
     "All sequences of failures of every kind over the attempts of every source, all retry intervals, all latencies.",
     "Tests patch out the retry interval and use one failing URL; elapsed time and number of attempts are never observed.",
     [CMD + "bump_recipe.py", FET + "http_artifact_fetcher.py"],
     [("retry loop with scaled sleep", CMD + "bump_recipe.py:_get_sha256"), ("request timeout", FET + "http_artifact_fetcher.py:fetch")],
     ["request log of the simulated network with simulated timestamps, exit code, recipe bytes"],
     "deterministic simulation with a simulated clock: retry counts, spacing and elapsed simulated time against an event-level model",
     "Simulated time; no real sleeping. Samples fault sequences.")
prop("C04", "A bump changes only version, build number and checksums",
     "A successful `crm bump-recipe` changes only the version (or the variable that holds it), the build number and the checksums: `-b` alone adds exactly one to the build number, `-t` alone sets it to 0 and sets the version to exactly the text given. Every other line, including comments, selectors, variables, order and the remaining sections, is preserved, and `--dry-run` prints exactly the text a real run would write. (A checksum key spelled with a `hash_type` variable is written out as `sha256`.)",
     ["inputs", "histories", "schedules"],
     "All recipes built from the supported constructs, all version texts (including ones that look like numbers or times), any sequence of bumps on one file, under any download order.",
     "Tests compare a handful of golden recipes for one bump each; none chains bumps or uses a version text YAML would reinterpret.",
     [CMD + "bump_recipe.py", PAR + "recipe_parser.py", PAR + "recipe_reader.py"],
     [("targeted JSON patches", CMD + "bump_recipe.py:_update_build_num"), ("variable update", PAR + "recipe_parser.py:set_variable")],
     ["recipe bytes line by line after each bump, dry-run stdout"],
     "deterministic simulation: seeded histories of bumps (with network schedules and failed bumps in between) against a line-level reference model",
     "Recipes come from a template grammar in canonical form so the expected text is computed exactly without the parser.")
prop("C05", "Rewriting a recipe file is all-or-nothing",
     "If the process dies, the power fails, or the disk returns an error at any point while `crm bump-recipe`, `crm patch` or `crm convert -o` writes its output file, the file afterwards holds either its complete previous content (or is absent, if it was) or the complete new content, never a truncated or mixed one. A write error is reported with a non-zero exit status, leaves no temporary files beside the recipe, and a symlinked or restrictively-permissioned target stays what it was; retrying afterwards succeeds.",
     ["crash_points", "fault_sequences"],
     "Every crash point and every failing, short or torn file-system operation of the write path of the three commands.",
     "Tests run on a fake file system with no fault or crash; none observes a partially written file.",
     [CMD + "bump_recipe.py", CMD + "patch.py", CMD + "convert.py", P + "utils/fs.py"],
     [("atomic replace helper", P + "utils/fs.py")],
     ["file bytes, mode, link type and directory listing after crash, after simulated power loss and after restart"],
     "deterministic simulation: crash, power-loss and disk-fault injection at every operation of the write path, then restart",
     "Power loss is a model (un-synced data may be lost, directory operations persist in order).")
prop("C06", "A fetched HTTP artifact is exactly what the server sent, or an error",
     "After a successful fetch of an HTTP artifact the reported SHA-256 is that of exactly the bytes of that response, the archive type matches the content and the extracted tree holds exactly the archive's members with their contents. Any failure (network, HTTP error status, cut-off or corrupt archive, full disk) surfaces as the documented fetch error and no other exception, and whenever the most recent fetch did not succeed every accessor refuses with the fetch-required error instead of exposing partial or stale data; a later successful fetch fully recovers.",
     ["histories", "fault_sequences"],
     "All histories of fetch attempts and accessor calls on one artifact object with any mixture of server behaviour, archive content and disk faults.",
     "Tests fetch one good archive per type through a mock that never fails.",
     [FET + "http_artifact_fetcher.py", FET + "base_artifact_fetcher.py", P + "utils/cryptography/hashing.py"],
     [("success flag guard", FET + "base_artifact_fetcher.py:_fetch_guard"), ("error wrapping", FET + "http_artifact_fetcher.py:fetch")],
     ["return values and exception types of fetch/get_* calls, the extracted directory"],
     "deterministic simulation: histories of fetches under network and disk faults against a reference model of the last outcome",
     "Corrupt archives are made by seeded damage to real ones; Python's tar/zip readers are real code.")
prop("C07", "Fetching never writes outside, and always cleans up, its own temp area",
     "Whatever an archive contains (absolute paths, parent-directory members, symlinks and hard links pointing outside, devices, duplicate names, odd permissions) and whatever the recipe or URL is called, fetching creates, changes and deletes nothing outside the artifact's own temporary directory. Once the artifact goes out of scope or the command ends, on success, failure or interrupt, that temporary directory is gone.",
     ["inputs", "fault_sequences", "histories"],
     "All hostile archive member sequences, all URL paths and package names, success and failure of fetches at any point.",
     "Tests extract two benign archives.",
     [FET + "http_artifact_fetcher.py", FET + "base_artifact_fetcher.py"],
     [("tar data filter", FET + "http_artifact_fetcher.py:_extract"), ("TemporaryDirectory lifetime", FET + "base_artifact_fetcher.py:__init__")],
     ["every mutating file-system call, and the tree outside the temp directory before/after"],
     "deterministic simulation: all file-system mutations pass a guard at the disk seam that records and blocks any outside the scratch area, under seeded hostile archives and faults",
     "Escapes are blocked by the seam and by running as an unprivileged user.")
prop("C08", "A git artifact is checked out at the requested tag, revision or branch",
     "After a successful fetch of a git artifact, remote or local, the source directory contains exactly the tree of the requested target, where a tag takes precedence over a revision and a revision over a branch, and the default branch when none is given. A failed clone, missing target, or disk error surfaces as the documented fetch error and leaves the source path inaccessible until a later fetch succeeds, and the origin repository is never modified.",
     ["histories", "fault_sequences", "inputs"],
     "All repositories with several branches and tags, all target combinations, histories of failing and succeeding fetches on one object, with clone/checkout failing at any step.",
     "The single test of this class checks only the not-fetched guard; no clone ever runs.",
     [FET + "git_artifact_fetcher.py", FET + "base_artifact_fetcher.py"],
     [("target resolution", FET + "git_artifact_fetcher.py:_resolve_checkout_target"), ("error wrapping", FET + "git_artifact_fetcher.py:fetch")],
     ["tree of the source directory vs `git` objects of the origin, exception types"],
     "deterministic simulation: fetch histories with injected git-command and disk failures over real git repositories, against a model of the origin",
     "Real git binary on local repositories; the wire protocol to remote hosts is replaced by the file:// transport.")
prop("C09", "Bulk conversion accounts for every recipe and isolates failures",
     "A bulk `crm convert` processes every recipe found exactly once: the reported totals, histograms and lists are consistent with each other and with the individual outcomes, and a recipe that cannot be read, parsed, converted or written is counted as a failure without disturbing, hiding or stopping any other. The exit status is success exactly when the reported success rate reaches the requested minimum.",
     ["fault_sequences", "schedules", "inputs"],
     "All mixtures of good, warning, erroneous, unparsable, unreadable and unwritable recipes in any directory layout, any worker count and schedule, any threshold.",
     "The bulk path is not exercised by any stable test; single-file tests mock nothing that fails.",
     [CMD + "convert.py", PAR + "recipe_parser_convert.py"],
     [("per-recipe result struct", CMD + "convert.py:convert_file"), ("statistics", CMD + "convert.py:convert")],
     ["JSON report, exit status, output files"],
     "deterministic simulation: simulated process pool, seeded worker schedules and per-file disk faults, conservation checks over the report",
     "The process pool is simulated in-process (pickling, chunking and error semantics modelled).")
prop("C10", "Bulk conversion equals converting each recipe alone",
     "For every recipe, the file a bulk conversion writes is byte-identical to the output of converting that recipe alone, whatever the other recipes, number of workers, schedule, directory enumeration order, hash seed or earlier conversions in the same process. Input recipes are never modified and nothing but the requested output files is created.",
     ["schedules", "configurations", "histories"],
     "All sets of recipes, worker counts, interleavings, enumeration orders and hash seeds.",
     "Tests convert one recipe per process with one hash seed; cross-recipe contamination and ordering are never observed.",
     [CMD + "convert.py", PAR + "recipe_parser_convert.py", PAR + "recipe_reader.py", PAR + "_node.py"],
     [("per-call parser instance", CMD + "convert.py:convert_file")],
     ["bytes of every output file, tree of the input directory"],
     "deterministic simulation: the same workload under different seeded schedules, worker counts, enumeration orders and hash seeds, outputs compared",
     "Expected bytes come from a single conversion in a fresh process under a fixed hash seed, not from a second implementation.")
prop("C11", "Bulk building reports every recipe and forwards arguments faithfully",
     "`crm rattler-bulk-build` starts exactly one build per recipe found, on exactly that file and with exactly the extra arguments the user gave, however paths and arguments are spelled. Every recipe appears exactly once in the accounting as success (builder exit 0) or error (non-zero exit, crash, a build that cannot be started, or a build killed after the time limit), the error histogram and debug log agree with the builders' own messages, and the exit status is success exactly when the reported success rate reaches the minimum. A debug log that cannot be written is reported through the exit status without losing the report.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "All mixtures of builder behaviour (success, failures, hang, garbage output, missing), recipe names with spaces and shell characters, worker counts and schedules.",
     "The only tests of this command check its usage text.",
     [CMD + "rattler_bulk_build.py"],
     [("per-recipe build with timeout", CMD + "rattler_bulk_build.py:build_recipe"), ("debug log", CMD + "rattler_bulk_build.py:create_debug_file")],
     ["argv seen by the simulated builder, JSON report, debug log, exit status, simulated time"],
     "deterministic simulation: simulated child processes and pool with seeded durations, failures and hangs under a simulated clock, conservation checks",
     "rattler-build itself is a simulated program behind subprocess; the shell is modelled by POSIX word splitting.")
prop("C12", "The recipe graph does not depend on enumeration order or bad neighbours",
     "Building the dependency graph from a directory yields the same packages, edges and statistics whatever order the file system enumerates files in, however the pool schedules the work and whatever hash seed is used, and a recipe that cannot be read or parsed only removes itself. Every distinct recipe found is counted exactly once, as parsed or failed.",
     ["schedules", "configurations", "fault_sequences", "inputs"],
     "All directory trees, enumeration orders, worker counts, schedules, read faults on any file.",
     "Tests (not runnable here) build one fixed directory once.",
     [GRA + "recipe_graph_from_disk.py", GRA + "recipe_graph.py"],
     [("recipe cache by content hash", GRA + "recipe_graph_from_disk.py"), ("per-file error isolation", GRA + "recipe_graph_from_disk.py")],
     ["package names, graph sizes, failed and duplicate lists, statistics"],
     "deterministic simulation: shuffled directory enumeration, simulated pool and read faults, results compared with an independent model",
     "Process pool simulated; networkx and the parser are real.")
prop("C13", "Graph edges match the dependencies, and queries never corrupt the graph",
     "The build graph has an edge from a package to a dependency exactly when one of its outputs lists it under build or host, and the test graph exactly when it lists it under run (or `requires`) requirements, for every package in the collection; requirements at the top level of a recipe count for each of its outputs. Any sequence of queries, in the library or typed at the `crm graph` prompt (including unknown packages, malformed commands, interrupts and end of input), answers from the same unchanged graph, never crashes (a plot that fails is reported and the shell goes on), and always ends when told to.",
     ["histories", "inputs", "fault_sequences"],
     "All collections of recipes (single and multi-output, cycles, self dependencies, missing packages), all command histories, plotting errors.",
     "Tests (not runnable here) check the node counts of one directory; the shell is untested.",
     [GRA + "recipe_graph.py", CMD + "graph.py", PAR + "recipe_reader_deps.py"],
     [("edge construction", GRA + "recipe_graph.py"), ("shell loop", CMD + "graph.py")],
     ["returned graphs, stdout of the shell, plotted node sets"],
     "deterministic simulation: seeded shell and API histories with injected plot faults against an independent model of the edges",
     "Plotting back ends are replaced by a recorder.")
prop("C14", "Applying a JSON patch file stops cleanly and matches a reference model",
     "`crm patch` applies the operations of a patch file in order to the recipe; the resulting document equals the one given by a simple reference model of add, remove, replace, move, copy and test on the recipe's values (scalars compared by their text; an emptied collection is an empty key; list indices must exist, `-` appends; no lists directly inside lists, no operation on the root; a member of an object is not addressed by index). It stops at the first operation that cannot be applied (the file then holds the effect of exactly the operations before it) and exits with success (0), illegal operation (106), JSON error (4) for a malformed operation or file, I/O error (5) for an unreadable one, or parse error (102) for a recipe that cannot be parsed, never with a traceback, for any well-formed or malformed operation.",
     ["histories", "fault_sequences", "inputs"],
     "All operation sequences including impossible paths, bad indices, wrong shapes and failing tests, with restarts and disk faults between and during invocations.",
     "Unit tests apply single chosen patches to chosen recipes.",
     [CMD + "patch.py", PAR + "recipe_parser.py", PAR + "_traverse.py"],
     [("patch dispatch", PAR + "recipe_parser.py:patch"), ("stop at first failure", CMD + "patch.py:patch")],
     ["exit status and the values of the re-read recipe file"],
     "deterministic simulation: seeded patch histories with restarts and disk faults between invocations, checked against an executable reference model",
     "Values are compared through an independent YAML reading of the rendered file.")
prop("C15", "Saving and reloading a recipe at any point changes nothing",
     "At any point of an editing session (patches, variables, selectors, comments, dependencies), writing the recipe out and loading it again gives a document with the same text, values, variables, selectors and comments. Continuing the session on the reloaded document gives the same results and the same final text as continuing on the original, for every later operation. (Recipes a user would write: the schema version is not edited, keys are plain words that do not read as numbers, variables set by the session are one-line scalars.)",
     ["histories", "crash_points"],
     "All edit histories, with the process stopped and restarted from the saved text after any subset of the operations, for V0 and V1 recipes.",
     "Round-trip tests only re-render untouched files or compare one edit with a golden text; none continues editing after a reload.",
     [PAR + "recipe_parser.py", PAR + "recipe_reader.py", PAR + "_node.py"],
     [("renderer", PAR + "recipe_reader.py:render"), ("parser", PAR + "recipe_reader.py:__init__")],
     ["rendered text, list_value_paths/get_value/get_variable/selectors/comments after each step in both sessions"],
     "deterministic simulation: one session without restarts and one restarted from durable text at seeded points run the same seeded edits, compared after each step",
     "Metamorphic: the un-restarted session is the oracle.")
prop("C16", "An edit either applies or leaves no trace",
     "An editing operation that fails or raises (unknown path, wrong type, failing test, invalid schema, bad selector) leaves the recipe's rendered text, values, variables and modification state exactly as they were. `is_modified` is false on a freshly loaded recipe and true after an effective edit, and the reported diff is exactly the line difference between the original and the current text. (A search-and-patch call is as many edits as it has matches.)",
     ["histories", "fault_sequences"],
     "All histories mixing valid and failing edits on V0 and V1 recipes.",
     "Unit tests check the raised exception, rarely the state afterwards, and never in the middle of a history.",
     [PAR + "recipe_parser.py", PAR + "recipe_reader.py"],
     [("validation before mutation", PAR + "recipe_parser.py"), ("modified flag and diff", PAR + "recipe_reader.py")],
     ["rendered text and flags before/after each failing call"],
     "deterministic simulation: seeded edit histories with failing operations injected at every position, before/after state comparison",
     "Only failures the API reports (exception or False) count as failing.")
prop("C17", "Reading a recipe has no side effects and is safe from several threads",
     "Read operations (rendering, value and path lookups, variables and references, selectors, comments, searches, dependency listings, diff) never change the recipe: repeating or reordering them gives the same answers, and what they return is not aliased to internal state. Converting a recipe leaves it as it is and gives the same result each time. Several threads reading one recipe concurrently each get the answers a lone reader gets, under any interleaving.",
     ["schedules", "histories"],
     "All sequences of read operations in one thread, and all interleavings (at line granularity) of 2..4 reader threads.",
     "Tests call each reader once per parser, in one thread.",
     [PAR + "recipe_reader.py", PAR + "_node.py", PAR + "_traverse.py", PAR + "_utils.py"],
     [("no mutation in readers", PAR + "recipe_reader.py")],
     ["return values of every public reader before/after, in each thread"],
     "deterministic simulation: seeded line-level preemption of reader threads under the simulator's scheduler, answers compared with a lone reader",
     "Preemption at Python line granularity inside the package's own code.")
prop("C18", "Dependency edits act on exactly the named dependency",
     "Adding, replacing or removing a dependency through the dependency interface changes only the addressed requirement list: afterwards the listing contains exactly the model's dependencies in order, with the requested conflict rule (replace, keep both, ignore, exact position) applied, and selectors follow their dependency. The text stays loadable with the same listing after any sequence of edits and restarts.",
     ["histories", "crash_points", "inputs"],
     "All histories of add/remove with all conflict modes on single- and multi-output V0 and V1 recipes, with reloads in between.",
     "Unit tests make one call each on fixed recipes.",
     [PAR + "recipe_parser_deps.py", PAR + "recipe_reader_deps.py", PAR + "dependency.py"],
     [("conflict modes", PAR + "recipe_parser_deps.py:add_dependency")],
     ["get_all_dependencies and text after each operation"],
     "deterministic simulation: seeded dependency-edit histories with restarts against an executable list model",
     "conda's MatchSpec is a calibrated stand-in when conda is absent.")
prop("C19", "A bad source file only hides its own imports from the scanner",
     "Scanning a Python project reports a library import if and only if some readable, parsable source file of the project imports it, independent of directory enumeration order, hash seed and of any other file that is unreadable, malformed or vanishes during the scan; every skipped file is reported with a message. The files are never executed or modified.",
     ["fault_sequences", "schedules", "inputs", "configurations"],
     "All source trees with any mixture of good, broken, undecodable, vanishing files and link loops, all enumeration orders, read faults on any file.",
     "Tests scan one small fixed tree.",
     [SCA + "py_dep_scanner.py", SCA + "base_dep_scanner.py"],
     [("per-file error isolation", SCA)],
     ["returned dependency set and messages"],
     "deterministic simulation: seeded source trees, enumeration orders and read faults against an independent model of the imports",
     "Imports are generated from templates, so the expected set is known without parsing.")
prop("C20", "Reading pyproject metadata reports faults instead of failing",
     "Scanning a project's pyproject.toml yields exactly the dependencies it declares, each in the section it belongs to, and any problem with the file (missing, unreadable, malformed, wrong types) is reported as an error message with the remaining information still returned; it never raises and one scan never affects another.",
     ["fault_sequences", "inputs", "histories"],
     "All pyproject contents of the listed kinds, all read faults, any sequence of scans in one process.",
     "Tests scan a few fixed files.",
     [SCA + "pyproject_dep_scanner.py"], [("error reporting", SCA)], ["returned dependencies and messages"],
     "deterministic simulation: seeded project files under read and decode faults and scan histories, against a model of the declared dependencies",
     "TOML generated from a table, so the expected result is known without the scanner.")
prop("C21", "File hashing is exact or fails loudly",
     "The hash reported for a file is the hash of all of its bytes for every file size and every supported algorithm, however the disk splits the reads; if a read fails the operation raises and never returns a hash of part of the file.",
     ["fault_sequences", "inputs"],
     "All file sizes around buffer boundaries, all short-read patterns, read errors at any offset, concurrent hashing threads.",
     "The test hashes one small file.",
     [P + "utils/cryptography/hashing.py"], [("buffered read loop", P + "utils/cryptography/hashing.py")], ["returned digest"],
     "deterministic simulation: seeded short reads, read errors and interleaved hashing threads against hashlib over the known bytes",
     "Reads are faulted at the disk seam.")
prop("C22", "The corpus fetcher keeps every recipe it could get, and only those",
     "The script that downloads a random selection of recipes writes each successfully retrieved recipe, byte for byte, under its own feedstock, takes the fallback branch when the main one lacks it, and a feedstock that fails for any network reason never prevents the others from being saved.",
     ["fault_sequences", "schedules"],
     "All mixtures of available, missing, failing and slow feedstocks; all completion orders.",
     "No test covers the scripts.",
     ["scripts/randomly_select_recipes.py"], [("per-URL fallback", "scripts/randomly_select_recipes.py")], ["output tree"],
     "deterministic simulation: simulated servers with seeded faults and latencies, output tree against a model",
     "Simulated network below requests.")
prop("C23", "Recipes and results survive a process boundary unchanged",
     "A recipe, graph input or result handed to or returned from a worker process arrives equal to what was sent: same rendered text, values, variables, selectors, messages and modification state, and it can be edited further with the same effect as the original.",
     ["histories", "schedules"],
     "All edit histories with a pickle round trip (process hop) at any point.",
     "No test pickles an edited recipe.",
     [PAR + "recipe_reader.py", PAR + "_node.py", CMD + "convert.py"], [("plain picklable state", PAR)], ["rendered text and reader answers on both sides"],
     "deterministic simulation: seeded edit sessions hop between simulated processes at seeded points, compared with a session that never hops",
     "Metamorphic: the session that stays is the oracle.")

prop("C30", "The CI summary counts every job report exactly once",
     "The script that summarises a directory of CI logs counts every report (the JSON printed by `crm convert` or `crm rattler-bulk-build`) in every readable log exactly once: totals are sums, percentages are averages over the reports of that stage, and tests are counted per target directory. The summary does not depend on the order the logs are listed in; a log that cannot be read or decoded is named in a message and, like malformed or foreign JSON in a log, affects nothing else.",
     ["fault_sequences", "inputs"],
     "All mixtures of logs with reports, noise, damaged blocks and unreadable neighbours; all enumeration orders.",
     "No test covers the scripts.",
     ["scripts/parse_ci_output.py"], [("report extraction", "scripts/parse_ci_output.py:read_logs"), ("aggregation", "scripts/parse_ci_output.py:aggregate_stats")], ["the printed summary"],
     "deterministic simulation: seeded log directories under seeded enumeration orders and read faults, summary against a model of the reports written",
     "Some reports are produced by the real `crm convert` inside the simulation.")

prop("C31", "Selectors, comments and variables stay what the last edit made them",
     "In any history of edits and restarts of an editing session, adding a selector to a line gives that line the selector (or its and/or combination with the one it had), removing one returns it and removes only it, setting a comment sets that line's comment, and setting or deleting a variable changes that variable alone; none of them changes any other value. A comment stays when a selector is added to its line for the first time or removed from it. Every other line keeps its selector and its comment, which follow their value when list members before it are inserted, removed or moved, and lines that only hold a comment stay, unless an edit removes or rewrites the lines they stand on.",
     ["histories", "crash_points"],
     "All edit histories over selectors, comments, variables and patches, for V0 and V1 recipes, with restarts and failing writes in between.",
     "The tests make a few edits of each kind on one recipe and compare with a golden text.",
     [PAR + "recipe_parser.py", PAR + "recipe_reader.py", PAR + "_traverse.py", PAR + "_node.py"],
     [("selector and comment edits", PAR + "recipe_parser.py:add_selector"), ("comment edits", PAR + "recipe_parser.py:add_comment"), ("selector table", PAR + "recipe_reader.py:_rebuild_selectors"), ("variables", PAR + "recipe_parser.py:set_variable")],
     ["get_selector_paths/list_selectors, get_comments_table, list_variables/get_variable and the comment lines of the text after each step"],
     "deterministic simulation: seeded sessions with restarts and disk faults, compared after each step with a model of which note is on which line",
     "Text behind a selector that is merged or replaced may be dropped (the tests pin that).")

prop("C32", "Substituted readings follow the latest values of the variables",
     "After any history of setting, deleting and patching variables, editing values, saving, crashing and restarting, reading a value, a collection or the whole recipe with variables substituted gives exactly what the present values of the variables make of the present text (plain references, `lower`, `upper`, an index, sums of numbers and concatenations); a reference to a variable that is not set, or not any more, stays in the text. Reading without substitution gives the text itself, and an edit that was not saved is gone after a crash.",
     ["histories", "crash_points"],
     "All histories of edits of variables and values, for V0 and V1 recipes, with failing saves, crashes and restarts in between.",
     "The tests read a few fixed recipes with substitution and do not edit their variables.",
     [PAR + "recipe_reader.py", PAR + "recipe_parser.py"],
     [("substitution", PAR + "recipe_reader.py:_render_jinja_vars"), ("variable table", PAR + "recipe_reader.py:_init_vars_tbl"), ("variable edits", PAR + "recipe_parser.py:set_variable")],
     ["get_value, render_to_object, get_recipe_name and get_variable after each step"],
     "deterministic simulation: seeded sessions with saves under disk faults, crashes and restarts, compared after each step with a model that evaluates the text",
     "Values are words and numbers; concatenations are whole values.")

NA = [
    ("C24", "Selector expressions evaluate as boolean logic over platforms", "A selector applied to a build platform is true exactly when its and/or/not expression over platform and version terms is true.", [PAR + "selector_parser.py"], "evaluation is a pure function of the expression and platform: no schedule, clock, I/O or history is involved"),
    ("C25", "License names are matched to the nearest SPDX identifier", "Every SPDX identifier and every listed common misspelling maps to its SPDX identifier, and unknown names map to nothing.", [P + "licenses/spdx_utils.py"], "matching is a pure function of one string over a read-only table"),
    ("C26", "Converted recipes mean the same as their V0 originals", "For every V0 recipe the V1 recipe produced by conversion describes the same package (same fields, dependencies, selectors and scripts) or reports a message about what was lost.", [PAR + "recipe_parser_convert.py"], "the transformation of one text to another is a pure function; its reaction to faults, schedules and process boundaries is claimed in C05, C09, C10 and C23"),
    ("C27", "Any recipe text survives parse and render", "Parsing and rendering any supported recipe text preserves its meaning, comments and selectors.", [PAR + "recipe_reader.py"], "a pure function of the text; the restart and history aspects are claimed in C15"),
    ("C28", "CBC variables resolve to the values for the platform", "Variables read from a conda build config file resolve to the value selected for the platform, and zip keys stay aligned.", [PAR + "cbc_parser.py"], "a pure function of one text and one query"),
    ("C29", "Jinja expressions substitute like conda-build", "Variable substitution in values gives the text conda-build would compute for the supported filters and operators.", [PAR + "recipe_reader.py"], "a pure function of the expression and the variable table"),
]
for pid, title, st, files, reason in NA:
    prop(pid, title, st, ["inputs"], "All inputs.", "Tests sample a few inputs.", files, [("pure function", files[0])], ["return value"], na=reason)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in T:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    have = {p["id"] for p in T if p["na"] is None and os.path.exists(os.path.join(V, "dst/scenarios", p["id"].lower() + ".py"))}
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in T if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": p["na"] or "check under construction"} for p in T if p["id"] not in have],
        "notes": "No hooks in /repo: every seam is installed from /verif/dst around the unmodified package.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
