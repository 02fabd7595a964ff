"""source of properties.jsonl: run `python3 tools/props.py` to regenerate it."""
import json
from pathlib import Path

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, state=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


CX = "dustgoggles/codex/implements.py"
CD = "dustgoggles/codex/codecs.py"
MU = "dustgoggles/codex/memutilz.py"
ST = "dustgoggles/structures.py"
FN = "dustgoggles/func.py"
CO = "dustgoggles/composition.py"
TR = "dustgoggles/tracker.py"
DY = "dustgoggles/dynamic.py"
PV = "dustgoggles/pivot.py"
MO = "dustgoggles/mosaic.py"
SC = "dustgoggles/scrape.py"

P("C01", "Built-in codecs round-trip every value in their domain",
  "For each built-in codec (JSON, Python-literal, pickle), encoding any value of the codec's domain yields bytes, and decoding those bytes yields an equal value of the same type at every level of nesting (floats bit-exact, text including non-ASCII and control characters, integers of any size up to thousands of digits, mapping order kept). Encoding does not modify the value, encoders hold no state between calls, and a value of a type the codec does not support (JSON's own conversion of tuples and of non-text keys aside) is refused with an exception by the time it is decoded rather than silently replaced by another value.",
  ["inputs"], "all values of each codec's domain: JSON-stable values; Python literals (str, bytes, int, finite float, bool, None, tuple, list, set, dict, nested); picklable objects including tuples, sets, dates, partials, instances and shared/recursive references; any order of calls",
  "The codecs are never tested on their own; the tests send three small dicts and one integer through pickle only.",
  [CD], [("json/ast/pickle codec factories", CD)], ["return values of encode/decode"])

P("C02", "Shared-memory save/load returns exactly the saved object",
  "Loading from a shared-memory address returns exactly what was last saved there, from any process on the host, and a save fully replaces the previous content whatever the two sizes; loading in raw mode hands back the block itself holding exactly the encoded bytes. A save with overwriting refused raises FileExistsError when the address is taken (leaving the old content intact) and succeeds when it is free. The block helpers agree with what really exists: existence tests, fetching bytes, opening (attach, create, overwrite) and deletion act on exactly the addressed block, and fetching or deleting an absent block raises FileNotFoundError unless deletion was told a missing block is fine.",
  ["inputs", "histories"], "all byte contents from 1 byte to megabytes, all sequences of save / load / refused save / open / fetch / exists / delete over several addresses, same or other process",
  "No test saves to an address twice, uses overwriting refusal, or touches the block helpers; sizes are a few bytes.",
  [CD, MU], [("generic_mnemonic_factory", CD), ("open_block/fetch_block_bytes/exists_block/delete_block", MU)],
  ["return values and exceptions", "shm_open/shm_unlink event log", "/dev/shm"])

P("C03", "A Notepad is one dict shared by all of its handles",
  "After any sequence of sets, gets, deletions and clears issued through any mix of handles (in one or several processes) on the same notepad, every handle sees exactly the mapping a single Python dict would hold: lookups return the value last set for that key (of any picklable value, None included), key, value and item listings contain each present key exactly once, and dumping a key writes exactly its stored bytes. Lookup or deletion of a key that is absent, or whose block is gone, raises KeyError (get returns the given default), setting with overwriting refused raises KeyError exactly when the key is present, and setting a key with the reserved prefix 'index' raises KeyError. An operation that raises leaves the mapping unchanged; creating a notepad that already exists raises FileExistsError without disturbing it, and opening one that does not exist raises FileNotFoundError.",
  ["histories", "inputs"], "all operation sequences over non-empty string keys usable in a shared-memory name (and integers), all picklable values, several handles and processes, locking on or off",
  "The test sets two keys once and reads them from a child; deletion, overwrite, refusal, missing keys, clear and multi-handle use are never run.",
  [CX], [("Notepad", CX), ("AbstractNotepad", CX), ("TagIndex", CX)],
  ["public Notepad methods at the caller"],
  [("index block", "key list shared by all handles", CX), ("value blocks", "one per key", CX)])

P("C04", "A GridPaper returns arrays identical in dtype, shape and bytes",
  "An array stored under a key of a grid paper is returned by every handle, in any process, with the same dtype (byte order included), shape and element bytes, for every plain (non-object, non-structured) dtype, any dimensionality including zero-dimensional and empty arrays, and any memory layout; storing again under the key fully replaces it whatever the sizes, dtypes or shapes. Arrays fetched as copies are independent of shared memory, whereas arrays fetched without copying are live views whose writes are seen by all handles and which stay usable whatever becomes of the key or of the handle they were fetched from; asked not to fetch, a paper hands back the block that holds the bytes. Keys follow dict rules as for notepads: KeyError for keys that are absent or whose block is gone (get returns the default), refusal to overwrite raises KeyError and leaves the old array intact, deletion, clearing and key/item listings match a dict model, and dump writes exactly the array's elements; the array save and load functions behind it keep the same promises for a single address when they are used on their own.",
  ["inputs", "histories"], "all plain numpy dtypes, shapes and layouts; all sequences of set / get / delete / clear / listing over several handles and processes",
  "The one test stores two int64 3x3 arrays once; overwriting, deletion, other dtypes, layouts, empty or 0-d arrays are never run.",
  [CX, CD], [("GridPaper", CX), ("numpy_mnemonic_factory", CD), ("MetaTagIndex", CX)],
  ["public GridPaper methods at the caller"],
  [("metadata", "dtype/shape/name stored per key in the index", CX)])

P("C05", "Shared indexes keep keys, slots and metadata consistent",
  "After any sequence of additions and removals through any handles, a shared index lists exactly the keys added and not removed, each once; the slots it reports for the present keys are exactly 0..n-1, each key's slot is the one at which the key is listed, and absent keys have none. Re-adding a present key changes nothing when allowed (except replacing its metadata if new metadata is given) and raises FileExistsError when not; removing an absent key raises KeyError; either failure, or the ValueError for metadata given to an index that keeps none, leaves the index unchanged. In the metadata-carrying index each key's metadata stays attached to that key, whatever other keys are removed, and removing then re-adding a key does not resurrect its old metadata.",
  ["histories", "inputs"], "all histories of add / re-add / remove / check / listing over string keys of any length and alphabet, with and without metadata, one or several handles, hundreds of keys",
  "No test exercises the index classes directly; the tests add at most two keys and never remove one.",
  [CX], [("TagIndex", CX), ("MetaTagIndex", CX)], ["public index methods at the caller"],
  [("length counter, key blocks, reverse hash blocks, value blocks", "the index's shared state", CX)])

P("C06", "The shared lock is mutually exclusive and always released",
  "Among all processes using the shared-memory lock of one name, at most one is inside the guarded section at any moment, under every interleaving of their steps. Leaving the section, normally or by an exception, releases the lock: contenders waiting for it enter once its holders leave, every process that keeps running eventually gets in, and the lock stays usable for any number of acquisitions. Locks of different names never exclude each other, and a waiter that is given a spin limit and fails with TimeoutError, or that is interrupted by an exception while it waits, does not disturb the others.",
  ["schedules", "histories"], "all interleavings of 2..n processes repeatedly acquiring and releasing, with holders that raise, with tens of thousands of acquisitions",
  "Tests are single-writer; no test ever has two processes contending for the lock.",
  [CX, MU], [("SlidingLock", CX)], ["enter/exit events of the guarded section", "shm events"],
  [("ticket counter, marker and lock blocks", "lock state in shared memory", CX)])

P("C07", "Concurrent writers lose, duplicate or corrupt no keys",
  "When several processes at once add, overwrite, delete and read keys of the same notepad, grid paper or index, each key being written by one process only, every read by a key's writer returns what a dict would, and afterwards every handle lists exactly the keys that remain, each once, with exactly the value (or metadata) last written by its owner. When several processes race to add the same new key with overwriting refused to a notepad or index, exactly one succeeds and the others are refused, and the stored value is the winner's.",
  ["schedules", "histories"], "all interleavings of concurrent operations of 2..n processes on one shared object with locking on",
  "No test runs two writers concurrently; existing tests cannot choose interleavings.",
  [CX, CD, MU], [("lock-guarded index updates", CX), ("per-key value blocks", CX)],
  ["operation results per process", "final listing and reads after quiescence", "shm events"])

P("C08", "Closing and deleting give back all shared memory, and only their own",
  "Deleting a key or clearing frees every shared-memory block belonging to the removed keys, closing a notepad, grid paper, index or lock (or pulling a sticky) leaves no block of its namespace behind, and objects made with cleanup-on-exit do the same when their interpreter exits normally. No completed operation, successful or failed, leaves lock blocks behind or accumulates open file descriptors (arrays fetched as live views aside), and nothing ever unlinks a block belonging to a different object. Closing with dumping requested first writes each value to a file.",
  ["histories"], "all operation histories before close/clear/delete, with locking on or off, several objects alive at once, failed operations included",
  "No test closes or deletes anything: leftover blocks and cleanup are never examined.",
  [CX, MU], [("close/clear/__delitem__ of Notepad, GridPaper, indexes, Sticky", CX), ("atexit registration", CX)],
  ["/dev/shm listing before/after", "shm_open/shm_unlink event log", "/proc/self/fd"])

P("C09", "A Sticky read at an address returns the object stuck there",
  "A sticky stuck at an address is read back equal and of the same type by any handle on that address in any process, for every picklable object; sticking again replaces the object whatever the sizes, and a handle told to reread sees the newest object, while one that is not keeps the object it has. Reading an address where nothing is stuck, or after it was pulled, gives None on a handle with no remembered object or told to reread, generated addresses are usable to read the object back, and closing removes the block, as does the end of a process whose handle was asked to clean up on exit.",
  ["histories", "inputs"], "all picklable objects, all sequences of stick / read / reread / pull over several handles, addresses and processes",
  "Tests stick one dict or int once; never re-stick, reread or pull.",
  [CX, CD], [("Sticky", CX)], ["Sticky methods at the caller"])

P("C10", "Running a composition equals applying its steps in order",
  "Executing a composition of one or more steps returns exactly what applying its current steps one after another to the signal would return, each step being called exactly once, in step order, and stepwise iteration yields exactly the successive intermediate results. Integer-keyed inserts fix positional arguments of their step with the signal entering at the first open position, string-keyed inserts fix keyword arguments, both override arguments pre-bound in partially-applied steps without changing those steps, and inserts for absent steps have no effect; repeated executions and adding, replacing or reindexing steps in between follow the same rule.",
  ["inputs", "programs", "histories"], "all step lists (sequences and mappings; functions, builtins, partials, curried functions, dynamic functions, callables), all insert sets, all signals, repeated executions and edits",
  "Two hand-made pipelines are tested; insert/pre-bound argument combinations, edits and repeat executions are not explored.",
  [CO], [("Composition.execute/itercall/call_step/_flow_signal", CO)], ["arguments each step receives", "return values"])

P("C11", "Sends and captures deliver each step's output, and only observe",
  "After a step runs, each send attached to it is performed exactly once, in attachment order, with that step's output (passed through the send's pipe if it has one): appended to or placed at the given slot of a list, stored under the key of a dict, written to a writable object, or installed as an insert of another step, where a later step of the same execution uses it. Captures always hold the latest output of every captured step. Sends never alter the signal passed to the next step, sends attached to absent steps never fire, and sends without target only call their pipe.",
  ["inputs", "programs", "histories"], "all compositions with any mix of sends (pipes, targets of each kind, pointers), captures and step edits, over repeated executions",
  "One test uses a single send into an insert; list, dict, stream, pipe and capture targets are never tested.",
  [CO], [("Composition.add_send/_perform_sends/place_into/add_captures", CO)], ["targets' contents and pipe call log after each step"])

P("C12", "Composition failures surface and are tracked truthfully",
  "If a step, pipe or argument raises, execution stops there: no later step runs, and the very exception (StopIteration aside) reaches the caller, or, for an optional composition, None is returned instead (KeyboardInterrupt is never swallowed). With a tracker attached, each execution appends, in order, exactly one record per completed step naming that step and its function, and, on failure, exactly one further record naming the failing step's function with the exception's type, message and traceback; replacing a step does not duplicate or falsify its records, and tracking never changes results.",
  ["inputs", "programs", "histories"], "all compositions, failure positions and exception types; optional or not; with tracker given, added later or absent; steps added or replaced between executions",
  "Only one successful tracked run is tested; no test makes a step fail.",
  [CO, TR, DY], [("Composition.execute", CO), ("_add_track_sends", CO), ("exc_report", DY)], ["tracker history", "call log of steps", "exceptions at the caller"])

P("C13", "Tracker logs are complete, ordered and always valid JSON",
  "A tracker's history holds one record per track call in call order, counting up from 1 since creation or the last clear, each with the target's name (or text), the caller's function name and line, the metadata set at that time and the call's own metadata, the latter winning. After any sequence of track, metadata, pause, dump and clear calls the log file, if present, is a valid JSON list with one element per successful unpaused dump since the last clear, each holding the tracker's identity and the complete history at that moment; a dump that fails on unserializable metadata leaves the file as it was, and clear removes the file and empties the history.",
  ["histories", "inputs"], "all sequences of track / set_metadata / pause / dump / clear with arbitrary metadata, several trackers and identifiers, pre-existing log files",
  "The only test looks at two history entries; dumping, clearing, pausing and metadata are never run.",
  [TR], [("Tracker.track/dump/clear/set_metadata", TR)], ["history list", "log file contents on disk"])

P("C14", "A Dynamic behaves as the function its source defines",
  "Calling a dynamic function built from source that defines one function behaves exactly as that function defined with the given globals would: same results, same exceptions, same parameter names and kinds in its signature, same name; one made from an existing module-level function behaves as that function, keeps its source and globals, and can be unloaded and loaded again. Loading is lazy, eager or forbidden on call exactly as configured (UnreadyError when a call may not load), loading twice without asking for a reload raises AlreadyLoadedError, and reloading or unloading takes effect on the next call. Source that does not compile is recorded as a compile error and flagged, and never yields a callable made from it; errors of optional calls are recorded and flagged as call errors and yield None, while non-optional calls raise them; the source text of functions, methods, and of partials, dynamic functions and other objects holding a function can be dug out exactly; what has no source raises TypeError.",
  ["programs", "histories"], "all function sources (signatures, bodies, closures-free), globals, option settings and histories of load / call / unload / reload / source change",
  "One test calls one one-line function twice.",
  [DY], [("Dynamic", DY), ("compile_source/define/get_codechild/digsource", DY)], ["results, exceptions, errors list, flags and signature"])

P("C15", "Error-containing wrappers contain exactly errors, and report them",
  "A function wrapped to be optional returns the function's own result when it succeeds and, when it raises an Exception, returns None after handing exactly that exception to its callback once; KeyboardInterrupt and other non-Exception exits always propagate. The recording variant appends exactly one report per failure and none on success. An exception report carries the exception's type and message (or the exception itself on request) and, for every frame of its traceback from outermost to innermost, the matching line number, filename and function name, in three lists of equal length; no exception gives an empty report.",
  ["inputs", "programs"], "all functions, arguments, exception types (including chained, custom, recursive and BaseException) and traceback depths",
  "No test covers optionalize, dontcare or exc_report beyond a single str() of an error message.",
  [FN, DY], [("optionalize", FN), ("dontcare/exc_report", DY)], ["return values, callback log, report contents"])

P("C16", "Digging finds exactly the matching entries of nested mappings",
  "Digging for all keys, values or items returns every entry at any depth of the nested mapping that satisfies the match (a constant compared for equality against key or value, a custom comparison against key, value or item, or a predicate), each exactly once, with parallel order between the three forms, or None if nothing matches; the single-result forms return a matching entry from the shallowest level that has one (first in level order), or None. Editing in place replaces exactly the matching entries at every level with the setter's result, leaves all other entries, keys and their order alone, and returns the same mapping; only mapping types asked for are descended into, and the search forms never modify the input.",
  ["inputs"], "all finite nested mappings (any depth, breadth, key and value types, other Mapping classes), all match forms",
  "One fixed JSON file is dug with three queries.",
  [ST], [("dig_for*/dig_and_edit/constant_to_dig_predicate", ST)], ["results vs an independent traversal oracle"])

P("C17", "Flattening, nesting and merging of mappings lose nothing",
  "Converting nested mappings to records yields exactly one record per innermost mapping, in order, holding all of its fields plus the level names mapped to the path of keys leading to it (which wins over a field of the same name); unnesting yields one flat entry per leaf whose key spells its path, with the leaf's value, and is lossless whenever spelled paths are distinct. Recursively merging two mappings keeps every key of either, merges wherever both values are mappings of the given types at every depth, and otherwise takes the second's value. Nesting dicts create intermediate levels on access and convert to plain dicts at every level with equal content; inserting after a key keeps the order and values of all entries and puts the new entry immediately after it; none of these modify their inputs except that converting a nesting dict may convert its own lower levels.",
  ["inputs"], "all finite nested mappings, level-name sequences, escape characters, mapping types and key paths",
  "to_records is tested on one 2-level table; unnest, rmerge, NestingDict and insert_after are untested.",
  [ST], [("to_records/unnest/rmerge/NestingDict/insert_after", ST)], ["results vs reference model; deep comparison of inputs before/after"])

P("C18", "Mapping through a pool equals calling the function on each record",
  "Mapping a function over argument records returns, for every number of worker processes (or none) and chunked or not, a mapping from each record's key (its position if not given) to the function's result for that record's positional and keyword arguments, every record evaluated exactly once. A record whose call raises yields that exception under its own key without affecting any other record, is dropped when exception filtering is asked for, and is raised when raising is asked for; KeyboardInterrupt in a serial map, or while waiting for results, is never swallowed. A pool object can be reused for several maps in either mode, reports readiness and result counts consistently with what has finished, and after terminating holds no results and no worker processes; mapping into a pool leaves none.",
  ["inputs", "schedules", "configurations"], "all record lists (sizes 0..n, with or without keys/args/kwargs), worker counts, chunking modes, failing subsets, repeated use",
  "MaybePool and map_into_pool have no tests at all.",
  [ST], [("MaybePool/MaybeResult/map_into_pool", ST)], ["returned mapping; side-effect log counting evaluations"])

P("C19", "Functional and collection helpers match their definitions on all inputs",
  "The small helpers compute what they say on every input: natural numbers from 1 without gap, constant and null functions ignoring any arguments, splatting and argument truncation passing exactly those arguments, triggers running their effect once and passing state through, membership and type predicates agreeing with 'in' and isinstance, intersections and order-preserving disjoint parts agreeing with set algebra, eager maps and first-match filters agreeing with map/filter, and non-interactive guards never calling the guarded function. Hierarchical lookup returns the element reached by indexing or attribute access along the keys and the default whenever the path is missing, list and mapping coercions keep elements and order, separation by predicate is an order-preserving partition, getting a key from all mappings gives one value per mapping, and an equivalence-keyed dict returns for each key the first-stored item equivalent to the one last set, storing one item per class.",
  ["inputs", "histories"], "all argument values, types and sizes, and histories of assignments for the equivalence-keyed dict",
  "Each helper is tested on a single example, many on none.",
  [FN, ST], [("func module", FN), ("listify/get_from/separate_by/HashDict/...", ST)], ["results vs definitional oracles"])

P("C20", "Downcasting stays within tolerance and never loses data",
  "Downcasting a numeric array yields an array of the same length and order in which every finite element differs from the original by at most the absolute and the relative tolerance, every non-finite element is preserved (missing, when a nullable integer type was asked for and given), integer and boolean inputs are preserved exactly, and the reported errors are the largest actual ones (up to their own rounding); the result type is never wider than the input's and, wherever it is an integer type, as it always is for integer inputs, the narrowest that holds the range; a floating-point type is kept only when no narrower one is within both tolerances. Downcasting a dataframe keeps its rows, index, column order and names, treats every real numeric column of a numpy dtype that way and leaves other columns equal; inputs are never modified. The range test behind it is true exactly when both given extremes lie within a type's bounds.",
  ["inputs"], "all integer, boolean and float arrays (every width, NaN, infinities, zeros, extremes, empty), tolerances, output libraries and nullable settings; all dataframes mixing numeric and other columns with any index",
  "downcast and downcast_df have no tests.",
  [PV], [("downcast/downcast_df/check_in_dtype_bounds", PV)], ["result arrays vs exact arithmetic"])

P("C21", "Column and row selection from dataframes is exact",
  "Extracting constants returns exactly the columns (or, by column, the rows) whose scalar entries are all the same, missing entries ignored or not as asked, as a name-to-constant-value dict or sub-frame, and the frame either whole or with exactly those removed; splitting partitions rows by the predicate keeping order; typed and numeric column selection returns exactly the columns whose type name matches, in order, and a series whole or not at all. Dropping duplicate columns keeps the first of equal-named columns when all are equal-valued (missing equals missing) and otherwise raises ValueError. Nothing modifies its input frame, and numpy scalars convert to equal Python scalars while other objects pass through unchanged.",
  ["inputs"], "all frames of scalar cells with any dtypes, missing values, index and column labels, duplicated columns; all option combinations",
  "One small CSV is examined with default options; duplicates, columnwise and missing-value handling are untested.",
  [PV], [("extract_constants/split_on/typed_columns/check_and_drop_duplicate_columns/itemize_numpy", PV)], ["results vs cell-by-cell oracle"])

P("C22", "Reshaping of frames and series keeps every value with its label",
  "Smashing a frame gives one entry per row and remaining column, labelled with the row's 'by' values and the column name joined by underscores and holding that cell's value (restricted to the asked-for values if given); unpacking list-like cells gives column name_i the i-th elements on the same rows, dropping missing rows, and unpacking a column in place of the frame keeps all other cells. Duplicating rows repeats each row consecutively the given number of times; the junction of two frames is the asked-for set operation on their distinct value tuples and unique records are exactly the distinct tuples, rows with missing values left out. Squeezing a series keeps each distinct label once with its first value, or any() for booleans, or the asked-for aggregate of its values (no label or aggregated value missing).",
  ["inputs"], "all frames and series of the supported shapes, any labels, sizes, dtypes and repeats",
  "None of these functions is tested (string-method mapping aside).",
  [PV], [("smash/unpack/unpack_column/dupe_df_block/junction/unique_to_records/squeeze", PV)], ["results vs row-by-row oracle"])

P("C23", "Chunked parquet sorting is a sorted permutation of the rows",
  "Sorting a parquet file in chunks by an integer or float column writes a file holding exactly the input's rows, none lost, duplicated or torn between columns, ordered by that column in the asked-for direction with missing values last, for every number of chunks (two or more) and row-group layout, with the input's or given schema, the row-group size, dictionary encoding and format version asked for, and after applying the inline processor to each chunk. Reading between bounds returns exactly the rows with lower <= value < upper, restricted to the requested columns, or nothing when no row group can contain one. The input file is never modified and quiet operation prints nothing.",
  ["inputs", "configurations"], "all integer and float sort columns (ints within +-2**53, floats up to +-1e300, ties, single values, missing values), row-group layouts, empty files, chunk counts, directions, extra columns",
  "mosaic has no tests.",
  [MO], [("sort_chunked/read_between", MO)], ["row multiset and order of the output file vs input"])

P("C24", "Parquet metadata summaries agree with the file",
  "Metadata records list exactly one record per column and row group with that group's sizes, type and value statistics (the count of its non-missing values included) as recorded in the file; the metadata frames have exactly one entry per column in file order whose counts and sizes are the totals over all row groups and whose type, encoding, compression and dictionary flags are those of the file (missing where row groups differ), in both the brief and the extended form and as record-wise or column-wise frame.",
  ["inputs"], "all flat parquet files: column types, row-group counts, compressions, missing values",
  "mosaic has no tests.",
  [MO, PV], [("parquet_metadata_records/meta_record_df/meta_column_df", MO)], ["frames vs pyarrow's metadata"])

P("C25", "Label scraping returns exactly what the text contains",
  "A scraper returns, for the first match of a pattern in the label, the captured text converted to a Python value exactly when it is a Python literal and otherwise the text itself, and None when there is no match; it never raises because of what the text contains; the subframe of a label is the tuple of the integers in its first subframe block, in order. Loading, trimming and heading a file return exactly its leading bytes: up to the given size, or through the first end-of-label marker of the highest-ranked kind found within the size limit, or the whole head (or ValueError if asked) when there is none. Scraping many patterns gives one entry per requested field with supplemental results winning, bulk scraping gives one result per file in order, and cached variants agree with uncached ones.",
  ["inputs"], "all label texts and patterns with one capture group, files of any size and marker placement, size limits",
  "scrape has no tests.",
  [SC], [("make_scraper/get_label_text/trim_label/head_file/scrape_patterns/bulk_scrape_metadata", SC)], ["results vs direct text search"])

P("C26", "Turning off shared-memory tracking keeps blocks and breaks nothing else",
  "After a process turns off shared-memory resource tracking, blocks it creates or attaches survive its exit and stay readable by other processes until explicitly removed, with no resource-tracker complaint about them, in any order of creating, attaching and deleting blocks. Everything else of the process keeps working: other tracked resources (locks, semaphores, pools, queues) can still be created, used and are still cleaned up, and explicitly deleted blocks are gone. Without turning it off, nothing in the library changes resource tracking.",
  ["histories", "configurations"], "all sequences of block operations and multiprocessing-primitive use after deactivation, in parents, children and unrelated processes",
  "The function has no tests.",
  [MU], [("deactivate_shared_memory_resource_tracker", MU)], ["/dev/shm after process exit", "stderr of the process", "exceptions"])

P("C27", "Each part works with only the packages it needs, and importing is inert",
  "Every module can be imported first, alone or in any order, when of the optional packages only those its part declares are installed, and everything in it that needs no other package then works as in a full installation: the core (functional helpers, structures, compositions, dynamic functions, trackers, scraping, codecs, shared-memory helpers, notepads, indexes, stickies and locks) needs none of them, storing arrays needs numpy, pivot needs numpy and pandas but not pyarrow, and mosaic needs all three. Asking for array storage without numpy raises ImportError and leaves the rest usable. Importing has no effects beyond the import: it prints nothing, writes no file, starts no process or thread, touches no shared memory and leaves the state of the process (random state, signal handlers, environment, resource tracking, hooks, settings of other packages) as it was.",
  ["configurations", "histories"], "all sets of installed optional packages and all import orders of the library's modules",
  "The test environment has every optional package, and imports everything in one order in one process.",
  ["dustgoggles/"], [("lazily imported numpy", CD), ("imports of each module", "dustgoggles/")],
  ["module finder", "audit events during imports", "process state before and after each import"])

if __name__ == "__main__":
    out = Path(__file__).parent.parent / "properties.jsonl"
    with out.open("w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(PROPS), "properties")
