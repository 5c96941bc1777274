"""Single source of properties.jsonl and MANIFEST.json: `python3 props.py` rewrites both."""
import json, os
F = 'crates/sail-function/src/scalar/'
D = 'crates/sail-delta-lake/src/'
I = 'crates/sail-iceberg/src/'
ALL = 'Every value of the stated domain is a symbolic variable; bounds are listed in the evidence.'
P = []
def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', technique='symbolic execution of the compiled code, SMT verdict per path'):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note, technique))

prop('C01', 'try_ arithmetic is exact or NULL',
  'try_add, try_subtract, try_multiply, try_divide and try_mod on integers, intervals, dates and timestamps return the mathematically exact result in every row, and NULL exactly when an argument is NULL, the divisor is zero or the exact result does not fit the result type. The remainder takes the sign of the dividend, MIN % -1 is 0, interval division rounds months towards zero and the day-time part exactly, and whole-interval division (div) is the truncated exact quotient. None of them fails or panics.',
  'All pairs of 32- and 64-bit arguments (multipliers and divisors partly from lists), arrays and scalars in every combination, NULLs in every position.',
  'Overflow boundaries are single points among 2^128 argument pairs and differ per argument shape (array/scalar); the tests hold a few sample rows.',
  [F + 'math/spark_try_add.rs', F + 'math/spark_try_subtract.rs', F + 'math/spark_try_mult.rs', F + 'math/spark_try_div.rs', F + 'math/spark_try_mod.rs', F + 'math/spark_div.rs', F + 'math/utils/'],
  [('checked kernels per type', F + 'math/utils/'), ('per-function dispatch over array/scalar shapes', F + 'math/')])
prop('C02', 'Calendar functions follow the proleptic Gregorian calendar',
  'For every date, year(d) is its Gregorian year, last_day(d) the last day of its month, and next_day(d, w) the first later date on weekday w, with weekday names accepted by their usual spellings in any case. Adding or subtracting a calendar interval moves by whole months with the day clamped to the month, then by days. Filters on year(d) = Y or last_day(d) = L may be replaced by date ranges only when they select exactly the same dates.',
  'Every day of a set of years that covers leap, century, BC and far years; month counts from lists; all weekdays and names.',
  'Calendar errors sit at month ends, leap days and before 1970; the tests use a handful of dates, none before 1970 for the rewrites.',
  [F + 'datetime/spark_last_day.rs', F + 'datetime/spark_next_day.rs', F + 'datetime/spark_year.rs'],
  [('last_day / next_day / year kernels', F + 'datetime/'), ('preimage of year and last_day', F + 'datetime/')])
prop('C03', 'Time-of-day, timestamp construction and windowing are exact',
  'time_trunc returns the largest multiple of the unit not after the time, time_diff the difference in whole units truncated towards zero, and make_time, make_timestamp_ntz and make_ym_interval accept exactly the valid fields and return their exact value (error, or NULL for try_ forms, otherwise). Unknown unit names are errors and known ones are accepted in any case. The sliding windows assigned to an event time are exactly the windows of the grid that contain it, each once.',
  'All times of day, field values and units; all timestamps within 200 000 years for 9 window shapes.',
  'Values before the epoch, at window edges and outside field ranges are not sampled by the tests.',
  [F + 'datetime/'], [('time_trunc, time_diff, make_*', F + 'datetime/'), ('window bucket computation', F + 'datetime/')])
prop('C04', 'Hash and seeded random functions are bit-compatible with Spark',
  'hash (Murmur3) of any value of any supported type equals the value Spark computes: integers and dates by width, floats by their bits with -0.0 as 0.0, strings and binaries by little-endian words and signed trailing bytes, decimals of up to 18 digits as longs and wider ones by their minimal big-endian bytes, NULLs leaving the running hash unchanged, dictionaries like their plain values. The seeded random generators reproduce the bit streams of XORShiftRandom and java.util.Random, and doubles lie in [0, 1).',
  'All values of the primitive types and seeds; strings and binaries up to 10 bytes; decimals whose magnitude takes up to 8 bytes (not 6).',
  'Compatibility must hold for each of 2^64 values; the tests compare a few dozen.',
  [F + 'hash/spark_murmur3_hash.rs', F + 'math/xorshift.rs', F + 'math/java_random.rs'],
  [('Murmur3 mixing and per-type hashing', F + 'hash/'), ('random generators', F + 'math/')])
prop('C06', 'A Delta version is rebuilt from one complete, non-overlapping log segment',
  'For any set of commit, checkpoint and compacted files in a Delta log, loading version V uses the newest checkpoint at or below V and then covers every later version up to V exactly once, in order, by commits or compacted files. If some needed version is missing the load fails, and if none is missing it succeeds, also when _last_checkpoint names a newer checkpoint.',
  'Every subset of the log files of up to 5 versions with 2 checkpoints or 4 compacted ranges, every target version, with and without a _last_checkpoint hint.',
  'There are exponentially many file combinations; the tests try a few.',
  [D + 'delta_log/segment.rs', D + 'delta_log/listing.rs'],
  [('LogSegmentResolver::resolve_for_full_state', D + 'delta_log/segment.rs'), ('list_log_files, resolve_compactions, validate_commit_contiguity_with_compactions', D + 'delta_log/segment.rs')],
  over=('histories', 'inputs'))
prop('C05', 'Delta log file names are recognised exactly',
  'In a Delta log a file is a commit, a checksum, a checkpoint, a UUID-named V2 checkpoint or a compacted file exactly when its name has that form with 20-digit versions that fit 64 bits, and its version is the number it spells. Every name the writer generates for a version is recognised as that version and as no other kind of file. Names of other lengths or with stray characters mean nothing and never cause a failure.',
  'Any last digits and any ASCII character at several places of the version, any 3 to 6 character endings, all names shorter than 25 characters, versions near 0, 10^9 and 2^63.',
  'A misread name silently drops or misorders commits; the tests try a few well-formed names.',
  [D + 'spec/log.rs'], [('parse_* functions and path builders', D + 'spec/log.rs')])
prop('C07', 'Deletion vectors are read back as exactly the rows that were written',
  'A deletion vector descriptor and file identify one set of row positions: the base-85 text encodes and decodes every word exactly (text beyond 32 bits or outside the alphabet is an error), serialized bitmaps read back as the same rows, and a vector is read from its own offset. Any damage to its size, data or checksum, any wrong offset and any truncation is an error rather than other rows. A relative descriptor resolves to <prefix>/deletion_vector_<uuid>.bin under the table, and malformed descriptors are errors, not crashes.',
  'All 32-bit words, 5-digit groups around the 32-bit maximum, every damaged byte of a two-vector file, every cut length, any out-of-range offset, any two 64-bit row indexes, non-ASCII descriptors.',
  'A wrong vector silently deletes or resurrects rows; the tests round-trip a few samples.',
  [D + 'deletion_vector/z85.rs', D + 'deletion_vector/storage.rs', D + 'deletion_vector/resolve.rs', D + 'deletion_vector/bitmap.rs'],
  [('z85_encode, z85_decode', D + 'deletion_vector/z85.rs'), ('read_dv_from_file_bytes', D + 'deletion_vector/storage.rs'), ('resolve_dv_absolute_path', D + 'deletion_vector/resolve.rs')])
prop('C08', 'Commits, compacted files and checkpoints rebuild the same table',
  'The state of a Delta version is what its commits leave in order: the last action on each file (path and deletion vector), transaction, metadata domain, protocol and metadata wins. Reading through a compacted log file the table wrote itself, through a checkpoint, or through both followed by further commits gives the same files, domains, transactions, protocol and metadata, whatever tombstones have expired.',
  'Histories of up to 4 commits of 10 kinds (add, remove, replace with deletion vector, domain set and removal, transaction, protocol, metadata), all compaction ranges within 3 versions, two retention limits, JSON V2 checkpoint followed by compacted files.',
  'Wrong results need a particular order of action, compaction and checkpoint; the tests replay a few fixed logs.',
  [D + 'checkpoint/mod.rs', D + 'delta_log/replay.rs', D + 'delta_log/segment.rs'],
  [('ReconciledCheckpointState::apply_action', D + 'checkpoint/mod.rs'), ('create_log_compaction_for, build_replay_sequence', D + 'checkpoint/mod.rs'), ('load_replayed_table_state, load_replayed_table_header', D + 'delta_log/replay.rs')],
  over=('histories',))
prop('C09', 'Concurrent Delta commits that do not commute are refused',
  'When another writer committed first, a commit is refused if the earlier one removed a file this one read or removes, changed protocol or metadata to something this one does not set identically, moved the same streaming application or metadata domain, or added data to a table this one read whole (except under snapshot isolation, or blind appends under write-serializable isolation when this one leaves the metadata alone). Otherwise it goes through.',
  'All combinations of the stated actions on both sides at every isolation level, with and without commit info, data-changing or not.',
  'The interleaving matrix has thousands of cells; the tests cover about ten.',
  [D + 'transaction/conflict_checker.rs'], [('ConflictChecker::check_conflicts', D + 'transaction/conflict_checker.rs')],
  over=('schedules', 'histories'))
prop('C10', 'Iceberg partition transforms compute the specified values',
  'The Iceberg partition transforms applied to any value give what the Iceberg specification defines: bucket is the 32-bit Murmur3 hash of the specified bytes modulo the bucket count, truncate the largest multiple of the width not above a number and the first characters or bytes of a string or binary, year, month, day and hour count from 1970 rounding down also before it, void is always NULL, and NULL transforms to NULL. The name of a transform parses back to the same transform.',
  'All ints, longs, dates and times; strings and binaries to 9 bytes; decimals to 16 bytes; truncation widths and bucket counts from lists; all dates and edge times of selected years around and before 1970.',
  'A wrong transform hides rows from other engines and from pruning; the tests take a handful of values, few before 1970.',
  [I + 'utils/partition_transform.rs', I + 'spec/transform.rs', I + 'utils/transform.rs'],
  [('apply_transform', I + 'utils/partition_transform.rs'), ('Transform parsing and display', I + 'spec/transform.rs')])
prop('C11', 'Iceberg scan pruning never drops a file that holds a matching row',
  'For any filter the planner pushes into an Iceberg scan, a data file and its manifest are kept whenever the file may hold a row the filter accepts, judged by its column bounds, null counts and partition values: comparisons either way round, IN lists, conjunctions, casts of a column, and identity, bucket, truncate, day and hour partitioning. Missing statistics, and statistics that merely bound a column, never exclude a value inside the bounds.',
  'Every row value, every literal and every bound around the value for int, long, date, timestamp and short string columns; five comparison operators; IN over up to four literals.',
  'A pruning mistake silently loses rows only for particular values, transforms and operators; the tests prune a few files.',
  [I + 'datasource/pruning.rs', I + 'utils/transform.rs'],
  [('prune_files, IcebergPruningStats', I + 'datasource/pruning.rs'), ('prune_manifests_by_partition_summaries, partition pruning of files', I + 'datasource/pruning.rs')])

prop('C12', 'Delta scan planning keeps every matching file; exact filters are exact',
  'For any filter, a Delta file is skipped only if no row it can hold matches, judged by its partition values (absent or empty meaning NULL) and statistics, missing and truncated ones included; and a filter that planning reports as exactly handled by partition pruning, so that it is not evaluated again, keeps only files whose rows all match. This covers comparisons either way round, IN lists short and long, BETWEEN, null tests, negations, boolean columns, comparisons between columns and conjunctions and disjunctions.',
  'Every row value within the bounds and every partition value of up to two digits (or NULL, either spelling) for int, short string and boolean columns; timestamps to the microsecond under millisecond statistics; literals from lists.',
  'A skipped file loses rows silently, and a filter wrongly called exact returns wrong rows, only for particular values, NULLs or list lengths; the tests prune a few files.',
  [D + 'datasource/pruning.rs', D + 'datasource/expressions.rs'],
  [('prune_adds_by_physical_predicate, AddStatsPruningStatistics', D + 'datasource/pruning.rs'), ('get_pushdown_filters', D + 'datasource/expressions.rs')])

prop('C13', 'Delta partition values survive writing and reading',
  'A partition value that Delta writing puts into the log (integers, decimals, dates, timestamps with and without time zone, strings, binary, booleans, NULL) is read back as the value that was written, whatever its sign, scale or distance from 1970; empty strings and NULL read back as NULL; and the directory of a partition is a single path segment that stands for exactly its value.',
  'Integers over whole narrow types and the ends of wide ones, decimals of five shapes, days around turns of years and leap days from year 1 to 9999, microseconds around seconds before and after 1970, every binary and ASCII string of up to three bytes.',
  'A partition value that reads back as another changes a column of every row of its file; which values go wrong depends on sign, scale and digits; the tests use a few positive ones.',
  [D + 'conversion/scalar.rs'],
  [('ScalarExt::serialize, parse_partition_value, parse_optional_partition_value', D + 'conversion/scalar.rs')])

prop('C14', 'Delta DELETE, UPDATE and MERGE find every file with an affected row',
  'The rewritten condition by which DELETE, UPDATE and MERGE choose the files of a Delta table to look into, evaluated over file statistics and partition values, holds for every file that has a row for which the condition itself holds, whatever the values and NULLs of the row and the statistics recorded for the file, including when statistics are missing.',
  'Rows of any INT or NULL and any statistics that admit them, each present or absent; thirteen kinds of predicates with any literals on plain, mapped, nested and partition columns; conjunctions, disjunctions and negations of two.',
  'A file that is wrongly left out keeps rows that should be gone or changed; it takes a NULL, a missing statistic or a negation at the wrong place, over all values.',
  [D + 'physical_plan/planner/metadata_predicate.rs'],
  [('metadata predicate rewriting', D + 'physical_plan/planner/metadata_predicate.rs')])
prop('C15', 'Iceberg deletes hit exactly their rows; manifests read back as written',
  'Reading an Iceberg table applies each equality or position delete file to exactly the rows and data files the specification says: those of its partition and older (not newer) data sequence numbers, by value with NULL equal to NULL, by position within its file; a LIMIT does not count deleted rows as found. Manifest entries, bounds, sequence numbers and partition values are read back as they were written, in the type they were written with.',
  'Two deletes and a data file of any sequence numbers; partition tuples and bounds of any value of seven to ten types; manifest entries of any status, counts and numbers; batches of four rows at any offset with up to three deleted positions.',
  'Deletes that miss or overshoot change query results silently; which rows go wrong depends on sequence numbers, NULLs, types and file boundaries that no fixed table samples.',
  [I + 'spec/delete_index.rs', I + 'spec/manifest/_serde.rs', I + 'spec/types/values.rs', I + 'physical_plan/delete_apply_exec.rs', I + 'operations/write/partition.rs'],
  [('delete index and delete application', I + 'spec/delete_index.rs'), ('row masks', I + 'physical_plan/delete_apply_exec.rs'), ('manifest entries', I + 'spec/manifest/_serde.rs'), ('values', I + 'spec/types/values.rs')])
E = 'crates/sail-execution/src/driver/'
prop('C16', 'Distributed tasks get free slots, in order, within the worker limit',
  'In a cluster, waiting task regions are assigned whole and in the order they were enqueued, each task set to a free slot of a live worker that no other set shares (or to the driver, where it is placed); a slot is free again exactly when all of its tasks ended; an excluded task takes its region out of the queue; workers are requested as needed and never beyond the limit; a worker counts as idle only with no task and no output it still keeps.',
  'Up to three workers of one or two slots, three regions of up to three task sets, any worker limit, every order of the events considered.',
  'A slot given twice, a lost region or a stream forgotten shows only in some order of assignments, losses and completions, which end-to-end tests meet by luck.',
  [E + 'task_assigner/core.rs', E + 'task_assigner/state.rs'],
  [('TaskAssigner', E + 'task_assigner/core.rs'), ('TaskSlot, WorkerResource, DriverResource', E + 'task_assigner/state.rs')])
prop('C17', 'Distributed jobs run each task when its inputs are there, and end rightly',
  'From every state a distributed job can be in, its next step starts a task only when everything it reads from finished stages is there and still kept, together with the tasks it exchanges data with directly, never twice at a time and not more often than allowed; after a failure those tasks are cancelled and tried again, or the job fails; the job ends successfully exactly when all tasks succeeded and otherwise always has a task under way; its result is read from each last-stage attempt once; each partition and channel of a stage is read exactly by the tasks meant to; an attempt that ended never changes.',
  'Jobs of one to three stages of up to two tasks, joined by every input mode and through storage or directly, in every state of every attempt (one or two each); input lists for up to four partitions, channels and readers.',
  'Scheduling goes wrong in particular orders of failures and completions across stages; the step is checked from every reachable state rather than along sample histories.',
  [E + 'job_scheduler/core.rs', E + 'job_scheduler/topology.rs', E + 'job_scheduler/state.rs', 'crates/sail-execution/src/job_graph/mod.rs'],
  [('JobScheduler::refresh_job, update_task, clean_up_job', E + 'job_scheduler/core.rs'), ('JobTopology', E + 'job_scheduler/topology.rs'), ('TaskState::consolidate', E + 'job_scheduler/state.rs')])
O = 'crates/sail-physical-plan/src/'
prop('C18', 'Ranges, row ids, partitions and limits neither lose nor repeat rows',
  'The partitions of a range hold exactly its numbers, each once and in order, also near the ends of BIGINT; monotonically increasing ids are distinct across rows, batches and partitions, or there is an error; repartitioning and coalescing send each row to exactly one partition, evenly; a limit on a stream passes exactly the rows after the skipped ones up to its number; MERGE fails exactly when two source rows match one target row.',
  'Ranges of any start and end with steps over the whole of BIGINT, up to four partitions; any partition number and row count before; two batches of up to three rows of any values; any limit.',
  'Off-by-one and overflow errors lie at particular sizes, offsets and ends of number ranges, and lose or repeat rows without an error.',
  ['crates/sail-logical-plan/src/range.rs', O + 'monotonic_id.rs', O + 'repartition.rs', O + 'coalesce.rs', O + 'streaming/limit.rs', O + 'merge_cardinality_check.rs'],
  [('Range::partition', 'crates/sail-logical-plan/src/range.rs'), ('MonotonicIdStream', O + 'monotonic_id.rs'), ('RowRoundRobinPartitioner', O + 'repartition.rs'), ('coalesced_input_range', O + 'coalesce.rs'), ('StreamLimitState', O + 'streaming/limit.rs'), ('MergeCardinalityCheckStream', O + 'merge_cardinality_check.rs')])

NA = []
NOTE = 'Bounded symbolic execution: holds for every value within the bounds recorded in the evidence (inputs symbolic, loops unrolled as far as the inputs need). Trusts rustc/LLVM up to unoptimised IR plus the engine (counterexamples are replayed natively), the SMT solvers and the reference in the harness.'
ONLY = ['C07', 'C08', 'C09', 'C17']  # what this commit claims: the others await a full run
def main():
    global P
    P = [x for x in P if x[0]['id'] in ONLY]
    here = os.path.dirname(os.path.abspath(__file__))
    with open(here + '/properties.jsonl', 'w') as f:
        for p, _, _ in P: f.write(json.dumps(p) + '\n')
        for p, _ in NA: f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
             technique=t, level='model_checking', level_note=(n + ' ' if n else '') + NOTE) for p, n, t in P],
             not_applicable=[dict(property=p['id'], reason=r) for p, r in NA])
    json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
    for p, _, _ in P:
        for x in p['anchors']['files']: 
            if not os.path.exists('/repo/' + x): print(p['id'], 'no such file', x)
if __name__ == '__main__': main()
