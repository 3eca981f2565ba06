import json,subprocess
D=open('/verif/DESIGN.md','w')
w=D.write
w(r'''# Model checking parquet2

## Method

Every property is decided by **stateless explicit-state model checking of the real code**. A *space* is a closure
whose only nondeterminism comes from

* `choose(n)` - a decision of the explored world: an input, a configuration, the next call of a history, a crash point;
* `deviate(n)` - a decision of the environment that departs from the default: a short transfer, `Interrupted`,
  `Pending`, an I/O error, an end of file, an edited field. At most *budget* (1-3) deviations per execution, at every
  placement (the analogue of a preemption bound).

The explorer (`harness/src/engine.rs`) runs the closure once for every leaf of the choice tree - depth first, no
sampling, no pruning, no random numbers - on 8 threads that share subtrees, against the crate built from `/repo`'s
working tree (path dependency, feature `full` plus `serde_types`). In every execution an **independent reference
model** computes what should happen (`harness/src/model.rs`: encodings; `fx.rs`: an in-memory description of the file, its
own thrift footer walker, adversarial sources and sinks; the rest is in each check) and it is compared with what the
implementation did. So each explored model trace *is* replayed on the implementation: that is the
conformance binding, there is no separate abstract model that could drift.

Also violations, in any space: a panic, an abort or stack overflow (a SIGABRT handler writes the replay file), one execution longer
than 90 s (watchdog), a single allocation above 2 GiB (a counting global allocator; C17 and C24 have tighter limits).

Evidence (`evidence/<id>.json`) reports per space: executions (leaves of the tree), transitions (decisions taken), distinct
states (hashes passed to `visit`), the deepest choice sequence, whether the exploration was exhaustive, and
coverage counters (`tally`). A space that hits the deadline (240 s quick, 780 s thorough) reports
`exhaustive=false`; on the reference machine every quick space is exhaustive.

A violation is a list of choices, written to `out/<id>.replay` and re-executed by `run.sh --replay <ID> <file>`.
`MC_SPACE=<name> run.sh <ID>` runs one space. Failures have a *key*; `known_findings.txt` may list `known:
property=.. key=.. -- ..` lines, which turn exactly that key into a `KNOWN-FINDING:` line. Currently none is listed:
every genuine defect found was repaired (`fixed:` lines).

Why this reaches what tests cannot: a test samples a handful of inputs; a space contains *all* of them
within its bounds, including the crossings (e.g. every row selection x every page layout x dictionary or not), every
suspension point, every crash point and every byte edit. Bugs in this code base are mostly boundary
interactions of small structures, which is what small-scope exhaustive enumeration covers.

No hooks were needed in `/repo`: everything is observable through the public API.

## Properties: what is enumerated, against which oracle

''')
ev={}
import glob,os
def table(i):
    try: e=json.load(open(f'/verif/evidence/{i}.json'))
    except Exception: return ''
    return e
SEC={
'C01':('files.rs','`many row groups` (beyond 2^15), `shapes` (schema x 1-3 groups x page layouts per column x versions x dictionary), `groups`, `codecs`, `headers` (encodings, levels, statistics, sorted flag, compressed flag), `with-indexes`, `options` (versions, creator, key-values, flags), `row-selections` (pages with a selection attached), `counts` (numbers of values, nulls and rows up to 2^31-1 per page), `every header field`, `declared sizes` (pages that decompress to anything up to 2^31-1 bytes), `scale`.',
 'Oracle: the plan itself. `check_layout` walks the written bytes with its own thrift parser (parquet-format-safe structs, raw): magic, contiguous pages, every offset/size/count/encoding/statistics of the footer against the bytes found there, footer length; `check_read` reads through the public readers and compares every page. A reader may omit pages without values that trail a chunk (the page reader stops at the number of values of the chunk), so those are not compared.'),
'C02':('files.rs','`write/shapes` (both writers produce the same bytes), `write/large` (footers, indexes and pages beyond 2^16), `write/schedules`, `read/schedules`, `read/filtered-schedules`, `read/columns` (every placement of up to 2 `Pending`/partial transfers in the poll sequence of an adversarial `AsyncRead`/`AsyncWrite`), `read/corrupt` (single-byte edits and truncations: both APIs agree on error or value).',
 'Oracle: the synchronous API on the same plan or bytes. `Interrupted` is not part of the contract of futures\' poll functions and is not injected on the async side.'),
'C03':('files.rs','`read/sync-faults`, `read/async-faults`, `write/sync-faults`, `write/async-faults`: every placement of up to 2 short transfers / interruptions / errors / early ends among the I/O calls of reading the footer, pages, column chunks, indexes, bloom filters and of writing; `read/truncated-source`: every length of the source, for files of this and of other writers.',
 'Oracle: the fault-free result. With only short transfers and interruptions the result must be identical; with an error or an early end the operation must fail or, if it never met the fault, be identical.'),
'C04':('files.rs','`prefixes`: every byte prefix of every writing history is opened; `torn`: every unwritten or overwritten end of a file of the right or a larger length; `full-sink`: the sink starts failing at every byte (also sinks that hold back 1, 64 or 2^20 bytes until flushed); `unfinished-histories`.',
 'Oracle: only the complete output is a file. A prefix that happens to contain a complete embedded file is outside the property. A sink whose *flush* alone fails leaves a complete file behind and an error from `end`.'),
'C05':('files.rs','`histories`, `histories/all-operations`: every sequence of up to 4-5 calls (valid groups, groups with missing/extra columns, different rows, failing pages, metadata queries, end) on FileWriter and FileStreamer; `histories/io-error`: one I/O error at every call; `columns` (row counts of up to 3 columns, missing and extra columns, iterators of unknown length), `failing-end`.',
 'Oracle: a three-state protocol model (initialised, started, finished, plus failed) that predicts acceptance of every call, the reported size and the groups of the resulting file.'),
'C06':('index.rs','`descriptions` (every layout of pages; every field of both indexes), `selections` (every set of selected rows x layouts x dictionary, several columns), `values` (selected values through the deserializers), `large pages`, `other writers` (indexes as other writers give them: boundary orders, absent null counts, fields of later formats), `scale` (hundreds of pages, large statistics).',
 'Oracle: positions taken from the written bytes by our own walker; rows as integers.'),
'C07':('index.rs','`all-subsets`, `interval-lists`, `compute-rows`, `bad-locations`, `many` (up to 70,000 pages or intervals).','Oracle: sets of integers.'),
'C08':('index.rs','`slices`, `runs/all` (every validity x run split x selection), `runs/long`, `runs/holes` (holes that begin and end at every bit of runs of several bytes), `runs/huge` (runs of up to 2^40 levels, judged as stretches), `runs/errors`, `pages`.','Oracle: iterate all, then filter.'),
'C09':('encoding.rs','`decode/*` (all widths, long runs, many runs, empty runs), `large` (runs and counts beyond 16 and 32 bits), `width-zero`, `encode-u32/*`, `encode-bool/*`, `bitmap-iter`, `validity-runs`, `level-width`.','Oracle: `model::hybrid_encode/decode`, a bit-by-bit implementation. encode_u32 pads its last group; only the first n values are compared.'),
'C10':('encoding.rs','`u8`, `u16`, `u32`, `u64` (width x length x patterns in which each bit position of each lane is set alone), `all-u8-packs`.','Oracle: bit-by-bit packing.'),
'C11':('encoding.rs','`roundtrip/short`, `/outlier`, `/lengths`, `/widths`, `decode/layouts`, `decode/widths`.','Oracle: our own encoder for every legal layout, wrapping arithmetic.'),
'C12':('encoding.rs','`sequences/short-words`, `sequences/prefix-chains`, `counts`.','Oracle: the words; prefix lengths by definition.'),
'C13':('encoding.rs','`dense`, `powers`, `all-bytes`.','Oracle: u128 arithmetic.'),
'C14':('stats.rs','`one page`, `two pages` (all combinations of boundary values, absences and null counts per type), `three or more pages`, `more values than rows`, `groups and index`, `conversion`.','Oracle: exact combination in the type\'s order, "nothing claimed that a page does not support".'),
'C15':('schema.rs','`trees` (every forest of n nodes), `annotations`, `groups`, `names`, `odd names`, `chains`, `wide and deep` (up to 1000 columns side by side, groups 100 deep), `very wide` (65536 columns at the root; in a group every column keeps a copy of all others, which is too much memory), `words` (every word of a text misspelled), `other writers` (legal encodings this writer does not produce), `broken trees`, `serde`, `parts` (check_contains over every subset of a tree, also with one node altered), `ids`; every character prefix of the spaced texts must be rejected.','Oracle: own tree to thrift/leaf/level functions and printer.'),
'C16':('codecs.rs','`every short byte string`, `default levels and every size`, `large payloads`, `every level`, `the costliest levels`, `histories of compressions in one buffer`, `outputs of another size`, `streams of other writers`, `hadoop lz4 frames`, `large hadoop lz4 frames`, `unframed legacy lz4`, `levels and codecs accepted`; the same spaces built with lz4_flex; `codecs without their features` built without any codec.','Oracle: identity; hand-written encoders for frames of other writers (stored blocks, several members, etc.).'),
'C17':('malformed.rs','`edits` (every byte x every value of four files), `two edits`, `metadata`, `page headers`, `indexes` (extreme values in any two fields of the thrift structures), `page contents`, `hybrid/packed/delta/compressed streams`, `delta headers`, `byte array lengths`, `text schemas`, `text edits`, `statistics`, `bloom filters`, `deep nesting`, `deep text`.','Oracle: returns; no panic/abort; peak memory within a constant plus a multiple of the input. Every reading entry point is driven on the result, not only the first.'),
'C18':('bloom.rs','`insert/bits`, `insert/histories`, `insert/many`, `hash/native`, `hash/bytes`, `read/truncated`, `read/none`, `read/*`.','Oracle: own split-block algorithm and own xxh64.'),
'C19':('pages.rs','`values/short`, `/indices`, `/long`, `/large` (up to 131 073 values, dictionaries of 70 000), `/selected`, `nested`, `files`, `fit`, `unfit`, `binary/limit`.','Oracle: the values and nulls the page was built from.'),
'C20':('columns.rs','`columns` (schema x field x page filter), `large columns` (chunks around 64 KiB and 1 MiB), `row groups` (every subset), `page filters` (every subset of pages x dictionary x reader), `large filtered pages`, `many pages`.','Oracle: the plan, filtered.'),
'C21':('meta.rs','`footer boundary` (every metadata size around 64 KiB), `contents`, `copies` (sidecar, into_metadata, thrift, serde), `scale`.','Oracle: the plan.'),
'C22':('stats.rs','`i32`, `i64`, `i64 bytes`, `floats`, `NaN`, `INT96`, `byte strings`, `sort orders`.','Oracle: i128 arithmetic / total-order laws; a table of the format\'s sort orders.'),
'C23':('codecs.rs','`histories of decompressions`, `histories of pages of a file`, `buffers recovered and reused`, `histories of compressions`.','Oracle: the same page with a fresh buffer.'),
'C24':('limits.rs','`one/sizes`, `one/headers`, `several`, `pieces`, `filtered`, `files`, `decompressor`.','Oracle: size arithmetic; the largest single allocation is measured.'),
'C25':('iters.rs','`bit-packed integers`, `hybrid integers`, `hybrid runs`, `levels and bitmaps`, `optional values`, `sliced values`, `long sequences` (70 000 to 200 000 items), `filtered runs`, `delta-encoded integers and lengths`, `plain values`, `compressors and decompressors`, `pages of a file`, `columns of a field`.','Oracle: a position in the list of items; nothing else is modelled, so any faster `nth`, `fold` or `size_hint` is accepted as long as it is right.'),
'C26':('contain.rs','`everything else is lost`, `one byte is damaged` (every byte), `the rest is cut off` (every length), `one source for every read` (histories), `bytes after the end`.','Oracle: the result from the intact medium. What is observed is the result, not which bytes are requested, so buffering and read-ahead are free to change.'),
'C27':('foreign.rs','`arrangements`, `page headers`, `later fields`, `thrift forms`.','Oracle: the description the file was built from, without the crate\'s writer (own encoder of the compact protocol; codecs aside). Limits of the thrift library, which is not part of this codebase, are not claimed: it skips binary fields of later versions only if they are valid UTF-8, and takes lists of booleans only with element type 1.'),
'C28':('copies.rs','`copies`, `options`, `merges`, `selections`, `other writers`, `faults`.','Oracle: the file written directly from the same pages (which C01 compares with independent descriptions of what they hold). Readers stop at the last value of a column chunk and indexed readers select no page without rows: such pages are not copied, and the oracle says so.'),
}
for k in ['C01','C02','C05','C06','C18','C20','C21']:
    f,sp,o=SEC[k]
    sp=sp.rstrip('.')+{'C05':', `far/large files`, `far/many rows`','C18':', `far/reading`','C20':', `far/reading`','C21':', `far/reading`','C02':', `far/reading`, `far/large files`'}.get(k,', `far/reading`, `far/large files`, `far/many rows`')+' (checks/far.rs: sparse files and sinks of more than 4 GiB).'
    SEC[k]=(f,sp,o)
for k in ['C10','C11','C12']:
    f,sp,o=SEC[k]; SEC[k]=(f,sp.rstrip('.')+', `large` (counts and lengths beyond 16 bits).',o)
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
for p in props:
    i=p['id']; f,s,o=SEC[i]
    e=table(i)
    w(f"### {i} - {p['title']}\n\nIn `harness/src/checks/{f}`. Spaces: {s}\n\n{o}\n\nBounds: {man[i]['level_note']}\n")
    w("\n")
w(r'''## False alarms met while building (machinery or property corrected)

* C01: pages without values at the end of a chunk may be left out by readers; not compared.
* C05: when only the final flush fails, the bytes are complete and open as a file; the property only asks for the error.
* C24/C17: a `Vec` that doubles while data really arrives is proportional to the input; limits allow for it.
* C17: `delta_length_byte_array::Decoder::into_values` documents a panic unless the lengths were fully consumed; the
  harness only calls it after an error-free, full consumption.
* C09: a run of no values is decoded to no values; asking "all but one" of an empty stream was an error of the harness.
* C02: `Interrupted` is not retried by the async readers (nor by futures' own helpers for poll functions): not claimed.

## Genuine defects

All were demonstrated on the original code, repaired in separate `fix:` commits, and are listed in `known_findings.txt`.

## Observed but not claimed

* The writer leaves `column_orders` unset; `filter_row_groups` keeps the file's `num_rows`; `FileMetaData::into_thrift`
  drops `ordinal` and `sorting_columns`; the writer records the first page as `data_page_offset` even when it is a
  dictionary and leaves `dictionary_page_offset` empty (readers handle it); `distinct_count` is dropped for chunks of several pages.
* `UNKNOWN` is only accepted on INT32; decimals need a scale in text; the text parser is lenient about missing closing braces.
* Schemas nested more than 256 levels are rejected on reading (a repair of C17: they exhausted the stack).
* `HybridRleDecoder` yields zeros when the data of a run is missing; the delta decoder trusts the count of its header.
* `lz4_flex` (feature, not enabled here by default: `lz4` is) panics on some malformed input, inside the third-party crate.
* Schema descriptors clone the root for every leaf (quadratic memory in wide deep schemas).
* zstd's window memory is allocated in C and not counted by the allocator of the harness.
* Deserializing `ColumnChunkMetaData` with serde uses an unlimited thrift size.

## Planted bugs (`seeded/`)

Each was written from the property and the code, confirmed to pass the stable tests, and has a demo. All are caught by the
quick check of their property. Missed at first, and what was strengthened: `rle-empty-run` (C09 had no runs of length
zero), `second-column-unfiltered` (C20 only filtered pages of one column), `unflushed-footer` (C04's sinks did not hold
back bytes until flushed).

| seed | property | needs |
|---|---|---|
''')
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    w(f"| {d} | {m['property']} | {m['needs']} |\n")
w(open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else '')
