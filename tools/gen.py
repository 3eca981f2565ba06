#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=list(state), observe=list(observe), note=note, technique=technique))

prop("C01", "A written file reads back exactly as it was written",
 "Whatever schema, number of row groups, number of pages per column, page version, dictionary use, compression codec and write options are used, reading a finished file returns every page that carries values (and the dictionaries before them) with the same kind, the same level and value bytes, the same header (value, null and row counts, encodings, statistics), the same row counts and schema, in the same order. The byte ranges, sizes, value counts, encodings and statistics recorded in the footer describe exactly the bytes that were written. The bytes themselves are laid out as the format says: magic, contiguous pages, metadata, little-endian footer length, magic. Writing the same again gives the same bytes.",
 ["inputs", "configurations"], "every schema x row-group/page layout x page version x codec x options combination within the bounds",
 "tests write a handful of one- or two-column files with one page and one codec each; combinations of groups, pages, dictionaries, versions and codecs are never crossed",
 ["src/write/file.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/compression.rs", "src/read/page/reader.rs", "src/read/metadata.rs", "src/metadata/"],
 [("offset accounting", "src/write/file.rs: FileWriter::write"), ("chunk metadata", "src/write/column_chunk.rs: build_column_chunk"), ("page headers", "src/write/page.rs: write_page")],
 [("offset", "absolute position of the next byte", "src/write/file.rs: FileWriter.offset")],
 ["FileWriter::write/end", "read_metadata", "PageReader"])
prop("C02", "The asynchronous API behaves exactly like the synchronous one",
 "Writing the same row groups through the asynchronous writer produces the same bytes, the same reported sizes and the same readable file as the synchronous writer, and reading through the asynchronous functions returns the same metadata, pages and errors-or-success as the synchronous ones. This holds however the underlying asynchronous source or sink splits, delays or suspends its operations.",
 ["schedules", "inputs", "configurations"], "every placement of a bounded number of Pending results and short transfers in the poll sequence, over a set of files",
 "the tests run the async API on in-memory cursors that are always ready and always transfer everything, so no suspension point is ever taken",
 ["src/write/stream.rs", "src/read/stream.rs", "src/read/page/stream.rs", "src/write/page.rs", "src/write/column_chunk.rs", "src/write/row_group.rs", "src/read/column/stream.rs"],
 [("async file writer", "src/write/stream.rs: FileStreamer"), ("async page stream", "src/read/page/stream.rs: get_page_stream"), ("async metadata", "src/read/stream.rs: read_metadata")],
 [], ["FileStreamer", "get_page_stream", "read_metadata (async)", "read_columns_many_async"])
prop("C03", "I/O faults are reported, never turned into wrong data",
 "Short reads or writes and interrupted system calls never change what is written or returned. An I/O error, or a source that ends before the recorded data does, makes the operation that meets it return an error; it never makes an operation return success with missing, truncated or altered data.",
 ["fault_sequences", "inputs"], "every placement of a bounded number of short transfers, interruptions, errors or end-of-files among the I/O calls of each operation, over a set of files",
 "the tests only use in-memory cursors that never fail or transfer partially",
 ["src/read/metadata.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/indexes/read.rs", "src/read/column/mod.rs", "src/bloom_filter/read.rs", "src/write/file.rs", "src/write/stream.rs"],
 [("page read", "src/read/page/reader.rs: build_page"), ("column read", "src/read/column/mod.rs: read_column"), ("footer read", "src/read/metadata.rs: read_metadata_with_size")],
 [], ["results of every reading and writing entry point under an adversarial Read/Write/Seek"])
prop("C04", "An incompletely written file is never accepted as a file",
 "If writing stops at any point before the file is finished, the bytes that reached the storage are rejected when opened as a file; the same holds if the storage already has the length of the file but the end of it was not written; only the complete output opens, and then it contains all the row groups (written data that itself contains the end of another complete file is outside this property). Failing to finish a file leaves the writer reporting an error, not success.",
 ["crash_points", "histories"], "every byte-prefix of the output of every writing history and every torn end of it within the bounds, and every write call at which the sink starts failing",
 "no test ever interrupts a write", ["src/write/file.rs", "src/write/stream.rs", "src/read/metadata.rs"],
 [("footer written last", "src/write/file.rs: end_file"), ("footer checks", "src/read/metadata.rs: read_metadata_with_size")],
 [], ["read_metadata on every prefix"])
prop("C05", "Every history of writer calls keeps the file and its sizes consistent",
 "For every sequence of row-group writes (successful, failing or abandoned at any point), and finishes, the writer accepts exactly the calls its protocol allows and rejects the others with an error: nothing can be written or finished again after a finish, and row groups whose columns do not match the schema or have different row counts are rejected. A history that ends with a successful finish yields a readable file with exactly the row groups whose writes succeeded, in order, and the size it reports is the number of bytes written; what cannot be described in the file is refused.",
 ["histories"], "every sequence of writer operations up to a depth, on both the synchronous and asynchronous writer",
 "tests use the single history write, end", ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs"],
 [("state machine", "src/write/file.rs: State"), ("row-group assembly", "src/write/row_group.rs: write_row_group")],
 [("state", "initialised / started / finished", "src/write/file.rs: FileWriter.state"), ("offset", "position of the next row group", "src/write/file.rs: FileWriter.offset")],
 ["FileWriter", "FileStreamer"])
prop("C06", "Page indexes describe and locate every page, and indexed reads select exactly",
 "The offset index written for a column locates each of its data pages exactly (position, size and first row), and the column index reports for each page its null count and its minimum and maximum. Reading a column through the index with any selection of rows returns exactly the pages that contain selected rows, and, combined with the row selection attached to each page, exactly the selected values, whether or not the column has a dictionary.",
 ["inputs", "configurations"], "every page layout and every set of row intervals within the bounds",
 "tests read one file with one or two selections", ["src/write/indexes/", "src/read/indexes/", "src/indexes/", "src/read/page/indexed_reader.rs"],
 [("index writing", "src/write/indexes/serialize.rs"), ("index reading", "src/read/indexes/read.rs"), ("indexed page reader", "src/read/page/indexed_reader.rs")],
 [], ["read_columns_indexes", "read_pages_locations", "IndexedPageReader"])
prop("C07", "Row intervals and page selections form a faithful set algebra",
 "Computing the rows that match a predicate on page statistics, the pages that overlap a set of row intervals, and the rows selected inside each page gives exactly the sets of rows those intervals denote: no selected row is lost, no other row appears, and pages without selected rows are skipped.",
 ["inputs"], "every page partition of up to N rows and every set of row intervals over it",
 "tests check a dozen hand-made partitions", ["src/indexes/intervals.rs"],
 [("interval construction", "src/indexes/intervals.rs: compute_page_row_intervals, compute_rows"), ("page selection", "src/indexes/intervals.rs: select_pages")],
 [], ["compute_rows", "select_pages"])
prop("C08", "Filtered iteration equals iterating everything and then filtering",
 "Iterating a page through a row selection yields exactly the values and validity that iterating the whole page and keeping only the selected rows would yield, in the same order and with exact remaining counts, for optional and required columns and for every way the validity is split in runs.",
 ["inputs"], "every run structure and interval list within the bounds", "tests check a few run structures",
 ["src/deserialize/filtered_rle.rs", "src/deserialize/utils.rs", "src/page/mod.rs"],
 [("filtered runs", "src/deserialize/filtered_rle.rs"), ("filtered slices", "src/deserialize/utils.rs: SliceFilteredIter")],
 [], ["FilteredHybridBitmapIter", "FilteredHybridRleDecoderIter", "SliceFilteredIter"])
prop("C09", "The RLE/bit-packing hybrid encoding is decoded and encoded per the format",
 "Every well-formed hybrid stream - any sequence of repeated and bit-packed runs, any bit width - decodes to exactly the values it denotes, whether read as integers, as runs or as booleans, with exact remaining counts at every step. Encoding integers or booleans produces a well-formed stream that denotes the input, without touching bytes already in the buffer.",
 ["inputs"], "all run sequences up to a length over boundary run lengths, all bit widths, all boolean sequences up to a length",
 "tests decode about ten streams", ["src/encoding/hybrid_rle/", "src/deserialize/hybrid_rle.rs", "src/read/levels.rs"],
 [("run decoding", "src/encoding/hybrid_rle/decoder.rs"), ("value decoding", "src/encoding/hybrid_rle/mod.rs: HybridRleDecoder"), ("encoding", "src/encoding/hybrid_rle/encoder.rs")],
 [], ["HybridRleDecoder", "HybridRleIter", "HybridRleDecoderIter", "encode_u32", "encode_bool"])
prop("C10", "Bit packing is exact for every integer type, width and length",
 "Packing integers with a number of bits produces their little-endian bit string, and unpacking any such string returns the integers, for 8, 16, 32 and 64-bit types, every width, and every length including partial blocks and exactly-sized buffers.",
 ["inputs"], "all widths x all lengths over several blocks x value patterns with every bit position set",
 "tests use few widths and lengths", ["src/encoding/bitpacked/"],
 [("pack", "src/encoding/bitpacked/pack.rs"), ("unpack", "src/encoding/bitpacked/unpack.rs"), ("block iteration", "src/encoding/bitpacked/decode.rs")],
 [], ["bitpacked::encode", "bitpacked::Decoder"])
prop("C11", "Delta binary packing is exact for every integer sequence and layout",
 "Encoding any sequence of 64-bit integers and decoding it returns the sequence, whatever the differences (including those that overflow), and the decoder reports how many bytes the encoding takes. Every legal layout (block size, number of miniblocks, widths, partially filled blocks) is decoded, ignoring bytes that follow.",
 ["inputs"], "all short sequences of extreme values; outliers at every position; all lengths around block borders; all legal layouts",
 "tests decode about ten streams with small differences", ["src/encoding/delta_bitpacked/"],
 [("encode", "src/encoding/delta_bitpacked/encoder.rs"), ("decode", "src/encoding/delta_bitpacked/decoder.rs")],
 [], ["delta_bitpacked::encode", "delta_bitpacked::Decoder"])
prop("C12", "Byte-array encodings preserve every sequence of byte strings",
 "The delta-length, delta (shared prefix) and plain byte-array encodings return exactly the lengths, prefixes and bytes of every sequence of byte strings, including empty strings, strings that are prefixes of their neighbours and trailing bytes after the encoded section.",
 ["inputs"], "all sequences of words up to a length and depth, all prefix/suffix chains, all counts over several blocks",
 "tests use two sequences", ["src/encoding/delta_length_byte_array/", "src/encoding/delta_byte_array/", "src/encoding/plain_byte_array.rs"],
 [("shared prefixes", "src/encoding/delta_byte_array/encoder.rs"), ("lengths", "src/encoding/delta_length_byte_array/")],
 [], ["delta_byte_array", "delta_length_byte_array", "plain_byte_array::BinaryIter"])
prop("C13", "Variable-length integers round-trip and are validated",
 "Every unsigned and signed 64-bit integer is encoded in the shortest LEB128 form (zig-zag for signed) and decoded back together with the number of bytes it took. Byte strings that are not a complete 64-bit varint are reported as errors.",
 ["inputs"], "dense small values, all sums of two powers of two, all byte strings over a structural alphabet up to 11 bytes",
 "tests use five values", ["src/encoding/uleb128.rs", "src/encoding/zigzag_leb128.rs"],
 [("uleb128", "src/encoding/uleb128.rs"), ("zigzag", "src/encoding/zigzag_leb128.rs")], [], ["uleb128", "zigzag_leb128"])
prop("C14", "Recorded statistics never contradict the data",
 "The minimum, maximum and null count recorded for a column chunk and for each page in its index are the exact combination, in the column type's order, of those recorded on its pages; nothing is claimed for a chunk that some page does not support. Statistics of every type keep their values when written and read back.",
 ["inputs"], "every combination of per-page statistics over boundary values, for every physical type",
 "tests combine two pages of one or two types", ["src/write/statistics.rs", "src/statistics/", "src/write/column_chunk.rs", "src/write/indexes/serialize.rs"],
 [("reduction", "src/write/statistics.rs: reduce"), ("statistics encodings", "src/statistics/")], [], ["ColumnChunkMetaData::statistics", "read_columns_indexes"])
prop("C15", "Schemas survive conversion and determine levels correctly",
 "Every schema tree is recovered unchanged (names, nesting, repetition, ids, physical, logical and converted types) from the file metadata it is stored as and from its textual form; a text that is cut short or has an invalid field id is rejected. The leaf columns, their order, paths and maximum definition and repetition levels are those the tree defines. A schema contains exactly the sub-schemas made of its own columns.",
 ["inputs"], "every schema tree up to a size over all repetitions and a covering set of leaf types", "tests use hand-written schemas",
 ["src/schema/", "src/metadata/schema_descriptor.rs", "src/parquet_bridge.rs"],
 [("thrift conversion", "src/schema/io_thrift/"), ("message parser/printer", "src/schema/io_message/"), ("levels", "src/metadata/schema_descriptor.rs: build_tree")],
 [], ["SchemaDescriptor", "ParquetType"])
prop("C16", "Every codec restores exactly what it compressed",
 "Compressing any bytes and decompressing them with the same codec returns those bytes, for every codec and level, whatever the output buffer already contained (compression appends and leaves existing bytes intact). LZ4 data framed the Hadoop way, with any number of frames, or not framed at all, is decompressed as well. A codec that was not compiled in is reported as an error.",
 ["inputs", "configurations"], "every codec and level x payload shapes x buffer states x Hadoop frame splits", "tests use one payload per codec",
 ["src/compression.rs", "src/parquet_bridge.rs"], [("codecs", "src/compression.rs: compress, decompress"), ("Hadoop framing", "src/compression.rs: try_decompress_hadoop")],
 [], ["compression::compress", "compression::decompress"])
prop("C17", "Malformed input is reported as an error, never a crash",
 "Opening, decompressing and decoding bytes that are not a valid file, page or encoded stream returns an error or some value; it never panics, aborts, loops forever or allocates memory out of proportion to the input. Every bit width, length and offset found in the input is validated before it is used.",
 ["inputs", "fault_sequences"], "every single-byte substitution (over an alphabet), deletion and truncation of a set of small files and encoded streams, and every short byte string over a structural alphabet",
 "a few regression inputs from past fuzzing are tested", ["src/read/", "src/encoding/", "src/deserialize/", "src/page/", "src/metadata/", "src/schema/io_thrift/", "src/bloom_filter/"],
 [("metadata validation", "src/read/metadata.rs"), ("page validation", "src/read/page/reader.rs"), ("decoders", "src/encoding/")], [], ["all reading entry points"])
prop("C18", "Bloom filters have no false negatives and match the format",
 "Every value inserted in a bloom filter is found in it afterwards, in every filter size and insertion order, and the filter written in a file is read back unchanged. Insertion sets exactly the bits the specification prescribes, so filters written by other implementations are interpreted the same way.",
 ["inputs", "histories"], "every insertion history up to a depth over a value universe and filter sizes", "tests insert two values in one filter",
 ["src/bloom_filter/"], [("split-block algorithm", "src/bloom_filter/split_block.rs"), ("reading", "src/bloom_filter/read.rs"), ("hash", "src/bloom_filter/hash.rs")], [], ["bloom_filter::insert, is_in_set, read"])
prop("C19", "Pages deserialize to the values and nulls they encode",
 "For every physical type, optional or required, plain or dictionary-encoded, whole or with a row selection, in both page versions, the page deserializers yield exactly the values and nulls the page encodes, in order and in number. A page whose encoding does not fit the column is rejected.",
 ["inputs", "configurations"], "every validity pattern up to a length x type x encoding x version x selection", "tests read full pages of a few fixed arrays",
 ["src/deserialize/", "src/page/mod.rs"], [("deserializer selection", "src/deserialize/native.rs, binary.rs, fixed_len.rs, boolean.rs"), ("page splitting", "src/page/mod.rs: split_buffer")], [], ["NativePageState, BinaryPageState, FixedLenBinaryPageState, BooleanPageState"])
prop("C20", "Column and row-group iteration visits exactly what was asked for",
 "Iterating a file's columns or a field's columns visits exactly the requested columns of each row group, in schema order, each with all its pages in order. Filters on row groups and on pages remove exactly what they reject: the remaining pages are unchanged, and a skipped dictionary or page never affects another.",
 ["inputs", "configurations"], "every schema shape, requested field, row-group filter and page filter within the bounds", "tests iterate one file",
 ["src/read/mod.rs", "src/read/column/", "src/read/page/reader.rs"], [("column iterators", "src/read/column/mod.rs"), ("page filter", "src/read/page/reader.rs")], [], ["get_column_iterator, get_field_columns, filter_row_groups, ReadColumnIterator, PageReader"])
prop("C21", "File metadata is preserved through every way of storing it",
 "The number of rows, creator string, key-value pairs, version, schema and row groups of a file are returned by reading exactly as given when writing, for any size of metadata relative to the block that is speculatively read at the end of the file. The metadata written alone in a side file, or extracted from the writer, describes the same row groups.",
 ["inputs", "configurations"], "every metadata size around the speculative-read boundary, every key-value/creator shape, side files", "tests have metadata of one small size",
 ["src/read/metadata.rs", "src/read/stream.rs", "src/metadata/", "src/write/file.rs"], [("footer read", "src/read/metadata.rs"), ("thrift conversion", "src/metadata/file_metadata.rs, row_metadata.rs, column_chunk_metadata.rs"), ("side file", "src/write/file.rs: write_metadata_sidecar")], [], ["read_metadata, FileMetaData"])
prop("C22", "Each physical type's bytes and order are those of the format",
 "Every value of a native physical type is converted to its little-endian bytes and back unchanged. The order used to compare values of each type is a total order consistent with the type's meaning, and the sort order assigned to each combination of physical, logical and converted type is the format's.",
 ["inputs"], "all pairs and triples over boundary values per type; every physical x logical x converted type", "tests compare a few pairs",
 ["src/types.rs", "src/schema/types/", "src/metadata/sort.rs", "src/parquet_bridge.rs"], [("ordering", "src/types.rs: NativeType::ord, ord_binary"), ("sort order", "src/metadata/sort.rs")], [], ["types::NativeType", "metadata::get_sort_order"])
prop("C23", "Reused buffers never leak data between pages",
 "Compressing or decompressing a sequence of pages through one reused buffer gives, for every page, exactly what processing that page alone with a fresh buffer gives, whatever mixture of compressed, uncompressed, dictionary, empty, small and large pages precedes it and whether or not an error occurred before. Buffers can be recovered at any point and reused.",
 ["histories"], "every sequence of page kinds up to a depth, with every point of recovery", "tests read pages one at a time with new buffers",
 ["src/read/compression.rs", "src/write/compression.rs"], [("decompressor", "src/read/compression.rs: Decompressor, BasicDecompressor"), ("compressor", "src/write/compression.rs: Compressor")],
 [("buffer", "memory handed from page to page", "src/read/compression.rs: Decompressor.buffer")], ["Decompressor, BasicDecompressor, Compressor"])
prop("C24", "Readers respect the page-size limit they are given",
 "A reader given a maximum page size never accepts a page whose compressed or uncompressed size, or the statistics in whose header, are larger than it: it reports an error before allocating memory for it, in the synchronous and asynchronous readers alike. A page whose size and header are within the limit is never refused because of it.",
 ["inputs", "configurations"], "every page size around every limit, for header, compressed and uncompressed sizes", "tests use unlimited sizes",
 ["src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/page/stream.rs", "src/read/compression.rs"], [("limit", "src/read/page/reader.rs: build_page")], [], ["PageReader, get_page_stream, IndexedPageReader"])
prop("C25", "Every iterator may be consumed in any way",
 "Every iterator over values, levels, runs, lengths and pages gives the same items however it is consumed: for any sequence of next, nth, skips, partial iterations, copies and size queries, the items returned are those of the sequence it denotes at that position. Sizes that are announced as exact are exact at every point, announced bounds hold, copies go on independently, and nothing is returned after the end. Streaming iterators return their current item any number of times and nothing before the first and after the last, and readers taken back from an iterator at any point can be used for the next column.",
 ["inputs", "histories"], "every history of operations up to a depth, on every iterator, over a covering set of inputs", "tests collect iterators from start to end once",
 ["src/encoding/", "src/deserialize/", "src/write/dyn_iter.rs", "src/write/compression.rs", "src/read/compression.rs", "src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/read/column/mod.rs"], [("value iterators", "src/encoding/*/: Iterator impls"), ("adapters", "src/deserialize/utils.rs: OptionalValues, SliceFilteredIter")],
 [("position", "how far an iterator is", "src/encoding/bitpacked/decode.rs: Decoder.remaining")], ["Iterator::next/nth/size_hint", "FallibleStreamingIterator::advance/get", "MutStreamingIterator::advance"])
prop("C26", "What is read of one part of a file depends on that part alone",
 "Reading the metadata, a column chunk, the pages of a column, a selection of its pages, an index or a bloom filter gives the same result whatever the other bytes of the file are and whatever was read before from the same source. Losing or damaging everything else, or cutting off what follows, does not change it. Damage to the data of one page changes no other page, and pages that a filter or a selection leaves out are not looked at.",
 ["inputs", "fault_sequences", "histories"], "every part of a file x loss of all other bytes, damage of any single other byte, every cut, every history of reads of one source", "tests read intact files, from a fresh source",
 ["src/read/"], [("chunk ranges", "src/metadata/column_chunk_metadata.rs: byte_range"), ("seeks", "src/read/mod.rs: get_page_iterator; src/read/page/indexed_reader.rs; src/read/indexes/read.rs")],
 [("position", "where the source is", "the reader given by the user")], ["read_metadata, read_column(s), get_page_iterator, get_page_stream, IndexedPageReader, read_columns_indexes, read_pages_locations, bloom_filter::read"])

prop("C27", "Files laid out by other writers are read for what they hold",
 "A file that follows the format is read for what its footer, indexes and page headers say, whoever wrote it: with its column chunks in any order and with any bytes between them, its indexes and bloom filters before or after the pages, the dictionary page located explicitly or found at the start of the column, optional fields of page headers present or absent (checksums, sortedness, compression flags, legacy statistics and encodings), fields of later versions of the format anywhere in its structures, and any legal form of their serialization. Synchronous, asynchronous and indexed readers all return the same metadata and exactly the pages the file holds.",
 ["inputs", "configurations"], "every order of the chunks of a file x gaps x places of indexes; every combination of optional header fields; every kind of unknown field in every structure; every form of serialization", "tests read files of two or three writers, each with one fixed arrangement",
 ["src/read/", "src/metadata/", "src/page/mod.rs", "src/parquet_bridge.rs"], [("start of a column", "src/metadata/column_chunk_metadata.rs: byte_range"), ("header conversion", "src/read/page/reader.rs: finish_page"), ("dictionary location", "src/read/page/indexed_reader.rs: read_dict")],
 [], ["read_metadata (sync, async), get_page_iterator, get_page_stream, IndexedPageReader, read_column(s), read_columns_indexes, read_pages_locations, bloom_filter::read"])

prop("C28", "Files rewritten from the pages of others hold the same data",
 "The pages that any reader returns can be written into another file, as they are or decompressed and compressed again with any codec, streamed or collected, through the page index or not, by the synchronous or the asynchronous writer. Copying, merging, reordering and splitting files by row groups, leaving out columns, and leaving out pages by a filter or a selection gives byte for byte the file that has those contents when it is written directly; statistics, dictionaries, encodings, levels and metadata included. Copying there and back gives the original. If reading or writing fails at any point, so does the copy.",
 ["inputs", "histories", "fault_sequences"], "every file of a bounded family x every path from the readers to the writers x every selection of row groups, columns or pages; every single fault of the source or the sink", "tests write pages they made and read pages they wrote, one path each; none writes what it read",
 ["src/read/", "src/write/", "src/page/mod.rs"], [("pages as they are read", "src/read/page/reader.rs: finish_page; src/read/compression.rs"), ("pages as they are written", "src/write/page.rs; src/write/compression.rs; src/write/column_chunk.rs")],
 [], ["get_page_iterator, get_page_stream, IndexedPageReader, ColumnIterator, Decompressor, BasicDecompressor -> Compressor, FileWriter, FileStreamer"])

DONE = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28".split()
BOUNDS = {
 "C01": "Every combination of 4 schemas, up to 3 row groups, 6 page layouts per column, 6 codecs, 2 versions, header variants and index options; page bodies are opaque bytes of a few sizes; counts up to 2^31-1 and, in one dimension at a time, up to 1000 columns or groups, 3000 pages, 9 MB.",
 "C02": "All placements of up to 2 suspensions or partial transfers per operation over 3-4 small files; all single-byte corruptions (over an alphabet) and truncations of 2-3 files compared between the two APIs.",
 "C03": "All placements of up to 2 short transfers, interruptions, errors or ends of file per operation over files of 400-900 bytes; every truncation point of the source.",
 "C04": "Every prefix of the output of about 20 writing histories (all codecs, both versions, sync and async) and every byte position at which the sink starts failing.",
 "C05": "All call sequences up to depth 4-5 over valid and invalid row groups, on both writers, plus every position of one I/O error; calls abandoned at every suspension or by a panic of the page iterator at every page; files of up to 4 row groups; column chunks, pages and metadata on both sides of 2^31 bytes.",
 "C06": "Every layout of up to 3-4 pages of a flat optional or required column (with and without dictionary, several columns, types), every selection of rows in files of up to 6-8 rows.",
 "C07": "Every partition of up to 7-10 rows in pages, every subset of pages or rows, every set of row intervals over them.",
 "C08": "Every validity of up to 8-11 values, every run structure of a covering set, every set of selected rows, with empty intervals among them.",
 "C09": "All run sequences up to 2-5 runs over boundary run lengths and every bit width 1..32; all boolean sequences up to length 13; run lengths are boundary classes, not every length.",
 "C10": "Every type and width, every length up to one block plus boundary lengths, value patterns that set each bit in turn.",
 "C11": "All sequences of extreme values up to length 4, an outlier at every position around block borders, every block layout with block sizes 128..512; other sequences are patterns.",
 "C12": "All sequences of up to 4 words over a two-letter alphabet (word length <=2, plus two 200-byte words), prefix chains, every item count up to 270.",
 "C13": "All values below 2^17, all sums of two powers of two (+-2) and complements, all byte strings up to 11 bytes over a structural alphabet.",
 "C14": "Up to 2 pages with every combination of up to 8 boundary values, null counts and absences, up to 3-4 pages with a reduced set, 27 column types, files with one column.",
 "C15": "All forests of up to 6-7 nodes, all annotations over a covering set of decimals and lengths, chains up to depth 100; names from a list.",
 "C16": "Every codec and level over 6 payload shapes of boundary sizes (to 1 MiB in thorough runs), every byte string up to 2-3 bytes, dirty buffers, every split of a payload in up to 3-4 Hadoop frames; streams of other writers are a covering set; three builds of the crate (all codecs, lz4_flex, no codec).",
 "C23": "Every sequence of up to 3-5 pages from about 13 kinds (codecs, versions, flags, dictionary, empty, large, corrupt), with every point of recovery.",
 "C17": "Every file one byte edit (any value) or a pair of edits away from four small files; extremes in any two fields of metadata, page headers, page indexes; every byte string up to 3-7 bytes for the decoders; every pair of token edits of text schemas; nesting to 100000 levels.",
 "C18": "Filters of 1 to 65537 blocks, hashes on both sides of every border between blocks, all histories of up to 5-6 insertions from 12 hashes, thousands of values of each kind, filters in files of four column chunks.",
 "C19": "Every validity of up to 9-11 values, every index sequence of up to 5-6, every selection of up to 7-8 rows, boundary lengths to 3000, all types, encodings, versions, index widths 0-32, nesting to depth 250.",
 "C24": "Page and header sizes around 13 limits from 0 to 3 MiB and up to 2^31-1, up to 4 pages, every filter of 3 pages, all codecs, 4 readers.",
 "C25": "All histories of up to 2-4 operations (next, nth and take with strides around block borders, copies) closed by six ways of consuming the rest; inputs of up to 3-4 runs, 260 values, 5 pages; well-formed inputs only.",
 "C26": "Nine files of up to 3 row groups and 4 columns (3 codecs, both page versions, dictionaries, indexes, bloom filters): all other bytes replaced by 4 patterns or cut off, every single byte damaged in 2-9 ways, every cut, histories of 3-4 reads from 5 positions.",
 "C27": "Up to 2 row groups of up to 3 columns in every order (all 720 for six chunks in thorough runs), 3 gap sizes, 8 codec and page layouts; up to 2 data pages and a dictionary with every combination of header fields; 22 kinds of unknown field at 5 ids in every structure that is not a union; 8 forms of serialization of each of the five kinds of structure.",
 "C28": "Files of up to 2 row groups of 4 schemas with 6 page layouts per column, 9 paths, 3-6 codecs, columns of up to 5-6 pages, merges of up to 3-4 row groups of two files, copies of copies to depth 2, one fault (two in thorough runs) per copy.",
 "C20": "Every flat or nested schema of up to 4-5 fields with every requested name, every filter of up to 6-8 row groups, every page filter and reader over up to 4-5 pages with and without dictionary, one column of 100000+ pages.",
 "C21": "Every metadata size on both sides of the 64 KiB speculative read (within 13-40 bytes), a covering set of key-value, creator and version shapes, one departure from the plain file at a time (2 in thorough runs), large files.",
 "C22": "All pairs of values around every power of two per integer type, boundary floats, days and nanoseconds of INT96; every physical x logical x converted type.",
}
TECH = "stateless model checking of the real code: exhaustive enumeration of all executions of a bounded choice space, with an independent reference model as oracle"
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"] or TECH, "level": "model_checking",
   "level_note": BOUNDS[p["id"]]} for p in P if p["id"] in DONE]
na = [{"property": p["id"], "reason": "check under construction"} for p in P if p["id"] not in DONE]
json.dump({"version": 1, "setup_cmd": "bash run.sh --build", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: every check drives the public API. Thorough runs set VERIF_TIER=thorough."},
  open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json")); sm = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for l in open(f"{V}/properties.jsonl"): jsonschema.validate(json.loads(l), sp)
    jsonschema.validate(json.load(open(f"{V}/MANIFEST.json")), sm); print("valid", len(P), "properties,", len(checks), "claimed")
except ImportError: print("jsonschema missing")
