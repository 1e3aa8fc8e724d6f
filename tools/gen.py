#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the table below is the source)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/store/"
BUF, ENC = S + "indexing_buffer.rs", S + "encoding/"

# id: (title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique|None, note)
P = {}


def p(pid, title, statement, over, qtext, why, files, mech, tech, note):
    P[pid] = (title, statement, over, qtext, why, files, mech, tech, note)


AI = "abstract interpretation of MIR: linear-integer and sequence domains, loop fixpoints, calls in context"
N_AI = ("Sound up to the transfer functions of lib/models.py (library calls) and mathematical integers (arithmetic overflow is out of scope unless "
        "stated); an obligation the domain cannot discharge is a violation, one that depends on an unmodelled call is reported as inconclusive.")

# ---------------------------------------------------------------- indexing buffers
p("I01", "Clearing a buffer makes it equal to a new one",
  "After a value buffer or bitmap has been cleared it behaves exactly like a freshly created one: it holds no rows, no values and no nulls, and whatever is appended afterwards is all it contains. No bit, offset or byte of the earlier contents is ever visible again.",
  ["histories"], "all earlier contents of the buffer and all later appends",
  "The tests clear small buffers and mostly look at lengths; stale state shows only for particular earlier contents followed by particular appends.",
  [BUF], [("Bitmap::clear, PrimitiveBuffer::clear, BinaryBuffer::clear, BoolBuffer::clear", BUF)], AI, N_AI)
p("I02", "Appending adds exactly one row and the row counts stay truthful",
  "Appending a value or a null to a column buffer adds exactly one row at its end and changes nothing already stored: the value is the last one stored, and validity records value or null for that row. The row count, value count, nullability and has-nulls answers always agree with what was appended, and appending a null to a non-nullable buffer panics instead of being recorded.",
  ["histories", "inputs"], "every buffer type, every earlier content, every value including empty byte strings",
  "Tests append a handful of fixed values; the relation between counts, offsets and validity must hold after every history.",
  [BUF], [("append / append_null / len / num_values / has_nulls of the four buffers", BUF)], AI, N_AI)
p("I03", "A bitmap reads back exactly the bits appended to it",
  "Bit i of a bitmap is the i-th bit that was appended, whatever the bitmap's initial capacity and however often it has grown. Reading a position that was never appended panics rather than returning a value.",
  ["histories", "inputs"], "every append sequence, every initial capacity, every index",
  "Byte boundaries and capacity doublings are reached only by particular lengths; tests sample few of them.",
  [BUF], [("Bitmap::{new,with_capacity,append,is_set,len}", BUF)], AI + " with a byte/bit-index store domain", N_AI)
p("I04", "Copying a range between buffers copies exactly that range",
  "Copying items start..end from one column buffer to another appends exactly those items, in order and with their validity, after what the destination already holds, and leaves the source unchanged. The validity position returned is where the next range begins, and a copy that reaches the last value also carries the nulls after it.",
  ["inputs", "histories"], "every source and destination content, every in-range start/end, every placement of nulls",
  "Tests copy a few fixed ranges from one fixture; nulls before, inside and after the range in all combinations are not reachable by samples.",
  [BUF], [("PrimitiveBuffer::append_from, BinaryBuffer::append_from, Bitmap::append_from", BUF)], AI, N_AI)

# ---------------------------------------------------------------- encoders
p("E01", "Every ingested value reaches exactly one block, in order",
  "For the raw encoders, the values of all buffers passed in, concatenated in order, equal the values of the emitted blocks concatenated in order followed by what is still pending; nothing is dropped, duplicated or reordered. After a flush nothing is pending.",
  ["histories", "inputs"], "every sequence of buffers of any size and any block size, including empty buffers and items larger than a block",
  "Tests encode single fixture buffers with one block size; the carry-over between calls depends on the arithmetic relation of pending size, buffer size and block size.",
  [ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs"], [("Encoder::encode / flush", ENC + "raw/")], AI, N_AI)
p("E02", "Validity travels with the values it describes",
  "The validity bits stored with a block (or carried over with pending values) are exactly the validity bits of the rows whose values it holds, in row order, and every row of a nullable column, including the nulls before, between and after the values, belongs to exactly one block or is pending. No two blocks share a row and none is skipped.",
  ["histories", "inputs"], "every placement of nulls relative to the block boundaries, over any sequence of buffers",
  "Tests use one null pattern; the defects found here (lost trailing nulls) need nulls at specific places relative to a block boundary.",
  [ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs", ENC + "bitmap_rle.rs"], [("validity position threaded through the encode loops", ENC + "raw/"), ("put_from / put_tail", ENC + "bitmap_rle.rs")], AI, N_AI)
p("E03", "Raw blocks have the documented layout",
  "A raw primitive block is the data length in bytes as a varint, the values' bytes, then the encoded validity if the column is nullable; a raw binary block is the data length as a varint, the values' bytes, the bit-packed item lengths, then the encoded validity if nullable. Nothing precedes, separates or follows these parts, and nothing of an earlier block is left in the buffer.",
  ["inputs", "histories"], "every block emitted, first or later, from pending or from buffer",
  "Tests compare a few produced blocks with fixtures; layout must hold for every block and both paths that build one.",
  [ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs"], [("encode_primitive_buffer", ENC + "raw/primitive_enc.rs"), ("encode_binary_buffer", ENC + "raw/binary_enc.rs")], AI, N_AI)
p("E04", "A block is labelled with its last row id",
  "The row id handed over with a block is the id of its last row: the number of rows (values and nulls) written since the encoder was created, minus one. A row count that does not fit the row id type stops the encoder; it never wraps or saturates.",
  ["histories", "inputs"], "every sequence of blocks, with and without nulls, any row count",
  "Tests check the ids of two or three blocks of one fixture; overflow needs 2^32 rows.",
  [ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs"], [("add_rows and the row id passed to the sink", ENC + "raw/")], AI, N_AI)
p("E05", "Unsupported encodings are rejected and the layout names the encoder",
  "Asking for an encoding a column type does not implement yields an error, never a silently different encoder. The encoder layout recorded for a column names the encoder that wrote its blocks, and an encoder that is accepted really stores the values it is given.",
  ["configurations"], "every (column type, encoding) pair",
  "No test calls the factories with unsupported pairs and none looks at the snappy encoder.",
  [ENC + "mod.rs", ENC + "snappy/snappy_enc.rs"], [("new_*_encoder", ENC + "mod.rs"), ("flush() of each encoder", ENC)], "decision-table extraction over MIR: path enumeration of the factories, layout variant per encoder type, value-flow of the stored buffer", 
  "Complete for the finite table of encodings; trusts MIR construction.")
p("E06", "Varint decoding inverts varint encoding for every 64-bit value",
  "Encoding any unsigned 64-bit value yields between 1 and 10 bytes, of which all but the last have the continuation bit set, and decoding those bytes returns the same value and the number of bytes written, whatever follows them. Bytes beyond the tenth are never consumed: an unterminated varint is an error.",
  ["inputs"], "all 2^64 values and all byte sequences",
  "Tests try a list of values; a wrong shift in one length class escapes them.",
  [ENC + "varint.rs"], [("encode_varint / decode_varint / put_varint / encoded_len_varint", ENC + "varint.rs")], AI + "; base-128 digit domain", N_AI)
p("E07", "The bitmap run-length code neither loses nor invents bytes",
  "The frames produced for a bitmap, expanded in order, are exactly the bytes of the bitmap (its last byte padded with zeros), for any mixture of runs and literals and also after the encoder has been cleared and reused. The decoder interprets frame headers, run lengths and literal bytes exactly as the encoder writes them and reports the positions of the set bits.",
  ["inputs", "histories"], "every bit sequence, every number of reuses",
  "Tests round-trip a few patterns; state-machine transitions combine in ways samples do not cover.",
  [ENC + "bitmap_rle.rs"], [("Encoder::{put,append,flush,clear} state machine", ENC + "bitmap_rle.rs"), ("Decoder::decode", ENC + "bitmap_rle.rs")], AI + " of one transition per encoder state against a class invariant", N_AI)
p("E08", "Packed item lengths are complete and wide enough",
  "The packed lengths section starts with the bit width, which is at least what the largest length of the block needs, and contains every length of the block in order, padded with zeros to whole packer blocks. No packed byte is cut off and nothing is overwritten.",
  ["inputs"], "every list of item lengths, any count and any magnitude",
  "Tests pack one small list; a width or size computed from part of the list fails only for long or skewed lists.",
  [ENC + "offsets.rs", ENC + "util.rs"], [("OffsetEncoder::encode", ENC + "offsets.rs")], AI, N_AI)
p("E09", "Only the last block of a column is smaller than the block size",
  "Every block an encoder emits before it is flushed carries at least the configured block size in value bytes, and would drop below it without its last value. What is pending between calls is always smaller than a block.",
  ["histories", "inputs"], "every sequence of buffers and every block size",
  "Tests use one block size with fixed fixtures; violations need particular remainders.",
  [ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs"], [("chunk() and the pending threshold", ENC + "raw/")], AI, N_AI)

# ---------------------------------------------------------------- writing
p("W01", "The reported write position equals the bytes written",
  "A writer's position is zero for a new file and grows by exactly the length of each block, and each block is written once, whole and at the end of the file. Files are created empty, and flush and sync add nothing to them.",
  ["histories"], "every sequence of writes, flushes and syncs",
  "The test writes two blocks; drift shows only after some sequence.",
  [S + "io/default_block_writer.rs"], [("Writer::{new,write_block,flush,sync,pos}", S + "io/default_block_writer.rs")], AI + "; file-event trace", N_AI)
p("W02", "The block index gets one entry per block, after it is written",
  "For every block that was written successfully the column's block index gets exactly one entry, made of the block's row id and the data file position where the block ends; a block whose write failed gets none. Entries of one column are never mixed with those of another. Closing a column writes its entries to the index file, and the recorded layout says where.",
  ["histories", "fault_sequences"], "every block sequence and every write failure",
  "No test inspects the index after failures or across columns.",
  [S + "block_sink.rs", S + "block_index.rs", S + "segment_writer.rs"], [("BlockSinkImpl::write_block", S + "block_sink.rs"), ("block index cleared per column", S + "segment_writer.rs")], AI + "; file-event trace", N_AI)
p("W03", "No I/O failure is swallowed",
  "If any file operation fails while a segment is created, written, closed, synced or read, the operation the caller invoked returns an error; it never reports success, and it does not panic. Every I/O operation that is started is also awaited.",
  ["fault_sequences"], "a failure at any file operation of any public operation",
  "Tests only run the success path on a healthy disk.",
  [S + "segment_writer.rs", S + "io/default_block_writer.rs", S + "io/unix_disk_block_reader.rs", S + "io/mod.rs", S + "block_sink.rs", ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs"],
  [("? / context on every awaited operation", "src/store")], AI + "; each I/O call forks success and failure, error states must not reach an Ok return", N_AI)
p("W04", "Segment files are framed as documented",
  "The data file starts with its 13-byte signature and the index file with its 12-byte signature, before anything else is written to them. Closing a segment appends the encoded metadata to the index file followed by the 8-byte little-endian position where that metadata starts, and nothing after it.",
  ["histories"], "every sequence of columns written before close",
  "A test can look at one finished file; no test parses the footer.",
  [S + "segment_writer.rs"], [("write_headers / close", S + "segment_writer.rs")], AI + "; file-event trace", N_AI)
p("W05", "Close flushes and sync syncs both segment files",
  "Closing a segment flushes the index file and the data file after their last write, and syncing a segment syncs both files. Neither returns success before both have completed.",
  ["crash_points", "histories"], "every crash after a successful close or sync",
  "A test cannot observe a missing flush or sync without a crash.",
  [S + "segment_writer.rs", S + "io/default_block_writer.rs"], [("SegmentWriter::close / sync", S + "segment_writer.rs")], AI + "; file-event trace", N_AI)
p("W06", "Recorded metadata is what the caller declared",
  "The segment metadata carries the segment id, database, table, shard and row count it was created with, and each column's entry, filed under that column's name, carries the declared name, type, nullability, encoding and index type together with that column's own layouts. The per-column row, null and size figures describe what was written.",
  ["inputs", "configurations"], "all segment and column declarations, any number of columns",
  "No test reads the metadata back.",
  [S + "segment_writer.rs"], [("SegmentWriter::new, ColumnWriter::close", S + "segment_writer.rs")], AI + "; field provenance", N_AI)
p("W07", "Segment files are named after the segment id",
  "A new segment's two files are created directly under the base path given; their names are the URL-safe, unpadded base64 encoding of the 16 bytes of the segment id, with extension dat for the data file and idx for the index file. So segments of different ids never share a file, whatever the id, and no file is created elsewhere.",
  ["inputs"], "every base path and segment id",
  "The test opens one segment with one random id and never looks at the names.",
  [S + "segment_writer.rs"], [("SegmentWriter::new", S + "segment_writer.rs")], "abstract interpretation; evaluation of the path terms", "All paths that create a segment; a path term with a function whose meaning is not listed is not judged.")

p("W08", "Encoder and column index see the same data",
  "Every buffer written to a column is handed, whole and once, to the encoder and, when the column has an index, to the index, and closing the column flushes the encoder before any layout is recorded. Column data and headers go to the data file; index blocks, metadata and footer go only to the index file.",
  ["histories", "configurations"], "every sequence of column writes, with and without a column index",
  "Tests never configure a column index.",
  [S + "segment_writer.rs"], [("ColumnWriter::write / close", S + "segment_writer.rs")], AI + "; event trace over opaque encoder and index", N_AI)

p("W09", "A column is encoded as declared, in blocks of the documented size",
  "A column writer uses one encoder, made for the encoding and the nullability declared for the column, and has it cut blocks at the documented size of 128 KiB of values.",
  ["configurations"], "every column declaration",
  "The test declares one column and writes far less than a block.",
  [S + "segment_writer.rs"], [("SegmentWriter::new_binary_column_writer, BLOCK_SIZE", S + "segment_writer.rs"), ("block size", S + "io/mod.rs")], AI, N_AI)

# ---------------------------------------------------------------- reading
p("R01", "A block read returns exactly the requested byte range",
  "Reading a block returns exactly the bytes of the file from the start to the end of the requested range, all of them or an error, whatever other reads of the same reader are in progress; a short read is never returned as success. The reported segment length is the length of the opened file.",
  ["inputs", "fault_sequences", "schedules"], "every range, every file and any other reads at the same time",
  "The test reads fixed ranges of a small file, where a short or shifted read cannot appear; interference of concurrent reads depends on the schedule.",
  [S + "io/unix_disk_block_reader.rs"], [("Reader::read_block / new / len", S + "io/unix_disk_block_reader.rs")], AI + "; file-event trace", N_AI)
p("R02", "Batch reads answer every request in order with its own tag",
  "A batch read yields exactly one result per requested operation, in request order however the reads are scheduled, and each result, block or error, carries the information attached to its own request. No request is skipped, filtered or answered with another request's bytes, and a failed read is reported as a failure.",
  ["schedules", "inputs", "fault_sequences"], "every batch, every completion order of the concurrent reads, every failing subset",
  "Completion order is up to the thread pool; the test sees the orders it happens to get.",
  [S + "io/unix_disk_block_reader.rs"], [("read_blocks stream pipeline", S + "io/unix_disk_block_reader.rs")], "stream-pipeline analysis: order- and count-preserving combinators, per-element provenance by abstract interpretation", N_AI)
p("R03", "No blocking call runs on an async executor thread",
  "Asynchronous operations never perform a blocking file, thread or network call on the executor; such calls only run on the blocking pool.",
  ["schedules", "inputs"], "every asynchronous operation and everything it calls",
  "Blocking an executor thread changes no result, only stalls other tasks under load.",
  [S + "io/mod.rs", S + "io/unix_disk_block_reader.rs", S + "io/default_block_writer.rs"], [("asyncify / spawn_blocking", S + "io/mod.rs")],
  "call-graph effect analysis over MIR", "Complete over the crate's call graph; the list of blocking library calls (rules/effects.py) is trusted.")

# ---------------------------------------------------------------- all parts
p("P01", "Legal use never panics and never fails without cause",
  "No operation panics, or returns an error although no file operation has failed, when it is used within its documented limits: appending, clearing and copying rows and bits, encoding buffers of any size including empty ones, writing a block of any length including an empty one, opening, closing and syncing a segment with any number of columns including none, and reading any range of a file, including an empty range; a range that reaches beyond the end of the file gets an error, not a panic. Encodings that are not supported are rejected. The limits are: a non-nullable column gets no nulls, bits are read only where they were appended, a segment has at most 2^32 rows, and the binary data of one buffer is below 4 GiB.",
  ["histories", "inputs"], "every operation of the buffers, encoders, segment writer, block writer and block reader in every state and with all legal arguments",
  "Tests use a few sizes and contents; an assertion or an index that fails for empty, large or boundary inputs is not reached.",
  [BUF, ENC + "raw/primitive_enc.rs", ENC + "raw/binary_enc.rs", ENC + "bitmap_rle.rs", ENC + "offsets.rs", S + "segment_writer.rs", S + "block_sink.rs", S + "block_index.rs", S + "io/default_block_writer.rs", S + "io/unix_disk_block_reader.rs"],
  [("every assertion, index, unwrap and subtraction", "src/store")], AI + "; every panicking terminator is an obligation", N_AI)

p("C01", "The server runs with the configuration that was asked for",
  "Exactly one server is created and started, with the configuration given on the command line or in the environment: the database path is the value of --db-path (MK_DB_PATH), which must be given; the gossip port is the number given with --gossip-port (MK_GOSSIP_PORT), 7775 if there is none; the seeds are the pieces of --seeds (MK_SEEDS, optional) between commas, in the order given, without the blanks around them and otherwise unchanged; empty pieces are not seeds, and without the option there are no seeds.",
  ["inputs"], "every command line and environment",
  "No test runs the program's entry point; how a list is cut, trimmed and filtered depends on its text.",
  ["src/main.rs", "src/server/mod.rs"], [("Args", "src/main.rs"), ("main", "src/main.rs"), ("Config", "src/server/mod.rs")],
  "abstract interpretation of main with the argument parser's contract; the list pipeline run on every class of piece", "Trusts clap's contract (a value is the one given on the command line, else the environment's, else the default; validators run before get_matches returns).")

# ---------------------------------------------------------------- schema, misc
p("S01", "The on-disk metadata schema does not drift",
  "Every metadata field keeps the tag, wire type and meaning it has in segments already written, every enumeration value keeps its number, and what is written under a tag is read back into the same field. New fields may only take unused tags.",
  ["programs", "inputs"], "all metadata messages, fields and enumerations",
  "No test reads a segment written by another version.",
  [S + "segment_metadata.proto", S + "segment_metadata.rs"], [("prost Message implementations", S + "segment_metadata.rs")],
  "schema extraction from the generated codecs' MIR, compared with a recorded wire schema", "Complete over all messages; trusts the recorded baseline (schema_baseline.json).")

NA = {
    "D01": ("Segments survive the loss of cluster nodes (replication, gossip membership)",
            "Data stays available and consistent when nodes fail or the network partitions, as the README announces.",
            "the distributed layer (membership, replication, query routing) is not implemented in this tree: there is no code to analyse"),
    "D02": ("A finished segment can be queried and read back",
            "Everything written to a segment can be located through its index file and decoded again.",
            "no read-back path exists (no block decoder for columns, BlockIndex::flush persists nothing), so the end-to-end relation has no second half to analyse; its halves are covered by E01-E08, W01-W06"),
    "D03": ("Ingestion keeps up with a configured rate",
            "Throughput and memory stay within bounds under load.",
            "a quantitative run-time property no static argument in reach can bound"),
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for k, (title, st, over, q, why, files, mech, tech, note) in P.items():
            f.write(json.dumps({"id": k, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
                                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
        for k, (title, st, why) in NA.items():
            f.write(json.dumps({"id": k, "title": title, "statement": st, "quantifier": {"over": ["histories"], "text": "all deployments and histories"},
                                "why_tests_cant": "not reachable from unit tests", "anchors": {"files": ["README.md"], "mechanism": []}}) + "\n")
    import sys
    sys.path.insert(0, os.path.join(V, "lib"))
    sys.path.insert(0, V)
    from rules import registry
    checks, na = [], []
    for k, v in P.items():
        if k in registry.FN:
            checks.append({"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
                           "technique": v[7], "level": "other", "level_note": v[8]})
        else:
            na.append({"property": k, "reason": "no check has been completed for it yet"})
    for k, v in NA.items():
        na.append({"property": k, "reason": v[2]})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the checks read the MIR of the unmodified crate."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("%d claimed, %d not" % (len(checks), len(na)))


main()
