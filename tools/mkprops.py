#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the single source)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why, 'anchors': a})

NOHARNESS = 'No existing test imports the harness (lib/, compare_compressors.py); '
p('H01', 'Every stream starts from fresh codec instances, one per direction',
  'Before the first message of a stream is processed, every selected codec is constructed anew, once for requests (told it handles requests) and once for responses (told it handles responses), each with exactly the parameters written in that codec\'s own command-line specification. No codec instance that has processed a message of one stream is ever used for another stream, nor one instance for both directions.',
  ['histories', 'configurations'], 'all sequences of streams and all lists of codec specifications',
  NOHARNESS + 'state carried over from one stream to the next shows only in sequences of at least two streams.',
  ['lib/processors.py'], [('Processors.process_session', 'rebuilds the codec table before the message loop'), ('Processors.get_processors', 'builds one request and one response instance per specification')],
  [('Processors.processors', 'direction -> list of codec instances')])
p('H02', 'Every message is compressed and measured once by every selected codec',
  'For each message of each stream, in order, every codec selected for that direction compresses the message exactly once, and the size recorded for it is the length of the compressed form that call returned; a codec without decompression support, a mismatch, or verbose output never removes or duplicates a measurement. Each codec\'s size, ratio and time for the message are recorded on the stream exactly once, under that codec\'s own name.',
  ['inputs', 'histories', 'configurations'], 'all message sequences, codec lists and verbosity settings',
  NOHARNESS + 'dropping a record needs a specific combination of codec capability, verbosity and position.',
  ['lib/processors.py', 'lib/stream.py'], [('Processors.process_message', 'compress / len / results'), ('Processors.process_session', 'loops the messages and records'), ('Stream.record_result', 'appends to sizes, ratios, times')])
p('H03', 'Decompressed headers are always checked and a mismatch always reported',
  'Whenever a codec\'s decompression of what it just produced returns, the result is compared with exactly the headers that were handed to that codec\'s compression, and any difference produces a mismatch line naming the codec in the output, whatever the verbosity; in debug mode it ends the run with a non-zero status. Only a codec that signals that decompression is not implemented is exempt, and it is warned about at least once per run unless it is one of the codecs known in advance to have no decompression; any other failure while decompressing is not swallowed.',
  ['inputs', 'configurations'], 'all messages, codecs, verbosity and debug settings',
  NOHARNESS + 'the harness\'s own correctness check is never exercised with a codec that loses data.',
  ['lib/processors.py'], [('Processors.process_message', 'decompress, compare_headers, output'), ('Processors.compare_headers', 'builds the mismatch text')])
p('H04', 'Header comparison ignores only what it documents',
  'Comparing two header sets reports a difference exactly when, leaving out the HTTP version, the status phrase and the connection header, the two sets of (name, value) pairs differ, where a cookie value is first split at ";" and every other value at NUL and each piece loses only leading and trailing spaces. Pairs found only in the original and pairs found only in the decompressed headers are both reported.',
  ['inputs'], 'all pairs of header dictionaries',
  NOHARNESS + 'an over-lenient comparison hides codec bugs for particular names or values only.',
  ['lib/processors.py'], [('compare_headers_impl', 'normalises both sides and takes set differences'), ('Processors.compare_headers', 'ignore list and report')])
p('H05', 'Only hop-by-hop and redundant headers are removed before compression',
  'Before compression exactly the following headers are left out: the status phrase, the HTTP version, keep-alive, connection, and every header named in the connection header\'s comma-separated list. All other headers reach every codec with unchanged names and values, and the harness\'s own copy of the message is not modified.',
  ['inputs'], 'all header dictionaries',
  NOHARNESS + 'a header wrongly filtered is filtered from both sides of the comparison, so no mismatch appears.',
  ['lib/processors.py'], [('Processors.filter_headers', 'builds the filtered copy')])
p('H06', 'HAR extraction keeps every HTTP exchange, aligned and unaltered',
  'For each HAR entry with an http or https URL, and no other, exactly one request and one response header set is produced, in file order and at the same position of the two lists. Header names are lower-cased, repeated fields are joined with NUL in order, the method, path with query, scheme, version, status and host are derived from the entry, and a host header present in the request is never replaced.',
  ['inputs'], 'all HAR files',
  NOHARNESS + 'no sample HAR with mixed schemes, repeated fields or URLs without a path is read by a test.',
  ['lib/harfile.py'], [('har2hdrs', 'walks the entries'), ('process_headers', 'normalises one header list')])
p('H07', 'A HAR file that is not JSON ends the run with a non-zero status',
  'When a HAR file cannot be parsed, the name of the file and the reason are written to the error output and the run ends with a non-zero status; the failure is never silently skipped and never turned into an empty message list.',
  ['inputs', 'fault_sequences'], 'all unreadable file contents',
  NOHARNESS + 'the error path is never taken by a test.',
  ['lib/harfile.py'], [('read_har_file', 'exception handler')])
p('H08', 'Streamifiers place every message in exactly one stream of its direction',
  'For every list of exchanges, each request appears in exactly one request stream and each response in exactly one response stream, the two carrying the same stream name and order, each message paired with the host of its own request. Messages keep their input order within a stream, no message is dropped or duplicated, and each stream name occurs once per direction.',
  ['inputs'], 'all lists of exchanges and all three streamifiers',
  NOHARNESS + 'grouping errors need particular interleavings of hosts.',
  ['lib/streamifiers/all_one.py', 'lib/streamifiers/host.py', 'lib/streamifiers/public_suffix.py'], [('Streamifier.streamify', 'groups the messages')])
p('H09', 'The baseline is always measured and ratios are relative to it',
  'Whatever codecs are selected, the baseline codec (http1 unless another is given) is among those run, added once and only when missing, without dropping any selected codec or changing their order. Each recorded ratio is the codec\'s size divided by the baseline\'s size for the same message (1 for the baseline), and each stream summary\'s ratio is the codec\'s total size divided by the baseline\'s total size.',
  ['configurations', 'inputs'], 'all codec lists, baselines and messages',
  NOHARNESS + 'wrong denominators only change printed numbers.',
  ['compare_compressors.py', 'lib/processors.py', 'lib/stream.py'], [('CompressionTester.__init__', 'adds the baseline'), ('Processors.process_session', 'per-message ratio'), ('Stream.print_summary', 'per-stream ratio')])
p('H10', 'Totals combine all streams of one direction without altering them',
  'The TOTAL of a direction contains the messages, sizes, ratios and times of all streams of that direction and of no other, in stream order. Building it changes no stream: their names, message lists and recorded results are the same before and after, so the TSV output written afterwards shows every stream under its own name.',
  ['inputs', 'histories'], 'all lists of streams, including a single stream per direction',
  NOHARNESS + 'aliasing between a stream and its total is visible only in later output.',
  ['lib/stream.py', 'compare_compressors.py'], [('Stream.__add__', 'merges two streams'), ('merge_dols', 'merges result lists'), ('CompressionTester.run', 'reduces the streams and writes output')])
p('H11', 'TSV columns and rows line up with the codecs and messages',
  'In the TSV output for a direction, the header lists the codec names in the same order in which every row lists that codec\'s sizes, there is exactly one row per message of that direction, and the row counter increases by one from row to row across all streams of the direction. Request rows only go to the request file and response rows to the response file.',
  ['inputs', 'configurations'], 'all streams and codec lists',
  NOHARNESS + 'column swaps change no test outcome.',
  ['lib/stream.py', 'compare_compressors.py'], [('Stream.print_tsv_header', 'header row'), ('Stream.print_tsv', 'rows'), ('CompressionTester.run', 'per-direction file and counter')])
p('C01', 'Every selectable codec and streamifier is complete and resolvable',
  'Every codec package defines a codec class constructible from (options, direction, parameters) whose compression accepts (headers, host) and whose decompression, when present, accepts the compressed form; every streamifier accepts the codec names and a message list. In the code these can reach, every module, imported name, variable, attribute of the object itself and project function used exists and is called with arguments it accepts, so no input ends in a missing-name, missing-attribute or wrong-argument failure.',
  ['programs', 'inputs', 'configurations'], 'all codecs, streamifiers and all code paths reachable from them',
  'Tests load only the helper modules of four codecs; rarely taken branches (eviction, ID wrap-around, error paths) are never executed.',
  ['compressor', 'lib', 'compare_compressors.py', 'sample_exec_codec.py'], [('codec packages', 'compressor/*/__init__.py Processor'), ('dynamic loading', 'Processors.get_processors, CompressionTester.load_streamifier')])
p('C02', 'Codec instances share no mutable state',
  'Nothing that one codec instance stores while compressing or decompressing is visible to any other codec instance, of the same or another codec: results for a stream never depend on which other streams, directions or codecs were processed before. Tables that are shared between instances are never changed after they are built; write-only statistics that no codec reads are exempt.',
  ['histories', 'configurations'], 'all interleavings of codec instances',
  'Tests build one object at a time; leakage needs two instances of the same class used in turn.',
  ['compressor'], [('codec state', 'instance attributes created in constructors'), ('module tables', 'default headers, opcode tables, frequency tables, packing instructions')])
p('C03', 'Compression never modifies the headers it is given',
  'Compressing a message leaves the header dictionary passed in, and the values in it, unchanged, for every codec: the harness compares the decompressed result with that same dictionary afterwards.',
  ['inputs'], 'all header dictionaries and all codecs',
  'No test compares the input dictionary before and after; a codec that edits its input hides its own losses.',
  ['compressor'], [('Processor.compress', 'every codec package'), ('format_http1', 'compressor/__init__.py')])
p('C04', 'The HTTP/1 text form carries every header field and is parsed back',
  'The HTTP/1 rendering writes one line per value of every header field except those put in the first line, with a repeated field (NUL-joined) written once per value, in order; the first line carries method, path and version for a request and version, status and phrase for a response, in that order. Parsing assigns those three back to the same names, re-joins repeated fields with NUL in order, lower-cases names and restores the host name.',
  ['inputs'], 'all header dictionaries and directions',
  'http1 and simple have no tests, and the text form is the baseline of every ratio.',
  ['compressor/__init__.py'], [('format_http1', 'writer'), ('parse_http1', 'reader')])
p('C05', 'Stream compressors flush every message and keep one context',
  'Codecs built on a deflate stream keep one compression context for the life of the instance, feed each message to it exactly once and end every message with a sync flush whose output is part of the result, so each message\'s size is complete and independently decodable. Where a preset dictionary is used, it is fed once when the instance is made, before any message, and identically on the decoding side when there is one; the context is never finished, reset or replaced afterwards.',
  ['histories', 'inputs'], 'all message sequences through http1_gzip, http1_huffman, spdy3, headerdiff with deflate, simple with huffman',
  'None of these codecs has a test; a missing flush moves bytes from one message to the next.',
  ['compressor/http1_gzip/__init__.py', 'compressor/http1_huffman/__init__.py', 'compressor/spdy3/__init__.py', 'compressor/headerdiff/headerDiffCodec.py', 'compressor/simple/__init__.py'], [('Processor.compress', 'compress then flush'), ('constructor', 'creates and primes the context')])
p('C06', 'SPDY/3 blocks carry each name and value with its own length',
  'The SPDY/3 block contains, for every header in iteration order, the 32-bit length of the name, the name, the 32-bit length of the value and the value, with each length being that of the string that directly follows it, and nothing else; all of it reaches the compressor or the output.',
  ['inputs'], 'all header dictionaries',
  'spdy3 has no decompressor and no test, so a wrong length is not detected by the harness either.',
  ['compressor/spdy3/__init__.py'], [('Processor.Spdy3HeadersFormat', 'writer'), ('Processor.compress', 'prefix and payload')])
p('C07', 'External codecs get exactly one terminated message per exchange',
  'For each message the external codec process receives exactly one rendering of the headers, completely written and flushed before the harness waits for the answer; the answer returned is everything the process sent for that message and nothing of the next: up to the empty line in text mode, or the 8-byte length followed by that many bytes in binary mode. The sample external codec answers every message with one flushed, empty-line-terminated block.',
  ['inputs', 'schedules'], 'all messages, both framing modes',
  'No test starts an external codec; an unflushed pipe deadlocks only with a real process on the other side.',
  ['compressor/fork/__init__.py', 'sample_exec_codec.py'], [('Processor.compress', 'write, flush, read'), ('main', 'sample_exec_codec.py loop')])
p('C08', 'HPACK-draft tables keep exact size and stay within the limit',
  'In the http2 codec, the recorded size of the encoder\'s and the decoder\'s header table always equals the sum over its entries of name length, value length and 32. Entries are evicted oldest first until the new entry fits, an entry larger than the limit is not stored, and encoder and decoder apply the same admission and eviction conditions to an appended header.',
  ['histories', 'configurations'], 'all message sequences and buffer sizes',
  'http2 has no tests; eviction starts only after kilobytes of distinct headers.',
  ['compressor/http2/http2Codec.py'], [('append_encoded_header', 'encoder table'), ('append_decoded_header / insert_decoded_header', 'decoder tables'), ('init_codec', 'initial tables')],
  [('encoder_table, encoder_table_size', 'entries and accounted size'), ('decoder_table, decoder_table_size', 'entries and accounted size')])
p('C09', 'HPACK-draft wire forms written are exactly those read',
  'In the http2 codec, for each representation the encoder emits, the decoder recognises the same leading bit pattern and reads the same sequence of fields: prefix widths, index offset by one, name literal exactly when no name index is sent, replaced index for substitution, then the value. Both sides make the same table and reference-set change for it, use the same 8-byte frame header, and start from the same default table.',
  ['inputs', 'histories'], 'all representations and message sequences',
  'http2 has no tests; a disagreement appears only for the representation concerned.',
  ['compressor/http2/http2Codec.py'], [('encode_header / encode_headers', 'writer'), ('decode_headers', 'reader'), ('write_integer / read_integer', 'integer coding')])
p('C10', 'Header-diff wire forms written are exactly those read',
  'In the headerdiff codec, for each representation and indexing mode the encoder emits, the decoder recognises the same flag bits and reads the same sequence of fields: prefix widths, long-index threshold and offset, name index offset by one with the name literal exactly when the name is new, replaced index, prefix length, value. Both sides append new names to the name table and store or replace the same entry of the header table for it, and both skip the same frame header before any deflate stage.',
  ['inputs', 'histories'], 'all representations, parameters and message sequences',
  'headerdiff has no tests; a disagreement appears only for particular representations or table states.',
  ['compressor/headerdiff/headerDiffCodec.py'], [('encodeHeaders', 'writer'), ('decodeHeaders', 'reader'), ('writeInteger / readInteger', 'integer coding')])
p('C11', 'Header-diff table size is exact and bounded',
  'In the headerdiff codec, on both sides the recorded table size always equals the sum of the value lengths of the stored headers, adding a header or replacing one adjusts it by exactly the difference, and a header is only added or replaced when the resulting size stays below the configured maximum. Stored headers are identified by name and value without ambiguity.',
  ['histories', 'configurations'], 'all message sequences and table sizes',
  'headerdiff has no tests; the bound matters only once the table is nearly full.',
  ['compressor/headerdiff/headerDiffCodec.py'], [('encodeHeaders / determineRepresentation', 'encoder'), ('decodeHeaders', 'decoder')])
p('C12', 'Encoders and decoders always finish a message',
  'Every loop whose length is not fixed in advance in the http2, headerdiff, delta, delta2, delta_bohe and delta2_bohe encoders and decoders makes progress on each round toward its exit: it consumes input, removes or examines an element, or moves its counter toward its bound, and a round that cannot do so leaves the loop. No header set or table state makes compression loop forever.',
  ['inputs', 'histories'], 'all messages and table states',
  'Non-termination depends on rare table states such as a referenced header evicted while it is being re-sent.',
  ['compressor/http2/http2Codec.py', 'compressor/headerdiff/headerDiffCodec.py', 'compressor/delta', 'compressor/delta2', 'compressor/delta_bohe', 'compressor/delta2_bohe'], [('while loops', 'encode_headers, write_integer, MakeSpace, Reserve, OutputOps, DeserializeInstructions, ...')])
p('C13', 'Delta codecs read back the operation stream exactly as written',
  'In each delta codec, every operation kind has one code, and the decoder\'s mapping from codes to operation kinds and fields is the inverse of the encoder\'s; each field is packed and unpacked with matching widths, order and string form. Operation counts never exceed what the count field holds and equal the number of operations that follow, and the frame header fields are read in the order and widths in which they are written.',
  ['inputs', 'configurations'], 'all operation lists and parameter choices',
  'Tests pack single fields; batches above the count limit, large frames and non-default parameters are not reached.',
  ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta2/spdy4_codec_impl.py', 'compressor/delta_bohe/spdy4_codec_impl.py', 'compressor/delta2_bohe/spdy4_codec_impl.py'], [('opcode and packing tables', 'module level'), ('Spdy4SeDer.OutputOps / WriteOpData / WriteControlFrameBoilerplate', 'writer'), ('Spdy4SeDer.DeserializeInstructions', 'reader')])
p('C14', 'Delta encoders and decoders apply operations identically',
  'In each delta codec the encoder updates its own state by running, after choosing the operations for a message, the very procedure the decoder runs on the received operations, on the same operations in the order in which they are written, for the same header group; the encoder applies no other state change to its storage. Both ends are created with identical parameters.',
  ['histories', 'inputs'], 'all message sequences',
  'Divergence accumulates over messages; tests run no multi-message exchange.',
  ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta2/spdy4_codec_impl.py', 'compressor/delta_bohe/spdy4_codec_impl.py', 'compressor/delta2_bohe/spdy4_codec_impl.py'], [('Spdy4CoDe.MakeOperations', 'encoder'), ('Spdy4CoDe.RealOpsToOpAndExecute', 'decoder'), ('Spdy4CoDe.DecompressorExecuteOps', 'shared transition')])
p('C15', 'Delta storages stay within their limits and forget evicted entries',
  'In each delta codec, a new entry is stored only after entries have been evicted, oldest first, until both the entry limit and the byte limit hold, and storing an entry beyond a limit is refused. Every eviction removes the entry from all header groups that refer to it, and reduces the byte and entry counts by what storing it added.',
  ['histories', 'configurations'], 'all message sequences and limits',
  'Limits are reached only after kilobytes of distinct headers; tests exercise the storage class of one codec with tiny limits and no header groups.',
  ['compressor/delta/spdy4_codec_impl.py', 'compressor/delta_bohe/spdy4_codec_impl.py', 'compressor/delta2/lrustorage.py', 'compressor/delta2/spdy4_codec_impl.py', 'compressor/delta2_bohe/lrustorage.py', 'compressor/delta2_bohe/spdy4_codec_impl.py'], [('LruStorage.Reserve / Store / PopOne', 'delta2, delta2_bohe'), ('Storage.MakeSpace / InsertVal / RemoveVal', 'delta, delta_bohe'), ('remove-value callback', 'Spdy4CoDe.__init__')])
p('C16', 'Reading past the end of a bit buffer is an error, never made-up bits',
  'In every Python bit buffer, a read of more bits than remain raises an error before anything is returned or consumed, every fixed-width read and write uses exactly the width its name promises, and clearing the buffer resets both its content and all read and write positions. A read that succeeds returns exactly the requested number of bits.',
  ['inputs'], 'all write and read sequences',
  'Tests cover a few write/read patterns; reading past the end after unaligned writes is not among them.',
  ['compressor/bohe/bit_bucket.py', 'compressor/delta/bit_bucket.py', 'compressor/delta2/bit_bucket.py', 'compressor/delta_bohe/bit_bucket.py', 'compressor/delta2_bohe/bit_bucket.py'], [('BitBucket.GetBits', 'bounds check'), ('BitBucket.StoreBitsN / GetBitsN', 'fixed widths'), ('BitBucket.Clear', 'reset')])
p('C17', 'Huffman tables cover every symbol and both ends use the same one',
  'Every character-frequency table used for Huffman coding gives a non-negative frequency to each byte value 0 to 255 and to the end-of-string symbol, each exactly once. In each codec, compressor and decompressor of one direction use codes built from the same table, requests and responses each their own, end-of-string is written by the encoder whenever the decoder relies on it, and the symbol both use for it is the same.',
  ['inputs', 'configurations'], 'all strings and both directions',
  'Tests encode a few strings with one table; a missing or duplicated symbol only shows for that byte value.',
  ['compressor/bohe/header_freq_tables.py', 'compressor/delta/header_freq_tables.py', 'compressor/delta2/header_freq_tables.py', 'compressor/delta_bohe/header_freq_tables.py', 'compressor/delta2_bohe/header_freq_tables.py', 'compressor/delta2/huffman.py', 'compressor/headerdiff/Huffman.py'], [('frequency tables', 'request_freq_table / response_freq_table'), ('Huffman.EncodeToBB / DecodeFromBB', 'end-of-string handling'), ('Processor.__init__', 'assigns tables per direction')])
p('C18', 'Abbreviations and references of the simple codec are unambiguous',
  'In the simple codec no two header names share an abbreviation and no abbreviation can be mistaken for an escaped, special or reference field. A header is replaced by a reference only when its value equals the one in the immediately preceding message, the decoder resolves references against the headers it produced for the immediately preceding message, and both sides update that memory on every message.',
  ['inputs', 'histories'], 'all message sequences and parameters',
  'simple has no tests; stale references need three or more messages.',
  ['compressor/simple/__init__.py'], [('Processor.lookups', 'abbreviations'), ('Processor.compress', 'chooses references'), ('Processor.decompress', 'resolves references')])
p('C19', 'Each codec splits and re-joins multi-valued headers consistently',
  'A codec that splits header values before encoding splits the cookie header at ";" and every other header at NUL, trims only surrounding white space from the pieces and encodes every piece; when decoding it re-joins pieces of the same header with the matching separator, so that the harness sees the same set of values.',
  ['inputs'], 'all header values in http2, headerdiff and the delta codecs',
  'Multi-valued headers appear in no test of a codec.',
  ['compressor/http2/__init__.py', 'compressor/headerdiff/__init__.py', 'compressor/delta/spdy4_codec_impl.py', 'compressor/delta2/spdy4_codec_impl.py', 'compressor/delta_bohe/spdy4_codec_impl.py', 'compressor/delta2_bohe/spdy4_codec_impl.py'], [('split_headers / split_from_dict / MakeOperations', 'split'), ('join_headers / decompress / AppendToHeaders', 'join')])
p('C20', 'Identifiers handed out are unique while in use',
  'An identifier store never hands out an identifier that is still in use below its limit: a returned identifier is reused only after it was given back, and fresh identifiers increase by one. Hosts of one stream that differ, after the codec\'s own reduction of a host to its registered domain, are given distinct header groups and the same host always gets the same one, and a storage that assigns identifiers to live entries skips those still assigned.',
  ['histories'], 'all sequences of allocation and release below the store\'s limit',
  'Tests allocate a handful of identifiers.',
  ['compressor/bohe/common_utils.py', 'compressor/delta/common_utils.py', 'compressor/delta2/common_utils.py', 'compressor/delta_bohe/common_utils.py', 'compressor/delta2_bohe/common_utils.py'], [('IDStore.GetNext / DoneWithId', 'allocation'), ('Processor.compress', 'host -> header group'), ('Storage.GetNextUnusedId', 'skips live identifiers')])
p('C21', 'Typed bohe encodings have unambiguous codes and every header is written',
  'In the bohe codec each registered header name has exactly one code, codes fit the 7 bits available so that they cannot be confused with a literal name, and every header of the message is written exactly once: code or length-prefixed name, flags, value length and value, in that order for every header. The binary flag is set exactly for headers with a typed encoder and exactly those values bypass Huffman coding.',
  ['inputs'], 'all header dictionaries',
  'The bohe codec has no decompressor, so neither tests nor the harness check what it writes.',
  ['compressor/bohe/__init__.py', 'compressor/bohe/bohe.py'], [('Processor.compress', 'writer'), ('ID_TABLE, ENCODERS', 'bohe.py tables')])
p('C22', 'Every byte buffer method in C++ keeps its bit count in step',
  'In the C++ bit buffers, every operation that appends bits increases the reported number of bits by exactly the number appended on each path through it, clearing resets all positions and the count, and a read advances the read position by exactly the bits it consumed.',
  ['inputs'], 'all sequences of aligned and unaligned operations',
  'The C++ tests check stored bytes for a few patterns, not the reported size on every path.',
  ['compressor/delta/bit_bucket.h', 'compressor/delta_bohe/bit_bucket.h'], [('BitBucket::StoreBit*/GetBit*/Clear', 'position accounting')])
p('C23', 'The C++ Huffman coder decodes with the code it encodes with',
  'In the C++ Huffman coder the code lengths come from a tree of at most 32 levels (frequencies are scaled down until that holds), codes of one length are consecutive in symbol order and longer ones follow shorter ones, and the decoding tables are built from exactly those codes. Encoding writes the code of every byte of the string in order, then the end symbol when asked to; decoding consumes exactly the length of each decoded code, delivers every decoded byte, and stops at the end symbol, or when the given number of bits is used up, whichever is asked for, and refuses to decode with neither limit. The frequency tables give each byte value and the end symbol exactly one entry, in symbol order.',
  ['inputs'], 'all strings, tables and limits',
  'The C++ test round-trips six strings with one table.',
  ['compressor/delta/huffman.h', 'compressor/delta_bohe/huffman.h', 'compressor/delta/header_freq_tables.cc', 'compressor/delta_bohe/header_freq_tables.cc'], [('Huffman::Init / BuildCodeTree / BuildCanonicalCodeTable', 'code construction'), ('Huffman::BuildDecodeTable / DecodeFromWord', 'decoding tables'), ('Huffman::Encode / Decode', 'strings and their ends')])
p('C24', 'The C++ delta storage accounts for what it holds and evicts oldest first',
  'In the C++ delta codec the reported state size grows by the bytes of every key and value stored and shrinks by the same bytes when they are removed; before something is stored, entries are evicted from the old end of the list until both the entry limit and the byte limit hold or the entries of the current message are reached; an evicted entry leaves every header group, its index is given back, and its key is removed once it has no values and is not in use. Identifiers are reused only after being given back. The two limit setters set the limits they are named for.',
  ['histories', 'configurations'], 'all message sequences and limits',
  'The C++ codec has no test; eviction needs kilobytes of distinct headers.',
  ['compressor/delta/spdy4_headers_codec.cc', 'compressor/delta_bohe/spdy4_headers_codec.cc'], [('Storage', 'MakeSpace, PopOne, InsertVal, RemoveVal, pins'), ('IDStore', 'identifiers'), ('SPDY4HeadersCodecImpl::RemoveValEntry / AddLine / Toggle*', 'header groups'), ('SPDY4HeadersCodec::SetMaxStateSize / SetMaxVals', 'limits')])
p('C25', 'The C++ delta codec writes an instruction for every header that needs one',
  'In the C++ delta codec every header line (cookies split into crumbs) leads to exactly one of: nothing when its entry is already on in the group, a toggle when the entry exists but is off, a clone when only its key exists, a new key-value pair otherwise; every entry that is on but not in the message is toggled off. Toggled indices are written in ascending order, each exactly once, runs of consecutive ones as ranges; clones and key-value pairs are written in the order found. Operations of one kind go out in blocks of at most 255 that start with the opcode and the number of operations in the block, and every string is terminated. What is written never depends on entries evicted meanwhile.',
  ['inputs', 'histories'], 'all message sequences',
  'The C++ codec has no test and no decoder to compare with.',
  ['compressor/delta/spdy4_headers_codec.cc', 'compressor/delta_bohe/spdy4_headers_codec.cc'], [('SPDY4HeadersCodecImpl::ProcessFrame / ProcessKV / DiscoverTurnOffs', 'choice of instructions'), ('InlineSerialization', 'PreProcessToggles, OutputOps, writers')])
p('N01', 'Every message decompresses to an equal header set',
  'For every codec with decompression and every sequence of messages, decompressing what was just compressed yields headers equal to those compressed, up to the documented normalisation.',
  ['inputs', 'histories'], 'all codecs, parameters and message sequences', 'Tests sample a few strings per helper.',
  ['compressor'], [('compress / decompress', 'every codec')])
p('N02', 'Huffman codes are optimal prefix codes of at most 32 bits',
  'For every frequency table the code built is prefix-free, canonical, at most 32 bits long and of minimal expected length for the scaled frequencies.',
  ['inputs'], 'all frequency tables', 'Tests build one table.',
  ['compressor/delta2/huffman.py', 'compressor/delta/huffman.h'], [('Huffman.BuildCodeTree', 'construction')])
p('N03', 'Bits come back from a bit buffer as they were stored',
  'For every sequence of writes of arbitrary widths, reading back the same widths returns the same bits.',
  ['inputs'], 'all width and value sequences', 'Tests sample patterns.',
  ['compressor/delta2/bit_bucket.py', 'compressor/delta/bit_bucket.h'], [('StoreBits / GetBits', 'shifts and masks')])
p('N04', 'Reported times reflect the CPU time of compression only',
  'The time reported for a codec is the processor time spent compressing, not in filtering, decompressing, comparing or printing, and includes the time of an external codec process.',
  ['schedules', 'inputs'], 'all runs', 'No test measures time.',
  ['lib/processors.py'], [('Processors.process_message', 'os.times around compress')])
p('N05', 'Compression with less table space is never unsafe for the peer',
  'For every configured table size the peer never needs more memory than that size, including the memory used by default tables and per-entry overhead of the implementation language.',
  ['configurations', 'histories'], 'all table sizes', 'No test measures memory.',
  ['compressor/http2/http2Codec.py', 'compressor/delta2/lrustorage.py'], [('table limits', 'constructor parameters')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
