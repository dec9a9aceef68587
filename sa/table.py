"""Which functions carry which property.

Patterns are 'file-glob' -> function globs; '!x' removes what was matched
before.  '<body>' stands for the statements of a module or class body."""
import fnmatch

DEBUG = ['!*.__repr__', '!*.__str__', '!*DebugFormat', '!*PrintOps', '!FormatOp', '!FormatOps', '!FormatHex', '!PrintHex',
         '!Stats.*', '!*.FormatCodeTable', '!*PrintDecodeTableAndBranches', '!MakeReadableString', '!FormatAsBits', '!*.prt']
DELTAS = ('delta', 'delta2', 'delta_bohe', 'delta2_bohe')
C = 'compressor/'


def deltas(*pats):
    return [(C + d + '/spdy4_codec_impl.py', list(pats)) for d in DELTAS]


BITS = [(C + d + '/bit_bucket.py', ['*']) for d in ('bohe',) + DELTAS]
HUFF = [(C + d + '/huffman.py', ['*']) for d in ('bohe',) + DELTAS] + [(C + 'headerdiff/Huffman.py', ['*'])]
FREQ = [(C + d + '/header_freq_tables.py', ['*']) for d in ('bohe',) + DELTAS]

TABLE = {
    'H01': [('lib/processors.py', ['Processors.__init__', 'Processors.get_processors', 'Processors.process_session',
                                   'Processors.process_message', 'Processors.<body>']),
            ('compare_compressors.py', ['CompressionTester.__init__', 'CompressionTester.run']),
            ('compressor/__init__.py', ['BaseProcessor.__init__'])],
    'H02': [('lib/processors.py', ['Processors.process_session', 'Processors.process_message', 'Processors.get_processors']),
            ('lib/stream.py', ['Stream.record_result', 'Stream.__init__']),
            ('compare_compressors.py', ['CompressionTester.run'])],
    'H03': [('lib/processors.py', ['Processors.__init__', 'Processors.process_message', 'Processors.compare_headers',
                                   'compare_headers_impl', 'compare_headers_impl.*']),
            ('compressor/__init__.py', ['BaseProcessor.*'])],
    'H04': [('lib/processors.py', ['Processors.compare_headers', 'compare_headers_impl', 'compare_headers_impl.*'])],
    'H05': [('lib/processors.py', ['Processors.filter_headers', 'Processors.process_message'])],
    'H06': [('lib/harfile.py', ['*', '!read_har_file']), ('lib/harfile.py', ['read_har_file'])],
    'H07': [('lib/harfile.py', ['read_har_file']), ('compare_compressors.py', ['CompressionTester.run'])],
    'H08': [('lib/streamifiers/*.py', ['*']), ('compare_compressors.py', ['CompressionTester.run', 'CompressionTester.load_streamifier']),
            ('lib/stream.py', ['Stream.__init__'])],
    'H09': [('compare_compressors.py', ['CompressionTester.__init__', 'CompressionTester.parse_options', 'CompressionTester.run']),
            ('lib/processors.py', ['Processors.process_session', 'Processors.get_processors', 'Processors.process_message']),
            ('lib/stream.py', ['Stream.__init__', 'Stream.record_result', 'Stream.print_summary', 'Stream.__add__', 'merge_dols']),
            ('compressor/__init__.py', ['BaseProcessor.__init__'])],
    'H10': [('lib/stream.py', ['Stream.__init__', 'Stream.__add__', 'Stream.__radd__', 'merge_dols', 'Stream.print_header',
                               'Stream.print_summary', 'Stream.record_result', 'meanstdv']),
            ('compare_compressors.py', ['CompressionTester.run'])],
    'H11': [('lib/stream.py', ['Stream.__init__', 'Stream.print_tsv*', 'Stream.record_result', 'Stream.__add__', 'merge_dols']),
            ('compare_compressors.py', ['CompressionTester.run', 'CompressionTester.load_streamifier', 'CompressionTester.__init__']),
            ('lib/streamifiers/*.py', ['*']),
            ('lib/processors.py', ['Processors.process_session', 'Processors.get_processors'])],
    'C04': [('compressor/__init__.py', ['format_http1', 'parse_http1']), ('compressor/http1/__init__.py', ['*']),
            ('compressor/http1_gzip/__init__.py', ['*']), ('compressor/http1_huffman/__init__.py', ['*']),
            ('compressor/fork/__init__.py', ['Processor.compress'])],
    'C05': [('compressor/http1_gzip/__init__.py', ['*']), ('compressor/http1_huffman/__init__.py', ['*']),
            ('compressor/spdy3/__init__.py', ['*']), ('compressor/spdy_dictionary.py', ['*']),
            ('compressor/headerdiff/__init__.py', ['Processor.*', 'parse_*', '<body>']),
            ('compressor/headerdiff/headerDiffCodec.py', ['*.__init__', '*.initCodec', '*.encodeHeaders', '*.decodeHeaders']),
            ('compressor/simple/__init__.py', ['Processor.__init__', 'Processor.compress', 'Processor.decompress',
                                               'Processor.huffman*']),
            ('compressor/delta*/spdy4_codec_impl.py', ['Spdy4CoDe.__init__', 'Spdy4CoDe.Compress', 'Spdy4CoDe.Decompress'])],
    'C06': [('compressor/spdy3/__init__.py', ['*'])],
    'C07': [('compressor/fork/__init__.py', ['*']), ('sample_exec_codec.py', ['*'])],
    'C08': [('compressor/http2/http2Codec.py', ['*'])],
    'C09': [('compressor/http2/*.py', ['*'])],
    'C10': [('compressor/headerdiff/headerDiffCodec.py', ['*']), ('compressor/headerdiff/__init__.py', ['*']),
            ('compressor/headerdiff/Huffman.py', ['*'] + DEBUG)],
    'C11': [('compressor/headerdiff/headerDiffCodec.py', ['*']), ('compressor/headerdiff/__init__.py', ['Processor.*', 'HeaderTuple.*'] + DEBUG)],
    'C12': [('compressor/http2/http2Codec.py', ['*']), ('compressor/headerdiff/headerDiffCodec.py', ['*']),
            ('compressor/headerdiff/Huffman.py', ['*.encode', '*.decode', 'BitDecoder.*', 'create_tree', 'pick_node', 'Node.__init__'])]
           + deltas('*', *DEBUG)
           + [(C + d + '/lrustorage.py', ['*'] + DEBUG) for d in ('delta2', 'delta2_bohe')]
           + [(C + d + '/huffman.py', ['*'] + DEBUG) for d in DELTAS] + [(C + d + '/bit_bucket.py', ['*'] + DEBUG) for d in DELTAS],
    'C13': deltas('*', *DEBUG) + [(C + d + '/common_utils.py', ['ListToStr', 'StrToList']) for d in DELTAS]
           + [(C + d + '/bit_bucket.py', ['*'] + DEBUG) for d in DELTAS] + [(C + d + '/huffman.py', ['*'] + DEBUG) for d in DELTAS]
           + [(C + d + '/__init__.py', ['*'] + DEBUG) for d in DELTAS],
    'C14': deltas('*', *DEBUG) + [(C + d + '/lrustorage.py', ['*'] + DEBUG) for d in ('delta2', 'delta2_bohe')]
           + [(C + d + '/__init__.py', ['*'] + DEBUG) for d in DELTAS],
    'C15': deltas('*', *DEBUG) + [(C + d + '/lrustorage.py', ['*'] + DEBUG) for d in ('delta2', 'delta2_bohe')]
           + [(C + d + '/__init__.py', ['*'] + DEBUG) for d in DELTAS],
    'C16': [(r, p + DEBUG) for r, p in BITS] + [(C + 'headerdiff/Huffman.py', ['Bit*'])],
    'C17': [(r, p + DEBUG) for r, p in HUFF] + FREQ
           + [(C + d + '/__init__.py', ['Processor.*'] + DEBUG) for d in ('bohe', 'headerdiff', 'http1_huffman', 'simple') + DELTAS]
           + deltas('PackStr', 'UnpackStr', 'PackOps', 'UnpackOps', 'Spdy4SeDer.*', 'Spdy4CoDe.__init__', 'Spdy4CoDe.OpsToRealOps',
                    'Spdy4CoDe.RealOpsToOps', 'Spdy4CoDe.Compress', 'Spdy4CoDe.Decompress', '<body>')
           + [(C + 'headerdiff/headerDiffCodec.py', ['*.__init__', '*.initCodec', '*LiteralString', '<body>'])],
    'C18': [('compressor/simple/*.py', ['*'])],
    'C19': [('compressor/http2/__init__.py', ['split_headers', 'join_headers', 'Processor.compress', 'Processor.decompress']),
            ('compressor/headerdiff/__init__.py', ['HeaderTuple.*', 'Processor.compress', 'Processor.decompress'] + DEBUG)]
           + deltas('AppendToHeaders', 'Spdy4CoDe.*', 'HeaderGroup.*', *DEBUG)
           + [(C + d + '/__init__.py', ['Processor.*'] + DEBUG) for d in DELTAS],
    'C20': [(C + d + '/common_utils.py', ['IDStore.*']) for d in ('bohe',) + DELTAS]
           + deltas('Storage.*', 'Spdy4CoDe.__init__', 'Spdy4CoDe.FindOrMakeHeaderGroup', 'Spdy4CoDe.MakeOperations', 'HeaderGroup.*', 'LRU.*', *DEBUG)
           + [(C + d + '/__init__.py', ['Processor.*'] + DEBUG) for d in DELTAS]
           + [(C + d + '/lrustorage.py', ['*'] + DEBUG) for d in ('delta2', 'delta2_bohe')],
    'C21': [('compressor/bohe/__init__.py', ['*']), ('compressor/bohe/bohe.py', ['*']),
            ('compressor/bohe/common_utils.py', ['ListToStr', 'StrToList']), ('compressor/bohe/huffman.py', ['*'] + DEBUG),
            ('compressor/bohe/bit_bucket.py', ['*'] + DEBUG)],
}

TABLE['C22'] = [('compressor/delta*/bit_bucket.h', ['*', '!*.DebugStr', '!*.AsString'])]

TABLE['C23'] = [('compressor/delta*/huffman.h', ['*', '!*.BuildCodeTableHelper', '!*.BitPatternCmp*', '!*.DeleteCodeTree', '!*.operator_6060*'])]
CODEC_STORE = ['IDStore.*', 'Storage.*', 'SPDY4HeadersCodec.*', 'SPDY4HeadersCodecImpl.RemoveValEntry', 'SPDY4HeadersCodecImpl.Set*', 'SPDY4HeadersCodecImpl.Current*',
               'SPDY4HeadersCodecImpl.AddLine', 'SPDY4HeadersCodecImpl.*HeaderGroup*', 'SPDY4HeadersCodecImpl.Execute*', 'SPDY4HeadersCodecImpl.MoveTo*',
               'SPDY4HeadersCodecImpl.__init__', 'SPDY4HeadersCodecImpl.ProcessFrame', '!*.FindKeyIdxbyKey', '!*.~*']
CODEC_WIRE = ['InlineSerialization.*', 'SPDY4HeadersCodecImpl.*', 'SPDY4HeadersCodec.ProcessFrame', 'SPDY4HeadersCodec.__init__', '!*.Set*Max*', '!*.FixupFrameBoilerplate']
TABLE['C24'] = [('compressor/delta*/spdy4_headers_codec.cc', CODEC_STORE)]
TABLE['C25'] = [('compressor/delta*/spdy4_headers_codec.cc', CODEC_WIRE)]

# Properties of the C++ sources and the files they are decided on.
CPP = {'C22': ('bit_bucket.h',), 'C23': ('huffman.h',), 'C24': ('spdy4_headers_codec.cc',), 'C25': ('spdy4_headers_codec.cc',)}

# Output on these files is the product, not a trace for developers.
LOUD = ('lib/*', 'compare_compressors.py', 'sample_exec_codec.py')


def loud(rel):
    return any(fnmatch.fnmatch(rel, p) for p in LOUD)


def select(pid, wheres):
    """Functions (rel:qual) that carry the property, in order."""
    out = []
    for w in wheres:
        rel, qual = w.split(':', 1)
        hit = False
        for fg, pats in TABLE.get(pid, ()):
            if not fnmatch.fnmatch(rel, fg):
                continue
            m = False
            for p in pats:
                if p.startswith('!'):
                    if fnmatch.fnmatch(qual, p[1:]):
                        m = False
                elif fnmatch.fnmatch(qual, p):
                    m = True
            hit = hit or m
        if hit:
            out.append(w)
    return out
