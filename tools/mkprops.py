"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, text, over, why, files, mech, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

p('P01', 'IBM float decoding is exact for every 32-bit word',
  'For each of the 2^32 IBM System/360 single-precision words, decoding yields exactly the real number (-1)^s * 0.F * 16^(e-64) that the word denotes, as a float, with every zero-mantissa word decoding to 0. Nothing is rounded, and no word raises an error.',
  'every 4-byte word', ['inputs'],
  'The tests sample some dozens of words and hypothesis draws; 2^32 words cannot be enumerated by them.',
  ['segpy/ibm_float.py', 'segpy/ibm_float_packer.py', 'segpy/toolkit.py'],
  [('ibm2ieee', 'segpy/ibm_float.py:ibm2ieee'), ('IBMFloat.__float__', 'segpy/ibm_float.py:IBMFloat'), ('unpack_ibm_floats', 'segpy/toolkit.py, segpy/ibm_float_packer.py')],
  ['float(IBMFloat.from_bytes(b))', 'ibm2ieee(b)'])
p('P02', 'IBM float encoding truncates toward zero, and rejects what cannot be held',
  'Encoding a finite float whose magnitude lies in the representable range yields a word with the sign of the float whose value v satisfies |v| <= |x| and |x| - |v| less than one unit in the last hexadecimal-normalised place, with a normalised mantissa unless the exponent underflows (then a subnormal word with exponent zero). Zero encodes to the all-zero word; NaN and infinities raise ValueError, magnitudes beyond the largest word raise OverflowError, and values which would lose every mantissa bit raise FloatingPointError.',
  'every IEEE double (and every integer which is one)', ['inputs'],
  'The rounding direction and unit hold or fail per exponent class and mantissa; tests sample a few doubles.',
  ['segpy/ibm_float.py'], [('ieee2ibm', 'segpy/ibm_float.py:ieee2ibm'), ('IBMFloat.from_float', 'segpy/ibm_float.py:IBMFloat.from_float')],
  ['ieee2ibm(x)', 'IBMFloat.from_float(x)'])
p('P03', 'IBM float words survive a decode and re-encode round trip',
  'Decoding any IBM word to a float and encoding that float again yields a word of the same value, and for every normalised word exactly the same four bytes. An IBMFloat sample read from a word is written back as the identical four bytes, normalised or not, in big- and little-endian files alike.',
  'every 4-byte word', ['inputs'],
  'The tests draw a few random words; the inverse property is over all 2^32.',
  ['segpy/ibm_float.py', 'segpy/toolkit.py', 'segpy/ibm_float_packer.py'],
  [('ibm2ieee/ieee2ibm', 'segpy/ibm_float.py'), ('IBMFloat.from_real', 'segpy/ibm_float.py:IBMFloat.from_real'), ('pack_ibm_floats', 'segpy/toolkit.py:pack_ibm_floats')],
  ['ieee2ibm(ibm2ieee(w))', 'pack_ibm_floats(unpack_ibm_floats(w))'])
p('P04', 'IBMFloat behaves as the number its word denotes',
  'Comparison with other numbers, negation, absolute value, sign, truth value, truncation, floor, ceiling, integer ratio, frexp/ldexp decomposition, and the zero and subnormal classifications of an IBMFloat all agree with the exact real value of its four bytes. Normalising a word preserves its value and yields a mantissa with a non-zero leading hexadecimal digit, or raises FloatingPointError only when the exponent would leave its range.',
  'every 4-byte word (and every pair of words for comparisons)', ['inputs'],
  'Each operation works on mantissa and exponent fields separately; tests sample a few words and mostly normalised ones.',
  ['segpy/ibm_float.py'], [('IBMFloat', 'segpy/ibm_float.py:IBMFloat')],
  ['IBMFloat operators'])
p('P05', 'Header field types accept exactly the values of their range or enumeration',
  'Assigning a value to a header field succeeds exactly when the value lies in the range (and enumeration, if any) declared for the type of the field, and then reading the field gives that value; otherwise ValueError is raised and the field keeps its previous value.',
  'every field type in the library, every integer', ['inputs'],
  'Tests try the boundaries of a few types; the statement ranges over all field types and all integers.',
  ['segpy/field_types.py', 'segpy/header.py', 'segpy/binary_reel_header.py', 'segpy/trace_header.py'],
  [('IntFieldMeta and the IntN types', 'segpy/field_types.py'), ('NamedField/field descriptors', 'segpy/header.py'), ('enumerated field types', 'segpy/trace_header.py, segpy/binary_reel_header.py, segpy/revisions.py')],
  ['header.field = value', 'FieldType(value)'])
p('P06', 'Headers are packed and unpacked at their declared offsets',
  'Packing a header places each field at its declared byte offset with its declared size, two\'s complement and requested byte order, leaves every byte not covered by a field zero, and has exactly the declared header length; unpacking reads each field from the same place. Packing and then unpacking gives an equal header, and unpacking bytes that are canonical and packing again gives the same bytes, whatever the order in which the fields are declared and when several fields share the same bytes consistently.',
  'all header formats of the library and user-defined layouts, all field values, both byte orders', ['inputs', 'programs'],
  'Tests pack a handful of headers and values; a swapped offset or byte order for one of ~140 fields or one declaration order goes unseen.',
  ['segpy/packer.py', 'segpy/header.py', 'segpy/trace_header.py', 'segpy/binary_reel_header.py', 'segpy/toolkit.py'],
  [('compile_struct', 'segpy/packer.py:compile_struct'), ('BijectiveHeaderPacker, SurjectiveHeaderPacker', 'segpy/packer.py'), ('TraceHeaderRev0/Rev1, BinaryReelHeader', 'segpy/trace_header.py, segpy/binary_reel_header.py')],
  ['make_header_packer(cls, endian).pack/unpack', 'read/write of headers in a file'])
p('P07', 'Inconsistent header layouts are rejected when the packer is built',
  'Building a packer for a header layout whose fields partially overlap, precede the start of the header, or run past its declared length raises ValueError, and a layout with no fields or whose coincident fields have different types raises TypeError or ValueError; a consistent layout is accepted and covers precisely its fields.',
  'every layout: every choice of offsets and sizes for the fields', ['inputs', 'programs'],
  'The tests try a few two- or three-field layouts.',
  ['segpy/packer.py', 'segpy/header.py'], [('compile_struct', 'segpy/packer.py:compile_struct')], ['make_header_packer'])
p('P08', 'One-dimensional catalogs equal the mapping they were built from',
  'A catalog built from any sequence of distinct sortable integer keys and values is a mapping with exactly those keys, sorted, in which each key maps to its own value and any other key raises KeyError, whichever compact representation was chosen. Building from keys that contain a duplicate yields None, and key(i) and index-like queries are consistent with iteration order.',
  'every finite sequence of (key, value) pairs, in any order of insertion', ['inputs', 'histories'],
  'The choice among five representations depends on strides over the whole sequence; tests draw random samples that rarely hit near-regular sequences.',
  ['segpy/catalog.py', 'segpy/util.py'], [('CatalogBuilder', 'segpy/catalog.py:CatalogBuilder'), ('Dictionary/Regular/Constant/LinearRegular catalogs', 'segpy/catalog.py')],
  ['CatalogBuilder.create()', 'catalog[key], key in catalog, iteration'])
p('P09', 'Two-dimensional catalogs equal the mapping they were built from',
  'A catalog built from (i, j) keys is a mapping with exactly those keys in which each key maps to its own value and absent keys raise KeyError, whichever compact representation was chosen. Its i and j ranges contain exactly the coordinates that occur, in order, and looking up the key of a value returns the key that maps to it.',
  'every finite set of (i, j) keys with values', ['inputs', 'histories'],
  'Representation choice depends on regularity over all keys; tests draw small grids.',
  ['segpy/catalog.py', 'segpy/util.py'], [('CatalogBuilder', 'segpy/catalog.py:CatalogBuilder'), ('Matrix/regular 2D catalogs', 'segpy/catalog.py')],
  ['CatalogBuilder.create()', 'catalog[(i, j)]', 'i_range, j_range, key(value)'])
p('P10', 'Samples are encoded and decoded exactly in every format and byte order',
  'Reading trace samples gives, for each supported data sample format and byte order, exactly the numbers stored at consecutive positions, and writing samples places each at its position in that format and order, so that writing what was read reproduces the bytes (up to the payload of IEEE NaNs) and reading what was written reproduces the values. The number of bytes per sample used for layout always equals the size of the encoded form, integers which do not fit their format raise an error instead of being altered, and IBM words are stored the same way (big-endian) in either byte order.',
  'every data sample format, byte order, number of samples, and sample value', ['inputs'],
  'Tests cover a few formats with random lists; endianness and width errors in one table entry go unseen.',
  ['segpy/toolkit.py', 'segpy/datatypes.py', 'segpy/ibm_float_packer.py'],
  [('read_binary_values/pack_values/unpack_values', 'segpy/toolkit.py'), ('format tables', 'segpy/datatypes.py')], ['read_binary_values', 'write_trace_samples'])
p('P11', 'Cataloguing finds every trace once, at its true file offset',
  'Scanning a SEG-Y file visits its traces consecutively from the first to the last complete trace header, in file order: trace n starts where trace n-1 ends (header plus its own number of samples times the sample size). The catalogs returned map every trace number to its offset, length and (when unique) CDP or inline/crossline coordinates of precisely that trace.',
  'every number of traces, every per-trace sample count, every coordinates, both byte orders', ['inputs', 'histories'],
  'Tests scan small files, mostly with constant trace lengths.',
  ['segpy/toolkit.py', 'segpy/catalog.py'], [('catalog_traces', 'segpy/toolkit.py:catalog_traces')], ['catalog_traces', 'reader.trace_indexes/trace_header'])
p('P12', 'Random access to a trace returns its own header and samples only',
  'For each trace index and each valid start and stop, reading samples returns exactly the samples start..stop-1 of that trace and its header is decoded from its own 240 bytes, irrespective of previous reads and of trace lengths. Indexes or sample ranges outside the trace raise ValueError, and a file that ends inside the requested samples raises EOFError: never a short or shifted result.',
  'every trace index, start/stop pair, file content and sequence of reads', ['inputs', 'histories'],
  'Tests read whole traces of a few files.',
  ['segpy/reader.py', 'segpy/toolkit.py'], [('SegYReader.trace_samples/trace_header', 'segpy/reader.py'), ('read_binary_values, read_trace_header', 'segpy/toolkit.py')],
  ['reader.trace_samples(i, start, stop)', 'reader.trace_header(i)'])
p('P13', 'Textual reel headers occupy 40 records of 80 bytes and read back as written',
  'Writing a textual reel header writes exactly 3200 bytes at the start of the file: line n, encoded, in bytes 80n..80n+79, truncated or padded with blanks to 80. Reading gives forty strings of 80 characters each decoded from its own bytes, so that any forty encodable lines of at most 80 characters read back equal apart from blank padding, in ASCII and EBCDIC.',
  'every list of at most 40 lines, every content, each encoding', ['inputs'],
  'Tests draw some random headers.',
  ['segpy/toolkit.py', 'segpy/encoding.py'], [('read_textual_reel_header, write_textual_reel_header', 'segpy/toolkit.py')], ['bytes 0..3199 of the file'])
p('P14', 'Extended textual headers are written and read page by page without loss',
  'Writing extended textual headers writes, directly after the binary reel header, 3200 bytes per page, each of 40 encoded 80-byte lines, and reading the declared number of pages (or until the end-text stanza when variable) returns the same pages and leaves the file at the first trace. Pages that are malformed, and a misplaced end-text stanza, raise ValueError, and a rejected write leaves the file unmodified; formatting free text into pages preserves each line, blank ones included.',
  'every number of pages and lines, every content', ['inputs'],
  'Tests use zero to a few pages.',
  ['segpy/toolkit.py'], [('read_extended_textual_headers, write_extended_textual_headers, format_extended_textual_header', 'segpy/toolkit.py')], ['bytes from 3600', 'returned pages'])
p('P15', 'A written dataset has the SEG-Y layout and reads back equal',
  'Writing a dataset produces the textual header at byte 0, the binary reel header at 3200, the extended textual headers at 3600 and then, for each trace in order, its 240-byte header and its samples in the declared format, contiguously and with nothing else. Reading that file gives back the same headers and sample values for each trace.',
  'every dataset: any number of traces and samples per trace, every format, both byte orders', ['inputs', 'histories'],
  'Tests write a few fixed datasets.',
  ['segpy/writer.py', 'segpy/toolkit.py', 'segpy/reader.py', 'segpy/dataset.py'], [('write_segy', 'segpy/writer.py:write_segy'), ('write_trace_header, write_trace_samples', 'segpy/toolkit.py')], ['file bytes'])
p('P16', 'Sorted sequences, ranges and views keep the elements they are given',
  'Sorted collections built from any items contain exactly those items, in sorted order and without duplicates, and membership, indexing, length, iteration, equality and searching agree with a sorted list of the distinct items; an arithmetic progression is recognised as a range exactly when the items form one. A reversed view shows the underlying sequence back to front at every index, negative ones and slices included.',
  'every finite sequence of items', ['inputs'],
  'Tests draw random lists; the statement is over all sequences and indices.',
  ['segpy/sorted_frozen_set.py', 'segpy/reversed_sequence_view.py', 'segpy/util.py'],
  [('SortedFrozenSet', 'segpy/sorted_frozen_set.py'), ('ReversedSequenceView', 'segpy/reversed_sequence_view.py'), ('make_sorted_distinct_sequence, as_immutable_sequence, sorted_set_range', 'segpy/util.py, segpy/catalog.py')],
  ['public methods'])
p('P17', 'Caching never changes what a reader returns',
  'Opening a file with a cache directory, whether the cache is absent, unusable or already populated by an earlier opening, gives a reader with the same trace count, headers, coordinates and samples as opening without one. A file whose content, encoding, byte order or header formats differ is never served the catalogue of another.',
  'every file content and every sequence of openings of files sharing a cache directory', ['inputs', 'histories'],
  'Tests open one file twice.',
  ['segpy/reader.py', 'segpy/util.py'], [('create_reader, _load_reader_from_cache, _save_reader_to_cache', 'segpy/reader.py'), ('hash_for_file', 'segpy/util.py')], ['create_reader(..., cache_dirpath=...)'])
p('P18', 'Progress callbacks stay within zero and one and never go backwards',
  'While reading or writing a file, every value reported to a progress callback lies between 0 and 1, the values never decrease, and the last one reported on success is 1. A progress argument that is not callable is rejected with TypeError before anything is read or written.',
  'every file length, number of traces and trace lengths', ['inputs', 'histories'],
  'Tests look at one small file.',
  ['segpy/toolkit.py', 'segpy/writer.py', 'segpy/reader.py'], [('catalog_traces', 'segpy/toolkit.py:catalog_traces'), ('write_segy', 'segpy/writer.py:write_segy')], ['progress(proportion)'])
p('P19', 'A delegating dataset forwards every query to its source',
  'Each query on a delegating dataset returns what the wrapped dataset returns for the same arguments, and a subclass which overrides some of the queries changes only those. Writing a delegating dataset therefore writes the source with only the overridden parts changed.',
  'every wrapped dataset and argument', ['inputs', 'programs'],
  'Tests exercise a subset of members.',
  ['segpy/dataset.py'], [('DelegatingDataset', 'segpy/dataset.py:DelegatingDataset')], ['every member of Dataset'])
p('P20', 'The standard textual header template and its parsing are inverse',
  'Formatting the standard textual reel header template with any field values that fit gives forty lines of exactly 80 characters with each field in its own columns and the C-numbers and end marker in place, and parsing such a header returns the same field values (apart from surrounding blanks). Fields too long for their columns are cut to them, and names which are not fields of the template are rejected with TypeError.',
  'every field and every text that fits or does not fit', ['inputs'],
  'Tests format a default header.',
  ['segpy/textual_reel_header.py', 'segpy/toolkit.py'], [('TextualReelHeader template, parse, format_standard_textual_header', 'segpy/textual_reel_header.py, segpy/toolkit.py')], ['format/parse'])
p('P21', 'The guessed textual encoding is right for every plausible header',
  'The guess is ASCII exactly when every byte read is zero, or at least half of the bytes are ASCII codes of common characters (letters, digits, colon, underscore, hyphen, blank) and fewer than half are EBCDIC codes of them; EBCDIC exactly when it is the other way round; and None otherwise, as for an empty file. Hence any header more than half blank is recognised in its encoding, whatever else it holds. The guess is made from the first 3200 bytes of the file and neither depends on nor alters its position.',
  'every 3200-byte header', ['inputs'],
  'Tests guess a few headers.',
  ['segpy/encoding.py', 'segpy/toolkit.py'], [('guess_encoding', 'segpy/toolkit.py:guess_textual_header_encoding'), ('is_supported_encoding', 'segpy/encoding.py')], ['guess_textual_header_encoding'])
p('P22', 'Constructing, copying and pickling a header preserves each field',
  'A header constructed from positional or keyword arguments has exactly those values in those fields and defaults elsewhere, and an argument which is not a field, or is given twice, is a TypeError. Copying a header, with or without overriding some of its fields, deep-copying it, and pickling it and back give a header of the same kind with equal fields apart from the overrides, and never share state with the original.',
  'every header class, inherited ones included, every choice of field values and overrides', ['inputs', 'programs'],
  'Tests copy a few headers of flat classes.',
  ['segpy/header.py'], [('Header/SubFormatMeta/BaseHeader', 'segpy/header.py')], ['Header(...)', 'copy()', 'pickle'])
p('P23', 'Extracted arrays hold precisely the requested traces and fields',
  'Extracting an inline, crossline, trace selection or header field into an array puts the samples or values of each requested trace in its own row and only there, in the requested order, with missing or short traces masked or filled by the null value. Requests for lines, samples or selections that the survey does not contain raise an error.',
  'every survey geometry with gaps and every ascending selection', ['inputs'],
  'Tests cover few complete geometries.',
  ['segpy-ext/segpy_numpy/segpy_numpy/extract.py', 'segpy-ext/segpy_numpy/segpy_numpy/util.py', 'segpy-ext/segpy_numpy/segpy_numpy/dtypes.py'],
  [('extract_inline_3d, extract_xline_3d, extract_trace_header_field_3d', 'segpy_numpy/extract.py'), ('ensure_superset', 'segpy_numpy/util.py')], ['returned arrays'])
p('P24', 'Interval, batching and sequence utilities compute what they are named for',
  'Splitting into batches, pairing, computing strides and measuring a regular sequence partition or describe their input exactly: concatenating the batches gives the input back with each batch full except the last, pairs are the consecutive pairs, and a stride is reported only if all consecutive differences equal it. Interval tests and complements are exact at the end points.',
  'every sequence and every batch size or bound', ['inputs'],
  'Tests sample few sequences.',
  ['segpy/util.py'], [('batched, pairwise, contains_duplicates, measure_stride, minmax, ...', 'segpy/util.py')], ['return values'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
