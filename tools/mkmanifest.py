"""write MANIFEST.json from the table of claimed properties below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real source (pyvc: contracts on /repo functions, symbolic VC generation from the current text, z3/cvc5)'
CLAIMED = {
    'C01': 'Proved for all inputs: read, readline, tell, __init__ and wrap_stream of LimitReader against their contracts, over any stream that follows the io protocol.',
    'C02': 'Proved for all inputs, buffer sizes and histories: __init__, read, readline of BufferedReader and DecompressingBufferedReader, and _fillbuff (with everything it calls) for each kind of decompressor, against one view of what is still to come. tell, iteration and readlines are checked by the bounded driver only.',
    'C03': 'Proved for all inputs, splits and read patterns: __init__, read, readline and _fillbuff (with _try_decode, _not_chunked, the chunk state machine) of ChunkedDataReader without content compression, in default and strict mode, against a specification of the decoded stream. Content compression on top of a well-formed chunked body is checked by the bounded driver only.',
    'C04': 'Proved for all streams: StatusAndHeadersParser.parse (verifying or not, status line given or read, any list of prefixes), against a recursive definition of the header block over its lines; split_prefix; decode_header.',
    'C05': 'Proved for all headers: to_str and to_bytes (with and without header filter) give exactly the specified serialization. Parsing it back is checked by the bounded driver only.',
    'C06': 'Proved for all header lists and names: construction, get_header, [] , get, in, add, replace, []=, remove, del of StatusAndHeaders against an ordered case-insensitive map.',
    'C07': 'Proved for all headers: percent_encode_non_ascii_headers, to_ascii_bytes and compute_headers_buffer give ASCII bytes, keep ASCII blocks and values unchanged, and keep number and order of headers. quote and the regular expression substitution are modelled functions.',
    'C08': 'Proved for all records, headers, payloads (BytesIO or any unseekable stream), lengths known or not, header filters, plain and gzip: _write_warc_record (with GzippingWrapper inlined) against the contracts of ensure_digest, to_bytes, compute_headers_buffer and the header operations; write_record. Several records in a row: the bounded driver.',
    'C09': 'Proved for all records: ensure_digest and _write_warc_record add exactly the missing digests, of exactly the bytes written, and lose no payload byte. Digests at creation (create_warc_record) are checked by the bounded driver.',
    'C10': 'Proved for all inputs and reads: __init__, read, readline and begin_payload of DigestVerifyingReader, for the three reporting modes, over any reader; and of the record loader: which digests are verified and where the payload begins (wrap_digest_verifying_stream, parse_record_stream).',
    'C11': 'Proved for all declared and computed digests: _compare_digest_rfc_3548 accepts exactly the Base16, Base32 and Base64 forms, over models of the base64 module.',
    'C12': 'Proved for all records, WARC, ARC and ARC read as WARC: load_http_headers, _detect_type_load_headers, _ensure_target_uri_format, wrap_digest_verifying_stream and parse_record_stream (each mode of http parsing, default headers and digest checking), over what the header parsers return.',
    'C13': 'Proved for all lines and streams: ARCHeadersParser.parse with and without conversion (line given or read), timestamp_to_iso_date as the ISO date of timestamp_to_datetime (any text), its value for full timestamps, and the length of the content in parse_record_stream (both formats).',
    'C17': 'Proved for all times of the years 1900 to 2999 and all texts: timestamp_to_datetime for the first n digits of a valid timestamp (each n; 14 or more as one case) and for any text (each length below 14; 14 or more as one case), datetime_to_timestamp, and the round trips through ISO date, HTTP date and seconds.',
    'C18': 'Proved for all times of the years 1000 to 9999: datetime_to_iso_date, iso_date_to_datetime (each number of fraction digits below 7; 7 or more as one case; with and without Z; naive and aware), and their compositions.',
    'C19': 'Proved for all inputs: _init_warc_headers (with and without URI, id, date), create_warc_record (no payload, BytesIO, stream; http headers given or not; WARC headers given or a dictionary), create_warcinfo_record, create_revisit_record, _parse_warc_version, curr_warc_date. The caller\'s dictionaries are outside every frame, so a store into one is a failed obligation.',
    'C20': 'Proved for all header lists: write_request_response_pair writes exactly response then request through the contract of _write_warc_record, the request with exactly the headers it must have; frame: nothing else in either record changes.',
    'C21': 'Proved for all field lists, inputs and sequences of records: Indexer.__init__, get_field, process_index_entry, process_one, process_all and cli.indexer, over an abstract archive iterator and with the JSON text as a function of what was stored in the dictionary, in order. Offsets and lengths are those the iterator reports (C14, not claimed).',
    'C22': 'Proved for all lists of inputs and all sequences of records (right, wrong, nothing to check, unreadable): Checker.__init__, process_one (verbose or not), process_all and cli.checker, over an abstract archive iterator; the verdict of a record is that of C10.',
    'C23': 'Proved for all files and all sequences of records: Recompressor.load_and_write (every record read is written once, in order, as one gzip member, and counted), decompress_and_recompress (all members of the file, from its start), recompress (count reported, status 1 when neither attempt succeeds) and cli.recompressor, over an abstract archive iterator and the contract of write_record (C08).',
    'C24': 'Proved for all records, sizes and read splits: Extractor.extract in its three modes and cli.extractor, over an abstract archive iterator: what a record holds is a function of the file and the offset. Header text, decoding and record boundaries are C05, C26 and C01.',
    'C26': 'Proved for all headers and payloads: content_stream of a record builds the reader its headers call for and falls back to the raw stream; the readers themselves are the contracts of C02 and C03.',
}
NOTE_TAIL = (' Trusted: the pyvc interpreter and its models of builtins and library calls, z3, cvc5. A bounded driver on the real code runs besides'
             ' (failing inputs, cross-check of the models); it is never counted as proof.')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C14': 'the order, offsets and independence of consumption are a property of the generator ArchiveIterator._iterate_records over the whole file and of the gzip member boundaries below it: stating it needs a specification of a sequence of records over DecompressingBufferedReader.read_next_member with its tell, for which no finished contract is written (drafts/c_iterate.py, which no check uses: the loop over an abstract reader verified, the offsets not); a bounded driver exists (drivers/c14.py), which is not proof',
    'C15': 'composition of the writer (C05, C08, C09, under contract) with the iterator (C14, not under contract) and with parsing back what was serialized, an induction over the header lines that relates two recursive definitions; not written; a bounded driver exists (drivers/c15.py)',
    'C16': 'depends on the same generator and member boundaries as C14; the draft contract (drafts/c_iterate.py) is used by no check; a bounded driver exists (drivers/c16.py)',
    'C25': 'the histories are calls of http.client made through replaced methods of its classes, with threads and sockets: the specification would be over dependency code that is not in the reach of the verifier; a bounded driver exists (drivers/c25.py), which reports the known finding listed in the known-findings file',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH, level='proof', level_note=CLAIMED[i] + NOTE_TAIL))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract written yet for the functions this property depends on')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. python3-vt runs the verifier, /opt/venv/bin/python the real code.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
# DESIGN.md from tools/design.tmpl
out = []
for p in props:
    i = p['id']
    out.append('**%s** %s. %s' % (i, p['title'], CLAIMED[i] if i in CLAIMED else 'Not claimed: ' + NA.get(i, 'no contract written yet')))
res = {}
f = os.path.join(HERE, 'tools', 'seed_results.json')
if os.path.exists(f):
    res = json.load(open(f))
rows = ['', '| planted bug | property | what it breaks | caught |', '|---|---|---|---|']
sd = os.path.join(HERE, 'seeded')
tmpl_have_seeds = os.path.isdir(sd)
if tmpl_have_seeds:
    dirs = {n: os.path.join(d, n) for d in (os.path.join(HERE, 'planted'), sd) if os.path.isdir(d) for n in os.listdir(d)}
    for n in sorted(dirs):
        mt = json.load(open(os.path.join(dirs[n], 'meta.json')))
        rows.append('| %s | %s | %s (needs %s) | %s |' % (n, mt['property'], mt['what_it_breaks'], mt['needs'], res.get(n, 'not run yet')))
    t = open(os.path.join(HERE, 'tools', 'design.tmpl')).read()
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('@@PROPS@@', '\n\n'.join(out)).replace('@@SEEDS@@', '\n'.join(rows)))
