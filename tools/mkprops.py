import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['warcio/'+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=obs or [],hook_needed=None))
    P.append(d)

p('C01','A limited reader delivers exactly the first n bytes of its stream',
 'A reader limited to n bytes returns, over any sequence of read and readline calls with any size arguments (absent, zero, positive or negative), consecutive pieces of exactly the first n bytes of the underlying stream, never consuming a byte beyond the limit; each line ends at the first newline, the size or the limit. Its position always equals the number of bytes it has returned, and an empty result means that the limit or the end of the stream was reached (or zero bytes were asked for). Limiting an already limited reader to m bytes leaves the smaller of the two limits in force and the position unchanged; a limit that is not a non-negative integer leaves the stream as it was.',
 ['inputs','histories'],'all byte streams, all limits, all finite sequences of read/readline calls and size arguments, all nestings of limits',
 'The tests read one alphabet string with six size combinations; none uses a negative size, an underlying short read, or checks the position after narrowing a limit.',
 ['limitreader.py'],[('clamping of the requested size','limitreader.py LimitReader.read, readline'),('limit accounting','LimitReader._update'),('narrowing','LimitReader.wrap_stream')],
 [('limit','bytes that may still be returned','LimitReader.limit'),('_orig_limit','limit at creation','LimitReader._orig_limit')],['return values of read/readline/tell','position of the wrapped stream'])

p('C02','Buffered reading is independent of buffer size and read pattern',
 'The bytes delivered by a buffered reader depend only on the bytes of its underlying stream and the decompression type, never on the block size, on how the underlying stream splits its reads, or on the sizes and mix of read and readline calls: read(k) returns the next min(k, remaining) bytes, read() everything that remains, and readline(k) the next bytes up to and including the first newline, at most k. If a supported compression (gzip, deflate in zlib or raw form, br) is selected the data is the decompressed data of the current member, and data that turns out not to be compressed that way from its start is delivered unchanged.',
 ['inputs','histories','configurations'],'all byte streams (well-formed compressed or not compressed), block sizes >= 1, short-read patterns of the source, sequences of read/readline/size',
 'Tests use a handful of streams with two or three block sizes and mostly a single read(); sequences of sizes across buffer boundaries are unbounded.',
 ['bufferedreaders.py'],[('refill only when the buffer is empty','BufferedReader._fillbuff, empty, rem_length'),('decompress, or fall back on first failure','BufferedReader._decompress, _init_decomp'),('accumulation across buffers','BufferedReader.read, readline')],
 [('buff','undelivered decoded bytes','BufferedReader.buff, buff_size'),('starting_data','raw bytes left over from the previous member','BufferedReader.starting_data'),('decompressor','state of the current member','BufferedReader.decompressor')],['return values of read/readline'])

p('C03','Chunked transfer decoding returns exactly the encoded payload',
 'Reading a well-formed chunked body (any chunk sizes, hex case, leading zeros, chunk extensions on size lines of at most 64 bytes, trailer fields after the last chunk), optionally with a supported content compression on top, returns exactly the payload, for any sequence of read/readline calls and any way the underlying stream splits its reads. A body cut off anywhere after its first chunk size line returns a prefix of the payload with no framing bytes added, and a body that does not start with a valid chunk size line is returned unchanged in full. In strict mode a truncated or malformed chunked body raises the chunked data error instead of being silently accepted.',
 ['inputs','histories','fault_sequences'],'all payloads, chunkings, extensions, trailers, truncation points, read sequences, source split patterns',
 'Tests use about eight literal bodies; every truncation point and every chunking of every payload cannot be listed.',
 ['bufferedreaders.py'],[('chunk header and terminator parsing','ChunkedDataReader._try_decode'),('fallback to raw','ChunkedDataReader._fillbuff')],
 [('all_chunks_read','last chunk (or end of stream) was seen','ChunkedDataReader.all_chunks_read'),('not_chunked','raw fallback in force','ChunkedDataReader.not_chunked')],['return values of read/readline','ChunkedDataException'])

p('C04','Header blocks are parsed completely and consume exactly the header',
 'Parsing a status line and header block from a stream yields every "name: value" line in order, with whitespace around the value and at the end of the name removed, values containing further colons kept whole, lines starting with space or tab appended to the preceding header value, and lines without a colon skipped. Exactly the bytes up to and including the first blank line are consumed, so the stream continues at the body. At the end of the stream an end-of-file condition is raised, and with verification on, a status line that does not start (ignoring case) with an accepted prefix is rejected; bytes that are not valid UTF-8 are decoded line by line as Latin-1.',
 ['inputs'],'all byte streams, all lists of accepted prefixes, verification on or off',
 'The tests parse about ten literal header blocks; header grammar inputs are unbounded in lines, continuations, colons and bytes.',
 ['statusandheaders.py'],[('line loop','StatusAndHeadersParser.parse'),('trimming','_strip_count'),('prefix check','StatusAndHeadersParser.split_prefix'),('decoding','StatusAndHeadersParser.decode_header')],None,['returned protocol/statusline/headers','stream position after parse'])

p('C05','Serialized headers parse back to the same headers',
 'Serializing a status line and headers gives the protocol and status line, then one "name: value" line per header in order, each ended by CRLF, then one empty line; with a header filter, exactly the headers as the filter returns them, omitting those it drops. Parsing that serialization gives back the same protocol, status line and headers in the same order, for all non-empty names without colons and all values, names, protocols and status lines free of line breaks and of leading or trailing whitespace.',
 ['inputs','configurations'],'all status lines and header lists in the stated class (any length, duplicates, non-ASCII values), all filters',
 'Tests compare a few literal objects; duplicates, empty values, odd characters and arbitrary list lengths are not sampled.',
 ['statusandheaders.py'],[('serialization','StatusAndHeaders.to_str, to_bytes'),('parsing','StatusAndHeadersParser.parse')],None,['to_str()/to_bytes()','parse result'])

p('C06','Header objects behave as an ordered case-insensitive map',
 'For any sequence of get, add, replace and remove operations, names are compared ignoring case: get returns the value of the first header with that name or the given default, add appends, replace makes get return the new value (returning the old one, keeping the stored spelling of the name and leaving every other header and the order unchanged, or appending when absent), and after remove no header of that name is left and all others are unchanged in order; remove tells whether one was present. The "in" test is true exactly if a header of that name is present, also if its value is empty. Headers given as bytes or as a mapping become the same list of text pairs.',
 ['inputs','histories'],'all header lists (any length, duplicates, mixed case, empty values) and operation sequences',
 'The tests do one replace and two removes on a two-header object without duplicates or empty values.',
 ['statusandheaders.py','utils.py'],[('lookup/replace/remove loops','StatusAndHeaders.get_header, replace_header, remove_header, add_header'),('normalization','utils.headers_to_str_headers')],[('headers','ordered list of (name, value)','StatusAndHeaders.headers')],['return values','headers list'])

p('C07','HTTP header blocks are always written as pure ASCII',
 'The byte form of HTTP headers used for writing records consists only of ASCII bytes and is produced without error for every status line and header list of encodable text. Header blocks that are ASCII already are written unchanged; otherwise every ASCII header value stays unchanged, the number and order of headers stays the same, and non-ASCII text is replaced by the percent-encoding of its UTF-8 bytes (inside the parameter values as an extended parameter name*=UTF-8\'\'value where the value has parameters).',
 ['inputs'],'all protocols, status lines, header names and values that can be encoded as UTF-8',
 'The tests contain four non-ASCII headers; they miss non-ASCII names, status lines and parameters that the pattern does not match.',
 ['statusandheaders.py'],[('fallback','StatusAndHeaders.to_ascii_bytes'),('encoding','StatusAndHeaders.percent_encode_non_ascii_headers')],None,['to_ascii_bytes()','compute_headers_buffer'])

p('C08','Every written record is framed exactly by its Content-Length',
 'Writing a record emits its WARC headers, then its block (serialized HTTP headers if any, followed by the payload bytes; for a revisit record with HTTP headers only these), then exactly CRLF CRLF, and the output is flushed; the Content-Length header it writes equals the number of block bytes, for known or unknown length, seekable or unseekable payload, and any header filter. With compression each record is one complete gzip member whose decompressed bytes are exactly the uncompressed form, and records follow each other with nothing in between.',
 ['inputs','configurations','histories'],'all records (type, headers, payload, declared or unknown length, stream kind), gzip on/off, filter, sequences of records',
 'The tests write about twenty fixed records and compare text; the length equality must hold for every payload, header set and stream kind.',
 ['warcwriter.py','recordbuilder.py'],[('length computation and block output','BaseWARCWriter._write_warc_record'),('buffering for unknown length','RecordBuilder.ensure_digest'),('member per record','GzippingWrapper')],[('payload_length','bytes of payload to be written','ArcWarcRecord.payload_length'),('headers_buff','serialized HTTP headers','StatusAndHeaders.headers_buff')],['bytes written to the output'])

p('C09','Digests written into a record are those of its content',
 'A record written or created without digests gets a block digest equal to the SHA-1 (Base32, "sha1:") of exactly the block bytes that are written, and, except for warcinfo and revisit records, a payload digest equal to the SHA-1 of exactly the payload after the HTTP headers. Digests that are already present are kept as they are, unless the length of the record is unknown, in which case they are recomputed (the payload digest of a revisit record is always kept). Computing digests does not lose, change or reorder any payload byte.',
 ['inputs','configurations'],'all payloads, stream kinds (seekable or not, any start position), record types, present/absent digest headers, known/unknown length',
 'Tests compare a few literal digests; a digest over the wrong range or a lost byte for some stream kind or payload size beyond a read buffer is not sampled.',
 ['recordbuilder.py','warcwriter.py','utils.py'],[('digest computation','RecordBuilder.ensure_digest'),('digest reset for unknown length','BaseWARCWriter._write_warc_record'),('digest text form','utils.Digester')],None,['WARC-Block-Digest, WARC-Payload-Digest headers','written payload'])

p('C10','Digest verification accepts correct and reports wrong digests',
 'With digest checking on, once a record has been consumed in any way its check result is passed if it has a digest and every digest it declares (block digest over the whole block, payload digest over the part after the HTTP headers) matches, failed with one recorded problem per wrong digest if any does not match, if its hash algorithm is unknown, or if the block is cut off, and undecided if there is nothing to check (no digest, or a revisit record; payload digests of segmented records are not checked). The bytes delivered are the same as without checking. Mode "raise" raises the archive load error at the first problem and mode "log" writes it to standard error.',
 ['inputs','histories','configurations'],'all block contents, declared digests, read/readline patterns, record types, checking modes',
 'Tests corrupt a few example files; empty blocks, cut off blocks, read patterns and combinations of digests are not sampled.',
 ['digestverifyingreader.py','recordloader.py'],[('incremental digests and final comparison','DigestVerifyingReader._update, begin_payload'),('result accumulation','DigestChecker.problem, passed'),('selection of digests','ArcWarcRecordLoader.wrap_digest_verifying_stream')],[('passed','True/False/None','DigestChecker._passed'),('limit','bytes of the block not read yet','LimitReader.limit')],['digest_checker.passed, problems','data read'])

p('C11','Digest comparison recognizes every encoding of the same digest',
 'A declared digest "algorithm:value" compares equal to the computed digest exactly if its value is the Base16 (either case), Base32 (upper case) or Base64 (standard or URL-safe alphabet) encoding of the computed digest bytes, with or without padding, for each fixed-length hash algorithm. Any other value compares unequal without an exception, and with no computed or no declared digest the result is undecided.',
 ['inputs'],'all digests of all fixed-length algorithms, all encodings, all other strings after the colon',
 'The tests try six encodings of one empty SHA-1.',
 ['digestverifyingreader.py'],[('comparison','_compare_digest_rfc_3548'),('normalization to Base32','_to_b32, _b64_wrapper'),('splitting','_parse_digest')],None,['comparison result'])

p('C12','The record loader limits the stream and parses HTTP only where it applies',
 'Loading a record returns its type, headers and a content stream that ends after exactly Content-Length bytes of block (an invalid or negative length counts as zero, a missing one does not limit the stream). HTTP headers are parsed exactly for non-empty response, request and revisit records with an http: or https: target, unless parsing is switched off; the payload length is then the block length minus the bytes of the HTTP headers, and all other blocks are left untouched. A target URI wrapped in angle brackets or containing spaces is normalized in the result and the headers, and a first line that is neither a WARC nor an ARC header raises the archive load error.',
 ['inputs','configurations'],'all record header blocks, lengths, types, target URIs, block contents, option settings',
 'Tests load some dozens of records; length, type, scheme and option combinations are not enumerated.',
 ['recordloader.py'],[('type and length detection','ArcWarcRecordLoader.parse_record_stream'),('HTTP conditions','load_http_headers'),('format detection','_detect_type_load_headers'),('URI clean-up','_ensure_target_uri_format')],None,['fields of the returned record','raw_stream content'])

p('C13','ARC records are converted to equivalent WARC records',
 'An ARC record line gives, with conversion on, a WARC response record (warcinfo for a filedesc record) with a record id, the same URL (or file name), IP address, ISO date of the ARC date and the block length as declared, without conversion the five ARC fields themselves; URLs that contain spaces stay whole, since fields are split from the right. The content of the record is exactly the declared number of bytes, counting the version lines of a filedesc record as part of it. Lines with a wrong number of fields are rejected.',
 ['inputs'],'all ARC header lines, dates, URLs with spaces, version blocks including non-ASCII, block contents',
 'The tests use two ARC example files and two literal records.',
 ['recordloader.py','timeutils.py'],[('field split','ARCHeadersParser.parse'),('mapping to WARC headers','ARC2WARCHeadersParser._get_protocol_and_headers'),('length correction','ArcWarcRecordLoader.parse_record_stream')],None,['record headers','raw_stream content'])

p('C14','Iteration yields every record once, in order, however it is consumed',
 'Iterating over a well-formed WARC or ARC file, uncompressed or with one gzip member per record, yields every record exactly once and in file order, with the same headers and content for any block size and whether each record was fully read, partly read or not read at all. The reported offset and length of each record delimit it in the file: seeking to the offset and reading length bytes gives a file that yields that same record alone, offsets increase, and records do not overlap. Empty gzip members between records do not hide any record.',
 ['inputs','histories','configurations'],'all record sequences, formats, block sizes, per-record consumption patterns, seekable or not source',
 'Tests iterate over a few example files with fixed consumption; the cross product of content, block size and consumption pattern is unbounded.',
 ['archiveiterator.py','bufferedreaders.py'],[('record loop','ArchiveIterator._iterate_records'),('skip to the end of the record','ArchiveIterator.read_to_end, _consume_blanklines'),('member switching','BufferedReader.read_next_member, rem_length')],[('offset','file position of the current record','ArchiveIterator.offset'),('member_info','offset and length of the consumed record','ArchiveIterator.member_info'),('next_line','first line of the next record already read','ArchiveIterator.next_line')],['records yielded','get_record_offset/get_record_length'])

p('C15','Records written are read back unchanged',
 'Writing any sequence of records and iterating over the output yields the same number of records in the same order, with equal type, equal WARC headers (plus those added by writing: length, type and digests), equal HTTP status line and headers, and byte-identical payload, compressed or not and for any reader block size (for headers free of line breaks and surrounding whitespace, HTTP headers in ASCII, and target URIs without spaces or angle brackets). Digests computed by the writer verify.',
 ['inputs','configurations','histories'],'all record sequences creatable through the API with encodable headers, payloads of any size and content, gzip on/off, block sizes',
 'Round-trip tests use a few short fixed payloads; contents that look like headers, CRLFs, gzip data or exceed buffers are not sampled.',
 ['warcwriter.py','recordbuilder.py','archiveiterator.py','recordloader.py','statusandheaders.py'],[('writer','BaseWARCWriter._write_warc_record'),('reader','ArchiveIterator._next_record')],None,['records read back'])

p('C16','A gzip archive that is not compressed per record is reported',
 'Iterating over a gzip file in which a member holds more than one WARC or ARC record raises the archive load error when the iteration goes on to a second record of that member, and never returns that record or silently drops the rest. A gzip file with exactly one record per member, and an uncompressed file, never raises it.',
 ['inputs'],'all record sequences and all groupings of the records into gzip members (including empty members)',
 'One example file is tested; the grouping of records into members is unbounded.',
 ['archiveiterator.py'],[('detection','ArchiveIterator._iterate_records'),('error','ArchiveIterator._raise_invalid_gzip_err')],None,['ArchiveLoadFailed','records yielded before it'])

p('C17','Timestamps parse to valid times and convert back exactly',
 'Any 14-digit timestamp of a valid time from year 1900 to 2999 converts to that time and back to the same digits, also via ISO date, HTTP date and seconds. A timestamp with fewer digits converts to the latest time that its complete two-digit fields (and the digits of its year; a lone month digit is completed with 2) can denote, extra digits are ignored, and any other string of any length gives a valid time in that range without an error, out of range or non-numeric fields being moved into range.',
 ['inputs'],'all strings; all valid times of the years 1900 to 2999',
 'Doctests check about 25 strings.',
 ['timeutils.py'],[('field extraction and clamping','timestamp_to_datetime'),('padding','pad_timestamp'),('formatting','datetime_to_timestamp, timestamp_to_iso_date, timestamp_to_http_date, timestamp_to_sec, sec_to_timestamp')],None,['return values'])

p('C18','ISO dates round-trip, to the second or to the microsecond',
 'For every naive UTC time of the years 1000 to 9999, formatting it as ISO date without microseconds and parsing gives the time cut to the second, and with microseconds gives exactly the same time. Parsing accepts any number of fraction digits, cutting beyond microseconds and reading missing digits as zeros, with or without the final Z, and when asked the result is aware and in UTC.',
 ['inputs'],'all times of the stated range with any microsecond; all fraction strings',
 'Doctests check ten strings.',
 ['timeutils.py'],[('parsing','iso_date_to_datetime'),('formatting','datetime_to_iso_date')],None,['return values'])

p('C19','Created records carry the mandatory headers and keep caller data intact',
 'Every created record has exactly one WARC-Type as requested, a unique record id and a UTC date (with microseconds only for WARC 1.1) unless the caller supplied those, the caller\'s target URI and headers (dictionaries whose names differ not only in case), the content type given, else the one in the headers, else the default of the record type, and the protocol version of the writer. A warcinfo block holds one line per non-empty item in order; a revisit record names profile, original URI, date and payload digest, and refuses an empty digest. Header dictionaries passed in by the caller are not modified, nor shared between records.',
 ['inputs','configurations'],'all record types, URIs, header dictionaries, content types, info items, WARC versions',
 'Tests create one record of each kind.',
 ['recordbuilder.py'],[('header initialization','RecordBuilder._init_warc_headers'),('creation','create_warc_record, create_warcinfo_record, create_revisit_record'),('version','_parse_warc_version, curr_warc_date')],None,['rec_headers of the record'])

p('C20','A request/response pair is written linked and in order',
 'Writing a pair writes the response record first and then the request record, both complete. The request carries the target URI and date of the response and, if the response has a record id, a WARC-Concurrent-To header with that id; nothing else in either record changes.',
 ['inputs'],'all pairs of records and header contents',
 'Tests write two fixed pairs.',
 ['warcwriter.py'],[('linking','BaseWARCWriter.write_request_response_pair'),('order','WARCWriter._do_write_req_resp')],None,['records in the output'])

p('C21','The index has one line per record with exactly the requested fields',
 'Indexing writes, for each input in order, exactly one JSON object per record in file order, with the requested fields in the requested order, omitting those without a value: offset and length as strings that locate the record, the base name of the file, the HTTP status code for response and revisit records with HTTP headers, "http:name" the HTTP header and any other name the WARC header of that name. The values are those of reading the file as WARC, ARC files being converted.',
 ['inputs','configurations'],'all archives, field lists and input lists',
 'Tests index the example files with three field lists.',
 ['indexer.py','cli.py'],[('field values','Indexer.get_field'),('lines','Indexer.process_index_entry, process_one, process_all')],None,['output lines'])

p('C22','The check command fails exactly if some record has a wrong digest',
 'The check command exits non-zero if and only if some record of some input has a failed digest check (including a cut off or unsupported digest) or an input is not readable as an archive, whatever the order of good and bad records and inputs. Each failing record is reported with its file, offset, id and type; one bad input does not stop the others from being checked, and verbose mode changes only the output.',
 ['inputs','histories'],'all lists of inputs with any mixture of good, bad and unreadable records',
 'Tests check a few example files one at a time.',
 ['checker.py','cli.py'],[('accumulation of the exit value','Checker.process_all, process_one'),('exit status','cli.checker')],[('exit_value','1 as soon as a problem was seen','Checker.exit_value')],['exit status','printed report'])

p('C23','Recompressing keeps every record and makes the file valid',
 'Recompressing a WARC or ARC file that is uncompressed, compressed per record or compressed as one gzip stream writes a file with one gzip member per record holding the same records in the same order: same type, target, date, WARC headers, HTTP headers and byte-identical payload (ARC records converted to WARC), with digests that verify if they did before. Its report gives the number of records written, and a file that cannot be read ends with a non-zero exit status.',
 ['inputs','configurations'],'all archives in the three compression forms, ARC or WARC, any payload',
 'Tests recompress four example files.',
 ['recompressor.py','cli.py'],[('copy loop','Recompressor.load_and_write'),('fallback','Recompressor.decompress_and_recompress'),('reporting','Recompressor.recompress')],None,['output file','exit status','printed count'])

p('C24','Extract outputs exactly the requested part of the record',
 'Extracting the record at an offset writes to standard output the WARC headers, the HTTP headers if any and the raw block data; with the headers option only the two header blocks; with the payload option only the payload after transfer and content decoding. Nothing else is output, and nothing of neighbouring records, for a record of any size.',
 ['inputs','configurations'],'all archives, records, offsets and the three modes',
 'Tests extract three example records.',
 ['extractor.py','recordloader.py'],[('output','Extractor.extract'),('decoding','ArcWarcRecord.content_stream')],None,['standard output'])

p('C25','HTTP capture records the exact bytes exchanged, under the right URL',
 'Each HTTP exchange completed on a connection made inside a capture gives exactly one response record followed by its request record, holding byte for byte what was received and sent, with the URL of the request (scheme, host, port unless default, path; the full URL or tunnel target when using a proxy) and no data or headers of other exchanges. The filter function decides whether the pair is written and may replace it, and with no recorder active requests behave as without the library.',
 ['inputs','histories','configurations'],'all request/response sequences, header and body bytes, body read patterns, hosts, ports, paths, proxies, filters',
 'Tests do a few requests against a local httpbin.',
 ['capture_http.py'],[('recording of bytes','RecordingStream.readinto, readline; RecordingHTTPConnection.send'),('URL','RequestRecorder.extract_url'),('pair','RequestRecorder.done, _create_record'),('scope','capture_http')],[('started_req','an exchange is being recorded','RequestRecorder.started_req'),('warc_headers','headers of the current exchange','RequestRecorder.warc_headers')],['records written'])

p('C26','The content stream removes exactly the declared HTTP encodings',
 'Reading the content stream of a record returns the payload with the transfer coding removed if the HTTP headers declare "chunked" and the content coding removed if they declare a supported one (gzip, deflate or br, in any letter case), and the raw payload if neither is declared, the coding is not supported, or there are no HTTP headers. Content that is not encoded as declared is returned unchanged, and reading never goes beyond the record.',
 ['inputs','configurations'],'all payloads, header spellings and encodings, read patterns',
 'Tests decode a few example records.',
 ['recordloader.py','bufferedreaders.py'],[('choice of decoder','ArcWarcRecord.content_stream')],None,['bytes read from content_stream()'])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch)
    s=d['statement']
    import re
    n=len(re.findall(r'[.](?=\s+[A-Z]|$)',s))
    if n>3 or len(d['title'])>80: print(d['id'],n,len(d['title']))
print(len(P))
