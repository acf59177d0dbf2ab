"""what is assumed and not checked (goes into every evidence file)"""
BASE = [
    'pyvc (this repository): the symbolic interpreter for the Python subset, its loop cutting and its contract application, and its rewriting prover for equations between concatenations',
    'z3 4.x and cvc5 as solvers',
    'pyvc/models.py: models of builtins, str/bytes methods, io.BytesIO, zlib, hashlib, base64, tempfile, uuid, time',
    'CPython executes the verified source text as the language reference says',
]
ASSUME = [
    'integers are mathematical (as in Python); strings and bytes are finite sequences of code points',
    'no other thread modifies the objects under verification; no MemoryError, KeyboardInterrupt or recursion limit',
    'wrapped streams follow the io protocol: read(n) returns at most n bytes and nothing only at the end, readline(n) one line or its first n bytes',
    'callers use the documented argument types',
]
_READERS = [
    'the decompressors: one that is given the data piece by piece returns, in total, what it would return for the whole (a function of the bytes fed); it has the data of the next member, and nothing else, as unused_data',
]
_READERS_ASSUME = [
    'compressed data is valid, or is not compressed data from its start; what is delivered for data that is damaged in the middle is not specified',
    'termination of loops is not proved: a call that does not return satisfies its contract',
]
_HEADERS_ASSUME = [
    'lists of headers hold pairs of text (native str), as the constructor and the parser make them',
    'header filters are functions of name and value that return a pair of text or None',
]
_WRITE = ['zlib.compressobj: the output of all compress calls and the final flush is one complete gzip member that holds the bytes fed',
          'hashlib: a digest is a function of algorithm and bytes fed', 'header lists after remove and replace: get and in as proved for C06 (lemmas by induction, the induction itself not checked by a solver)',
          'tempfile.SpooledTemporaryFile behaves as BytesIO']
FOR = {
    'C08': _WRITE, 'C09': _WRITE, 'C20': ['callers of _write_warc_record use its contract'],
    'C02': _READERS,
    'C03': _READERS + ['pyvc: facts about the specification of the chunked stream are unfolded only where the source is read (contracts/c_chunked.py)'],
    'C07': ['urllib.parse.quote is a function of its text; its result is ASCII, the identity on ASCII text when every ASCII character is declared safe',
            'the substitution of ENCODE_HEADER_RX is an opaque function of the text',
            'induction over the header list (an ASCII list serializes to ASCII, encoded headers are ASCII): the step is an obligation, the induction itself is not checked by a solver'],
    'C10': ['the result of _compare_digest_rfc_3548 is used through its contract', 'the header parsers, for the loader: read some bytes, then return headers or raise (weaker than the contracts proved for C04 and C13)'],
    'C11': ['models of base64.b16encode/b32encode/b64encode/urlsafe_b64encode and their decoders by RFC 4648'],
    'C26': _READERS,
    'C17': ['datetime: validity of dates, strftime, isoformat, replace; calendar.monthrange by the Gregorian rule; timegm and fromtimestamp, formatdate and parsedate are inverse to each other (pyvc/dates.py)', 'int() of a text of decimal digits is its number; int() of other text: any number or ValueError'],
    'C18': ['datetime: validity of dates, strftime, isoformat, replace; calendar.monthrange by the Gregorian rule; timegm and fromtimestamp, formatdate and parsedate are inverse to each other (pyvc/dates.py)', 'int() of a text of decimal digits is its number; int() of other text: any number or ValueError'],
    'C13': ['str.rsplit at one character: the last occurrence; rstrip is a function of the text that gives a prefix of it', 'bytes.decode: UTF-8 decoding is a function of the bytes', 'timestamp_to_datetime gives a valid time of the years 1900 to 2999 for any text (its contract, proved for C17)', 'uuid.uuid4 gives a new id each time', 'the header parsers, for the loader: read some bytes, then return headers or raise (weaker than the contract proved here)'],
    'C04': ['bytes.decode: UTF-8 decoding is a function of the bytes, Latin-1 the identity on code points', 'str.strip/lstrip/rstrip/upper are functions of the text; split at one character: the first occurrence',
            'pyvc: the recursive definition of the header block is unfolded only where the source is read (contracts/c_parse.py)'],
    'C21': ['the archive iterator is abstract: each step gives a record, the end, or raises ArchiveLoadFailed; the offset and length it reports are those of the record', 'json.dumps gives a text that is a function of what was stored in an ordered dictionary, in order', 'os.path.basename is a function of its text', 'get_header is a function of the lower-cased name (C06); fsspec.open and open open the file named', 'fields given as text are split at commas (str.split; not under contract)'],
    'C22': ['the archive iterator is abstract: each step gives a record, the end, or raises ArchiveLoadFailed; errors of other kinds (a file that does not exist) end the program with a traceback', 'a record whose content is read to the end has its verdict; a failed one has at least one problem text (C10)', 'fsspec.open and open open the file named', 'sys.exit(n) ends the program with status n'],
    'C24': ['the archive iterator is abstract: the first record read from a file at a position, its headers, block and payload are functions of the file, the position and the parsing options', 'fsspec.open and open open the file named; a file that was just opened stands at 0'],
    'C23': ['the archive iterator is abstract: each step gives a record, the end, or raises; ARC records are converted when asked for (C13)', 'write_record writes one gzip member that holds the record (proved for C08 and C01; that what a record holds is a function of the record is assumed)', 'the decompressing reader delivers the data of all members (C02)', 'tempfile.TemporaryFile is a file; shutil.copyfileobj copies what is left; fsspec.open and open open the file named', 'cli.main, for the index that is printed with -v, only prints'],
    'C12': ['the parsers are used through a contract that is weaker than those proved for C04 and C13: read some bytes, then return headers, or raise EOFError or StatusAndHeadersParserException (the implication is not checked by a solver)'],
    'C19': ['uuid.uuid1/uuid4 give a new id each time', 'the header parsers, for the loader: read some bytes, then return headers or raise (weaker than the contracts proved for C04 and C13)', 'datetime: now, replace, isoformat, strftime (pyvc/dates.py)', 'header lists after remove and replace: get and in as proved for C06 (lemmas by induction, the induction itself not checked by a solver)'],
}
_WRITE_ASSUME = ['the length declared by the caller, if any, is that of the payload', 'a record is written once; its headers hold text', 'payload streams are BytesIO-like (seekable) or have read only']
ASSUME_FOR = {
    'C19': ['header dictionaries and warcinfo items hold text; no two names of one dictionary differ only in case', 'a payload stream stands at its start'],
    'C08': _WRITE_ASSUME, 'C09': _WRITE_ASSUME, 'C20': _WRITE_ASSUME + ['the response has a target URI and a date'],
    'C02': _READERS_ASSUME, 'C03': _READERS_ASSUME, 'C26': _READERS_ASSUME,
    'C05': _HEADERS_ASSUME, 'C06': _HEADERS_ASSUME, 'C07': _HEADERS_ASSUME + ['text is encodable in UTF-8 (no lone surrogates); filters keep ASCII headers ASCII'],
    'C12': ['streams are readers (bytes), headers text; known_format None for whole records'],
    'C11': ['fixed-length hash algorithms with 16 to 64 bytes of digest'],
}
