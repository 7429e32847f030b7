import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['request_parser/'+f for f in files],mechanism=[dict(name=n,where='request_parser/'+w) for n,w in mech],observe_at=observe,hook_needed=None)))
RQ='http/request.py'; MP='http/multipartparser.py'; DS='utils/datastructures.py'; UH='files/uploadhandler.py'; UF='files/uploadedfile.py'; TH='utils/http.py'; EN='utils/encoding.py'; ST='conf/settings.py'
p('H01','The request line is decomposed exactly',
 "For every accepted request, the reported method, path, query string and protocol version are byte for byte those of the request line: the path is everything from the end of the scheme and authority (if any) up to the first '?' or '#', the query string what follows the '?' up to a '#', and a fragment is dropped. The scheme is that of an absolute target in lower case and 'UNKNOWN' for any other target. Neither header fields nor body bytes change any of them.",
 ['inputs'],"All methods, protocol tokens and ASCII targets in origin form (not starting with '//'), absolute form with an authority, or '*', with any headers and body; a path does not end in a bare ';'.",
 "The tests parse two or three fixed request files; the decomposition must hold for every target (colons, semicolons, several '?', '#', empty parts, percent escapes).",
 [RQ,TH,'http/constants.py'],[('parse_request_line',RQ),('_urlparse/_urlsplit',TH),('HttpRequest.parse_request_header',RQ)],['HttpRequest.method/.path/.scheme/.protocol_info, META[QUERY_STRING] and the get_*() methods'])
p('H02','Header fields are reported exactly as sent, in order',
 "For every accepted request, the reported header fields have exactly the sent names and, per name, every sent value in order of appearance, without white space around it (colons, quotes, commas and bare line feeds inside are kept); only the field that named the host is taken out. get() of a name gives its last value and getlist() all of them. Content type, plain-text and AJAX detection follow the fields Content-Type and X-Requested-With (the last one of several), whatever the case of their names.",
 ['inputs'],"All lists of header fields with ASCII names and values, names repeated any number of times and in any order, in any position relative to the host field.",
 "The tests compare a handful of fields of fixed files; loss, reordering or merging of repeated fields depends on their combination.",
 [RQ,DS,TH],[('parse_request_headers',RQ),('ImmutableMultiValueDict',DS),('find_header',TH),('HttpRequest.is_ajax/is_plain_text/content_type',RQ)],["META['REQUEST_HEADERS'], HttpRequest.content_type, is_ajax(), is_plain_text(), is_secure()"])
p('H03','Host and port come from the right source and only if valid',
 "The host is that of an absolute target, and otherwise the value of the last Host field (name in any case, the spelling 'Host' being preferred if fields differ in it); it is reported in lower case, without port and without one trailing dot, and as the empty string if it is not a valid host[:port]. The port is the explicit one, or else 443 for https, 80 for http and 65536 for any other scheme. A request with neither an authority nor a Host field is refused with NoHostFoundException.",
 ['inputs'],"All combinations of target form, scheme, Host fields (none, one, several), valid names, IPv4, IPv6 literals, ports, and invalid or hostile host values.",
 "Tests have one host without port; validity of host values is a language of strings, and precedence depends on combinations.",
 [RQ,TH],[('split_domain_port / host_validation_re',RQ),('HttpRequest.parse_request_header',RQ)],['HttpRequest.get_host(), get_port(), NoHostFoundException'])
p('H04','Malformed request heads are refused, and only with documented errors',
 "Whatever bytes the source yields, parsing the head either succeeds or raises InvalidHttpRequest, NoHostFoundException or TooManyFieldsSent, never another error. It raises InvalidHttpRequest if the head has no terminating empty line, a request line that is not three fields separated by single spaces, a header line without a colon, no header line at all, a non-ASCII byte in the target or a header field, or an unbalanced bracket in the authority. A refused head (other than for too many fields) leaves no request metadata behind.",
 ['inputs'],"All byte strings, in particular truncations, mutations and random bytes derived from valid heads.",
 "The single test of an invalid header is one input; the error contract quantifies over all byte strings.",
 [RQ,TH,MP],[('parse_request_headers, parse_request_line',RQ),('InvalidHttpRequest',RQ)],['exception type of parse_request_header(), HttpRequest attributes afterwards'])
p('H05','Rendered paths and URIs are safe ASCII and name the same resource',
 "get_full_path() is the path, percent-encoded where it has characters that are not safe in one and with existing escapes untouched, followed by '?' and the query string if there is one; get_uri() puts scheme, host and explicit port in front. Both are printable ASCII without spaces, percent-decode to the same bytes as path and query string, and rendering what was rendered changes nothing more; with raw=True they are the percent-decoded UTF-8 form. set_path() stores any Unicode or UTF-8 path as printable ASCII that percent-decodes to what the given path percent-decodes to.",
 ['inputs'],"All ASCII paths, query strings, hosts and ports of accepted requests, and all Unicode paths given to set_path(); force_append_slash on and off.",
 "Tests check five fixed paths; which characters are escaped, and that escapes are not escaped twice, concerns every character in every position.",
 [RQ,EN],[('HttpRequest.get_full_path/_get_full_path/get_uri/set_path',RQ),('escape_uri_path, iri_to_uri, uri_to_iri',EN)],['results of get_full_path(), get_uri(), set_path()'])
p('H06','Header parameters are parsed exactly',
 "A header value is decomposed into its main value in lower case and a mapping of parameter names in lower case to values: semicolons, equal signs and escaped quotes within a quoted value belong to the value, the quotes are removed and \\\" and \\\\ unescaped, white space around names and values is dropped, and the last of several parameters of one name wins. Extended parameters (name*=charset'lang'value) are percent-decoded from their charset to UTF-8, and kept as sent if the charset is unknown or the value is not ASCII. Any bytes in a parameter value are accepted without an error.",
 ['inputs'],"All lists of parameters with token, quoted-string or extended values over all bytes, with any white space and order; arbitrary byte strings for totality.",
 "There is no unit test of it (only a print script); quoting and escaping interact over arbitrary strings.",
 [MP],[('parse_header, _parse_header_params',MP)],['result of parse_header()'])
p('H07','Printing a request or anything in it never fails and changes nothing',
 "At any stage (before parsing, after the head, after the body, after a failure, after a new stream is set) repr() and str() of a request, its GET, POST, FILES, headers and files are byte strings and never fail, whatever bytes the client sent or names were given to files, and do not change what the request reports or what is read from it. The repr() of a parsed request names its method and full path, that of a file its name and content type, and that of a dictionary its class and content; str() of a file is its name.",
 ['inputs','histories'],"All requests, valid and malformed, with any bytes in methods, names and values, Unicode names included, at every stage of parsing.",
 "No test prints a request or a file; in Python 2 one non-ASCII byte or character in the wrong place is enough for an error in a log line.",
 [RQ,'files/uploadedfile.py','files/base.py',DS],[('HttpRequest.__repr__',RQ),('UploadedFile.__repr__, File.__str__',"files/uploadedfile.py"),('MultiValueDict.__repr__',DS)],['repr(), str() and the reported state with and without them'])
p('D01','The outcome does not depend on how the bytes are delivered',
 "Everything a request reports (metadata, parameters, fields, files and their contents, body, or the error) is a function of its bytes alone: it is the same however the source splits them into chunks, whatever the read size for the head is, and whatever chunk size the upload handlers ask for.",
 ['inputs','schedules','configurations'],"All requests (valid, malformed, over a limit, with plain, form and multipart bodies) × all splittings of their bytes into chunks (including one byte at a time, empty chunks and splits within delimiters) × head read sizes ≥ 1 × handler chunk sizes ≥ 1.",
 "Tests read files line by line with one read size, so no test ever places a chunk border inside a delimiter, boundary or escape.",
 [RQ,MP,DS],[('LazyStream.read/unget',DS),('BoundaryIter.next (rollback)',MP),('ChunkIter',DS),('parse_request_header loop',RQ)],['all reported state of HttpRequest, compared across deliveries'])
p('D02','Body bytes are conserved',
 "The bytes after the head are handed out exactly once and in order: any sequence of read(n), readline() and iteration on a request whose head was parsed yields pieces that concatenate to exactly the body, readline() never crossing a line feed and read(n) giving n bytes until the end. body() before parsing the body gives the same bytes and leaves them available for parsing and reading; after a body that is not a form was parsed it gives them decoded with the charset in effect, and after a form was parsed it raises RawPostDataException.",
 ['inputs','histories'],"All bodies and content types × all sequences of read/readline/iterate/body/parse calls × chunkings of the source.",
 "Tests call body() after parse on fixed bodies; the look-back buffering is exercised by sequences of differently sized reads.",
 [RQ,DS],[('HttpRequest.body/read/readline/__iter__',RQ),('LazyStream',DS)],['returned pieces of read/readline/iteration/body()'])
p('D03','A failing source is never mistaken for the end of the data',
 "If the source raises an error instead of delivering more data, at whatever byte, the operation in progress fails with that I/O error (UnreadablePostError, itself an IOError, from read(), readline() and body()), and no request, body, field set or file set is reported as parsed. Once the request is closed, the failed upload leaves no temporary file behind.",
 ['fault_sequences','inputs','crash_points'],"A failure of the source at every chunk index and byte offset of plain, form and multipart requests, with files in memory and on disk.",
 "One test fails the stream once in body(); the guarantee is about every position, including inside a file part on disk.",
 [RQ,MP,UH],[('HttpRequest.read/readline/body (UnreadablePostError)',RQ),('MultiPartParser.parse (except: close files)',MP)],['exception type, POST/FILES, temporary directory after close()'])
p('D04','Parsing any bytes terminates, with a bounded number of reads',
 "For every finite source, parsing a request (with the built-in upload handlers) ends, in a success or an error, within a number of execution steps bounded in the length of the data. It never asks the source for more than it delivers plus a small number of further tries per part after the end.",
 ['inputs','schedules'],"All byte strings, biased to truncated, nested, repeated and malformed multipart bodies, all chunkings, all transfer encodings.",
 "A test suite only shows termination on its samples; endless loops lie in combinations of truncation, transfer encoding and chunk border.",
 [MP,DS,RQ],[('MultiPartParser.parse base64 loop',MP),('BoundaryIter/InterBoundaryIter',MP),('LazyStream._update_unget_history',DS)],['number of pulls from the source, executed steps, outcome'])
p('D05','The source is read no further than is needed',
 "Data is taken from the source only as it is needed. Parsing the head, and then reading n bytes or a line of the body, takes no more than these plus one header unit and one piece of the source; a handler gets the data of its file while the rest of the body is still unread, never more than one chunk, two delimiters and one piece of the source behind. A body refused for its size or its number of fields, an upload that a handler resets and one that a handler takes over itself are not read any further, whatever is still to come; an upload that is stopped without a reset is read to the end.",
 ['inputs','configurations'],"All requests with long data, pieces of the source from 64 bytes to 64 KB, chunk sizes and header units, limits met at every place, handlers that skip, stop, reset or take over at any chunk.",
 "The tests look at results only, never at how much had been read when; a parser that first reads everything passes them all.",
 [MP,RQ,DS],[('MultiPartParser.parse, Parser',MP),('LazyStream, BoundaryIter, ChunkIter',MP),('HttpRequest.read/readline/body',RQ)],['bytes taken from the source at every handler call, read and refusal'])
p('B01','Query strings and form bodies decode exactly',
 "GET holds, for every accepted request, exactly the name/value pairs of the query string in order: pairs are separated by '&' or ';', split at the first '=', a missing '=' gives an empty value, empty pairs are skipped, '+' is a space and percent escapes are decoded in the declared charset (or the default one), malformed ones being kept or replaced, never an error. POST holds the pairs of an application/x-www-form-urlencoded body in the same way and is empty for other non-multipart bodies; both give the last value on get() and all of them, in order, on getlist().",
 ['inputs','configurations'],"All query strings and form bodies over all bytes (bodies) or ASCII (query strings), repeated names, all ASCII-compatible charsets declared or configured (characters outside the BMP only percent-escaped).",
 "Tests decode a few fixed strings in one charset.",
 [RQ,TH],[('QueryDict.__init__',RQ),('limited_parse_qsl',TH),('HttpRequest.encoding',RQ)],['GET and POST: lists(), get(), getlist()'])
p('B02','Multipart fields round-trip',
 "For every multipart/form-data body, POST holds exactly the parts that have a name and no (or an empty) filename, under their names, in order per name, each with its exact data bytes, content type in lower case, parameters of the content type and transfer encoding; data sent as valid base64 is decoded. Preamble, epilogue, files and parts without a name contribute nothing to it.",
 ['inputs','configurations'],"All lists of parts with any bytes as data that do not contain the delimiter (empty, binary, CR/LF runs, partial delimiters at the end), any boundary, extra part headers (the headers of a part within 1024 bytes), a preamble and epilogue that contain no part headers, any chunking and a positive Content-Length.",
 "Tests parse one fixed multipart file; data near delimiters, sizes around chunk borders and look-alike boundaries are unbounded families.",
 [MP,RQ],[('MultiPartParser.parse',MP),('BoundaryIter._find_boundary',MP),('parse_boundary_stream',MP)],['POST.lists() after parse()'])
p('B03','Uploaded files round-trip',
 "For every multipart/form-data body, FILES holds exactly the complete parts that have a name and a usable filename, under their names and in order per name, each with exactly the bytes sent (decoded if base64), and with the size, file name, content type, charset, content type parameters and transfer encoding that belong to them. This holds for every built-in upload handler, in memory or on disk, whatever the sizes and number of files.",
 ['inputs','configurations'],"All lists of file and field parts × contents (empty, binary, delimiter look-alikes, sizes around chunk borders and memory limits, base64 with any line breaks) × handlers × handler chunk sizes × chunkings.",
 "Tests upload one fixed picture through each handler by hand, not through the parser with several files or at borders.",
 [MP,UH,UF],[('MultiPartParser.parse, handle_file_complete',MP),('Memory/Temporary/ConvenientFileUploadHandler',UH),('UploadedFile',UF)],['FILES.lists(): read(), size, name, content_type, charset, content_type_extra, transfer_encoding'])
p('B04','Upload handlers see the documented sequence of calls',
 "Every upload handler is offered the raw input once, before any file; for each file part new_file is called on the handlers in order until one raises StopFutureHandlers, then every chunk goes through the handlers in order with the offset of its first byte (what one returns is passed to the next, None stops it), the chunks adding up to the file, and file_complete is called in order with the number of bytes the handler was given until one returns a file object, which is what FILES reports; upload_complete is called in order at the end of the upload until one returns something true. A handler that returns a result for the raw input replaces parsing; SkipFile drops only the current file; StopUpload ends the upload, keeping the parts before it and, unless it asks for a connection reset, reading the input to its end.",
 ['histories','inputs','configurations'],"All chains of one to three handlers with arbitrary scripted reactions (pass on, alter, swallow, stop future handlers, skip, stop upload, take over) × multipart bodies.",
 "Tests call the handler methods by hand; the protocol concerns every sequence of parts, chunks and handler reactions.",
 [MP,UH,RQ],[('MultiPartParser.parse handler loops',MP),('FileUploadHandler, StopUpload, SkipFile, StopFutureHandlers',UH),('HttpRequest.upload_handlers',RQ)],['recorded trace of handler calls with arguments'])
p('B05','Files go to memory or disk by the configured limit, transparently',
 "With the default handler, a file is kept in memory as long as the file data received in the request so far does not exceed the configured memory limit, and is on disk otherwise, with all its data; the memory handler takes the files exactly if the declared content length is within the limit, and the temporary-file handler always uses the disk. A file on disk has a real file at its reported path with the same bytes; contents and attributes of a file are the same in either place.",
 ['inputs','configurations'],"All limits (0, 1, around file sizes and chunk borders) × lists of files × chunk sizes × the three handlers.",
 "Tests cross the limit once with one file and one limit; the off-by-one and carry-over cases between several files are not sampled.",
 [UH,UF,ST],[('ConvenientFileUploadHandler.receive_data_chunk',UH),('MemoryFileUploadHandler.handle_raw_input',UH),('TemporaryUploadedFile',UF)],['class of the objects in FILES, temporary_file_path(), bytes on disk'])
p('B06','The limit on request data is enforced exactly',
 "A request whose body data outside of files exceeds DATA_UPLOAD_MAX_MEMORY is refused with RequestDataTooBig, and one within it is not: for non-multipart bodies (and body()) the data is the whole body, for multipart bodies the data as sent of all fields plus name length plus two per field. File contents never count, and without a limit (None) nothing is refused.",
 ['inputs','configurations'],"All limits × bodies of lengths around them × content types × field and file mixes × chunkings.",
 "One test exceeds a limit by far; exactness at the limit and accounting across fields needs many combinations.",
 [RQ,MP,ST],[('HttpRequest.body',RQ),('MultiPartParser.parse (num_bytes_read)',MP)],['RequestDataTooBig or success of parse()/body()'])
p('B07','The limit on the number of parameters is enforced exactly',
 "A query string or form body with more '&'- or ';'-separated segments than DATA_UPLOAD_MAX_FIELDS, or a multipart body with more field parts than that, is refused with TooManyFieldsSent, and one with no more is not. Files do not count, query string and body count separately, and without a limit (None) nothing is refused.",
 ['inputs','configurations'],"All limits ≥ 1 × numbers of parameters around them × query, form and multipart × mixes with files.",
 "No test reaches the limit.",
 [RQ,MP,TH],[('limited_parse_qsl',TH),('MultiPartParser.parse (num_post_keys)',MP)],['TooManyFieldsSent or success'])
p('B08','A cut-off upload never reports a file that was not fully received',
 "If a multipart body ends at any byte, every file that is reported has exactly the name and content that was sent for it, and no part that was cut is reported as a file; the fields and files whose parts (with the delimiter after them) were received before the end are reported unchanged (a request whose cut file is base64 may be refused with MultiPartParserError instead). The temporary file of the part that was cut is gone once the request is closed.",
 ['crash_points','inputs'],"Truncation at every byte offset of multipart bodies with fields and files, in memory and on disk, all chunkings.",
 "No test truncates a body; completeness depends on where the cut falls.",
 [MP,UH],[('handle_file_complete on next part (old_field_name)',MP),('BoundaryIter',MP)],['FILES and POST after parse() of each prefix, temporary directory'])
p('B09','Reported file names cannot name another directory',
 "Whatever the client sends as filename (quoted, escaped, extended, with HTML entities, slashes, backslashes or dots), the name of a reported file is its last path component after decoding: it contains no '/' and no '\\', is not empty, '.' or '..', and has at most 255 characters with a short extension kept. Ordinary names are reported unchanged, and a part left without a usable name is skipped with its data, without affecting the other parts.",
 ['inputs'],"All file name strings × the ways to encode them × both memory and disk; also names assigned to uploaded file objects.",
 "No test sends a hostile name.",
 [MP,UF,'utils/text.py'],[('MultiPartParser.IE_sanitize',MP),('unescape_entities','utils/text.py'),('UploadedFile._set_name',UF)],['name of the objects in FILES'])
p('B10','Temporary files stay in the configured directory and are removed',
 "Parsing creates files only inside the configured upload directory, under names that the client does not control apart from a plain extension, and creates none for files kept in memory. After closing the request, or after a failed or stopped upload is closed, none of them remains; until then every file on disk reported stays readable. Closing twice, or after the file was moved away, is harmless.",
 ['inputs','histories','fault_sequences'],"All mixes of files in memory and on disk × hostile names × success, every documented failure, handler-initiated stop × close sequences.",
 "Tests look at one temporary file in passing; leaks appear only after specific failures.",
 [UH,UF,MP,'files/temp.py',ST],[('TemporaryUploadedFile',UF),('MultiPartParser._close_files',MP),('HttpRequest.close',RQ)],['listing of the upload directory, working directory and temp directory before/after'])
p('B11','Uploaded file objects behave like the bytes they hold',
 "Any sequence of read, seek, tell, readline, chunks, iteration, multiple_chunks, open and close on an uploaded file in memory, on disk or built from content gives what the same sequence gives on the bytes of the file: chunks() restarts at the beginning and concatenates to the content, iteration yields its lines, size and len() are its length. It keeps the name, media type, charset and parameters it was made with (a simple one without a type is text/plain). A closed file reports itself closed and is never reopened from a path that the client named.",
 ['histories','inputs'],"All operation sequences × contents (empty, no final newline, CR/LF mixes across chunk borders) × the three kinds of uploaded files.",
 "Tests only call read() once.",
 [UF,'files/base.py','files/utils.py'],[('File.chunks/__iter__/open','files/base.py'),('FileProxyMixin','files/utils.py'),('InMemoryUploadedFile, TemporaryUploadedFile, SimpleUploadedFile',UF)],['results of each operation compared with a byte-buffer model'])
p('B12','Malformed multipart requests fail cleanly or lose only the bad part',
 "A multipart request without a usable boundary or with a negative content length is refused with MultiPartParserError, as is a file whose base64 data is broken. A part without a name, without a disposition, with unreadable headers or without headers is skipped, its data never becoming part of another part, while the parts around it are reported unchanged. Whatever the bytes of the body, the only errors are MultiPartParserError, RequestDataTooBig, TooManyFieldsSent and SuspiciousMultipartForm, and after one POST and FILES report nothing of it.",
 ['inputs'],"All bodies derived from valid ones by inserting bad parts, mutating and random bytes, all boundaries and content lengths.",
 "Tests have one invalid boundary; the error contract concerns all byte strings.",
 [MP,RQ],[('MultiPartParser.__init__/parse',MP),('parse_boundary_stream, exhaust',MP),('HttpRequest.parse_request_body',RQ)],['exception type, POST, FILES'])
p('B13','A multipart parser used on its own gives the parts of its input',
 "A MultiPartParser made from header fields (a plain or multi-value dictionary, names in any letter case) and any kind of byte input (look-back stream, buffer, file, a reader that gives short pieces) gives the fields and files of the parts of that input, in order per name, just as a request does, for any multipart media type. Header fields that say it is not multipart, have no usable boundary or a negative or senseless length are a MultiPartParserError before anything is read; an empty input, or one declared to have no length, gives no fields and no files.",
 ['inputs','configurations'],"All multipart bodies, all containers and letter cases of header fields, all kinds of inputs, with and without handlers and an encoding.",
 "Tests drive the parser through three recorded requests only.",
 [MP,UH],[('MultiPartParser.__init__/parse',MP),('exhaust, ChunkIter',MP)],['POST and FILES returned by parse(), exceptions'])
p('B14','File wrappers behave like the files they wrap',
 "A File around any file-like object (on disk, in memory, or with a size, name, path or none of them) has its size, yields its content in chunks of the given size in order and complete whenever asked, iterates over the lines of the content whatever the sizes of the pieces it reads, passes reading, writing and seeking on to the file, is true exactly if it has a name (a ContentFile always), and reports its name (also a Unicode one) in str() and repr(). A ContentFile holds exactly the bytes or text it was made from, and can be opened again at its beginning after it was read or closed.",
 ['inputs','histories'],"All contents (line ends of every kind at the borders of pieces), wrapped objects with any of the attributes, piece sizes from 1 byte, and sequences of operations.",
 "There is no test of the wrappers; making a ContentFile or asking a File for its size failed on the original tree.",
 ['files/base.py','files/utils.py'],[('File.size/chunks/__iter__/open',"files/base.py"),('ContentFile',"files/base.py"),('FileProxyMixin',"files/utils.py")],['results of operations compared with a byte buffer'])
p('S01','Requests do not influence each other',
 "What a request reports depends only on its own bytes and settings, not on the requests parsed before it, at the same time in other threads, or with the same settings object; parsing leaves the settings object given by the caller unchanged. Values handed out by one request are not changed by another.",
 ['histories','schedules'],"All sequences and concurrent interleavings of requests (different charsets, limits, uploads, failures) sharing settings or not.",
 "Tests parse each request alone and in one thread.",
 [RQ,MP,UH,ST],[('HttpRequest.encoding setter (copy of settings)',RQ),('per-request upload handlers',RQ)],['reported state of each request, alone vs. in company; settings attributes before/after'])
p('S02','Reusing a request object leaves nothing of the previous request',
 "After a new stream is set on a request object and parsed, it reports exactly what a fresh object reports for the same bytes; after a new body stream is set and parsed, the metadata stay and POST, FILES and body are those of the new body alone, decoded with the encoding set last. Calling a parse method again changes nothing, parse() equals parsing the head and then the body, and parsing a body before a head is refused with RequestHeaderParseException.",
 ['histories'],"All sequences of parse, parse_request_header, parse_request_body, body, stream, body_stream, encoding and content_type operations on one object over requests of all kinds, including failing ones.",
 "Tests cover two hand-picked resets.",
 [RQ],[('stream/body_stream/encoding setters',RQ),('_re_init, _reset_header_meta_data',RQ),('_request_header_parsed/_request_body_parsed flags',RQ)],['reported state of the reused object vs. a fresh one'])
p('S03','Settings take the given values and defaults for the rest',
 "A settings object made from a dictionary has the given value for every key in it and the default for every other key, and settings objects are independent of each other and of the dictionary. A given upload directory is made usable (created if missing, existing content untouched, no probe file left) or refused with InvalidDirectory; a relative one is taken inside the package. Requests obey the settings they were given, including the list of upload handlers, and a handler path that cannot be resolved is an ImportError.",
 ['configurations','histories'],"All subsets of keys with all kinds of values, upload directories that exist, are missing, are files, are not writable or have missing parents.",
 "Tests set three fixed combinations.",
 [ST,UH,'utils/module_loading.py','files/utils.py'],[('Settings.__init__/default/_check_upload_dir',ST),('import_string','utils/module_loading.py'),('load_handler',UH)],['attributes of settings, directory listing, exceptions'])
p('S04','Assigning to a request changes exactly what is named',
 "Setting the encoding of a request decodes its query dictionary anew in that encoding and applies to a form body parsed later, but changes neither the other metadata, data parsed before, nor the settings object it was given; a charset declared by the head takes precedence. set_scheme(), set_path() and the attributes method, host, port and content_type change what they name and the URI, path and body parsing made from it (set_scheme() with nothing does nothing). Upload handlers can be set until the body is parsed, and again for a new stream; a new body stream clears POST and FILES and nothing else; a new request stream clears what was parsed of the head and keeps POST and FILES until a body is parsed; no stream at all is an empty one.",
 ['histories','configurations'],"All sequences of assignments before, between and after parsing head and body, over requests with and without query, declared charset and form, multipart or other body.",
 "Tests assign an encoding in one or two fixed situations; the effect depends on the stage and on what was assigned before.",
 [RQ],[('encoding setter, set_scheme, set_path',RQ),('stream, body_stream, upload_handlers setters',RQ),('get_uri, get_full_path',RQ)],['everything the request reports after each step, and the settings'])
p('C01','Multi-value dictionaries behave like a map from keys to lists',
 "Any sequence of operations on a MultiValueDict (item access, get, getlist, setlist, appendlist, setdefault, setlistdefault, update, pop, popitem, delete, clear, copies, pickling, iteration) gives what the same sequence gives on a plain map from keys to lists of values: item access and get give the last value of the list, missing keys raise a KeyError, getlist hands out copies, update extends, fromkeys gives each key the value ('' by default for query dictionaries, which keep repeated keys). QueryDict behaves the same while it is mutable.",
 ['histories'],"All sequences of operations over a few keys with lists of length 0 to 3 as values.",
 "There is no test of the dictionary (one print script).",
 [DS,RQ],[('MultiValueDict',DS),('QueryDict',RQ)],['result or exception of every operation, and lists() after each'])
p('C02','Immutable dictionaries cannot be changed, copies are independent',
 "No method of the header dictionary, of the GET of a request with a query string, of the POST of a form or multipart body (or of any immutable QueryDict or ImmutableMultiValueDict) changes them: each mutating operation raises AttributeError and leaves the content as it was, also after copying, deep-copying or unpickling to an object that is immutable again. QueryDict.copy() is mutable; changing a copy (or for deep copies also the values in it) never changes the original, or the other way round.",
 ['histories'],"All sequences of mutating operations on originals and copies of immutable dictionaries made in every way.",
 "No test tries to change one.",
 [DS,RQ],[('_assert_mutable',RQ),('ImmutableMultiValueDict',DS),('__copy__/__deepcopy__',DS)],['AttributeError and lists() of originals and copies'])
p('C03','URL-encoding a query dictionary and parsing it back is the identity',
 "For every mapping of text keys to lists of text values, the string that urlencode() of a query dictionary gives in its encoding is ASCII, has every pair in order per key, and parses back to an equal dictionary in that encoding; characters given as safe stay unescaped. The urlencode utility does the same for dictionaries and pair lists with and without doseq, and refuses None.",
 ['inputs','configurations'],"All keys and values representable in the encoding (separators, percent signs, spaces, non-ASCII), repeated and empty, several encodings, several sets of safe characters.",
 "Tests only encode empty dictionaries.",
 [RQ,TH],[('QueryDict.urlencode, fromkeys',RQ),('urlencode, limited_parse_qsl',TH)],['urlencode() results, re-parsed lists'])
p('C04','The look-back stream conserves bytes and position',
 "Any sequence of read, read(n), readline, next, unget and close on the look-back stream gives what it gives on a buffer holding the producer's bytes, to which unget puts bytes back in front: nothing is lost, duplicated or reordered, tell() counts the bytes handed out less those put back, and the producer is asked only when more data is needed. The chunk iterator yields the bytes of its source in pieces of at most the chunk size, without empty pieces, to the end. Taking the next piece and pushing it back over and over without progress ends in SuspiciousMultipartForm rather than an endless loop, which up to 40 times does not.",
 ['histories','inputs'],"All operation sequences × producers with all chunk sizes, including empty chunks.",
 "No test uses the stream directly.",
 [DS],[('LazyStream',DS),('ChunkIter',DS)],['result of each operation vs. a buffer model; number of producer pulls'])
p('C05','Immutable lists read like tuples and refuse every change',
 "An ImmutableList made from any iterable reads like a tuple of its items (items, slices, length, membership, index, count, comparison, concatenation). Every list operation that would change it (assigning or deleting items and slices, in-place addition and multiplication, append, extend, insert, pop, remove, sort, reverse) raises AttributeError with the given warning, or the exception given as warning, and leaves it as it was; so do its copies and unpickled forms.",
 ['histories'],"All sequences of reading, mutating and copying operations on lists of any items, with default, own and exception warnings.",
 "There is no test of the class.",
 [DS],[('ImmutableList',DS)],['result or exception of every operation, content afterwards'])
p('U01','URL splitting is exact and lossless',
 "Splitting a URL gives scheme (lower case), authority, path, query and fragment (and the parameters of the last path segment) such that putting them together again with their separators gives the URL back; an unbalanced bracket in the authority is a ValueError. Pairs of names and values are split from a query string as documented, with blank values kept or dropped as asked.",
 ['inputs'],"All ASCII strings built from URL characters, with every combination of parts present, empty or missing; limits and flags of the query parser.",
 "Only used indirectly by the tests with fixed targets.",
 [TH],[('_urlsplit, _urlparse',TH),('limited_parse_qsl',TH)],['components returned'])
p('U02','IRI and URI conversions are safe, stable and inverse',
 "iri_to_uri() of any text or UTF-8 bytes is ASCII, percent-encodes exactly the characters that may not appear in a URI and leaves existing escapes alone, so that applying it again changes nothing; uri_to_iri() of the result is the UTF-8 form of the fully decoded text. escape_uri_path() also encodes '?', '#', ';' and '=' (and '%' unless told not to), and the quote and unquote helpers are inverse to each other for all text.",
 ['inputs'],"All Unicode strings and their UTF-8 bytes.",
 "Tests convert one path.",
 [EN,TH],[('iri_to_uri, uri_to_iri, escape_uri_path',EN),('urlquote*, urlunquote*',TH)],['returned strings'])
p('U03','HTTP dates round-trip in all three formats',
 "Formatting a time as an HTTP date and parsing it gives the same second back, and the RFC 850 and asctime renderings of a time parse to that time too, with two-digit years from 70 on in the 1900s and below in the 2000s. Anything that is not a valid date in one of the three formats is a ValueError from parse_http_date() and None from parse_http_date_safe(), never a wrong time.",
 ['inputs'],"All seconds from 1970 to 9999 (RFC 850: 1970 to 2069), and single-character corruptions and out-of-range fields of valid dates.",
 "No test uses the date functions.",
 [TH],[('http_date, parse_http_date, parse_http_date_safe',TH)],['returned values and exceptions'])
p('U04','Base-36 and URL-safe base-64 codecs are exact',
 "int_to_base36() and base36_to_int() are inverse on all non-negative integers up to 13 digits, with negative numbers and longer strings a ValueError; urlsafe_base64_encode() output is padding-free, URL-safe ASCII that urlsafe_base64_decode() turns back into exactly the same bytes. Input that cannot be decoded is a ValueError, never another error.",
 ['inputs'],"All integers below 36**13 and beyond, all byte strings, arbitrary strings.",
 "No test uses the codecs.",
 [TH],[('base36_to_int, int_to_base36',TH),('urlsafe_base64_encode, urlsafe_base64_decode',TH)],['returned values and exceptions'])
p('U05','A URL judged safe never leads to a foreign host',
 "If is_safe_url() accepts a URL, then a browser that resolves it (ignoring tabs, line breaks and leading control characters, and taking backslashes for slashes) stays on the current host or goes to one of the allowed hosts, over http or https (https only, if required); plain relative paths and http(s) URLs of allowed hosts are accepted. is_same_domain() holds exactly for the host itself, ignoring the case of the pattern, or for a pattern with a leading dot for the domain and all its subdomains. escape_leading_slashes() never leaves a URL with two leading slashes and changes no other.",
 ['inputs'],"All strings, biased to combinations of slashes, backslashes, control characters, schemes, user info, ports, brackets and allowed host names.",
 "No test uses the redirect checks; bypasses are combinations of parser differences.",
 [TH],[('is_safe_url, _is_safe_url',TH),('is_same_domain',TH),('escape_leading_slashes',TH)],['verdicts compared with a browser-like URL resolver'])
p('U06','Entity tags are parsed and quoted exactly',
 "parse_etags() of a list of entity tags, weak or strong, with any white space and any characters but quotes inside, gives exactly these tags in order, ['*'] for '*', and leaves out members that are not valid entity tags. quote_etag() leaves a valid entity tag as it is and puts quotes around anything else, so that quoting text without quotes twice is quoting it once.",
 ['inputs'],"All lists of entity tags (commas inside included), arbitrary text without quotes for invalid members.",
 "No test uses the functions.",
 [TH],[('parse_etags, quote_etag, ETAG_MATCH',TH)],['returned lists and strings'])
p('U07','Modules, attributes and handlers are found by name, or ImportError',
 "For a dotted path import_string() gives exactly the attribute of that module, and load_handler() the object made from it with the arguments given; a path that is malformed (no dot, empty names, relative), whose module does not exist or fails to import, or that has no such attribute is an ImportError and nothing else. module_has_submodule() tells whether a package contains a submodule (also a dotted one) without importing that submodule, and False for anything that is not a package; module_dir() is the directory of a module or package, or a ValueError if there is none or more than one.",
 ['inputs'],"All names over trees of packages, modules, plain directories and broken modules.",
 "Tests load the three built-in handlers only.",
 ['utils/module_loading.py',UH],[('import_string, module_has_submodule, module_dir','utils/module_loading.py'),('load_handler',UH)],['returned objects and exceptions for generated package trees'])
p('U08','Text helpers convert without loss and never fail unexpectedly',
 "force_text() and force_str() give byte strings unchanged, text in the given encoding and error mode, and the string form of any other object, but None, numbers, dates and decimals unchanged if only strings are asked for; an object that cannot be decoded is a DjangoUnicodeDecodeError that names it. A codec name is a text encoding exactly if its codec turns bytes into text. Header lookup finds a field whatever the case of its name and prefers the exact spelling. HTML entities of one byte are replaced in text, and everything else is left as it is, however large the number.",
 ['inputs','configurations'],"All texts, bytes and objects in all encodings and error modes, all codec names, header dictionaries with several spellings of a name, and all texts with valid, broken and huge entities.",
 "No test calls the helpers directly.",
 [EN,TH,'utils/text.py','files/utils.py'],[('force_text, force_str, is_protected_type, is_text_encoding',EN),('find_header',TH),('unescape_entities','utils/text.py'),('get_abs_path','files/utils.py')],['returned values and exceptions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
