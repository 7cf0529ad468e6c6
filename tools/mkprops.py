#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay schema-valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
R = "request_parser/http/request.py"
M = "request_parser/http/multipartparser.py"
D = "request_parser/utils/datastructures.py"
H = "request_parser/utils/http.py"
E_ = "request_parser/utils/encoding.py"
UH = "request_parser/files/uploadhandler.py"
UF = "request_parser/files/uploadedfile.py"
FB = "request_parser/files/base.py"
FT = "request_parser/files/temp.py"
FU = "request_parser/files/utils.py"
S = "request_parser/conf/settings.py"
X = "request_parser/exceptions/exceptions.py"

prop("C01", "Header parsing is exact however the bytes are delivered",
 "For every well-formed request, parsing the header reports exactly the method, scheme, host, port, path, protocol, raw query string, decoded query parameters (names, values, repeats, order) and every header with all of its values in order that the request's bytes denote, and leaves exactly the bytes after the blank line for the body. This holds however the input stream cuts the bytes into pieces (single bytes, empty pieces, lines, everything at once) and whatever header read size is configured.",
 ["inputs", "schedules", "configurations"],
 "all ASCII-header requests (origin and absolute form) x all segmentations of the byte stream x all positive header read sizes x default charset or a charset given by Content-Type",
 "The tests parse a handful of files delivered line by line by a file object with the 16-byte default read size; no other cut of the stream, read size, repeated query key or body hand-over point is tried.",
 [R, D, H], [("header accumulation until CRLFCRLF, surplus pushed back", R + ":parse_request_header"), ("header line and request line split", R + ":parse_request_headers, parse_request_line"), ("push-back stream", D + ":LazyStream"), ("query string decoding", H + ":limited_parse_qsl")],
 [("_stream", "push-back stream over the caller's iterable", R)], ["HttpRequest getters", "HttpRequest.GET", "HttpRequest.META", "HttpRequest.body()"])

prop("C02", "Multipart forms parse exactly however the bytes are delivered",
 "For every well-formed multipart/form-data request, the parsed form contains every named field and every named file (empty ones included) under its field name and in order, each with byte-exact content (base64 parts decoded) and the declared content type, charset, content-type parameters, transfer encoding and bare file name, and contains nothing else. Parts that carry no field name contribute nothing, whatever their content looks like; quoted, escaped and padded header parameters mean the same as plain ones. (The headers of one part have to fit the parser's limit of 1024 bytes, and HTML character references in file names are decoded, as far as the charset has the character.) The result depends neither on how the stream cuts the bytes nor on the chunk size the upload handlers ask for.",
 ["inputs", "schedules", "configurations"],
 "all forms (any boundary, part order, content bytes, near-miss boundary text, base64 wrapping) x all segmentations of the stream x all handler chunk sizes and handler line-ups",
 "One multipart file is parsed, with 64 KB chunks; whether a delimiter, CRLF, base64 quantum or part header that straddles a chunk edge is handled depends on alignments no test produces.",
 [M, D, UH, UF, FB], [("delimiter search with roll-back over chunk edges", M + ":BoundaryIter"), ("part header parse", M + ":parse_boundary_stream, parse_header"), ("base64 chunk re-alignment", M + ":MultiPartParser.parse"), ("file completion at the next delimiter", M + ":handle_file_complete")],
 [("_leftover", "bytes pushed back", D)], ["HttpRequest.POST", "HttpRequest.FILES"])

prop("C03", "Form-encoded and plain bodies are exact however they are delivered",
 "For every request whose body is not multipart, parsing yields exactly what the body bytes denote: the decoded names and values, with repeats and order, for application/x-www-form-urlencoded, and the complete text decoded with the request's charset for any other type, with the files empty. A missing body yields an empty form, no files and an empty body, and neither a repeated parse call nor a look at the body before the parse changes anything; none of this depends on how the stream cuts the bytes.",
 ["inputs", "schedules", "configurations"],
 "all bodies and charsets x all segmentations x all header read sizes x repeated parse calls",
 "Tests use three small files through one file object each; bodies larger than one read, repeated keys, other cuts and repeated calls are not reached.",
 [R, D, H], [("bounded body accumulation", R + ":HttpRequest.body"), ("content-type dispatch", R + ":parse_request_body"), ("form decoding", R + ":QueryDict, " + H + ":limited_parse_qsl")],
 [("_body", "decoded body kept for body()", R)], ["HttpRequest.POST", "HttpRequest.FILES", "HttpRequest.body()"])

prop("C04", "Reading the request as a file yields the body's bytes once, in order",
 "After the header is parsed, any mixture of reads of any size, line reads and iteration over the request yields the body's bytes exactly once and in order, then end of file; a sized read returns exactly that many bytes unless the body ends first, and a line read returns one newline-terminated line (the last may lack it). This holds however the stream cuts the bytes, and an I/O error of the stream comes out as the library's unreadable-request I/O error.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all bodies x all segmentations x all sequences of read(n)/read()/readline()/iteration x an I/O error at any offset",
 "No test uses the request's file interface at all.",
 [R, D], [("file-like methods delegating to the push-back stream", R + ":read, readline, __iter__, readlines"), ("sized reads", D + ":LazyStream.read")],
 [], ["HttpRequest.read/readline/readlines/iteration"])

prop("C05", "Spilling uploads to disk never changes them and bounds memory",
 "Whether an uploaded file stays in memory or moves to disk, and wherever in the upload the switch happens, the file the application receives has exactly the uploaded content, size, name and metadata. With the default handler the file data of one request held in memory never exceeds the configured maximum: uploads stay in memory while their running total is within it, and the file that passes it and every later one are on disk.",
 ["inputs", "configurations", "schedules"],
 "all sequences of files x all memory limits (including 0 and the exact total) x all handler chunk sizes x all segmentations x default, temporary-file and memory+temporary handler line-ups",
 "The tests send one file through one handler with one size below and one above the limit and look only at the type and name of the result, never at its content.",
 [UH, UF, M], [("switch from memory to temporary file", UH + ":ConvenientFileUploadHandler.receive_data_chunk"), ("activation by content length", UH + ":MemoryFileUploadHandler.handle_raw_input")],
 [("_received_data_size", "running total of file data", UH), ("_switched_to_temp_file", "spill flag", UH)], ["HttpRequest.FILES"])

prop("C06", "Upload limits are enforced exactly and stop the reading",
 "A body (or, for multipart, the non-file data counted as name plus value plus two per field) within the configured data limit and field-count limit is accepted, and one beyond either limit is refused with the too-big or too-many-fields error, for query strings, form-encoded, plain and multipart bodies alike; an unset limit means no limit. After refusal no form data or file is exposed, and the input is not read more than a bounded amount past the limit.",
 ["inputs", "configurations", "schedules"],
 "all bodies around the limits (below, at, just above, far above, endless) x all limit values and none x all segmentations",
 "Two cases far above one limit are tested; exact limits, limits by field count, multipart counting, unset limits and the amount read are not.",
 [R, M, H, X], [("incremental size check", R + ":HttpRequest.body"), ("remaining-size reads of fields", M + ":MultiPartParser.parse"), ("field count", H + ":limited_parse_qsl, " + M)],
 [], ["exception type", "HttpRequest.POST/FILES", "bytes pulled from the stream"])

prop("C07", "A failing input stream is never mistaken for a complete request",
 "If the input stream raises an error at any point while a request is being parsed, the parse call raises: an I/O error comes out as an I/O error and any other exception as itself. It is never swallowed, turned into an unrelated error or read as end of input, no partly received field or file becomes visible in the form or the files, and a request whose header failed to parse is refused by later body parsing.",
 ["fault_sequences", "inputs", "schedules"],
 "all requests (header-only, plain, form, multipart, base64) x an error at every offset and pull x error kinds (I/O, timeout, reset, interrupted, foreign) x what the stream does afterwards (end, keep failing, resume) x all segmentations",
 "No test uses a stream that fails.",
 [R, M, D], [("error translation", R + ":read, body"), ("propagation through the iterators", M + ":BoundaryIter, " + D + ":LazyStream, ChunkIter")],
 [], ["exception type of parse()", "HttpRequest.POST/FILES"])

prop("C08", "A truncated request never yields a wrong or partial upload",
 "If the input ends early at any byte, a cut inside the header is refused as an invalid request, and a cut inside a multipart body leaves in the files only completely received files with exact content, and in the form every completely received field exactly plus at most a prefix of the bytes received of the one field being received; a cut inside a base64 file may instead be refused with the multipart parser's error, and then nothing is exposed. Parsing never hangs and leaves no temporary file of the interrupted upload behind.",
 ["fault_sequences", "inputs", "crash_points"],
 "all requests x every truncation offset x all segmentations x in-memory, spilled and temporary-file uploads",
 "Tests truncate only one header; no truncated body is parsed.",
 [M, R, UH], [("a file completes only when the next delimiter is seen", M + ":MultiPartParser.parse"), ("header needs its blank line", R + ":parse_request_header")],
 [], ["HttpRequest.POST/FILES", "upload directory"])

prop("C09", "Damaged input ends in a result or a parse error, in bounded work",
 "However a request's bytes are damaged on the way (flipped, dropped, duplicated, reordered or inserted bytes and pieces, truncation), parsing stops after work bounded by the input's size, and either succeeds or raises a parse error: one of the library's own exceptions, an I/O error, or a value or charset-lookup error about the data. It never fails with an internal error such as a missing attribute, wrong type, bad index or failed assertion, and the request can still be closed.",
 ["fault_sequences", "inputs", "configurations"],
 "all byte strings obtained from requests of every kind by sequences of damage x all segmentations x handler chunk sizes x stored-in-memory or on-disk uploads",
 "The tests parse five malformed headers and one mismatched body; no damage inside a multipart body is tried and nothing bounds the work done.",
 [M, R, D, H], [("stuck-parser detection", D + ":LazyStream._update_unget_history"), ("base64 re-alignment loop", M + ":MultiPartParser.parse"), ("error translation", M + ":parse_boundary_stream")],
 [], ["exception type", "executed line count"])

prop("C10", "A request object given a new stream behaves like a fresh one",
 "After any history of parses on a request object (successful, failed at any point, partial, header-only, with body reads and charset overrides), giving it a new stream and parsing produces exactly what a fresh object with the same settings would produce from that stream, or the same kind of error. Nothing of an earlier request (form data, files, body, headers, query, charset) shows through, results handed out earlier stay as they were, and the settings object the caller supplied is not changed; a new body stream alone re-parses only the body under the current headers.",
 ["histories", "inputs", "fault_sequences"],
 "all histories of set stream / set body stream / set charset / header parse / body parse / body() / close on one object x requests of every kind x failing and truncated streams in between",
 "One test sets a second stream after a header-only parse; none looks at form, body or charset left over from an earlier, completed or failed request.",
 [R, S], [("stream setter resets", R + ":stream, body_stream"), ("parse flags", R), ("charset override", R + ":encoding")],
 [("_body, POST, FILES, settings.DEFAULT_CHARSET", "state carried between parses", R)], ["all HttpRequest accessors", "Settings attributes"])

prop("C11", "Requests parsed concurrently do not affect each other",
 "When several threads each parse their own request at the same time, sharing one settings object and one upload directory, every thread obtains exactly the result it would obtain alone, whatever the interleaving and whatever happens to the others (stream failure, refusal, different charset, spill to disk). No request sees another's charset, fields, files, limits or temporary files.",
 ["schedules", "inputs", "configurations"],
 "all interleavings at stream reads, disk operations and source lines of 2 to 4 threads x requests of every kind x shared or separate settings x faults in some of the threads",
 "All tests are single-threaded and each makes its own settings.",
 [R, M, UH, UF, S], [("per-request handlers and dictionaries", R + ":_initialize_handlers"), ("settings shared by reference", R + ":HttpRequest.__init__"), ("unique temporary files", UF + ":TemporaryUploadedFile")],
 [("settings", "object shared between requests", R)], ["all HttpRequest accessors per thread", "shared Settings attributes"])

prop("C12", "Temporary upload files are contained, never clobber, and are cleaned up",
 "Uploads touch the file system only inside the configured upload directory, under a name no client-supplied text can steer out of it, and never overwrite or alter a file already there, even when candidate names collide. An uploaded temporary file exists with the uploaded content until it is closed; once the request is closed, or as soon as its parse fails, is aborted or is interrupted, none of its temporary files remains, unless the disk itself refused the close or removal. This holds for every line-up of the stock upload handlers, also when another handler returns the file, and on Windows, where an open file can be neither removed nor renamed; and an application that has already moved or deleted an uploaded file can still close the request.",
 ["fault_sequences", "inputs", "histories", "configurations"],
 "all uploads (hostile file names and extensions included) x failures at every point (stream error, truncation, limit, handler stop, disk error) x pre-existing and colliding files x all handler line-ups",
 "Tests create one temporary file and never close it; nothing checks where files go or what remains after success, failure or interruption.",
 [UF, UH, M, FT, R], [("exclusive temporary files", FT), ("suffix from the client's extension", UF + ":TemporaryUploadedFile"), ("base-name sanitising", UF + ":UploadedFile._set_name"), ("closing on abort and by the request", M + ":_close_files, " + R + ":close")],
 [], ["file-system calls", "upload directory listing"])

prop("C13", "A disk failure during an upload surfaces and corrupts nothing",
 "If storing an upload fails at any file-system operation (creating, writing, flushing or positioning the temporary file: full disk, I/O error, no permission, too many files, directory gone), the parse raises an I/O or OS error and exposes no file, and never reports success with missing or altered content. Once the disk recovers, the same object with a fresh stream parses the upload correctly.",
 ["fault_sequences", "inputs", "schedules"],
 "all uploads that reach the disk x a failure at every file-system operation, transient or lasting x write-buffer sizes x recovery and retry",
 "No test injects a disk error.",
 [UH, UF, M, FT], [("temporary file creation and writes", UH + ":TemporaryFileUploadHandler"), ("flush before hand-over", UH + ":file_complete")],
 [], ["exception type", "HttpRequest.FILES", "upload directory"])

prop("C14", "Upload handlers are driven by a fixed protocol",
 "For every file of a multipart body each upload handler that takes part is told of the new file exactly once with its field name, file name and headers, then receives the content in order with each piece's start equal to the amount already passed to it, then is told exactly once that the file is complete with that total (unless a handler before it has already returned the file), before the next file starts; each handler is offered the raw input first and told exactly once at the end that the upload is complete. A handler's transformed chunk is what the next one receives, a chunk it keeps reaches none after it, a handler that claims a file hides it from later ones, whatever it passes on or returns, the first file object returned is the one exposed, a handler that takes the raw input itself decides the whole result and no file is offered to anyone, and handlers the application installs on the request are the ones used.",
 ["inputs", "schedules", "configurations"],
 "all line-ups of 1 to 3 handlers with any mix of pass-through, transforming, absorbing, claiming behaviour x all forms x all segmentations and chunk sizes",
 "Tests call handlers by hand; none observes the calls the parser makes.",
 [M, UH, R], [("handler loop", M + ":MultiPartParser.parse, handle_file_complete"), ("handler set-up", R + ":_initialize_handlers, upload_handlers")],
 [("counters", "bytes passed per handler", M)], ["recorded handler calls", "HttpRequest.FILES"])

prop("C15", "Skipping or stopping an upload affects only what it should",
 "When a handler skips a file, at its start or in the middle, exactly that file is missing and every other field and file, earlier or later, is complete and readable. When a handler stops the upload, at the start of a file, in the middle or when it is complete, parsing returns normally with exactly the fields and files completed before, nothing later is delivered to any handler, the end-of-upload notice is still given, and the rest of the input is drained, or left unread if the handler asked for the connection to be reset.",
 ["fault_sequences", "inputs", "schedules"],
 "all forms x a skip or stop at any handler call of any file by any handler in the line-up x in-memory and on-disk storage x all segmentations",
 "No test raises the skip or stop signals inside a parse.",
 [M, UH], [("SkipFile / StopUpload handling", M + ":MultiPartParser.parse"), ("closing partial files", M + ":_close_files")],
 [], ["HttpRequest.POST/FILES", "recorded handler calls", "bytes pulled from the stream"])

prop("C16", "Uploaded files read back exactly, in memory or on disk",
 "Any sequence of sized reads, line reads, seeks, chunk iteration with any chunk size, line iteration and re-opening on an uploaded file gives the same answers as the same sequence on the uploaded bytes, for files held in memory and on disk alike; line iteration splits after LF, CR or CRLF and never inside CRLF, and rejoins to the content. A disk error during a read comes out as an error, never as a shorter file.",
 ["histories", "inputs", "fault_sequences", "configurations"],
 "all contents (CR/LF mixes across chunk edges) x all operation sequences x all chunk sizes x both storage tiers x a read error at any operation",
 "Tests read 100 bytes of one file once.",
 [FB, UF, FU], [("chunk and line iteration", FB + ":File.chunks, __iter__"), ("in-memory variants", UF + ":InMemoryUploadedFile"), ("delegated file methods", FU + ":FileProxyMixin")],
 [], ["UploadedFile methods"])

prop("C17", "Upload-directory checks are truthful, traceless and safe in parallel",
 "Building settings with an upload directory either returns settings whose directory exists and accepts new files, or raises the invalid-directory error; no other error escapes, and no probe file is left behind nor any existing file touched, whatever file-system operation fails (unless the removal itself fails). Any number of threads or processes may do this for the same directory at once, starting from any state of it, and each succeeds if the directory is usable.",
 ["schedules", "fault_sequences", "configurations", "crash_points"],
 "all initial directory states (absent, present, read-only, full, a file in the way, left-overs of a crash) x a failure at every file-system operation x all interleavings of 2 to 4 builders",
 "Tests build settings one at a time on a healthy disk.",
 [S, FU], [("directory probe", S + ":Settings._check_upload_dir")],
 [], ["exception type", "directory listing"])

prop("C18", "The push-back stream conserves bytes",
 "For any producer of byte pieces (empty ones included) and any sequence of sized reads, unsized reads, piece-wise iteration and push-backs, the push-back stream hands out every produced byte exactly once and in order, pushed-back bytes first, a sized read returns exactly that many bytes unless the input ends, and the reported position is the number of bytes handed out minus those pushed back. Only a caller that keeps pushing back the same amount without new input arriving gets the stuck-parser error, and one that over and over takes the next piece, or everything that is left, and pushes all of it back gets it within a fixed number of repeats.",
 ["histories", "schedules", "fault_sequences"],
 "all piece sequences x all operation sequences x a producer error at any pull",
 "The stream is exercised only indirectly by parsing a few files.",
 [D], [("read / next / unget", D + ":LazyStream"), ("sized pulls", D + ":ChunkIter"), ("stuck detection", D + ":LazyStream._update_unget_history")],
 [("_leftover, position, _unget_history", "push-back state", D)], ["LazyStream.read/next/unget/tell"])

prop("C19", "Rebuilt paths and URIs denote the parsed request",
 "The full path and URI rebuilt from a parsed request are ASCII, denote the request's path and query, and are stable under re-encoding; the raw form is the percent-decoded one.",
 ["inputs"], "all paths and query strings", "Tests compare two paths.",
 [R, E_], [("escape_uri_path, iri_to_uri, uri_to_iri", E_)], [], ["HttpRequest.get_full_path, get_uri"])
prop("C20", "Multi-value dictionaries keep lists, order and immutability",
 "Multi-value dictionaries return the last value and the full list for every key, extend rather than replace on update, copy deeply or shallowly as asked, urlencode back to an equal dictionary, and refuse every mutation when immutable.",
 ["inputs", "histories"], "all operation sequences on one dictionary", "Only a few look-ups are tested.",
 [D, R], [("MultiValueDict, ImmutableMultiValueDict", D), ("QueryDict", R)], [], ["dictionary methods"])
prop("C21", "HTTP utility codecs invert each other",
 "Date formatting and parsing, base-36 and URL-safe base-64 conversion, quoting and ETag helpers invert each other on their whole domain and reject everything else with a value error.",
 ["inputs"], "all values", "Not tested.", [H], [("http_date/parse_http_date, base36, urlsafe_base64, etags", H)], [], ["function results"])
prop("C22", "Host and redirect checks accept only what is safe",
 "A host with characters outside the host grammar is reported as empty, and a URL is declared safe only if every browser would keep it on an allowed host and scheme.",
 ["inputs"], "all strings", "Not tested beyond two hosts.", [H, R], [("is_safe_url, is_same_domain", H), ("split_domain_port", R)], [], ["function results"])
prop("C23", "Header names are matched without regard to case",
 "Host, Content-Type and Content-Length, and the headers of the parts of a multipart form, are recognised in any letter case: two requests that differ only in the case of header names parse alike, to the same result or the same refusal, however their streams are cut, and also when the stream ends early or fails.",
 ["inputs", "schedules", "fault_sequences"], "all requests x all letter cases of header names x all segmentations x truncation and stream errors", "All test files use the canonical case.", [R, M], [("header look-ups", R + ":parse_request_header")], [], ["HttpRequest accessors"])

prop("C24", "A charset set by the application decodes what is parsed after, only here",
 "When the application sets a request's charset before or between the parse steps, the query parameters at once and everything parsed after (form names and values, multipart field and file names, the text of the body) are decoded with the charset set last, taking it back restores the charset of the settings, and a query looked at before is decoded anew. A charset named by the request's Content-Type has the last word when the header is parsed. Neither the settings nor any other request is affected, and the way the stream delivers the bytes makes no difference.",
 ["histories", "inputs", "schedules"], "all requests x all charsets that extend ASCII x all sequences of setting the charset before, between and after the parse steps x all segmentations",
 "Tests never set the charset of a request.", [R, S], [("charset override", R + ":encoding"), ("charset of Content-Type", R + ":parse_request_header"), ("decoding", R + ":QueryDict, parse_request_body")],
 [("_encoding", "charset of this request", R)], ["HttpRequest.GET/POST/FILES/body()", "Settings attributes"])

prop("C25", "Requests served one after another leave nothing behind for the next",
 "A process that serves any number of requests one after another, with separate request objects and one settings object and upload directory, gives each exactly the result it would have alone, whatever came before: requests that failed, were cut off, damaged or refused, ran into a disk failure, installed handlers of their own, set another charset, or are still open. A request still open keeps its form and files unchanged while others are served. Once all are closed no file of theirs (unless the disk refused its removal) and no open file descriptor remains, the settings are as before, and what the library itself keeps does not grow with the number of requests. The same holds for a process started after another one died at any point and left its files in the directory; those are neither used nor altered.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "all sequences of requests of every kind x stream, disk and handler failures in any of them x any order of closing x a crash of an earlier process at any disk operation x all configurations",
 "Every test parses one request in a fresh state; nothing is parsed after a failure or while another request is open, and nothing measures what remains.",
 [R, M, UH, UF, S], [("handlers made for each request", R + ":_initialize_handlers, upload_handlers"), ("dictionaries made for each parse", R + ":_re_init"), ("clean-up", R + ":close, " + M + ":_close_files, _discard_files")],
 [("settings", "object shared between requests", S)], ["all HttpRequest accessors", "upload directory", "open descriptors", "module state of request_parser"])

prop("C26", "Reading ahead is bounded, data is passed on while the input arrives",
 "The library asks the input stream for more only when what has arrived does not suffice for the call being made, so that a peer which sends what is needed and then stays silent blocks nobody: parsing the header asks for no piece once the header and one header read size more have arrived, a sized read for none once that many bytes have, a line read for none once the line has; creating a request or looking at one reads nothing. In a multipart body file data reaches the upload handlers while the input is still arriving: apart from a working space of a few times the smallest handler chunk size, the delimiter and the limit of a part's headers, whatever has arrived of a file has been passed on before more is asked for, however large the body is.",
 ["schedules", "inputs", "configurations"],
 "all requests x all segmentations of the stream x all header read sizes x all sequences of reads and look-ups x all handler line-ups and chunk sizes",
 "Test streams are files that never block, and no test observes when the stream is read or when handlers are called.",
 [R, M, D, UH], [("header accumulation", R + ":parse_request_header"), ("sized pulls and push-back", D + ":LazyStream.read, readline, ChunkIter"), ("delimiter search with a bounded roll-back", M + ":BoundaryIter"), ("smallest chunk size of the handlers", M + ":MultiPartParser.__init__")],
 [("_leftover", "bytes pushed back", D)], ["pulls of the input stream", "recorded handler calls"])

prop("C27", "An interrupted parse shows nothing half-done, and another can follow",
 "If an exception comes from outside at any moment of a parse (memory runs out, a signal handler interrupts, ends the process or enforces a time limit), the parse raises it as itself; the form and the files are then either both empty or both complete, never a part of either. The request can be closed, and none of its temporary files remains, unless the exception came while a file was just being created or already being closed. The same object given a new stream parses that exactly as a fresh one would.",
 ["fault_sequences", "schedules", "inputs"],
 "all requests x all segmentations x every executed source line of a parse as the moment of the exception x all kinds of exceptions x all handler line-ups and memory limits x all requests that follow",
 "No test raises anything in the middle of a parse; there are thousands of steps, and a short window matters.",
 [R, M, D, UH, UF], [("form and files appear together", R + ":parse_request_body"), ("files of a failed upload are closed", M + ":MultiPartParser.parse, _discard_files"), ("parsed flags set last", R + ":parse_request_header, parse_request_body")],
 [("_request_body_parsed", "parsed, complete", R), ("_request_header_parsed", "header complete", R)], ["executed source lines of the library"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
