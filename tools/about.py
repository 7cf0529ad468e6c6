"""What each check explores, for the evidence files and DESIGN.md."""

REAL = ['all of request_parser (every module, from the sources of the working tree)', 'six', 'Jython 2.7 and its standard library (tempfile, urlparse, cgi, codecs, StringIO, base64)']
STREAM = 'input stream (its pieces, errors, end)'
DISK = 'file system (os and file calls of request_parser and tempfile: one in-memory tree with descriptors, permissions, write buffers, capacity and faults)'
RANDOM = 'names of temporary files (random module of tempfile)'
STREAM_A = 'the stream gives byte strings; an error of it is raised by its next() or read()'
DISK_A = 'file-system calls of the code reach the disk through os, open or tempfile, as they do now; a call that went elsewhere is reported as an escape if it passes any of the seams'
GEN_A = 'requests come from the generator in sim/gen.py, whose own rendering of a request is the reference; what it never builds is not explored'
FIN_A = 'a run is one process; objects the garbage collector has not finalised yet count as they are'

ABOUT = {}


def about(prop, cases, nontrivial, real=(), stub=(STREAM, DISK, RANDOM), assume=()):
    ABOUT[prop] = {'cases': cases, 'nontrivial': nontrivial, 'real': REAL + list(real), 'stub': list(stub),
                   'assume': [STREAM_A, GEN_A] + list(assume)}


about('C01', 'One generated well-formed request (form of the target, host, port, queries, headers) whose bytes are delivered in simulated pieces, header read size drawn; '
      'header parsed, then the rest read in one of four ways.', 'the stream gave more than one piece or the request has a body.')
about('C02', 'One generated multipart form (boundary, preamble, parts of three kinds, near-miss delimiters, base64 wrapping) delivered in simulated pieces, with a drawn handler '
      'chunk size, line-up and memory limit.', 'the form has a part.', assume=[DISK_A])
about('C03', 'One generated form-encoded, plain or missing body delivered in simulated pieces, in part looked at with body() first; then repeated calls; charsets that do not extend ASCII included.', 'the body is not empty.')
about('C04', 'One generated request whose body is read by a drawn sequence of read, readline, readlines, iteration; in a quarter an error of the stream is injected.', 'the body is not empty.')
about('C05', 'One generated multipart form with memory limits drawn around the running totals of its files; file data held in memory is measured at each pull of the stream.',
      'a file was uploaded.', assume=[DISK_A, 'file data held is what the stream has handed out less what reached the disk'])
about('C06', 'One generated request with limits drawn around its size and number of fields, in part endless; the stream counts what is pulled.', 'the request has a body or a query.')
about('C07', 'One generated request whose stream raises an injected error (I/O, timeout, reset, interrupted, foreign exceptions) at a drawn offset and then ends, keeps failing or resumes.',
      'the error was raised during the parse.')
about('C08', 'One generated request cut off at a drawn byte, mostly inside a multipart body.', 'the cut fell in the header or in a multipart body.', assume=[DISK_A])
about('C09', 'One generated request damaged by a drawn sequence of set, dropped, doubled, swapped and inserted bytes and tokens (charset names, references, numbers) and truncation; executed source lines are counted.', 'every case.',
      assume=['work is counted in executed source lines of request_parser and the Python part of the standard library; work inside one library call is not'])
about('C10', 'A drawn history of requests (some failing, cut or damaged) and calls on one object, then a last request; compared with a fresh object.', 'there was a history.')
about('C11', 'Two to four threads each parse their own request under a seeded schedule, with switches at stream pulls, disk calls and (mostly) source lines, and faults in some streams; '
      'compared with each request alone.', 'at least one thread switch happened while more than one thread was at work.',
      stub=(STREAM, DISK, RANDOM, 'thread scheduling (one thread runs at a time; who goes on is decided by the plan)', 'locks of threading and tempfile'),
      assume=[DISK_A, 'a switch happens between source lines, not inside one'])
about('C12', 'One generated upload with hostile names, foreign and colliding files, and a drawn mishap (stream error, cut, damage, limit, handler signal, disk error, crash); '
      'the directory is compared after the parse and after the close.', 'a file was created or the parse failed.', assume=[DISK_A, FIN_A])
about('C13', 'One generated upload that reaches the disk, with a failure at a drawn file-system operation (from a fault-free dry run), a full disk or a lost directory, then recovery and a retry.',
      'a fault was injected.', assume=[DISK_A])
about('C14', 'One generated multipart form with one to three recording handlers (pass, absorb, transform, claim, return objects, take the raw input), in part with a stock handler behind them.', 'the form has a file.',
      real=['upload handlers of the simulator, which record and transform (application code)'])
about('C15', 'One generated multipart form with a handler that skips or stops at drawn calls, before or behind the stock handlers.', 'a signal was raised.',
      real=['a scripted upload handler of the simulator (application code)'], assume=[DISK_A])
about('C16', 'One to three uploaded files and a drawn sequence of reads, seeks, line and chunk iterations, compared with the same on the bytes; in part with read errors of the disk.', 'the file is not empty.',
      assume=[DISK_A])
about('C17', 'One to four builders of settings on one directory in a drawn state, under a seeded schedule, with disk failures, a full disk or a crash of an earlier builder.',
      'threads were switched, a fault was injected, the directory was not simply there, or a builder had crashed.',
      stub=(DISK, RANDOM, 'thread scheduling', 'process crash (the disk survives, everything else is gone)'), assume=[DISK_A])
about('C18', 'A drawn sequence of pieces and of reads, pulls and push-backs on the push-back stream, compared with an index into the bytes; in part with a failing producer or a stuck caller.',
      'there are bytes and more than one operation.', stub=('producer of pieces',))
about('C23', 'One generated request parsed twice with the same pieces, truncation and errors: with canonical header names (of the request and of its parts), and with the names in another letter case.',
      'every case.', assume=[DISK_A])
about('C24', 'One generated request whose query and body are in one charset, delivered in simulated pieces; the application sets charsets before, between and after the parse steps, the right one last; '
      'then, in part, another request with the same settings.', 'every case, unless an unfitting charset refused the body.')
about('C25', 'Two to five generated requests, some with failing, cut or damaged streams, disk failures, handlers of their own, charsets set, closed at once or later, served in one simulated process for one or three '
      'rounds with one settings object, in part in the directory of a process that crashed at a drawn disk operation; each compared with the same request alone.', 'more than one request was served.',
      real=['handlers of the simulator that transform, skip or stop (application code)'],
      stub=(STREAM, DISK, RANDOM, 'process crash (the disk survives, everything else is gone)'), assume=[DISK_A, FIN_A, 'what the library keeps is what can be reached from its modules, classes, functions and the settings'])
about('C26', 'One generated request read as a file by drawn sized reads, line reads and look-ups, or a generated multipart form with large files and one or two recording handlers; what had arrived is noted each time '
      'a piece is asked for.', 'the body was read in more than one piece, or file data was due while more was to come.', real=['recording upload handlers of the simulator (application code)'], assume=[DISK_A])
about('C27', 'One generated request whose parse (in one call or two, also after a look at the body) is hit by an exception at one executed source line of request_parser: each line as likely as any other, then one of the times it is '
      'reached; MemoryError, KeyboardInterrupt, SystemExit or an exception of the application. Some streams end early as well. Another request follows on the same object.', 'the exception was raised.', assume=[DISK_A,
      'an exception hits between source lines of request_parser, not inside one and not in the Python library; a temporary file counts as just being created for 60 of these lines'])
