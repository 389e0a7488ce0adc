#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
CMD="cmd/src/command.rs"; MAIN="cmd/src/main.rs"; EV="lib/src/evaluator.rs"; CTX="lib/src/context.rs"; ST="lib/src/stat.rs"; WR="lib/src/writer.rs"
CL="lib/src/http/client.rs"; RQ="lib/src/http/request.rs"; RS="lib/src/http/response.rs"; SM="lib/src/http/stream.rs"; CT="lib/src/http/content.rs"; PA="lib/src/parser.rs"; VA="lib/src/value.rs"; TI="lib/src/http/time.rs"

p("C01","A numbered run executes exactly the requested number of iterations",
"`test NAME --threads T --number N` executes the named test exactly N times in total, spread over at most T concurrent workers so that no worker runs more than one iteration more than another, and then exits by itself. This holds whatever the scheduling of the workers, the order in which servers answer, and whichever exchanges fail, as long as no script error or interrupt ends a worker early.",
["schedules","configurations","fault_sequences"],"every T and N (also N not divisible by T, N < T), every interleaving of workers, every per-exchange network outcome",
"The only test of the test subcommand uses one thread and one iteration and needs the internet; it never runs with threads, never with faults.",
[CMD,MAIN],[("per-worker quota and loop",CMD+" test()"),("argument defaults",MAIN)],observe=["requests arriving at the servers","reports on stdout"])
p("C02","Every exchange made is reported exactly once, as one unbroken block",
"Every request call a test executes produces exactly one report block on standard output (header line, one line per comparison assertion in declaration order, verdict line), and no block is printed for a call that did not happen; a script error later in the same iteration does not make earlier calls disappear. Blocks of concurrent workers never interleave, blocks of one worker appear in call order, and short or interrupted writes to standard output do not lose, duplicate or tear output.",
["schedules","fault_sequences","histories"],"every interleaving of workers printing, every split/EINTR of stdout writes, every position of a script error within an iteration",
"Tests look for one substring in the output of one thread; nothing prints concurrently and no write is ever short.",
[CMD,CTX],[("records drained and printed after each iteration",CMD+" test() worker loop"),("one locked print per record",CTX+" Display for Record")],observe=["stdout bytes"])
p("C03","A PASS verdict means the exchange completed and every assertion held",
"A request is reported PASS only if name resolution, connection, TLS, sending and receiving all completed without error and every comparison assertion declared for it is true of the response the server actually sent; otherwise it is reported FAIL. Each assertion line shows the values taken from that response and the correct truth value. A response cut off before the end of its head, or before its declared content length, is not a completed exchange.",
["fault_sequences","inputs","schedules"],"every fault (DNS failure, refused/reset/timed-out connection, empty reply, truncation, TLS failure) at every point of an exchange, every response content",
"Offline tests never complete or fail an exchange; a failing exchange without assertions, or a truncated response, is never judged.",
[CTX,EV,CL,RS],[("verdict",CTX+" Display for Record"),("assertion evaluation on the response",EV+" eval_call_expr"),("error propagation",CL+" send"),("end-of-stream handling",RS+" from")],observe=["verdict and assertion lines on stdout","asserts and error fields of the recording"])
p("C04","Scripts, assertions and recordings see exactly the response the server sent",
"For a completed exchange the version, status, reason phrase, header list (names, values, order, repetitions) and body seen by the script, the assertions and the recording are exactly what the server sent on that connection. This does not depend on how the bytes are segmented, delayed, interrupted or read short, nor on what other workers receive at the same time; if the bytes cannot be delivered as text the exchange is reported as an error, never as different data.",
["schedules","fault_sequences","inputs"],"every segmentation/delay/EINTR/short read of every response, plain or TLS, with any number of concurrent exchanges",
"The single response test feeds one in-memory buffer; no test reads from a socket that delivers bytes in pieces.",
[RS,SM,EV],[("head and body reading",RS+" from"),("script view",RS+" to_map"),("socket/TLS reads",SM+" Read for Stream")],observe=["values printed by scripts","assertion lines","recording"])
p("C05","Each request reaches the wire exactly once and byte-exact",
"A request call sends, on exactly one connection, exactly the bytes its template denotes: method, path, version, the template's headers in order, a blank line and the body, with every `{variable}` replaced by the calling worker's current value. Short, delayed or interrupted sends never drop, repeat or reorder bytes, a failed exchange is never silently retried, and when the connection breaks the server has received a prefix of those bytes.",
["schedules","fault_sequences","inputs"],"every template of the supported forms, every pattern of short/blocked/interrupted/failing sends, every interleaving of workers",
"No offline test writes a request to any stream.",
[RQ,CT,EV,SM],[("serialisation",RQ+" from/write"),("substitution",EV+" eval_call_expr"),("socket/TLS writes",SM+" Write for Stream")],observe=["bytes received by the simulated servers, per connection"])
p("C06","Workers share nothing: each sees only its own variables and responses",
"Every worker starts from the variables as they were after the top-level script ran and afterwards sees only its own assignments and the responses to its own requests, persistently across its iterations. No interleaving lets one worker or one named test observe a variable, response, request text or record of another.",
["schedules","histories"],"every interleaving of 1..8 workers and of concurrently run tests, over multi-iteration histories",
"Tests run one context on one thread; nothing concurrent is executed.",
[CMD,CTX,EV],[("context cloned per worker",CMD+" test()"),("clone drops records",CTX+" Clone for Context")],observe=["request texts and responses chained through a per-worker token"])
p("C07","Connecting tolerates dead addresses: any working address is found in time",
"When a host name has several addresses, a request succeeds in connecting if and only if some address accepts: addresses are tried alternating between IPv6 and IPv4, an attempt that fails makes the next start at once, an attempt that hangs delays the next by no more than 200 ms, and the first connection established is used. Only one connection carries the request, no data is sent on the others, and if all attempts fail the request is reported as failed as soon as the last attempt has failed.",
["schedules","fault_sequences","configurations"],"every list of up to 8 addresses of both families, every assignment of accept/refuse/hang outcomes and delays, every interleaving of the attempts",
"Only the address rotation helper is unit-tested; no connection attempt is ever raced.",
[SM],[("happy eyeballs race",SM+" connect_happy"),("address interleaving",SM+" rotate")],observe=["connection attempts with simulated times"])
p("C08","Reported times are the times that really passed",
"For a completed exchange the recorded resolve, connect, write, delay and read durations equal the time the exchange really spent resolving, connecting, sending, waiting for the first byte and reading the rest, they add up exactly to the total, and the printed duration is that total. Start and end are the wall-clock times at which the exchange began and ended. Wall-clock jumps in either direction change no duration, lose no exchange and crash nothing.",
["schedules","fault_sequences"],"every distribution of latencies over the phases, every wall-clock jump at any point",
"Unit tests that look at times need the internet and check only the sum; nothing controls a clock.",
[CL,TI,SM],[("phase arithmetic",CL+" send"),("resolve timing",SM+" connect_tcp"),("first-byte callback",RS+" from")],observe=["time fields of the recording","duration on the verdict line"])
p("C09","A recording decodes and contains exactly what was executed",
"With `--record` every worker's file is a well-formed Avro object container that any standard reader decodes from start to end, holding exactly one entry per executed request call of that worker, in order, with its test name, worker number, iteration number, position, request, response, assertion results, error and times identical to what was exchanged and reported. Short or interrupted writes to the file change nothing about it.",
["inputs","schedules","fault_sequences"],"every set of exchanged requests/responses (any header/assert count, any text), every thread count, every short-write/EINTR pattern on the files, iterations without requests",
"The one writer test encodes a single empty record into memory: no headers, no assertions, one write.",
[WR,CMD],[("block encoding",WR+" write"),("file creation",CMD+" writer()")],observe=["the recording files, decoded by an independent decoder and by apache-avro"])
p("C10","Killing the process loses at most the iteration in flight",
"If the process is killed at any instant, every recording file is a valid Avro container up to its last complete block, possibly followed by one torn block at the end, and contains every iteration of that worker that had finished before the worker began its next iteration, in order and without gaps.",
["crash_points","schedules"],"every kill point of a recorded run, under every interleaving",
"No test kills a run; buffering a file in memory would pass every test.",
[WR,CMD],[("unbuffered block write per iteration",CMD+" test() worker loop, "+WR+" write")],observe=["recording files after the kill"])
p("C11","A failing disk spoils neither the recorded prefix nor the run",
"When writing a recording fails (disk full, I/O error, partial write before the error), the file keeps a valid decodable prefix of complete iterations with nothing but at most one torn block after it: later writes never append data behind a torn block. The run itself goes on: requests, reports, verdicts and statistics are the same as without the disk fault. A recording that cannot even be created stops the run, if at all, before any worker has made a request: no requests are made whose reports are then lost.",
["fault_sequences","crash_points"],"every write at which the fault starts, transient and persistent faults, partial writes before the error",
"No test writes to a failing or full disk.",
[WR,CMD],[("error handling of block writes",WR+" write")],observe=["recording files","stdout"])
p("C12","A timed run starts iterations until its duration has elapsed, then stops",
"With `--duration D` every worker keeps starting iterations until D has elapsed and starts none afterwards; iterations already begun run to completion and are fully reported, recorded and counted. The process exits as soon as they have finished.",
["schedules","configurations","fault_sequences"],"every D, thread count, latency distribution and interleaving of workers with the timer",
"No test uses --duration; elapsed time is not controlled anywhere.",
[CMD,MAIN],[("timer thread and stop flag",CMD+" test()"),("duration parsing",MAIN+" parse_duration")],observe=["simulated times of requests and of process exit"])
p("C13","An interrupt stops the run gracefully",
"After an interrupt signal during a named run no worker starts a new iteration; iterations in flight complete and are reported, recorded and counted in the statistics like any other, and the process then exits by itself. A repeated interrupt changes nothing.",
["schedules","fault_sequences","crash_points"],"every instant at which the signal arrives, in timed and numbered runs, one or several signals",
"No test sends a signal.",
[CMD],[("ctrlc handler clears the stop flag",CMD+" handle_interrupt")],observe=["requests after the signal","stdout, recordings, exit"])
p("C14","Statistics are exactly the aggregate of the reported exchanges",
"With `--stat`, for a named test as well as for all tests, one line per request name is printed after all reports, whose count, sum, average, maximum and minimum (whole milliseconds) are exactly those of all reported exchanges of that name, and no exchange is missing or counted twice. This holds for every interleaving of the workers, also when workers end early or an interrupt stops the run.",
["schedules","histories","fault_sequences"],"every interleaving of workers sending to and finishing before the aggregator, any latencies, early ends",
"Statistics have no test at all.",
[CMD,ST],[("channel from workers to aggregator thread",CMD+" test()"),("aggregation",ST+" Stat::add")],observe=["stdout"])
p("C15","HTTPS exchanges only happen over a verified TLS connection",
"For an https URL no request byte is ever sent outside TLS or to a peer that has not presented a certificate chain trusted by the platform, valid for the host name and valid at the current time; otherwise the request is reported as failed. With a valid peer the exchange works for every segmentation, delay or short read/write of the encrypted stream, and a reset or garbage during the handshake is reported as failure.",
["fault_sequences","inputs","schedules"],"valid, self-signed, untrusted, wrong-name, expired and not-yet-valid certificates, plaintext or garbage peers, faults at every point of the handshake, wall-clock skew",
"TLS is only touched by tests that need the internet, and only with valid peers.",
[SM,CL],[("platform verifier",SM+" connect_tls")],observe=["application bytes the simulated TLS peers decrypt","plaintext bytes on the wire","verdict"])
p("C16","No peer can crash, hang or end a worker",
"Whatever bytes a server sends, and however it delays, truncates or resets them, the exchange ends in a response or a reported error within bounded time after the server closes, the process neither aborts nor hangs, and the worker goes on with its next call and iteration. This includes arbitrary bodies (any text, deep nesting, huge numbers) and assertions doing arithmetic on response values.",
["inputs","fault_sequences","schedules"],"every byte stream and close/reset/stall pattern of the peer, combined with assertions over the response",
"One well-formed response is parsed in a unit test; hostile or unlucky peers are never tried.",
[RS,PA,EV,VA],[("body parsed with the script parser",RS+" to_map"),("parser termination",PA+" parse_expr"),("arithmetic",VA),("error instead of panic",CL+" send")],observe=["process exit status, panics on stderr, later requests of the same worker"])
p("C17","A slow, failing or erroring worker does not hold up the others",
"Workers make progress independently: while one worker waits on a slow or silent server, resolves a name, is erroring out or has ended with a script error, every other worker keeps executing its own calls without waiting for it. Apart from its own exchanges, a worker spends no time between its calls.",
["schedules","fault_sequences"],"every placement of stalls (up to minutes) and script errors among workers, every interleaving",
"Nothing concurrent is tested and no server is ever slow.",
[CMD,EV],[("one thread and context per worker, lock-free except for printing",CMD+" test()")],observe=["simulated times of each worker's network activity"])
p("C18","The interactive session evaluates every line in order and ends with its input",
"The interactive session evaluates each non-blank input line exactly once and in order, with definitions of earlier lines visible to later ones, and ends at `exit` or at the end of the input. This holds however the input is chunked, delayed or interrupted, and an erroneous line is reported without ending the session or losing earlier definitions.",
["inputs","fault_sequences","histories"],"every line history, every chunking/EINTR/delay of standard input, end of input at any point, with or without final newline or exit",
"The one test feeds two lines in one pipe ending in exit; end of input without exit is never tried.",
[CMD],[("line loop",CMD+" repl"),("context threading",CMD+" eval")],observe=["stdout","process termination"])
p("C19","The test source read is complete and independent of directory order",
"The program executed is the concatenation of all `.fan` files under the given path in sorted path order, whatever order the file system lists them in and however short or interrupted the reads are; other files are ignored. If any part cannot be read, nothing is executed.",
["configurations","fault_sequences"],"every directory tree and listing order, every short-read/EINTR pattern, open/read/list errors at any file",
"Tests use a directory with a single file and a healthy disk.",
[CMD],[("recursive sorted read",CMD+" read")],observe=["behaviour of definitions that depend on file order","requests sent after a read error"])
p("C20","Running all tests runs each exactly once, concurrently and in isolation",
"`test` without a name runs every declared test exactly once, each starting from the top-level definitions; a test that ends with a script error, or whose server fails or stalls, prevents no other test from running to its end. Everything executed, including the calls made before a script error, is reported and recorded, and the process exits when all have finished.",
["schedules","fault_sequences","programs"],"every set of declared tests, every interleaving, errors and stalls in any of them",
"The only test of this mode has one test and needs the internet.",
[CMD],[("one thread per test",CMD+" test() None branch")],observe=["requests at servers","stdout","recordings"])
p("C21","An upload is delivered completely or the request is reported as failed",
"A multipart request delivers every declared text part and the complete content of every declared file, however the file is read and the socket accepts data. If a file cannot be opened or read, the request is reported as failed with an error and is never sent, or reported, as if it had been complete.",
["fault_sequences","inputs"],"every file size, short reads, short/blocked sends, open errors and read errors at any offset",
"The upload test needs the internet and a healthy disk.",
[RQ,CT],[("lazy multipart body",RQ+" from"),("copy to the stream",CT+" write")],observe=["bytes received by the server","verdict and error"])
p("C25","Nothing is held on to: connections, files, threads and memory are released",
"When an exchange is over, however it ended, its connection, the connections that lost its race and the files it uploaded are closed by the time the worker makes its next request (an attempt that is still being made: as soon as that attempt ends), and the threads started for it have ended. Recordings are closed when the run ends. The memory a run uses does not grow with the number of iterations it executes.",
["histories","fault_sequences","schedules"],"every sequence of exchanges and their outcomes (answered, refused, timed out, reset, cut, hostile), every race between addresses, every number of iterations",
"No test runs more than one iteration or looks at descriptors, threads or memory.",
[SM,CL,RQ,CMD,CTX],[("the losing attempts of a race are dropped",SM+" connect"),("a connection per exchange",CL),("records drained after each iteration",CMD+" test() worker loop")],observe=["close of sockets and files","thread ends","allocator"])
p("C26","What has finished is on standard output at once",
"The reports of an iteration (or of a test, when all are run) are on standard output before its worker begins its next iteration or ends: they are not held back until other workers or the run are finished. So a kill at any instant loses no report of an iteration its worker has left behind, and only the last block printed may be torn.",
["schedules","crash_points"],"every interleaving of workers, every stalled or slow exchange elsewhere, every instant of a kill",
"Tests look at the output after the process has ended.",
[CMD,CTX],[("records printed by the worker that made them",CMD+" test() worker loop"),("one locked print per record",CTX+" Display for Record")],observe=["time and order of stdout writes"])
p("C22","The language evaluates expressions with its documented precedence and typing",
"Every well-formed program evaluates to the value given by the operators' precedence, associativity, short-circuiting and typing rules.",
["programs"],"every program","Tests sample about a hundred expressions.",
["lib/src/lexer.rs",PA,EV,VA],[("Pratt parser",PA),("tree evaluator",EV)])
p("C23","The json view of a response equals the JSON document in its body",
"For every response body that is a JSON document the value exposed as `json` is that document.",
["inputs"],"every JSON document","One flat object is tested.",
[RS,PA,"lib/src/syntax.rs"],[("body parsed as a script expression",RS+" to_map")])
p("C24","URLs and command-line durations are interpreted as written",
"Every URL of the supported schemes yields the scheme, host, port and path written in it, and every duration argument the duration written in it or an error.",
["inputs"],"every URL and duration text","Tests sample eight URLs and no duration.",
["lib/src/http/url.rs",MAIN],[("URL splitting","lib/src/http/url.rs"),("duration parsing",MAIN)])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
