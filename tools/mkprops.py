#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One place to edit the property list."""
import json, os
PK="scutiger-core/src/pktline.rs"; ER="scutiger-core/src/errors.rs"
PR="scutiger-lfs/src/processor.rs"; BE="scutiger-lfs/src/backend.rs"; LO="scutiger-lfs/src/backend/local.rs"
GT="scutiger-lfs/src/bin/git-lfs-transfer.rs"; GA="scutiger-bin/src/bin/git-at.rs"; RR="scutiger-bin/src/bin/git-recent-refs.rs"
PG="scutiger-bin/src/bin/pager/mod.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every packet header decodes to exactly its protocol meaning",
  "For every four bytes received where a packet header is expected, the packet reader yields a flush packet for 0000, a delimiter packet for 0001, a data packet carrying exactly the next (value-4) bytes for a lowercase hexadecimal value from 0004 to fff0, and a malformed-header error for anything else. Reading packet by packet and reading as a byte stream agree on which headers are valid, and no header makes the reader panic or take a wrong number of bytes.",
  ["inputs"],"all 2^32 header byte values, followed by any payload",
  "The tests decode eight header values; the other four billion include digits just past '9' and 'f', sums that overflow 16 bits, and lengths above the protocol maximum.",
  [PK],[("header parsing","Reader::parse_header"),("length checks","Reader::read_one, Reader::read_packet")],["packets returned by the reader","bytes consumed from the transport"])
p("C02","Everything written is framed so that it decodes to the same data",
  "Whatever bytes or packets are written, the output is a sequence of packets whose four-digit lowercase hexadecimal length is the payload length plus 4, with at most 65516 payload bytes each, and decoding it yields exactly the packets (or, for byte writes, exactly the bytes in order) that were written. A packet too long to be represented is refused rather than emitted with a wrong header.",
  ["inputs"],"all payload contents and lengths, including 0 and those around the 65516-byte limit, and any sequence of writes",
  "Tests write two short strings and one 65536-byte buffer.",
  [PK],[("chunking","Writer::write"),("header formatting","Writer::write_one, Writer::write_packet")],["bytes emitted on the transport"])
p("C03","Reading packets as a stream loses, repeats and overruns nothing",
  "For every sequence of data packets, every sequence of caller buffer sizes and every way the transport splits its reads, the byte-stream reader returns exactly the concatenated payloads in order. It reports end of data exactly at the first flush or delimiter packet, consuming nothing beyond it.",
  ["inputs","schedules"],"packet sizes (including empty ones), buffer sizes (including zero and at least a whole packet), transport short reads",
  "The one test reads with io::copy's fixed buffer from a transport that never splits a read, so partial consumption, empty packets, direct reads and zero-length reads are not combined.",
  [PK],[("buffered remainder","impl io::Read for Reader"),("direct read path","Reader::read_one")],["bytes returned to the caller"],
  [("off/len","unread part of the current packet","Reader")])
p("C04","An object is stored only if the received bytes match its size and id",
  "After an upload request, the object is present under its id with exactly the received bytes, and success is reported, if and only if the number of bytes received equals the declared size and their SHA-256 equals the id. Otherwise the reply is a failure, whatever was stored under that id before is unchanged, and no partial upload is left behind.",
  ["inputs","histories"],"every object content, declared size, id, packetisation of the content, and prior store content",
  "Tests upload three fixed contents and one corrupted content with a right length; size mismatches, re-uploads, empty objects, other packetisations and leftovers are not tried.",
  [PR,LO],[("size and hash comparison before publishing","Processor::put_object"),("hash of what is read","HashingReader"),("publish by rename","LocalBackend::finish_upload")],["files under objects/ and incomplete/","status reply"])
p("C05","A crash or I/O failure during upload never exposes a bad object",
  "If the server is killed at any point of an upload, or any filesystem operation fails, the object's file is either as it was before the upload or is the complete correct content. Success is reported only if the object is in place, and after a reported failure no temporary file remains (unless it was its removal that failed).",
  ["crash_points","fault_sequences"],"every filesystem operation as a kill point or as a failing operation",
  "No test stops the server or makes an operation fail.",
  [LO,PR],[("temporary file in incomplete/ then atomic rename","LocalBackend::start_upload, LocalBackend::finish_upload")],["files under objects/ and incomplete/"])
p("C06","Concurrent uploads and downloads only ever see whole objects",
  "While sessions upload and download the same object concurrently, in any interleaving, a download returns either not-found or the complete correct content with its true size, and once any upload has reported success every later download succeeds. Two uploads of one object both report success.",
  ["schedules"],"every interleaving of filesystem operations of two sessions",
  "Tests run one session at a time.",
  [LO],[("unique temporary names and atomic rename","LocalBackend::start_upload, LocalBackend::finish_upload"),("size taken from the opened file","LocalBackend::download")],["reply bytes of the downloading session"])
p("C07","Downloads return exactly the stored bytes and size, or not found",
  "Getting an object replies 200 with its true size and exactly its stored bytes, whatever they are, when it is present, and 404 when it is absent. Content that was uploaded is what is later downloaded.",
  ["inputs"],"every content (including empty, newline- or header-like bytes, and longer than one packet or copy buffer) and every id",
  "One 32-byte object is downloaded in the tests.",
  [PR,LO],[("get-object","Processor::get_object, LocalBackend::download"),("streaming the reply","PktLineHandler::send_status")],["reply bytes"])
p("C08","Batch replies report each object's true presence and size, in order",
  "A batch request is answered with one line per requested object, in request order, naming that object's id, the stored size if present and the requested size otherwise, and the action: for uploads noop when present and upload when absent, for downloads download when present and noop when absent. An object whose presence cannot be determined makes the reply a failure, never an answer. Asking changes nothing in the store.",
  ["inputs","histories"],"every list of ids and sizes (with repeats) and every store content",
  "The tests send one two-object list in two store states.",
  [PR,LO],[("action selection","Processor::batch_data, upload_batch, download_batch"),("presence","LocalBackend::batch, Oid::size_at_path")],["reply lines"])
p("C09","Verify succeeds exactly when the object exists with the stated size",
  "Verifying an object replies 200 if and only if it is stored and its size equals the stated one; it replies 404 if the object is absent and 409 if the size differs. It needs a valid size and never changes the store.",
  ["inputs","histories"],"every stated size (whole 64-bit range and malformed ones), id and stored size",
  "Three fixed cases are tested.",
  [LO,PR],[("verify","LocalBackend::verify, Processor::verify_object")],["status reply"])
p("C10","No request can reach outside the repository's LFS area",
  "Whatever bytes a client sends as object ids, lock ids or paths, every file the server opens, creates, links, renames or removes is in the repository's lfs directory, and only as an object under its own hash-derived path, a temporary upload, or a lock record. An object id that is not exactly 64 lowercase hexadecimal digits, or a lock id that does not name an existing lock, is refused without touching any file other than those.",
  ["inputs"],"every id and path byte string, including '/', '..', NUL and absolute paths",
  "Tests only use well-formed ids.",
  [PR,LO],[("id validation","Oid::new, Oid::valid"),("path building","Oid::expected_path, LocalLockBackend::from_id, LocalLockBackend::create")],["paths given to filesystem calls"])
p("C11","Download sessions cannot modify and upload sessions cannot read objects",
  "In a session started for download no request, well-formed or not, creates, changes or removes an object or a lock. In a session started for upload no request returns object content. A request belonging to the other kind of session is refused with an error status.",
  ["inputs","histories"],"every command name and argument in each kind of session",
  "No test sends a command in the wrong mode.",
  [PR,GT],[("command and mode dispatch","Processor::process_commands"),("operation selection","Program::run")],["store content","reply bytes"])
p("C12","Each request gets exactly one well-formed reply, in order",
  "For every sequence of properly framed requests, valid or erroneous, the server sends exactly one reply per request, in order: a status packet with a three-digit code, any arguments, an optional delimiter and data, and one flush packet. An erroneous request never causes part of its own arguments or data to be taken as another request, so later requests are answered as if it had not been sent.",
  ["inputs","histories"],"sequences of requests whose arguments, ids, sizes, modes and data are arbitrary",
  "Tests never send an erroneous upload, batch or unknown command that still has unread packets, followed by another request.",
  [PR],[("reading a request up to its flush","Processor::process_commands, PktLineHandler::read_to_flush"),("reply framing","PktLineHandler::send_status, send_error")],["reply stream"])
p("C13","No input and no on-disk lock state makes the server crash",
  "Whatever bytes arrive on the connection and whatever files are in the lock directory, the server never panics or aborts and never loops without consuming input. It answers with replies and then exits normally at end of input or on quit, or ends with an error when the framing itself is broken.",
  ["inputs","histories"],"arbitrary input bytes, and arbitrary (corrupt, stale, in-progress) lock directory contents",
  "Tests send a handful of well-formed transcripts against a clean lock directory.",
  [PR,PK,LO],[("command parsing","Processor::process_commands"),("argument parsing","ArgumentParser"),("lock record parsing","LocalBackendLock::parse, formatted_timestamp"),("lock retry","Processor::lock")],["process end"])
p("C14","A request cut off by end of input has no effect",
  "If the connection ends before a request's terminating flush packet has arrived in full, that request is not carried out: no object or lock is created or removed and no success is reported for it (quit, which has no effect, excepted).",
  ["crash_points","inputs"],"every byte position at which the input may end, for every kind of request",
  "No test ends its input in the middle of a request.",
  [PR,PK],[("end-of-input handling","ReaderIterator::next, PktLineHandler::read_to_type"),("upload data","Processor::put_object")],["store and lock directory content","replies"])
p("C15","Malformed request arguments are refused and have no effect",
  "A request argument without an equals sign or final newline, a repeated key, a missing required value, a size or limit that is not a decimal number (a plus sign before it is tolerated) in range, a batch line not of the form id, space, size, or a hash algorithm other than sha256 is answered with an error status (4xx or 5xx), never success, and changes nothing. Well-formed arguments are taken exactly as sent: the key is what precedes the first equals sign and the value everything after it up to the final newline.",
  ["inputs"],"every argument byte string and combination",
  "Tests send one bad hash algorithm; no malformed argument.",
  [PR],[("argument parsing","ArgumentParser::parse, parse_integer"),("batch line parsing","Processor::read_batch")],["replies","lock directory content"])
p("C16","At most one session can hold the lock on a path",
  "When sessions try to lock the same path, concurrently and in any interleaving, exactly one is told it got the lock and a lock record exists for it; the others are told of the conflict together with the holder's lock, or, if the lock was released meanwhile, may retry. None crashes, and no attempt that fails disturbs the winner's attempt or record.",
  ["schedules"],"every interleaving of the filesystem operations of two concurrent lock or unlock requests",
  "The test makes two lock requests one after the other in one session.",
  [LO,PR],[("exclusive hard link of a complete temporary","LockFile::write, LockFile::persist"),("conflict reply and retry","Processor::lock")],["replies of both sessions","lock directory content"])
p("C17","A crash during lock or unlock leaves the lock store usable",
  "If the server is killed at any point of a lock or unlock request, the path is afterwards either locked with a complete, readable record or not locked. Every later lock, list and unlock request on it works as in a store that never crashed.",
  ["crash_points"],"every filesystem operation of a lock or unlock request as kill point, followed by any later request",
  "No test stops the server.",
  [LO,PR],[("write temporary, link, remove temporary","LockFile")],["lock directory content","replies of a later session"])
p("C18","A lock is reported identically by lock, list and unlock",
  "For every path short enough for each line of a report to fit in a packet (65445 bytes), the id, path, owner and locked-at time reported when a lock is created are those reported by every later conflict, listing or unlock of it, the path byte for byte. Different paths get different ids, and listings in an upload session mark a lock as ours exactly when the current user owns it.",
  ["inputs","schedules"],"every path byte string, every clock behaviour, every pair of owner and current user",
  "One path under a fixed clock and one user.",
  [LO,BE,PR],[("record encoding and decoding","LocalLockBackend::create, LocalBackendLock::parse"),("id","LocalBackendLock::hash_for"),("reporting","Lock::as_arguments, Lock::as_lock_spec")],["reply arguments and data"])
p("C19","Paging through locks yields every lock exactly once, in pages of the limit",
  "Following the returned cursors from a first list request with any limit yields every existing lock exactly once, in increasing id order, each page holding at most the requested number of locks and never more than 100. A cursor is returned exactly when more locks follow, and a list request with any cursor starts at the first lock whose id is not less than it. Files that are not readable lock records are never listed.",
  ["inputs","histories"],"every set of locks, limit, starting cursor, and stray files in the lock directory",
  "One lock is listed with limit 100.",
  [PR,LO],[("limit and cursor","Processor::list_locks"),("ordered iteration","LockSetIterator")],["reply arguments and data"])
p("C20","Path queries and unlock act on exactly the named lock",
  "Listing by path returns that path's lock alone or not-found. Unlocking by id removes that lock and no other and reports it, so the path can be locked again; unlocking an id that is not held replies 404 (or 400 if it is not even valid text) and changes nothing.",
  ["inputs","histories"],"every set of held locks, and every path or id queried or unlocked",
  "One unlock of the only lock.",
  [PR,LO],[("unlock","Processor::unlock, Lock::unlock"),("lookup","LocalLockBackend::from_id, from_path, Processor::list_locks_for_path")],["replies","lock directory content"])
p("C21","Stored files get the permissions the repository's sharing setting asks for",
  "With core.sharedRepository unset, false or umask the user's umask applies; group or true gives the group read-write access and nothing to others; all, world or everybody additionally lets others read; an octal mode gives exactly that access, and never more. Wherever read access is given on a created directory or object, search or execute access goes with it and nothing else is granted. At no moment, and after no failure or kill, does anything in the store give more access than that.",
  ["configurations","inputs"],"every configuration value (named, boolean, and octal) and every inherited umask",
  "No test sets the configuration or looks at modes.",
  [GT,LO],[("umask computation","Program::set_permissions"),("object mode","LocalBackend::fix_permissions")],["umask in effect","mode of created files"])
p("C22","git-at finds the first matching commit and reports the outcome by status",
  "In a repository whose history is complete, git-at prints the id of the first commit whose message matches the pattern, by committer date and newest first from the starting revision, and exits 0; with --show it runs git show on that commit instead and exits as that does. If none matches or the revision does not exist it exits 1, silently with --quiet and with a message otherwise; any other failure, such as an invalid pattern, a revision that is no commit or an ambiguous one (as an abbreviation of fewer than four digits is), prints a message even with --quiet and exits 2.",
  ["inputs","configurations"],"every history, message, start revision, pattern and option combination",
  "A dozen lookups in one fixed repository, never through the option parser or exit status.",
  [GA,ER],[("walk","Program::run"),("status","Program::main, Error::exit_status")],["standard output","standard error","exit status"])
p("C23","git-at --summary matches within the summary line only",
  "With --summary a commit is selected exactly when the pattern, taken as a whole, matches within the first line of its message (empty lines in front of it are no part of a message); text after the first line never causes or prevents a match.",
  ["inputs"],"every message and every pattern, including alternations and anchors",
  "Tests use plain-word patterns only.",
  [GA],[("pattern construction","Program::pattern")],["selected commit"])
p("C24","git-at --no-fixup skips exactly the fixup and squash commits",
  "With --no-fixup, commits whose message starts with fixup! or squash! (after optional white space) are never selected and all other commits are considered as usual. Without it no commit is skipped.",
  ["inputs"],"every message, with and without --summary",
  "A few fixed messages.",
  [GA],[("filter","Program::run")],["selected commit"])
p("C25","git-recent-refs lists every branch and tag once, newest first",
  "Sorted by committer or author date, every reference with a UTF-8 name that leads directly to a commit is listed exactly once by its full name, in order of non-increasing date of the chosen kind; symbolic references and those not leading to a commit are omitted, and one bad reference does not hide others.",
  ["inputs"],"every set of references, dates and targets",
  "One fixed repository, committer date only.",
  [RR],[("sort","Program::run, commit_date_for, author_date_for")],["standard output"])
p("C26","git-recent-refs lists visited revisions in visit order",
  "Sorted by visit, the current HEAD (as HEAD when it is detached) comes first and then each previously checked-out branch or detached commit, most recent first, including duplicates, until the history of checkouts ends or reaches a branch that no longer exists: branches by full reference name and detached commits by id.",
  ["histories"],"every checkout history",
  "One history of four checkouts.",
  [RR],[("history iteration","Program::run, stringify")],["standard output"])
p("C27","Failures are reported with the right class of status",
  "The LFS server answers a completely sent request that fails because of what the client sent (bad id, number, size, content, hash algorithm, repeated or missing value) with status 400, absent objects and locks with 404, and failures of its own storage with 500 (403 where it may not remove a lock), never with a complete successful reply; a listing may leave out locks it cannot read. Once the repository is open and the arguments are accepted, command-line tools exit with 2 on failures other than a missing revision.",
  ["inputs","fault_sequences"],"every kind of request error, and every failing storage operation",
  "Four error replies are tested, none caused by storage.",
  [PR,ER],[("error to status","Processor::process_commands"),("kinds and conversions","Error::io_kind, Error::exit_status, From impls")],["status replies","exit status"])
p("C28","The pager is chosen by Git's precedence and only on a terminal",
  "When standard output is a terminal, git-recent-refs pages through GIT_PAGER if set, else core.pager, else PAGER, else less, and pages through nothing if the choice is cat or empty; the pager gets the whole listing, and the program ends only once the pager has. When standard output is not a terminal it writes directly.",
  ["configurations"],"every combination of terminal, environment and configuration",
  "No test covers the pager.",
  [PG],[("selection","Pager::find_pager")],["program started","where output goes"])
p("C29","Each reply reaches the client before the server waits for more input",
  "The server's greeting is sent before it reads anything, and the complete reply to a request reaches the client as soon as the request is complete, before the server waits for further input; how the bytes of a request are split in transit makes no difference. So a client that waits for every reply never waits for ever. The session ends when the client quits or closes its end, and nothing is sent that answers no request.",
  ["schedules","histories"],"every request, and every split and timing of its bytes",
  "Every test provides the whole input at once and reads the output after the end.",
  [PK,PR,GT],[("flushing","Writer::write_packet, PktLineHandler::flush"),("greeting","Program::send_capabilities"),("request loop","Processor::process_commands")],["bytes the client receives while it waits"])
p("C30","A reader that goes away ends the programs quietly",
  "When the reader of its output (a client, a pager, or a pipe) goes away, each program ends by SIGPIPE or ends as if all had been read; it reports nothing and does not panic. In the server a request that was being carried out is then done entirely or not at all, and no partial upload is left behind.",
  ["fault_sequences","schedules"],"every program, every point at which the reader leaves",
  "Tests never close the reading end.",
  [GT,GA,RR,PG],[("signal disposition","setup in each program"),("output","Program::main, PktLineHandler")],["how the process ends","standard error","stored files"])
p("C31","The right repository is used, however it is laid out and named",
  "git-at and git-recent-refs work on the repository around the working directory (with a working tree, bare, a linked working tree, or reached by a gitdir file; also from subdirectories and from within the Git directory). git-lfs-transfer serves the repository at the path it is given, however it is written, and keeps everything in the lfs directory of that Git directory, so that what is stored through one path is found through another. Directory names may be any bytes. Where there is no repository the programs report it, exit 4, and create nothing.",
  ["configurations","inputs"],"every layout, path and directory name",
  "Tests open one repository by a library call.",
  [GT,GA,RR],[("opening","repo in each program"),("storage directory","Program::new, create_directories")],["standard output","exit status","files created"])
p("C32","Options mean the same in every spelling, and no arguments crash a tool",
  "The options of git-at may be given in any order and spelling, before or after the revision and pattern, and those of git-recent-refs in each form, with the same effect. Whatever the arguments, no program panics or is killed: it does its work, or prints an error and exits 1, 2 or 4 (git-at may exit 1 silently with --quiet).",
  ["inputs"],"every list of arguments, of arbitrary bytes",
  "Tests bypass the option parser.",
  [GA,RR,GT],[("options","parse_options, program in each program")],["exit status","standard output","standard error"])
p("C33","Standard streams that fail are noticed and never taken for success",
  "When what a program prints cannot be written to standard output in full (a full disk, an I/O error), it stops, says so on standard error and exits 2 (git-at --show 2 or 3 when git cannot be run); what was written is the beginning of the right output. A write or read that transfers only a part is continued. Whether error messages can be written does not change the status. When the server cannot read its input, or cannot send its replies, it ends with status 2, the request at hand is done entirely or not at all, no later one is begun, and no partial upload is left behind.",
  ["faults"],"every operation on a standard stream at which it fails or transfers only a part",
  "Tests run on buffers that never fail.",
  [GA,RR,GT,PK,PR],[("printing","main, report in each tool"),("session","PktLineHandler, process_commands")],["exit status","standard output","standard error","files stored"])
p("C34","Neither long sessions nor large objects exhaust the server",
  "However many requests a session makes, failing ones among them, the server has no more files open, no more memory allocated and no more temporary files after one of them than before it (a temporary file that cannot be removed may stay). Objects are stored, sent and refused piece by piece: the memory a transfer needs does not grow with the size of the object.",
  ["inputs","faults"],"every request, repeated, with any storage operation failing; transfers of many packets",
  "Tests make a few requests with small objects.",
  [LO,PR,PK],[("transfer","put_object, get_object, start_upload, download"),("skipping","finish_request")],["open files","memory","files in the store"])
p("C35","Only the protocol's commands and version 1 of it are accepted",
  "A request of which the first word is not, byte for byte, a command of the protocol, a version request that does not name version 1, and a command without the object or lock id it needs is answered with a 4xx status and has no effect, whatever arguments and data follow. Each command in the session it belongs to is accepted, with or without a newline after it.",
  ["inputs"],"every command word, argument and version, with and without a newline",
  "Tests send correct commands and one unknown one.",
  [PR],[("dispatch","Processor::process_commands")],["replies","files in the store"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
