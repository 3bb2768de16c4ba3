"""Which harnesses decide which property, and within which bounds."""


def R(crate, entry, **k):
    return dict(crate=crate, entry=entry, **k)


def L(entry, **k):
    return R('lfs', entry, **k)


def T(entry, **k):
    return R('bin', entry, **k)


CHECKS = {
    'C01': dict(
        bounds='every header of four bytes (2^32 values) at the start of a stream, with ample data behind it; read as a packet, and as a stream into buffers of 1, 65515, 65516 and 70000 bytes',
        runs=[L('h_c01_packet'), L('h_c01_stream')]),
    'C02': dict(
        bounds='every length of a single write up to three full packets; 14 packet lengths around the limits; up to 2 (thorough: 4) writes and packets in a row with arbitrary content of up to 4 bytes, or of 65515 to 131033 bytes or 1 MiB with arbitrary bytes at the packet limits, over transports accepting 1, 3 or any number of bytes at a time',
        runs=[L('h_c02_length'), L('h_c02_packet_length'), L('h_c02_content', params={'steps': 3}, thorough={'params': {'steps': 4}})]),
    'C03': dict(
        bounds='streams of two (thorough: three) packets of up to 3 arbitrary bytes with the first three reads of any size up to 4, transports delivering 1, 3 or any number of bytes; two packets of 0, 1, 65515 and 65516 bytes with the first two reads of 0 to 65540 bytes; flush or delimiter at the end, and data behind it',
        runs=[L('h_c03_small', thorough={'params': {'packets': 3, 'reads': 4}}), L('h_c03_large')]),
    'C04': dict(
        bounds='one upload of up to 2 (thorough: 3) arbitrary bytes, or of 8191 to 73700 bytes and of 1 MiB whose last two are arbitrary; declared sizes: every one- and two-byte string and the true size, one more and zero; ids: that of the content, of any other content, and any with one arbitrary byte; content split over packets at every point; no, other or the same earlier content',
        runs=[L('h_c04', thorough={'params': {'maxlen': 3}}), L('h_c04_long', params={'sizes': 8})]),
    'C05': dict(
        bounds='a session of two uploads (2 arbitrary bytes and 6 or 8193 bytes) killed before any one file system operation; one upload of 2 or 8193 bytes with any one (thorough: any two) operations failing with EIO, ENOSPC or EACCES or transferring only a part',
        runs=[L('h_c05_crash'), L('h_c05_crash', params={'long': 1}), L('h_c05_fault', faults=1, params={'faults': 1}), L('h_c05_fault', faults=2, params={'faults': 2}, thorough={'faults': 3})]),
    'C06': dict(
        bounds='two processes, at most 3 (thorough: 5) preemptive switches between file system operations: an upload followed by a download against another upload of the same id with right or wrong content; an upload against a download, batch or verify request; contents of 2 arbitrary or 8193 bytes',
        runs=[L('h_c06_uploads', switches=3, thorough={'switches': 5}), L('h_c06_reader', switches=4, thorough={'switches': 6})]),
    'C07': dict(
        bounds='objects of up to 3 arbitrary bytes and of 8191 to 73700 bytes and of 1 MiB with arbitrary last bytes, present or absent; zeros of 4 MiB, one more, 16 MiB and three, and (the beginning of the reply) 4 GiB and five; uploaded, then downloaded by another session',
        runs=[L('h_c07', params={'sizes': 8}), L('h_c07_both'), L('h_c07_large')]),
    'C08': dict(
        bounds='batches of 63 to 1025 (thorough: 4097) lines with one arbitrary digit; two lines with any one (thorough: two) operations of the storage failing; batches of up to 3 (thorough: 4) lines over three objects (one of arbitrary content), each present or absent, repeated or not, with arbitrary two-digit and extreme sizes; both kinds of session; stored objects of 4 MiB to 4 GiB and five',
        runs=[L('h_c08', params={'items': 3}, thorough={'params': {'items': 4}}), L('h_c08_many', thorough={'params': {'lengths': 7}}), L('h_c08_large'), L('h_c08_fault', faults=1, thorough={'faults': 2})]),
    'C09': dict(
        bounds='stated sizes: every string of one and two bytes, every three-digit number, and values around 2^32 and 2^64; an object of up to 2 arbitrary bytes, present or absent; objects of 4 MiB to 4 GiB and five with any last digit of the size, also of the size modulo 2^32',
        runs=[L('h_c09'), L('h_c09_large')]),
    'C10': dict(
        bounds='object and lock ids: every string of up to 3 bytes, valid ids with any one or two bytes replaced or one appended, and traversals and absolute paths of the full length; lock paths and cursors: up to 3 arbitrary bytes and traversals; every request kind',
        runs=[L('h_c10_ids'), L('h_c10_locks')]),
    'C11': dict(
        bounds='every request belonging to the other kind of session, exact and with any two (thorough: three) of the bytes of its command replaced; the whole program with libgit2, given an operation that is right, has any one byte replaced, or is any string of up to two ASCII characters',
        runs=[L('h_c11_down', params={'edits': 2}, thorough={'params': {'edits': 3}}), L('h_c11_up', params={'edits': 2}, thorough={'params': {'edits': 3}}), T('h_c11_operation')]),
    'C12': dict(
        bounds='14 commands (among them two arbitrary bytes) followed by up to 2 (thorough: 3) further packets out of 9 kinds (among them two arbitrary bytes), and then three correct requests; requests of nothing but flush packets; sessions of 300 (thorough: 2000) requests of eight kinds, one of them an arbitrary command of two bytes',
        runs=[L('h_c12', params={'packets': 2}, thorough={'params': {'packets': 3}}), L('h_c12_flush'), L('h_c12_many', thorough={'params': {'requests': 2000}})]),
    'C13': dict(
        bounds='every input of up to 5 (thorough: 8) bytes at the start of a session or inside a request; every command with up to 2 arbitrary bytes appended and an arbitrary argument and line; a lock record of up to 4 arbitrary bytes, with arbitrary or extreme times, or a directory, dangling link or stray file in the lock directory; execution steps per path are bounded',
        runs=[L('h_c13_bytes', params={'bytes': 5}, thorough={'params': {'bytes': 8}}), L('h_c13_commands', params={'arg': 3}, thorough={'params': {'arg': 5}}), L('h_c13_lockdir', params={'len': 5}, thorough={'params': {'len': 8}})]),
    'C14': dict(
        bounds='nine requests cut off at every byte, by end of input or by an error, alone or after a complete request; uploads of 8192 to 140000 bytes cut off at one of twelve places',
        runs=[L('h_c14'), L('h_c14_long')]),
    'C15': dict(
        bounds='an argument of up to 5 (thorough: 7) arbitrary bytes after one of five keys in four requests; values of up to 5 arbitrary bytes; missing, repeated and impossible values and numbers; a batch line with up to 3 (thorough: 5) arbitrary bytes in place of its size or around its id',
        runs=[L('h_c15_args', params={'len': 5}, thorough={'params': {'len': 7}}), L('h_c15_value', params={'len': 5}, thorough={'params': {'len': 8}}), L('h_c15_missing'), L('h_c15_batch', params={'len': 3}, thorough={'params': {'len': 5}})]),
    'C16': dict(
        bounds='two processes, at most 3 (thorough: 6) preemptive switches between file system operations: lock against lock of the same or different paths (one of 2 arbitrary bytes), unlock against lock or unlock, and lock-then-unlock against lock; leftovers of a dead attempt; a held path locked while any one (thorough: two) operations fail; every two requests of one session against every two of the other (thorough: three against two)',
        runs=[L('h_c16_fault', faults=1, thorough={'faults': 2}), L('h_c16_two', switches=3, thorough={'switches': 6}), L('h_c16_release', switches=3, unreached=['gave up'], thorough={'switches': 6}), L('h_c16_three', switches=3, unreached=['second gave up'], thorough={'switches': 6}), L('h_c16_history', switches=3, thorough={'switches': 4, 'params': {'a': 3}})]),
    'C17': dict(
        bounds='a session killed before any one file system operation of a lock, unlock, or lock-unlock-lock, of a path held or not, followed by list, path query, unlock and lock in any of four orders; the same with a second session running concurrently with at most 2 (thorough: 5) switches',
        runs=[L('h_c17'), L('h_c17_two', switches=2, thorough={'switches': 5})]),
    'C18': dict(
        bounds='lock paths of up to 3 arbitrary bytes, of 5000 bytes, and with non-ASCII and separator characters; six times including negative and leap-day ones, and a running clock (before 1970, now, and after 2038), in a time zone other than UTC; owner and reader any of three users; two distinct paths of up to 2 arbitrary bytes, or of 63 to 65445 bytes that differ in one; any two (thorough: three) operations of a lock request, a listing or a conflicting request failing or transferring only a part',
        runs=[L('h_c18'), L('h_c18_clock'), L('h_c18_fault', faults=2, thorough={'faults': 3}), L('h_c18_distinct'), L('h_c18_long')]),
    'C19': dict(
        bounds='every subset of 5 (thorough: 7) locks with limits 1 to 5, 2^40 and the default, with and without stray files; cursors of up to 2 arbitrary bytes and ids with any one byte replaced or added; one (thorough: two) failing reads while four locks are listed, and a lock directory that is missing or none; 99 to 102 (thorough: 201) locks with limits around 100',
        runs=[L('h_c19', params={'locks': 5}, thorough={'params': {'locks': 7}}), L('h_c19_cursor'), L('h_c19_fault', faults=1, params={'faults': 1}, thorough={'faults': 2, 'params': {'faults': 2}}), L('h_c19_many', params={'many': 5}, thorough={'params': {'many': 8}})]),
    'C20': dict(
        bounds='any subset of three locks; queries for each of them (one is empty), an arbitrary path of 3 bytes, one of 4096, and cursors that are an id, an id with any last byte, or a prefix of an id of any length; unlocking the id of such a path, that id with any last byte, and such a path as an id; each of 150 (thorough: 400) locks; every two lock and unlock requests of one session against every two of another with at most 3 (thorough: 4) preemptive switches',
        runs=[L('h_c20'), L('h_c20_many', thorough={'params': {'locks': 400}}), L('h_c16_history', switches=3, params={'exact': 1}, thorough={'switches': 4, 'params': {'exact': 1, 'a': 3}})]),
    'C21': dict(
        bounds='the whole program, with libgit2, started with every umask; core.sharedRepository unset, without a value, one of 20 names and numbers, or any three or four octal digits, in the configuration of the repository, of the user, or of both; an upload session that stores an object and a lock, and a download session; an upload session with any umask killed before any one file system operation, or with any one (thorough: two) of them failing',
        runs=[T('h_c21'), L('h_c21_always', faults=1, thorough={'faults': 2})]),
    'C22': dict(
        bounds='the whole program, with libgit2 and PCRE2, over: histories of up to 3 (thorough: 4) commits of every shape with up to two parents each, three possible times, messages of one arbitrary byte, histories of 40, 110 and 300 (thorough: 1100) commits with one that may match; starting at HEAD, a branch, an id, an abbreviated id, a tag, a parent or a packed reference; messages of up to 4 (thorough: 5) arbitrary bytes against 18 patterns; every pattern of two letters, digits or dots against messages of 3 (thorough: 4) arbitrary bytes; revisions of any two letters and digits, absent ids and parents; 8 invalid patterns, objects of other kinds and broken ones; --show with git ending in any status or killed; with and without --quiet',
        runs=[T('h_c22_order', thorough={'params': {'commits': 4}}), T('h_c22_order', params={'starts': 1}), T('h_c22_deep', thorough={'params': {'lengths': 4}}), T('h_c22_match', params={'len': 4}, thorough={'params': {'len': 5}}), T('h_c22_pattern', thorough={'params': {'len': 4}}), T('h_c22_status'), T('h_c22_show')]),
    'C23': dict(
        bounds='the whole program, with libgit2 and PCRE2, over messages of up to 5 (thorough: 6) arbitrary bytes, line ends among them, and 18 patterns',
        runs=[T('h_c23', params={'len': 5}, thorough={'params': {'len': 6}})]),
    'C24': dict(
        bounds='the whole program, with libgit2 and PCRE2, over messages of up to 3 (thorough: 4) arbitrary bytes, "fixup!" or "squash!" with at most one byte replaced by an arbitrary one, and at most one further byte, four words that are neither (amend!, reword!, fix!, fixup:); histories of two commits of four kinds each',
        runs=[T('h_c24', params={'front': 3}, thorough={'params': {'front': 4}}), T('h_c24_all')]),
    'C25': dict(
        bounds='the whole program, with libgit2, over three direct references to commits with arbitrary last digits (two) of both dates and any of three time zones, loose or packed; two with dates of 1 to 12 digits; 40 (thorough also: 600) references of which one has a date with two arbitrary digits and 130 of which one has one with one; an ordinary reference and any two others of 21 kinds (annotated, packed, symbolic, dangling, to other objects, not UTF-8, broken); both kinds of date',
        runs=[T('h_c25_order'), T('h_c25_dates'), T('h_c25_many', thorough={'params': {'lengths': 3}}), T('h_c25_kinds', thorough={'params': {'refs': 3}})]),
    'C26': dict(
        bounds='the whole program, with libgit2, over reflogs of 3 (thorough: 4) entries of 9 kinds (three branches, a commit, a deleted branch, an absent id, entries that are no checkouts), with HEAD on a branch, detached or unborn; reflogs of 40 and 105 (thorough: 260) entries that end early or hold another entry at one of four places; a branch, present or deleted, whose name is any string of up to 3 (thorough: 5) letters, digits and punctuation',
        runs=[T('h_c26_long', thorough={'params': {'lengths': 3}, 'steps': 1000000000}), T('h_c26', thorough={'params': {'entries': 4}}), T('h_c26_names', params={'len': 4}, thorough={'params': {'len': 6}})]),
    'C27': dict(
        bounds='each kind of client mistake with arbitrary short ids, numbers, algorithms and contents; each kind of request with any one (thorough: any two) storage operations failing with EIO, ENOSPC or EACCES; the whole programs where their directories cannot be made, the input is no packets, the operation is unknown or the packed references are broken (git-at: see C22)',
        runs=[L('h_c27_client'), L('h_c27_storage', faults=1, thorough={'faults': 2}), L('h_c27_denied', faults=1), L('h_c27_listing', faults=1, params={'faults': 1}, thorough={'faults': 2, 'params': {'faults': 2}}), T('h_c27_transfer'), T('h_c27_refs'), T('h_c11_operation'), T('h_c22_status')]),
    'C28': dict(
        bounds='the whole program, with libgit2; any of the standard streams a terminal; GIT_PAGER, core.pager and PAGER each absent or any text of up to 4 (thorough: 5) bytes (core.pager in the configuration of the repository, of the user, or of both, without bytes that a quoted value must escape, or without a value); a stand-in for every program that is started, which reads its input to the end',
        runs=[T('h_c28', params={'len': 4}, thorough={'params': {'len': 5}})]),
    'C29': dict(
        bounds='the whole program; a client that waits for the complete greeting and for each complete reply before it sends its next request: one request of 12 kinds (arbitrary ones among them fail) cut in two at any byte, the first part being taken before the second is sent, then one (thorough: two) of four; upload and download sessions; leaving with or without quit',
        runs=[T('h_c29', params={'nexts': 4}, thorough={'params': {'nexts': 4, 'requests': 3}})]),
    'C30': dict(
        bounds='the whole programs, whose client or reader closes its end before anything is sent, before a reply to one of 13 kinds of request, or after 5 bytes of it (1 or 3000 bytes of a tool\'s output of up to 5 kB over a pipe of 4 kB); a pager that ends after 0, 1 or up to 100000 bytes of up to 77 kB; pipes of 4 kB and 64 kB',
        runs=[T('h_c30_server'), T('h_c30_tools'), T('h_c30_pager')]),
    'C31': dict(
        bounds='the whole programs, with libgit2; repositories with a working tree, bare, with a gitdir file (relative and absolute) and, for the tools that read, a linked working tree; directories whose names are any 1 to 3 (without a repository: 2, for the server: 1; thorough: one more) bytes other than / and NUL that do not begin with a dot; started from the top, from directories with an arbitrary byte in their name or three levels down, and within the Git directory; eight ways to name the repository to the server; seven kinds of absent or broken repositories',
        runs=[T('h_c31_tools', params={'name': 3}, thorough={'params': {'name': 4}}), T('h_c31_none', params={'name': 2}, thorough={'params': {'name': 3}}), T('h_c31_store', params={'name': 1}, thorough={'params': {'name': 2, 'ways': 8}})]),
    'C32': dict(
        bounds='the whole programs; all options of git-at in both spellings, joined, before or after the revision and pattern; --sort in its forms; up to two (thorough: three) arguments, each one of 4 to 6 known ones, one of these with any byte replaced by an arbitrary one, or any of up to 2 (git-at, quick: 1) arbitrary bytes',
        runs=[T('h_c32_at'), T('h_c32_refs'), T('h_c32_unknown')] + [T('h_c32_any', params={'tool': t, 'len': 1 if t == 0 else 2}, thorough={'params': {'tool': t, 'arguments': 3, 'len': 2}}) for t in (0, 1, 2)]),
    'C33': dict(
        bounds='the whole programs, with libgit2; git-at and git-recent-refs printing one or two lines, or an error; upload and download sessions of four and five requests with objects of up to 9000 bytes; any one or two (thorough: three) operations on standard input, output or error failing (for good) or transferring only a part; git not found',
        runs=[T('h_c33_tools', faults=2, params={'faults': 2}, thorough={'faults': 3, 'params': {'faults': 3}}), T('h_c33_show'), T('h_c33_server', faults=2, params={'faults': 2}, thorough={'faults': 3, 'params': {'faults': 3}}), T('h_c33_server', faults=1), T('h_c33_tools', faults=1)]),
    'C34': dict(
        bounds='14 kinds of request with arbitrary ids, sizes, paths and commands, each made four (thorough: six) times in upload and download sessions, any one (thorough: two) storage operations of the second or a later one failing; objects and refused requests of 786 kB (thorough: 2.6 MB)',
        runs=[L('h_c34_again', faults=1, params={'faults': 1}, thorough={'faults': 2, 'params': {'faults': 2, 'times': 6}}), L('h_c34_memory', thorough={'params': {'packets': 40}})]),
    'C35': dict(
        bounds='each of the nine commands in the kind of session it belongs to, followed by its arguments, with any two (thorough: three) bytes of its word replaced, up to two (three) appended, one put in front, or its end cut off, with and without a newline and its argument; versions of up to two arbitrary bytes',
        runs=[L('h_c35_commands', params={'edits': 2}, thorough={'params': {'edits': 3}})]),
}
NOT_APPLICABLE = {}
