"""What each check runs: harness entries, their arguments, bounds, required reachability."""


def J(entry, *args, **kw):
    if not args:
        args = (0,)
    return [dict(entry=entry, arg=a, **kw) for a in args]


COMMON = [
    "the code is compiled by rustc (nightly) to wasm64 with overflow checks and debug assertions; compiler, z3 and the engine's WebAssembly semantics are trusted, "
    "the latter validated by replaying every kept path witness on the native build with equal observations",
    "std's File and TcpStream, which have no wasm backend, are replaced by in-memory models of the documented contract; replays use real files and real loopback sockets",
    "str::from_utf8 is summarised by an exact formula over the bytes; HashMap's hash function is replaced by a constant one (iteration order is not relied on)",
]
PROPS = {}


def prop(id, feature, quick, thorough=None, covers=(), bounds="", outside="", assumptions=(), **kw):
    PROPS[id] = dict(feature=feature, jobs={"quick": quick, "thorough": thorough or quick}, covers=list(covers), bounds=bounds,
                     outside=outside, assumptions=COMMON + list(assumptions), **kw)


prop("C16", "p16",
     J("h_c16_add", 0, 1, 2, 3, 4) + J("h_c16_many", 50) + J("h_c16_set", 1, 2),
     J("h_c16_add", 0, 1, 2, 3, 4, 5, 6, 7) + J("h_c16_many", 50, 200) + J("h_c16_set", 1, 2),
     covers=["new", "already", "many intervals", "several sources"],
     bounds="one addition to an arbitrary canonical set of up to 4 (thorough 7) intervals of one source, all 64-bit ids; by induction any history of additions that starts canonical; an addition of any id to one set of 50 (200) intervals; up to two additions of any ids of three sources to a set of one",
     outside="more intervals per source")

prop("C01", "p01",
     J("h_c01_seq", 0, 1, 2, 3) + J("h_c01_big", 0, 1, 2, 3) + J("h_c01_magic", 0, 1, 3, 4, 5) + J("h_c01_cut") + J("h_c01_bad") + J("h_c01_short") + J("h_c01_long", 300, 3000, steps=400000000),
     J("h_c01_seq", 0, 1, 2, 3, 4) + J("h_c01_big", 0, 1, 2, 3) + J("h_c01_magic", *range(0, 30)) + J("h_c01_cut") + J("h_c01_bad") + J("h_c01_short") + J("h_c01_long", 300, 3000, steps=400000000) + J("h_c01_long", 30000, steps=400000000),
     covers=["seq", "big", "magic", "no magic", "cut", "bad", "short", "long"],
     bounds="files of up to 3 (thorough 4) events of any of 9 kinds with arbitrary headers and contents of up to 8 symbolic bytes; events of 32767, 32768, 32769 and 70000 bytes "
            "in every position; a tail cut at every byte; an undecodable event of 7 kinds between two others; every event length below 19; files of 300 and 3000 (thorough 30000) events of which one is arbitrary",
     outside="longer files, I/O errors of the file")
prop("C02", "p02",
     J("h_c02_header", 0, 1, 18, 19, 20) + J("h_c02_unknown", 0, 1, 4, 12) + J("h_c02_known"),
     J("h_c02_header", *range(0, 33)) + J("h_c02_unknown", *range(0, 41)) + J("h_c02_known"),
     covers=["header", "incomplete header", "unknown", "known"],
     bounds="all values of all 19 header bytes; every type code without decoder with every body of 0, 1, 4, 12 (thorough 0..40) bytes; one event for each of the 20 codes with a decoder",
     outside="longer bodies of unknown events")
prop("C03", "p03",
     J("h_c03_format", 27, 38, 40, 41, 42, 171, 180, 190) + J("h_c03_trailer", 1, 2, 3) + J("h_c03_short", 0, 1, 2, 3),
     J("h_c03_format", *range(15, 199)) + J("h_c03_trailer", 1, 2, 3, 4) + J("h_c03_short", 0, 1, 2, 3),
     covers=["old", "off", "crc32", "unsupported", "trailer", "off again", "short"],
     bounds="format descriptions of servers that know 27, 38..42, 171, 180, 190 (thorough 15..198) event types, server names of 5 lengths, every checksum algorithm byte; one event of 9 kinds "
            "after each of up to 3 (thorough 4) switches of the checksum mode; every event shorter than a checksum",
     outside="the checksum is not verified by the client (documented)")
prop("C04", "p04",
     J("h_c04_types") + J("h_c04_many", 0, 1, 7, 8, 9, 16, 17, 64, 250, 251, 300, 600, 4096) + J("h_c04_names"),
     J("h_c04_types") + J("h_c04_many", *list(range(0, 40)) + [64, 65, 127, 128, 250, 251, 252, 255, 256, 257, 300, 600, 1017, 4096]) + J("h_c04_names"),
     covers=["types", "many", "names"],
     bounds="all 841 pairs of the 29 column types with arbitrary metadata and nullability; 0, 1, 7..9, 16, 17, 64, 250, 251, 300, 600, 4096 columns; names of 0, 1, 4, 192, 255 bytes; all 48-bit table ids",
     outside="more than 4096 columns (the server's limit); column type codes that MySQL does not write")
prop("C05", "p05",
     J("h_c05_one", *range(1, 13)) + J("h_c05_bits", 1, 7, 8, 9, 20, 70, 300, 600) + J("h_c05_mix", 2) + J("h_c05_none") + J("h_c05_long", 300) + J("h_c05_long", 70000, steps=2000000000),
     J("h_c05_one", *range(1, 13)) + J("h_c05_bits", *range(1, 41), 70, 300, 600, 3000) + J("h_c05_mix", 1, 2) + J("h_c05_mix", 3, time=1500) + J("h_c05_none") + J("h_c05_long", 255, 256, 300, 3000) + J("h_c05_long", 70000, steps=2000000000),
     covers=["one", "bits", "mix", "none", "long"],
     bounds="each of the 12 fields alone (lists of up to 2 elements, all encodings of numbers, strings of 0, 1, 3, 260 bytes), every ordered pair of fields, bitmaps over 1, 7..9, 20, 70, 300, 600 (thorough also 1..40, 3000) columns of 20 types; lists of 300 and 70000 elements",
     outside="longer lists")
prop("C06", "p06",
     J("h_c06_small", 10, 11, 12, 13, 21, 22, 31) + J("h_c06_wide", 81, 91, 92, 171) + J("h_c06_long", 20) + J("h_c06_long", 300, 3000, steps=400000000) + J("h_c06_wide", 2601, 40961, steps=400000000) + J("h_c06_bits", 9, 109, 209) + J("h_c06_extra"),
     J("h_c06_small", 10, 11, 12, 13, 14, 21, 22, 31, 41) + J("h_c06_small", 23, 32, time=900) + J("h_c06_wide", 81, 82, 91, 92, 161, 162, 171, 172, 331, 651, 2601) + J("h_c06_wide", 40961, steps=400000000) + J("h_c06_long", 20, 200) + J("h_c06_long", 300, 3000, steps=400000000) + J("h_c06_long", 30000, steps=400000000) + J("h_c06_bits", 8, 9, 10, 11, 108, 109, 110, 111, 208, 209, 210, 211) + J("h_c06_extra"),
     covers=["write", "update", "delete", "long"],
     bounds="WRITE/UPDATE/DELETE in versions 1 and 2, every present/NULL combination for 1 column x 0..3 rows, 2 x 1..2, 3 x 1; five patterns for 8, 9 and 17 columns; every set of present columns and of NULLs for 9 (thorough 8..11) columns in either image; extra data of up to 65533 bytes; 20 rows; arbitrary cell values, flags and table ids; 300 and 3000 (thorough 30000) rows, 260 and 4096 columns",
     outside="other combinations of many columns; partial JSON updates")
prop("C07", "p07",
     J("h_c07_num") + J("h_c07_varchar") + J("h_c07_char") + J("h_c07_blob") + J("h_c07_bit") + J("h_c07_enum") + J("h_c07_year"),
     covers=["num", "two byte length", "one byte length", "long char", "char", "blob", "bit", "enum", "set", "year"],
     bounds="every bit pattern of every integer, FLOAT, DOUBLE, BIT(1..64), ENUM, SET and YEAR cell; every declared size of CHAR and VARCHAR with cells of 0..4, 254, 255, 256, 700, 1023, 40000 bytes; BLOB, JSON and GEOMETRY cells of 0, 1, 5, 255, 256, 66000 bytes with every length size",
     outside="text that is not UTF-8; other lengths")
prop("C08", "p08",
     J("h_c08_date") + J("h_c08_time") + J("h_c08_datetime", *range(0, 7)) + J("h_c08_timestamp") + J("h_c08_time2", *range(0, 7)) + J("h_c08_datetime2", *range(0, 7)) + J("h_c08_timestamp2", *range(0, 7)),
     covers=["date", "time", "datetime", "timestamp", "time2", "datetime2", "timestamp2"],
     bounds="every non-negative value of DATE, TIME, DATETIME, TIMESTAMP in both storage formats with every fractional precision 0..6",
     outside="negative TIME values (documented as unsupported: an error)")
prop("C09", "p09",
     J("h_c09_precision", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 18, 19, 20, 28, 38) + J("h_c09_decimal", 6500, 6501, 6509, 6529, 6530, 4009, 3030, 3130, 5410, 2709),
     J("h_c09_precision", *range(1, 66)),
     covers=["decimal", "positive", "negative"],
     bounds="all digits symbolic, both signs; every scale of 17 precisions and 10 pairs more (thorough: all 1551 legal pairs of precision and scale); one group of nine digits, at any position, has any number of leading zeros while the others have none or are zero",
     outside="other distributions of zeros over the groups")
prop("C10", "p10",
     J("h_c10_history", 1, 2, 3, 4) + J("h_c10_two", 1, 2) + J("h_c10_many", 300) + J("h_c10_many", 1100, steps=400000000),
     J("h_c10_history", 1, 2, 3, 4, 5) + J("h_c10_two", 1, 2, 3) + J("h_c10_many", 5, 300) + J("h_c10_many", 1100, 4200, steps=4000000000),
     covers=["mapped", "unmapped", "two", "many tables"],
     bounds="histories of up to 4 (thorough 5) table maps, with arbitrary ids (equal or not) and four table definitions, before a rows event of an arbitrary id; "
            "two rows events interleaved with up to 2 (thorough 3) redefinitions; rows of any of 5 of 1100 (4200) mapped tables",
     outside="longer histories")
prop("C11", "p11",
     J("h_c11_scalar") + J("h_c11_file", 0, 1, 16, 300) + J("h_c11_text", 0, 1, 16, 300, 70000) + J("h_c11_query") + J("h_c11_uservar"),
     J("h_c11_scalar") + J("h_c11_file", *range(0, 40), 255, 256, 511, 512) + J("h_c11_text", *range(0, 40), 255, 256, 300, 70000) + J("h_c11_query") + J("h_c11_uservar"),
     covers=["scalar", "rotate", "heartbeat", "annotate", "rows query", "query", "query sizes", "null variable", "variable"],
     bounds="every value of the fixed-size fields of XID, INTVAR, ROTATE, HEARTBEAT, QUERY and USER_VAR; text fields of 0, 1, 16, 300, 70000 (thorough 0..39 and more) bytes; QUERY schema, status and text sizes at and around their limits",
     outside="other text lengths; values of non-text user variables")
prop("C12", "p12",
     J("h_c12_mysql", 0, 1, 17, 40) + J("h_c12_prev", 0, 10, 11, 12, 13, 20, 21, 22) + J("h_c12_mariadb") + J("h_c12_list", 0, 1, 2, 3) + J("h_c12_many", 300) + J("h_c12_many", 70000, steps=2000000000),
     J("h_c12_mysql", *range(0, 60)) + J("h_c12_prev", 0, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 30, 31, 32) + J("h_c12_mariadb") + J("h_c12_list", *range(0, 9)) + J("h_c12_many", 255, 256, 300) + J("h_c12_many", 70000, steps=2000000000),
     covers=["mysql", "previous", "mariadb", "list", "many"],
     bounds="every uuid, sequence number, flag and domain; previous GTIDs of up to 2 sources with up to 2 intervals or 1 with 3 (thorough 5); MariaDB lists of up to 3 (thorough 8) entries; 300 intervals, sources or list entries, 70000 intervals or list entries",
     outside="larger sets; the flag bits in the upper half of MariaDB's list count; tagged GTIDs")
prop("C13", "p13",
     J("h_c13_commit", 1, 11, 21, 31, 41, 2, 12, 22, 32, 42) + J("h_c13_commit", 3, 13),
     J("h_c13_commit", 1, 11, 21, 31, 41, 2, 12, 22, 32, 42, 3, 13, 23, 33, 43) + J("h_c13_commit", 4, 14, time=1500),
     covers=["kept", "moved", "artificial", "rotated"],
     bounds="sequences of up to 3 (thorough 4) committed events of every kind with arbitrary headers, from each starting strategy",
     outside="longer sequences (each commit depends on the state the previous one left, which is arbitrary here)")
prop("C14", "p14",
     J("h_c14_commit", 1, 11, 21) + J("h_c14_seq", 2, 12, 3) + J("h_c14_other") + J("h_c14_reconnect", 0) + J("h_c14_partial", 0) + J("h_c14_many", 12),
     J("h_c14_commit", 1, 11, 21) + J("h_c14_commit", 2, 12, time=1500) + J("h_c14_seq", 2, 12, 3) + J("h_c14_seq", 13, 4, time=1500) + J("h_c14_other") + J("h_c14_reconnect", 0, 1) + J("h_c14_partial", 0, 1) + J("h_c14_many", 12, 40),
     covers=["committed", "other strategy", "reconnected", "anonymous", "cut off", "many"],
     bounds="up to 3 (thorough 4) committed events of every kind after up to 2 open transactions' worth of state, all 64-bit ids in the single steps; a transaction that is half read when the client connects again, then another, the same or an anonymous one; a transaction cut off in the stream, then another; 12 (40) consecutive transactions from any id on",
     outside="longer sequences")
prop("C15", "p15",
     J("h_c15_commit", 1, 11, 2, 12) + J("h_c15_reconnect", 0) + J("h_c15_partial", 0) + J("h_c15_many", 120, 300, steps=400000000),
     J("h_c15_commit", 1, 11, 21, 2, 12) + J("h_c15_commit", 3, 13, time=1500) + J("h_c15_reconnect", 0, 1) + J("h_c15_partial", 0, 1) + J("h_c15_many", 120, 300, 1500, steps=2000000000),
     covers=["committed", "reconnected", "cut off", "many"],
     bounds="up to 2 (thorough 3) committed events of every kind with and without an open group, all domains, servers and sequence numbers; a transaction that is half read when the client connects again, then another or the same one; a group cut off in the stream, then another; 120 and 300 (thorough 1500) transactions in a third as many domains",
     outside="longer sequences")
prop("C17", "p17",
     J("h_c17_parse", 11, 12, 111, 112, 212, 312, 221, 1911, 2011, 113) + J("h_c17_uuid", *range(0, 15)) + J("h_c17_print", 11, 12, 111, 112, 222, 312, 412, 1011, 1912, 2011) + J("h_c17_many", 12, 300),
     J("h_c17_parse", 11, 12, 21, 111, 112, 212, 312, 221, 321, *range(411, 2012, 100), 2012, 113, 131) + J("h_c17_parse", 122, 1212, time=1500) + J("h_c17_uuid", *range(0, 15))
     + J("h_c17_print", 11, 12, 111, 112, 121, 222, 312, *range(412, 1913, 100), 2011, 2012, 1921) + J("h_c17_many", 12, 100, 300),
     covers=["parsed", "uuid", "printed", "many"],
     bounds="texts of up to 2 listings of 2 sources with up to 3 intervals in any order, overlap, repetition, case and separator; numbers of 1..3, 19, 20 (thorough 1..20) digits, the last three symbolic in long ones; "
            "every uuid, two symbolic bytes at a time; printing of sets with numbers of up to 3 symbolic digits and of boundary values of 4, 10, 19, 20 digits; texts of 12 intervals in four orders with any number of 3 digits more, of 300 intervals with chosen ones",
     outside="more intervals; intervals that start at 0 or end before they start")
prop("C18", "p18",
     J("h_c18_text", 11, 12, 13, 21, 22, 31, 32, 101, 201) + J("h_c18_add", 0, 1, 2, 3, 4) + J("h_c18_many", 300) + J("h_c18_many", 3000, steps=900000000),
     J("h_c18_text", 11, 12, 13, 21, 22, 23, 31, 32, 33, *range(41, 202, 10), 102, 202) + J("h_c18_add", *range(0, 9)) + J("h_c18_many", 5, 300) + J("h_c18_many", 3000, steps=900000000),
     covers=["list", "duplicate", "replaced", "appended", "many"],
     bounds="lists of up to 3 entries with numbers of 1..3 symbolic digits and boundary values of 10 and 20 digits; one addition to any list of up to 4 (thorough 8) domains, all values; texts of 300 and 3000 domains",
     outside="longer lists")
prop("C19", "p19",
     J("h_c19_request", 0, 1, 2, 3, 10, 11, 12, 13) + J("h_c19_resume", 0, 1, 2, 3, 10, 11, 12, 13) + J("h_c19_set", 0, 10, 11, 12, 21, 22, 31) + J("h_c19_list", 0, 11, 12, 13, 22, 32, 91, 101)
     + J("h_c19_heartbeat", 0, 1, 2) + J("h_c19_missing", 0) + J("h_c19_default") + J("h_c19_version") + J("h_c19_many", 300) + J("h_c19_many", 70000, steps=2000000000),
     J("h_c19_request", 0, 1, 2, 3, 10, 11, 12, 13) + J("h_c19_resume", 0, 1, 2, 3, 10, 11, 12, 13) + J("h_c19_set", 0, 10, *range(11, 19), 21, 22, 23, 24, 31, 32, 33, 41, 51)
     + J("h_c19_list", 0, *range(11, 102, 10), 12, 13, 14, 22, 23, 24, 32, 33, 62, 92) + J("h_c19_heartbeat", 0, 1, 2) + J("h_c19_heartbeat", 3, time=1500) + J("h_c19_missing", 0) + J("h_c19_default") + J("h_c19_version") + J("h_c19_many", 300, 5000) + J("h_c19_many", 70000, steps=2000000000),
     covers=["request", "resume", "set", "list", "heartbeat", "missing", "default", "version", "many"],
     bounds="both providers, every strategy, server id, position, blocking or not; file names of 0, 1, 10, 200 bytes; GTID sets of up to 3 (thorough 5) sources and up to 2 (thorough 8) intervals with arbitrary numbers; lists of up to 3 (thorough 4) domains, "
            "numbers of up to 10 digits; heartbeat periods of up to 2 (thorough 3) symbolic digits and ten boundary values; 70000 intervals or domains; the documented defaults of the options; eleven server versions",
     outside="larger sets, other heartbeat periods; the part of the heartbeat period below a millisecond is not sent")
prop("C20", "p20",
     J("h_c20_edge", 0, 1, 2, 3, 4, 5) + J("h_c20_native", 0, 1, 8, 70) + J("h_c20_sha2", 0, 1, 3, 70) + J("h_c20_switch", 0, 1, 2, 3, 30, 31, 32, 33) + J("h_c20_unsupported") + J("h_c20_greeting") + J("h_c20_text", 0, 1, 2, 3, 4, 5),
     J("h_c20_edge", 0, 1, 2, 3, 4, 5) + J("h_c20_native", *range(0, 80)) + J("h_c20_sha2", *range(0, 80)) + J("h_c20_switch", *[10 * n + k for n in (0, 1, 3, 19, 20, 32, 55, 64, 70, 120) for k in range(4)]) + J("h_c20_unsupported") + J("h_c20_greeting") + J("h_c20_text", 0, 1, 2, 3, 4, 5),
     covers=["native", "sha2", "fast", "full", "switch", "unsupported", "greeting", "text", "edge"],
     bounds="every scramble, passwords of 0, 1, 3, 8, 70 (thorough 0..79, 120) and users of 0, 4, 32 symbolic ASCII bytes, database or not, every sequence number; every answer of the native and caching_sha2 exchanges and of a switch from either plugin to either; "
            "six names of unsupported plugins and every other name of 21 bytes; every connection id, capability word, collation and status of the greeting; six combinations of users, passwords and databases with characters of several bytes or of up to 300 bytes",
     outside="other non-ASCII texts; other sizes; servers without plugin names; the RSA encryption itself is a stub that records its input (the crate delegates it to openssl)")
prop("C21", "p21",
     J("h_c21_setup", 0, 1, 2, 3, 10, 11, 12, 13, 100, 200, 300, 400, 500, 600, 1113, 4310, 3003) + J("h_c21_stream", 0, 1, 2, 10, 20, 30) + J("h_c21_wide", 0, 213, 1, 12),
     J("h_c21_setup", *[1000 * d + 100 * l + 10 * m + s for d in (0, 1, 2, 3, 4) for l in range(7) for m in (0, 1) for s in range(4)]) + J("h_c21_stream", 0, 1, 2, 3, 10, 20, 30, 40) + J("h_c21_wide", *[100 * l + 10 * m + s for l in range(7) for m in (0, 1) for s in range(4)]),
     covers=["setup", "stream", "wide"],
     bounds="an error packet in the place of any packet of the server's (greeting, every step of seven kinds of login, every packet of the answers to the queries of the set-up, the dump request, the stream after up to 2 (thorough 3) events), for both providers and every strategy; "
            "codes of up to 4 symbolic digits and six boundary values, with and without SQL state, messages of 0, 1, 6 and 40 symbolic printable characters; five messages with characters of several bytes",
     outside="other message lengths")
prop("C22", "p22",
     J("h_c22_events", 10, 11, 20, 21) + J("h_c22_cut", 0, 13, 102, 3, 111) + J("h_c22_fail", 0, 2, 3, 10, 12, 13) + J("h_c22_refused") + J("h_c22_timeout") + J("h_c22_status") + J("h_c22_big", *range(6)) + J("h_c22_long", 300, 3000, steps=400000000),
     J("h_c22_events", 10, 11, 20, 21, 30, 31) + J("h_c22_cut", *[100 * i + 10 * m + s for i in (0, 1) for m in (0, 1) for s in range(4)]) + J("h_c22_fail", 0, 1, 2, 3, 10, 11, 12, 13)
     + J("h_c22_refused") + J("h_c22_timeout") + J("h_c22_status") + J("h_c22_big", *range(6)) + J("h_c22_long", 300, 1000, 5000, steps=400000000),
     covers=["events", "cut", "failed in the stream", "failed before the stream", "refused", "timeout", "status", "big", "long"],
     bounds="streams of up to 2 (thorough 3) events of nine kinds with symbolic contents, with and without checksums; a whole session in which any two (three) reads and writes are split or interrupted at any byte, "
            "or in which the connection fails at any byte; timeouts of every number of seconds; packets of up to 70000 bytes; a stream of 300 and 3000 (thorough 5000) events of which one is arbitrary",
     outside="packets of 16 MB and more; calling next() again after a connection error; more splits per session")
prop("C23", "p23",
     J("h_c23_template", *range(21)) + J("h_c23_window", *range(1, 142, 10), 151, 52, 72, 112, 132) + J("h_c23_cut", *range(1, 202, 10)) + J("h_c23_short", *range(9))
     + J("h_c23_cell", *[10 * t + n for t in range(31) for n in (0, 1, 2, 3) if (t, n) != (19, 3)]) + J("h_c23_shape", 0, 1, 2, 3) + J("h_c23_text", *range(6)) + J("h_c23_near", 1) + J("h_c23_wide")
     + J("h_c23_file", 100, 103, 104, 0, 10, 19, 25) + J("h_c23_commit", 41, 71, 81, 111, 131),
     J("h_c23_template", *range(21)) + J("h_c23_window", *range(1, 202, 10), 2, 12, 32, 42, 52, 62, 72, 82, 92, 102, 112, 122, 132, 142, 53, 73, 83, 113, 133, time=1500) + J("h_c23_cut", *range(2, 203, 10)) + J("h_c23_short", *range(11))
     + J("h_c23_cell", *[10 * t + n for t in range(31) for n in range(8) if not (t == 19 and n > 3)]) + J("h_c23_shape", 0, 1, 2, 3, 8, 9) + J("h_c23_text", *range(8)) + J("h_c23_near", 1, 2) + J("h_c23_wide")
     + J("h_c23_file", 100, 103, 104, 0, 10, 19, 25, 30) + J("h_c23_commit", 41, 71, 81, 111, 131, 42, 72, 82, 112, 132),
     covers=["template", "window", "cut", "short", "cell", "shape", "text", "near", "wide", "binlog", "not a binlog", "commit"],
     bounds="well-formed events of 21 kinds (tables of 16 columns, full optional metadata) in which any byte (in some kinds any 2, thorough 3 adjacent bytes) is arbitrary, which are cut anywhere or have an arbitrary byte appended; events of any type code with up to 8 (thorough 10) arbitrary bytes; "
            "a cell of every column type with arbitrary metadata and up to 3 (thorough 7) arbitrary bytes (DECIMAL and STRING: chosen metadata); rows events with any column count and bitmaps for tables of up to 3 columns; "
            "texts of up to 5 (thorough 7) ASCII characters, three well-formed texts with any character replaced, non-ASCII characters anywhere; files of up to 25 arbitrary bytes; allocations above 64 KB count as failures",
     outside="malformed input further than this from well-formed input; BinlogReader's buffer for an event, which is as large as its header says")
prop("C25", "p25",
     J("h_c25_end", 0, 1, 10, 11, 31, 40, 50, 90, 100) + J("h_c25_bad") + J("h_c25_reconnect", 0, 1, 10, 20, 21, 31) + J("h_c25_other"),
     J("h_c25_end", *range(0, 101, 10), *range(1, 102, 10)) + J("h_c25_bad") + J("h_c25_reconnect", 0, 1, 10, 11, 20, 21, 30, 31) + J("h_c25_other"),
     covers=["end", "bad", "reconnect", "asks again", "others"],
     bounds="positions of up to 10 digits, of which the last 4 are symbolic, file names of symbolic characters, extra columns; result sets that have no row or unusable cells; up to 3 events before the connection ends and the client connects again",
     outside="MySQL 8.4, which no longer knows `show master status`")
prop("C24", "p24",
     J("h_c24_session", 0, 1100, 10200, 20300, 30000, 41300, 51000, 61100) + J("h_c24_any", 0, 1, 2, 3, 61303, 31203, 41302, 8, 30107) + J("h_c24_window", 1, 2, 1201, 61301, 31201, 51301) + J("h_c24_cut", 1, 31202, 61301, 41101)
     + J("h_c24_size", 0, 61300, 31200) + J("h_c24_order", 2, 61302, 31202) + J("h_c24_two", 2, 61302, 31202) + J("h_c24_text", 0, 61303, 31200),
     J("h_c24_session", 0, 1100, 10200, 20300, 30000, 41300, 51000, 61100) + J("h_c24_any", *[b + n for b in (0, 61300, 31200, 41300, 1200) for n in range(9)], time=900)
     + J("h_c24_window", *[b + n for b in (0, 1200, 61300, 31200, 51300, 41100) for n in (1, 2, 3)]) + J("h_c24_cut", *[b + n for b in (0, 31200, 61300, 41100) for n in (1, 2, 3)])
     + J("h_c24_size", 0, 61300, 31200, 1200, 41100) + J("h_c24_order", *[b + n for b in (0, 31200, 61300, 41100) for n in (1, 2, 3)]) + J("h_c24_two", *[b + n for b in (0, 31200, 61300, 41100) for n in (1, 2, 3)]) + J("h_c24_text", 0, 1200, 1300, 61303, 31200, 41100),
     covers=["any", "window", "cut", "size", "order", "two", "refused", "stream", "text"],
     bounds="sessions of every strategy with seven kinds of login for both providers, followed by three events; any packet replaced by up to 3 (in some sessions 8, thorough always 8) arbitrary bytes, or with any byte or (thorough 3) bytes arbitrary, cut anywhere or extended by up to 2 (3) arbitrary bytes, "
            "with a wrong size, missing, repeated or preceded by another; two arbitrary packets in a row anywhere; allocations above 32 MB count as failures; error packets with characters of two to four bytes, or bytes that are no text, at any of the first 9 places of their text",
     outside="packets of more arbitrary bytes; other error messages that are not printable ASCII; packets that announce more than 64 KB")
prop("C26", "p26",
     J("h_c26_resume", 2, 12, 22, 32, 52, 62, 72, steps=100000000) + J("h_c26_resume", 1, 11, 21, 31, 51, 61, 71, 101, 121, 131, 171, 201, steps=100000000),
     J("h_c26_resume", *[100 * e + 10 * s + 1 for s in (0, 1, 2, 3, 5, 6, 7) for e in (0, 1, 2, 3)], *[100 * e + 10 * s + 2 for s in (0, 1, 2, 3, 5, 6, 7) for e in (0, 1)], steps=100000000)
     + J("h_c26_resume", 3, 13, 33, 73, steps=100000000),
     covers=["start", "position", "end", "MySQL", "MariaDB", "again"],
     bounds="logs of up to 2 (thorough 3) transactions of five kinds (DDL, one and several row events and tables, statement, XA), in one or several files; connections that end after any event, once, and two or three times "
            "with one transaction (thorough two with two); every strategy of both providers; any row values, any 64-bit first MySQL transaction number, any 32-bit first position",
     outside="longer logs; connections that end inside a packet (C22); several sources")
