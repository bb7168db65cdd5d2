#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (their text is kept here)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
sys.dont_write_bytecode = True
from props import PROPS

L = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files], "mechanism": [{"name": a, "where": "src/" + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


PARSE = "EventParser::parse_event, BinlogReader::read_events"
p("C01", "Reading a binlog file yields exactly the events the file contains",
  "For every stream that starts with the binlog magic number, reading yields the events of the stream, in order, each once, with its own header and decoded content, and then ends; a stream without the magic number is rejected. "
  "An event whose content cannot be decoded is reported as an error at its place and the events after it are still delivered; a file that ends in the middle of an event yields every complete event and then ends. "
  "An event length below the size of an event header is reported as an error, never skipped silently.",
  ["inputs", "histories"], "all files (up to the bound), all event kinds and sizes around internal buffer limits, all cut points and positions of an undecodable event",
  "the tests read two recorded files; sizes, cuts and undecodable events are unbounded and never occur in them",
  ["binlog_reader.rs", "events/event_header.rs", "events/event_parser.rs"],
  [("BinlogReader::new checks the magic number", "binlog_reader.rs"), ("BinlogReaderIterator / read_events", "binlog_reader.rs")], ["BinlogReader::read_events"])
p("C02", "Event headers are decoded exactly and every type code is dispatched",
  "The timestamp, type code, server id, event length, next position and flags delivered with an event are exactly the 19 header bytes read as little-endian, for all values; fewer than 19 bytes are an error. "
  "Each event type with a decoder is delivered as that event, and every other type code is delivered as an unknown event whatever its body is, without an error and without disturbing the events around it.",
  ["inputs"], "all 2^152 headers, all 256 type codes", "tests see the handful of headers of two recorded files",
  ["events/event_header.rs", "events/event_type.rs", "events/event_parser.rs"],
  [("EventHeader::parse", "events/event_header.rs"), ("EventType::from_code", "events/event_type.rs"), ("match in parse_event", "events/event_parser.rs")], [PARSE])
p("C03", "The checksum announced by the server is cut off every event, nothing else",
  "A format description event yields its binlog version, server version and checksum algorithm exactly as its writer encoded them, whether or not the server knows checksums; an unsupported algorithm is an error. "
  "From then on, until the next format description, the last four bytes of each event are its checksum, never data, exactly when CRC32 was announced. An event too short to carry its checksum is an error.",
  ["inputs", "histories"], "all numbers of event types a server may list (old and new servers), all version strings, all algorithm bytes, all switches of the mode within a stream",
  "tests read one server version with one setting; the cut-off depends on history", ["events/format_description_event.rs", "events/event_parser.rs", "constants/checksum_type.rs"],
  [("FormatDescriptionEvent::parse", "events/format_description_event.rs"), ("cursor set-up and checksum_type update in parse_event", "events/event_parser.rs"), ("ChecksumType::from_code", "constants/checksum_type.rs")], [PARSE])
p("C04", "A table map describes exactly the columns the server wrote",
  "For every table, the decoded table map has the table id, database and table name, number of columns, and for each column the type, type metadata and nullability which the server encoded, for all column types in any order and for any number of columns.",
  ["inputs"], "all 48-bit ids, all names, all sequences of column types with all metadata values, all null bitmaps", "tests see a few tables; metadata sizes vary per type and any wrong one shifts all later columns",
  ["events/table_map_event.rs", "constants/column_type.rs", "extensions.rs"],
  [("TableMapEvent::parse, parse_metadata", "events/table_map_event.rs"), ("read_bitmap_little_endian, read_len_enc_num", "extensions.rs")], [PARSE])
p("C05", "Optional table metadata is decoded exactly",
  "When a table map carries optional metadata (signedness, default charsets, column charsets, column names, set and enum values, geometry types, primary keys with and without prefixes, enum and set charsets, visibility), each field is decoded to exactly what the server wrote, in any order and combination of fields; a table map without it has none.",
  ["inputs"], "all fields, their combinations and orders, all values and encodings of lengths", "tests see one combination", ["metadata/table_metadata.rs", "metadata/default_charset.rs", "metadata/metadata_type.rs", "extensions.rs"],
  [("TableMetadata::parse", "metadata/table_metadata.rs"), ("read_bitmap_big_endian", "extensions.rs")], [PARSE])
p("C06", "Rows events yield exactly the rows they contain, every cell in its column",
  "A write, update or delete rows event (versions 1 and 2) yields its table id, flags, column count, column-presence bitmaps and all its rows in order, before and after images paired; the cell of each column that is present and not NULL holds that column's value, and every other cell is empty.",
  ["inputs"], "all combinations of present columns and NULLs, all numbers of rows and columns up to the bound, all values", "tests have fixed row images; presence and NULL bitmaps interact (the NULL bitmap counts present columns only)",
  ["events/row_events/row_parser.rs", "events/row_events/write_rows_event.rs", "events/row_events/update_rows_event.rs", "events/row_events/delete_rows_event.rs"],
  [("parse_head, parse_row_data_list, parse_update_row_data_list, parse_row", "events/row_events/row_parser.rs")], [PARSE])
p("C07", "Numeric, string, binary, BIT, ENUM, SET and YEAR cells are decoded exactly",
  "For every column of one of these types and every value it can store, the delivered cell holds exactly that value: integers as their stored bit pattern in the type's width, floats bit for bit, strings and blobs byte for byte whatever the declared maximum length, BIT as its bits, ENUM and SET as their index or bit set, YEAR as the year including the zero year.",
  ["inputs"], "all bit patterns of fixed-size values, all declared sizes and stored lengths around the one/two-byte length limits", "tests hold a few rows; length encodings depend on the declared size",
  ["events/row_events/col_parser.rs", "events/row_events/row_parser.rs", "events/row_events/actual_string_type.rs"],
  [("parse_* functions", "events/row_events/col_parser.rs"), ("parse_cell", "events/row_events/row_parser.rs"), ("get_actual_string_type", "events/row_events/actual_string_type.rs")], [PARSE])
p("C08", "Temporal cells are decoded exactly",
  "For every DATE, TIME, DATETIME and TIMESTAMP value (TIME not negative), in the old and the new storage format and with any fractional precision 0 to 6, the delivered cell holds exactly the stored year, month, day, hour, minute, second and milliseconds (fractions truncated to milliseconds).",
  ["inputs"], "all values, all precisions", "tests hold a few rows", ["events/row_events/col_parser.rs"],
  [("parse_date, parse_time, parse_date_time, parse_timestamp and their *2 forms, parse_fractional_part", "events/row_events/col_parser.rs")], [PARSE])
p("C09", "DECIMAL cells are delivered as the exact decimal text of the stored value",
  "For every precision 1..65 and scale 0..30 not above it, and every value, the delivered text is the value's sign, integer digits without leading zeros (one zero if there are none) and exactly as many fractional digits as the scale.",
  ["inputs"], "all 1551 pairs of precision and scale, all digits, both signs", "tests try a handful of values; each pair has its own split into groups of nine digits",
  ["events/row_events/decimal.rs"], [("parse_decimal", "events/row_events/decimal.rs")], [PARSE])
p("C10", "Rows are decoded with the most recent table map of their table id",
  "A rows event is decoded with the last table map seen before it whose table id is equal to its own, whatever other tables were mapped, remapped or used in between; a rows event whose table id was never mapped is an error and does not disturb later events.",
  ["histories"], "all histories of table maps, redefinitions and rows events up to the bound, all ids", "tests read one history", ["events/event_parser.rs", "events/row_events/row_parser.rs"],
  [("table_map of EventParser", "events/event_parser.rs"), ("lookup by id in the rows events", "events/row_events/write_rows_event.rs")], [PARSE])
p("C11", "Rotate, heartbeat, query, XID, INTVAR, USER_VAR and rows-query events are exact",
  "Every field of these events (file names, positions, thread ids, durations, error codes, status variables, database names, SQL texts, transaction ids, variable types, names and text values) is delivered exactly as the server wrote it, for all values and lengths; a NULL user variable is delivered without a value.",
  ["inputs"], "all field values, all lengths up to the bound", "tests read a few events", ["events/rotate_event.rs", "events/heartbeat_event.rs", "events/query_event.rs", "events/xid_event.rs", "events/intvar_event.rs", "events/uservar_event.rs", "events/rows_query_event.rs"],
  [("parse of each event", "events/query_event.rs"), ("read_string and others", "extensions.rs")], [PARSE])
p("C12", "Events that carry GTIDs are decoded exactly",
  "MySQL GTID events yield the flags, source uuid and transaction number, previous-GTIDs events the exact set of transactions, MariaDB GTID events the domain, server, sequence number and flags, and MariaDB GTID lists all their entries in order, for all values.",
  ["inputs"], "all uuids and 64-bit numbers, all sizes up to the bound", "tests read a few events", ["providers/mysql/events/gtid_event.rs", "providers/mysql/events/prev_gtids_event.rs", "providers/mariadb/events/gtid_event.rs", "providers/mariadb/events/gtid_list_event.rs"],
  [("parse of each event", "providers/mysql/events/gtid_event.rs")], [PARSE])
p("C13", "Committing moves the resume file and position only to restartable points",
  "After committing any sequence of events the options hold the file and position to resume from: a rotation sets both as it says; a table map, or a rows event that does not end its statement, moves nothing, since the rows after it need the table map; every other event moves the position to the end position in its header, or leaves it when that is zero. "
  "The file name changes only by rotations, and this holds for every starting strategy.",
  ["histories", "inputs"], "all sequences of events of all kinds up to the bound, all header values, all starting strategies", "no test commits; the property is about every prefix of every history",
  ["binlog_client.rs"], [("update_binlog_position", "binlog_client.rs")], ["BinlogClient::commit, BinlogClient::options"])
p("C14", "The committed MySQL GTID set has a transaction exactly once it is complete",
  "When replication started from a GTID set, committing the events of a stream adds a transaction's GTID exactly when its last event is committed (XID, COMMIT or ROLLBACK, XA PREPARE, XA COMMIT or ROLLBACK, or the single statement of an auto-committed transaction such as DDL), and not before, so an interrupted transaction is sent again and a complete one is not; with other strategies the set is untouched. "
  "Starting replication again, or the GTID of another transaction, forgets a half-read transaction.",
  ["histories", "crash_points"], "all sequences of committed events up to the bound, i.e. every point at which the client may stop and resume; all GTIDs", "no test commits; every prefix of every history is a resume point",
  ["binlog_client.rs", "providers/mysql/gtid/gtid_set.rs"], [("update_gtid_position, commit_gtid", "binlog_client.rs"), ("reset in replicate", "binlog_client.rs")], ["BinlogClient::commit, BinlogClient::options"])
p("C15", "The committed MariaDB GTID list has, per domain, the last complete transaction",
  "When replication started from a MariaDB GTID list, committing the events of a stream sets a domain's entry to a transaction's GTID exactly when the last event of its group is committed (XID, COMMIT or ROLLBACK, or the single statement of a standalone group), and not before; other domains' entries are kept, and with other strategies the list is untouched.",
  ["histories", "crash_points"], "all sequences of committed events up to the bound; all domains, servers, sequence numbers and flags", "no test commits; every prefix of every history is a resume point",
  ["binlog_client.rs", "providers/mariadb/gtid/gtid_list.rs"], [("update_gtid_position, commit_gtid", "binlog_client.rs"), ("GtidList::add_gtid", "providers/mariadb/gtid/gtid_list.rs")], ["BinlogClient::commit, BinlogClient::options"])
p("C16", "Adding a transaction to a GTID set is exact set union and stays canonical",
  "Adding a GTID to a set reports whether it is new; afterwards the set contains exactly the transactions it had and the added one, as sorted, disjoint, non-adjacent intervals, for every set, every 64-bit number and every order of additions; other sources are untouched.",
  ["histories", "inputs"], "all canonical sets up to the bound, all numbers, hence all orders of additions", "tests add a few numbers in a few orders", ["providers/mysql/gtid/uuid_set.rs", "providers/mysql/gtid/gtid_set.rs"],
  [("UuidSet::add_gtid, collapse_intervals", "providers/mysql/gtid/uuid_set.rs"), ("GtidSet::add_gtid", "providers/mysql/gtid/gtid_set.rs")], ["GtidSet::add_gtid"])
p("C17", "MySQL GTID set text is parsed to the set it denotes and printed canonically",
  "Parsing the text of a GTID set yields exactly the union of the listed intervals per source, whatever their order, overlap or repetition, the case of the uuids and the white space around commas; printing a set yields its canonical text (sources in order, merged sorted intervals, single numbers without a dash), and parsing that text gives the same set.",
  ["inputs"], "all texts and sets up to the bound", "tests try a few texts", ["providers/mysql/gtid/gtid_set.rs", "providers/mysql/gtid/uuid_set.rs", "providers/mysql/gtid/uuid.rs", "providers/mysql/gtid/interval.rs"],
  [("GtidSet::parse, Display", "providers/mysql/gtid/gtid_set.rs"), ("UuidSet::new", "providers/mysql/gtid/uuid_set.rs"), ("Uuid::parse, Uuid::new", "providers/mysql/gtid/uuid.rs")], ["GtidSet::parse, to_string"])
p("C18", "MariaDB GTID list text and additions keep exactly one entry per domain",
  "Parsing the text of a MariaDB GTID list yields exactly the listed domain-server-sequence triples and printing gives that text back; a domain listed twice is rejected. Adding a GTID replaces the entry of its domain, or adds one if the domain is new, reports which, and leaves all other domains untouched.",
  ["inputs", "histories"], "all texts, lists and additions up to the bound, all 32 and 64-bit values", "tests try a few texts", ["providers/mariadb/gtid/gtid_list.rs", "providers/mariadb/gtid/gtid.rs"],
  [("GtidList::parse, add_gtid, Display", "providers/mariadb/gtid/gtid_list.rs")], ["GtidList"])
p("C19", "Replication is requested from the server exactly as configured",
  "For every configuration, the commands sent after authentication are exactly those the MySQL or MariaDB replication protocol prescribes: heartbeat period, checksum negotiation, on MariaDB the slave capability and for GTIDs the connect state and registration, then one dump request carrying the configured file name, position, server id (zero when not blocking) and, for MySQL GTIDs, the complete set; the file and position of the options are sent as they are, except that a MySQL GTID request names no file, so that the server starts at the first missing transaction. "
  "Each command is one packet with sequence number 0, sent after the previous one was answered.",
  ["configurations", "inputs"], "all positions, server ids, heartbeat intervals, file names and GTID sets up to the bound, both providers, all starting strategies, blocking or not", "tests have no server",
  ["binlog_client.rs", "configure.rs", "commands/dump_binlog_command.rs", "commands/dump_binlog_gtid_command.rs", "commands/register_slave_command.rs", "providers/mysql/mysql_provider.rs", "providers/mariadb/mariadb_provider.rs"],
  [("BinlogClient::replicate", "binlog_client.rs"), ("set_master_heartbeat, set_master_binlog_checksum", "configure.rs"), ("replicate_mysql", "providers/mysql/mysql_provider.rs"), ("replicate_mariadb", "providers/mariadb/mariadb_provider.rs")], ["bytes sent on the connection"])
p("C20", "Authentication answers every handshake the way the protocol prescribes",
  "For every server handshake with a supported plugin, user, password and optional database, the login packet carries the client's capabilities, user, database, plugin and the challenge response computed from the server's full scramble (empty for an empty password); a request to switch the plugin, the fast and the full caching_sha2 exchange are answered with the correct packets and sequence numbers, and login is complete exactly when the server says so. "
  "A plugin that is not supported is an error before anything is sent.",
  ["inputs", "histories"], "all scrambles, users, passwords and databases up to the bound, all sequence numbers, all server answers of the exchange", "tests have no server", ["connect.rs", "responses/handshake_packet.rs", "responses/auth_switch_packet.rs", "commands/authenticate_command.rs", "commands/auth_plugin_switch_command.rs", "extensions.rs"],
  [("connect, authenticate, handle_auth_plugin_switch, authenticate_sha_256", "connect.rs"), ("HandshakePacket::parse", "responses/handshake_packet.rs"), ("encrypt_password", "extensions.rs")], ["bytes sent on the connection"])
p("C21", "An error packet from the server at any step is reported and stops the session",
  "If the server answers any step of connecting, authenticating, configuring or requesting the stream with an error packet, starting replication fails with an error that contains the server's error code and message, and nothing more is sent; an error packet inside the event stream is delivered as an error with the code and message.",
  ["fault_sequences", "histories"], "every step of every kind of session at which the server can answer with an error, all codes and messages up to the bound", "tests have no server", ["connect.rs", "configure.rs", "binlog_events.rs", "responses/error_packet.rs", "extensions.rs"],
  [("check_error_packet", "extensions.rs"), ("ErrorPacket::parse", "responses/error_packet.rs"), ("read_error", "binlog_events.rs")], ["BinlogClient::replicate, BinlogEvents::next"])
p("C22", "The network stream is delivered completely, in order, whatever the fragmentation",
  "After the dump request every event packet the server sends is delivered in order, each once, with its header and content, however the bytes are split over reads and writes; the end-of-file packet ends the stream, an unknown status byte is an error, and when the connection closes, resets or stays silent longer than heartbeat interval plus ten seconds the reader gets an error rather than hanging or inventing data.",
  ["schedules", "fault_sequences", "histories"], "all fragmentations of reads and writes up to the bound, all points at which the connection may fail, all heartbeat intervals", "tests have no server", ["packet_channel.rs", "binlog_events.rs"],
  [("read_packet, write_packet, set_read_timeout", "packet_channel.rs"), ("BinlogEvents::next", "binlog_events.rs")], ["BinlogEvents::next"])
p("C23", "Malformed events and texts give errors, never a panic, hang or huge allocation",
  "Whatever bytes an event consists of, and whatever text is given as a GTID set or list, decoding returns an event or an error: it does not panic, loop without consuming input, or allocate memory out of proportion to the input.",
  ["inputs"], "all byte strings up to the bound as bodies of every event kind, rows events under every table definition of the bound, all texts up to the bound", "tests use well-formed input only", ["events/event_parser.rs", "events/row_events/row_parser.rs", "events/table_map_event.rs", "metadata/table_metadata.rs", "extensions.rs"],
  [("length checks of all decoders", "extensions.rs")], [PARSE, "GtidSet::parse, GtidList::parse"])
p("C24", "Malformed server packets give errors, never a panic, hang or huge allocation",
  "Whatever packets the server sends at any step of the session (handshake, authentication, command answers, result sets, event stream), the client returns a result or an error: it does not panic or loop without consuming input.",
  ["inputs", "fault_sequences"], "all packet contents up to the bound at every step", "tests have no server", ["connect.rs", "configure.rs", "binlog_events.rs", "responses/handshake_packet.rs", "responses/auth_switch_packet.rs", "responses/error_packet.rs", "responses/result_set_row_packet.rs"],
  [("parse of each response", "responses/handshake_packet.rs"), ("check_error_packet", "extensions.rs")], ["BinlogClient::replicate, BinlogEvents::next"])
p("C25", "Starting from the end begins at the server's reported position, once",
  "With the start-from-end strategy and no file name yet, the client asks the server for its current position, stores the reported file and position in its options and requests the stream from exactly there; on a reconnect, when a file name is known, it does not ask again but resumes from the committed file and position. Other strategies never ask, and a status that is missing or incomplete is an error.",
  ["histories", "inputs"], "all reported files and positions up to the bound, all result sets of the bound, reconnects after any committed position", "tests have no server", ["configure.rs", "responses/result_set_row_packet.rs"],
  [("adjust_starting_position, read_result_set", "configure.rs"), ("ResultSetRowPacket::parse", "responses/result_set_row_packet.rs")], ["BinlogClient::options, bytes sent on the connection"])

p("C26", "Reconnecting loses no event and repeats only what was not committed",
  "When a client commits each event it has processed and starts replication again whenever its connection ends, the sessions together deliver every event of the server's log from the starting point on, in order and decoded, and in the end the committed state names the end of the log. "
  "With a file and position, each place asked for is the start of an event, nothing before it is unprocessed, and the only events sent again are those of a statement that was not complete, or descriptions of the file. "
  "With GTIDs, exactly the transactions that were not processed to their end are sent again, whole.",
  ["histories", "crash_points"], "all logs of the bound, all points at which connections end, all starting strategies and both providers", "tests have no server; the guarantee is a composition of committing, requesting and decoding over several connections",
  ["binlog_client.rs", "configure.rs", "binlog_events.rs", "events/event_parser.rs", "providers/mysql/mysql_provider.rs", "providers/mariadb/mariadb_provider.rs"],
  [("commit, update_gtid_position, update_binlog_position", "binlog_client.rs"), ("replicate", "binlog_client.rs"), ("replicate_mysql", "providers/mysql/mysql_provider.rs"), ("replicate_mariadb", "providers/mariadb/mariadb_provider.rs"), ("table_map in EventParser", "events/event_parser.rs")],
  ["BinlogClient::replicate, commit, options, bytes sent on the connections"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in L:
        f.write(json.dumps(x) + "\n")

checks = []
for x in L:
    if x["id"] not in PROPS:
        continue
    q = PROPS[x["id"]]
    checks.append({
        "property": x["id"], "quick_cmd": "bin/check %s quick" % x["id"], "thorough_cmd": "bin/check %s thorough" % x["id"],
        "technique": "symbolic execution of the compiled crate (rustc -> WebAssembly) with z3 deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Holds for all values within these bounds: " + q["bounds"] + (". Outside: " + q["outside"] if q["outside"] else "") +
                      ". Trusts rustc's wasm64 code generation, z3 and the engine's WebAssembly semantics; path witnesses are replayed on the native build with equal observations, and a violation is reported only after it reproduced there."})
NA = [{"property": x["id"], "reason": "check not built yet"} for x in L if x["id"] not in PROPS]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": NA,
           "notes": "No hooks in /repo: the harness crate uses the public API only. Commits in /repo are repairs of defects, listed in known_findings.json."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
for x in L:
    assert len(x["title"]) <= 80, x["id"]
print(len(L), "properties", len(checks), "claimed")
