NOT_APPLICABLE = {}
ENG = ("Every feasible path of the harness and of the real compiled code below it is executed symbolically and each assertion, and the absence of panics, "
       "arithmetic overflow, out-of-bounds accesses and hangs, is decided for all values within the stated bounds; sampled paths are replayed natively and compared. "
       "Trusted: rustc's LLVM IR generation, the engine's IR semantics, Z3. ")


SCHED = ("Threads run under a scheduler of the harness in place of pthreads and futexes, whose choices at every atomic operation and system call are symbolic; memory is sequentially consistent. Bounds: as stated. ")


def P(id, title, statement, over, all, why, files, mech, observe, note=""):
    return dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, observe=observe, note=ENG + note)


B = "src/shared/buffer/buffer.rs"
TP = "src/shared/thread_pool.rs"
US = "src/shared/net/udp_server.rs"
TS = "src/shared/net/tcp_server.rs"
TT = "src/shared/net/traits.rs"
NS_ = "src/shared/net/setup.rs"
CA = "src/resolver/back_end/cache.rs"
RCF = "src/resolver/conf.rs"
NCF = "src/nameserver/conf.rs"
N = "src/shared/dns/name.rs"
R = "src/shared/dns/records.rs"
M = "src/shared/dns/message.rs"
HD = "src/shared/dns/header.rs"
Q = "src/shared/dns/questions.rs"
T = "src/shared/dns/types.rs"
NH = "src/nameserver/handler.rs"
ZP = "src/nameserver/zones/parser.rs"
ZT = "src/nameserver/zones/tokens.rs"
ZA = "src/nameserver/zones/parser_auth.rs"
ZS = "src/nameserver/zones/parser_sub.rs"
ZU = "src/nameserver/zones/utils.rs"
ZE = "src/nameserver/zones/errors.rs"
RC = "src/resolver/back_end/cache.rs"
RR = "src/resolver/back_end/recursive.rs"
RQ = "src/resolver/back_end/requests.rs"
RU = "src/resolver/back_end/utils.rs"
RH = "src/resolver/handler.rs"
PROPS = [
    P("C01", "Bit buffer reads back exactly the bits that were written",
      "The bit buffer behaves as a sequence of bits with one read and one write cursor: a write places exactly the low n bits of its operand, most significant first, overwriting what is under the write cursor and extending the buffer only past its end, and a read returns exactly the next n bits or nothing when fewer remain. "
      "Bytes, 16 and 32 bit integers and byte runs are big-endian runs of bits at any bit offset, truncation cuts at the given bit and pulls the cursors back, and the final byte form pads the last byte with zero bits. No operation disturbs other bits or a cursor it should not move.",
      "inputs,histories", "all contents, lengths in bits, cursor positions and operands, and all short operation sequences",
      "the tests write and read a few fixed values at fixed offsets; unaligned offsets times widths times overwrites cannot be sampled densely",
      [B], [("BitsBuf read/write/truncate", B)], ["BitsBuf public methods"], "Bounds: contents up to 2-3 bytes, one or two operations (any state is a possible start state)."),
    P("C02", "Message headers decode and encode bit for bit",
      "A 12 byte header decodes exactly when its opcode and response code are known (0-2 and 0-5), every field then carries the bits RFC 1035 4.1.1 assigns to it, and encoding the decoded header gives back the same 12 bytes. "
      "Fewer than 12 bytes are rejected, and decoding never reads past the header.",
      "inputs", "all 2^96 headers and all shorter inputs", "the tests hold a handful of headers; a swapped pair of flag bits shows only for some",
      [HD], [("Header::decode_from_buf / encode_to_buf", HD)], ["Header::decode_from_bytes", "Header::encode_to_buf"], "Complete for all headers (no bound)."),
    P("C03", "Decoding arbitrary bytes never crashes and never yields an unusable message",
      "For any byte string, decoding a message, question or record ends with a value or an error: it never panics, overflows, reads out of bounds or loops. "
      "A decoded record's data ends exactly where its length field says, inside the message, and a decoded message has header counts equal to its sections, encodes again in both the plain and the UDP form, and decoding that encoding gives the same questions and records.",
      "inputs", "all byte strings (bounded length), and all small corruptions or truncations of a realistic compressed response",
      "tests decode a few captured packets; hostile packets are a combinatorial space",
      [M, R, Q, N, B], [("Message::decode_from_bytes", M), ("Record::decode_from_buf", R), ("check_end, decode_* helpers", "src/shared/dns/utils.rs")],
      ["Message::decode_from_bytes", "Record::decode_from_buf", "Question::decode_from_buf"],
      "Bounds: record data up to 5-6 arbitrary bytes for every type, questions up to 8-10, records 9-11, message bodies 5-6 arbitrary bytes, a 127 byte response with any 1-2 byte window corrupted and optionally cut."),
    P("C04", "A text name is accepted exactly when it is a valid absolute domain name",
      "A text is accepted as a domain name exactly when it is '.' or a dot-terminated sequence of labels of letters, digits and hyphens, each of 1 to 63 octets beginning and ending with a letter or digit, whose wire form takes at most 255 octets. "
      "An accepted name keeps its text, encodes as length-prefixed labels ended by one zero octet, and decoding that gives back an equal name consuming exactly the encoded octets.",
      "inputs", "all short texts and all label/name lengths around the limits", "the tests list some valid and invalid names",
      [N], [("Name::from_string, to_bytes, from_bytes", N)], ["Name::from_string", "Name::to_bytes", "Name::from_bytes"],
      "Bounds: all UTF-8 texts up to 5-7 bytes; label lengths 1, 61-64 in 1-5 labels; all name lengths 194-256."),
    P("C05", "Compressed names decode as RFC 1035 says and always terminate",
      "A name at any offset of a message decodes to exactly the labels reached by following its length octets and compression pointers, within the 63 and 255 octet limits, and the read position ends just after the name's own octets or its first pointer. "
      "Pointers outside the message, pointer loops, reserved label types, invalid label characters (a dot inside a label included) and names running past the end are rejected, never followed forever and never a crash.",
      "inputs", "all messages and start offsets within the bound", "tests cover a few hand-written pointer layouts",
      [N], [("Name::from_bytes pointer following and jump limit", N)], ["Name::from_bytes"],
      "Bounds: all messages up to 6-7 bytes at every offset; 9-11 bytes over an alphabet of short labels, letters, terminators and pointers; chains beyond 16 pointers are left unspecified (may be rejected)."),
    P("C06", "Records of every supported type round-trip and obey their data length",
      "Encoding a record of any supported type gives owner name, type, class, TTL, data length and data laid out as RFC 1035 3.2-3.4 says with the length field equal to the octets that follow, and decoding gives back the same record. "
      "A record whose length field disagrees with its data is rejected, and a record whose data cannot be represented (character strings over 255 octets, data over 65535 octets) is refused rather than emitted malformed.",
      "inputs", "all field values over several name and string shapes, for every supported type, and all length field values",
      "tests hold one or two records per type",
      [R], [("Record::encode_to_buf / decode_from_buf", R)], ["Record::encode_to_buf", "Record::decode_from_buf"],
      "Bounds: owner/target names of up to 3 short labels with arbitrary characters, up to 3 character strings, WKS bit maps of a few bytes, TXT data around the 65535 limit."),
    P("C07", "Messages keep their sections; unknown record types are skipped cleanly",
      "Encoding a message lays out the header and the question, answer, authority and additional sections in order, each entry intact, and decoding gives the same message. "
      "Entries of unknown type in any section are skipped without disturbing the others, and the header counts of the decoded message describe what was kept.",
      "inputs", "all messages with up to two entries per section, with unknown entries in any position",
      "tests use single captured messages", [M, R, T], [("Message::decode_from_bytes / encode_to_bytes", M), ("RecordType::from_num", T)],
      ["Message::decode_from_bytes", "Message::encode_to_bytes"], "Bounds: 0-2 entries per section, short names with arbitrary characters, any unknown 16 bit type."),
    P("C08", "UDP encoding truncates to 512 octets on an entry boundary and says so",
      "The UDP encoding of a message never exceeds 512 octets, consists of the message's leading entries intact in order with counts describing exactly those, and differs from the original header only in counts and TC. "
      "TC is set if and only if some entry was dropped, and nothing is dropped from a message that fits in 512 octets.",
      "inputs", "all headers and mixes of entry sizes over the sections, every total size around the limit",
      "no test reaches the boundary sizes in each section", [M], [("Message::encode_to_bytes_trunc", M)], ["Message::encode_to_bytes_trunc"],
      "Bounds: up to 3-4 records of four sizes in any sections; every total size in a 60-120 octet range around 512 with the last record in any section; inputs have TC clear."),
    P("C09", "Type, class and opcode tables are consistent; unsupported codes are told apart",
      "Every 16 bit type number, class number and 4 bit opcode is either known, and then its number and mnemonic convert back and forth unchanged with the assignments of RFC 1035, or rejected as unknown. "
      "In questions and records exactly the supported types (A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT) of class IN are accepted; other known codes are reported as unsupported and unknown ones as unknown, with unknown entries consumed.",
      "inputs", "all type, class and opcode numbers", "tests cover the handful of types they use",
      [T, "src/shared/dns/class.rs", HD, Q, R], [("RecordType/Class/OpCode conversions", T)], ["RecordType::from_num/to_num/from_str/to_str", "Class::from_num", "Question::decode_from_buf", "Record::decode_from_buf"],
      "Complete over the code numbers."),
    P("C10", "Every readable nameserver request gets exactly one well-formed matching reply",
      "For every request whose header can be decoded the nameserver sends exactly one reply, and none when not even the header can be read. "
      "The reply carries the request's id, opcode and RD flag, is marked as a response, has RA, Z and TC clear, echoes the single question of an accepted query, and has header counts equal to its sections so that it can always be encoded.",
      "inputs", "all request headers over well-formed, unknown-type, unsupported and cut bodies, and all queries over small zones",
      "no test exercises the request handler",
      [NH, "src/shared/net/traits.rs"], [("handle_dns_request, handle_decode_err, resp_header_from_req_header, reply", NH)], ["NameserverHandler::handle_request", "DnsWrite::reply"],
      "Bounds: up to 2 questions and one record per other section; zones and queries as in C11/C12. The transport's decode step is replicated in the harness."),
    P("C11", "Authoritative answers are exactly what the zone holds",
      "A query for a name in the zone and in no sub zone is answered authoritatively with exactly the records of that name and type, or the name's alias record when only that exists; without either, the answer is empty with the zone's SOA in the authority section, NXDOMAIN only if neither the name nor any name below it exists and NOERROR otherwise. "
      "A name outside the zone is refused without records.",
      "inputs,configurations", "all zones and queries within the bounds, names compared ignoring case",
      "no test exercises the request handler; correctness depends on every combination of zone content and query",
      [NH, ZP], [("handle_query, handle_auth_zone", NH), ("Zone::insert/get/contains_node", ZP)], ["NameserverHandler::handle_request"],
      "Bounds: SOA, NS and 1-3 further records (A, CNAME, TXT) at names 0-2 arbitrary labels below the apex 'z.' or the root; query names up to 3 labels below or outside; six query types. Hash maps are explored with one bucket order."),
    P("C12", "Names in a sub zone are delegated with its NS records and their glue",
      "A query for a name at or below a sub zone's top is answered with a non-authoritative NOERROR delegation: no answers, exactly the NS records of a sub zone containing the name in the authority section, and in the additional section the known sub zone addresses of exactly those nameservers. "
      "Names in no sub zone are never delegated.",
      "inputs,configurations", "all sub zone layouts and queries within the bounds", "no test exercises delegation",
      [NH, ZP], [("handle_subzone, search_a_additionals_for_subzone_ns", NH)], ["NameserverHandler::handle_request"],
      "Bounds: 1-2 sub zones (possibly nested or equal) one or two arbitrary labels below the apex, 1-2 nameservers each, 1-2 glue addresses per nameserver, query names up to 2-3 labels below the apex. With several sub zones containing the name any one of them is accepted."),
    P("C13", "Malformed requests are FORMERR, unsupported features are NOTIMP",
      "A request with an unsupported opcode, a known but unsupported type, or a known but unsupported class is answered NOTIMP; one that is a response, is malformed or cut short, has an unknown class, does not have exactly one question, or carries answers or authorities is answered FORMERR; neither reply carries records. "
      "Entries of unknown type do not make a request malformed, and a well-formed query is never answered with either code.",
      "inputs", "all header values over the listed body shapes", "no test exercises the request handler",
      [NH, M], [("handle_decode_err, validate_dns_request", NH)], ["NameserverHandler::handle_request"], "Bounds: up to 2 questions and one record per other section; cuts of 1-3 octets."),
    P("C14", "Zone membership and name equality are label-wise and ignore case",
      "A name belongs to a zone exactly when the zone's labels are the last labels of the name, compared ignoring ASCII case, every name belonging to the root; only the zone's own name is its top, and a name belongs to the zone itself when it is in it and in none of its sub zones. "
      "Names are equal exactly when their labels are equal ignoring ASCII case, and equal names hash equally.",
      "inputs", "all pairs of names within the bound", "tests compare a few names; string suffixes that are not label suffixes and case differences are not sampled",
      [N], [("Name::is_in_zone, is_in_zone_root, is_only_in_auth_zone, eq, hash", N)], ["Name methods"], "Bounds: names of 0-3 labels (4 in thorough) of one or two characters."),
    P("C15", "Loading zone files never crashes or hangs, whatever they contain",
      "Loading an authoritative zone file, the files it includes and the sub zone files ends, for any file contents, with a zone or an error: never a panic and never an endless loop. A file that cannot be read is an error.",
      "inputs", "all file contents within the bounds", "no test parses a zone file with anything unusual in it; rare characters in rare places matter",
      [ZT, ZA, ZS, ZU, ZP], [("Tokenizer::next and the process_* functions", ZT), ("parse_auth_zone_file, parse_entries, parse_record", ZA)], ["parse_zone_files"],
      "Bounds: up to 3-4 arbitrary bytes as a whole file or at several places, 1-2 arbitrary bytes at any offset of a file using every construct. Files are in-memory; unbounded line lengths, recursive includes (an error once descriptors run out) and megabytes of parentheses on a line are outside."),
    P("C16", "Zone files load into exactly the records they describe",
      "A well-formed authoritative zone file loads into exactly its records: each with its owner (absolute, relative to the current origin, '@' or blank for the origin), its TTL (stated, else inherited from the preceding record of that file, initially the configured one), class IN and data; $ORIGIN and the origin given to $INCLUDE apply to the rest of that file only, and an included file starts from the including file's origin and TTL without changing them. "
      "Entries that are malformed, have an unknown or unsupported type or class, a number out of range, a TTL below the zone's minimum, or an owner or origin outside the zone or inside a sub zone are errors, as is a file that does not start with the zone's SOA or has a second one. Every record that is accepted can be encoded.",
      "inputs,histories", "all generated zone files within the bounds, with arbitrary digits and name characters", "no test parses a zone file; owner, TTL and origin inheritance depend on the history of entries",
      [ZA, ZU, ZT, ZE, ZP], [("parse_entries, parse_record, parse_include, parse_origin, parse_starting_soa_record", ZA), ("adjust_name, parse_ttl_class", ZU)], ["parse_zone_files"],
      "Bounds: after the SOA and NS, up to two full-form records or 2-3 directive/record steps with one (nested) include; 75 kinds of malformed entries. Names that are plain numbers, unquoted numbers as text, '@' as NS/MX target and relative PTR targets are documented limitations. The TTL of a TTL-less record directly after the SOA is unspecified."),
    P("C17", "Zone validation enforces the documented rules on NS and glue records",
      "A configuration of authoritative zone and sub zones loads exactly when: the authoritative file has NS records and all are owned by the zone's top; each sub zone file has NS records, all owned by its top, and otherwise only A records with names in that sub zone and TTLs not below its minimum; each sub zone nameserver named inside a sub zone has an address in that sub zone's file; and each sub zone address belongs to a nameserver some sub zone mentions. "
      "The loaded sub zones hold exactly the records of their files; directives are not allowed there.",
      "configurations", "all combinations of nameserver and address sets within the bounds", "no test loads sub zones",
      [ZP, ZS], [("validate_auth_zone, validate_subzone, search_glue_records, search_referred_ns", ZP), ("parse_sub_zone_file", ZS)], ["parse_zone_files"],
      "Bounds: one or two sub zones 's.z.' and 't.z.', nine sets of nameservers (inside, outside, in the other sub zone, at the top), six sets of addresses, eight authoritative files."),
    P("C18", "Quotes, escapes, parentheses and comments in zone files mean what RFC 1035 says",
      "The data of an entry splits into words at blanks outside quotes; a quoted string may hold blanks, ';' and parentheses; '\\X' stands for X and '\\DDD' for the octet with that decimal value; ';' outside quotes starts a comment up to the end of the line; parentheses join lines. "
      "Unclosed quotes, unbalanced or nested parentheses and incomplete escapes are errors, and text is never misread.",
      "inputs", "all data of up to 4-5 ASCII characters in several surroundings, all escapes", "no test covers the tokenizer; combinations of special characters at line ends matter",
      [ZT, ZU], [("Tokenizer", ZT), ("parse_char_string", ZU)], ["parse_zone_files"],
      "Bounds: 4 (thorough 5) arbitrary ASCII bytes as TXT data. Unquoted numbers, '@', words starting with '$' and escaped blanks outside quotes may be rejected."),
    P("C19", "The cache is a map whose entries vanish exactly when they expire",
      "For any sequence of operations at any times, an entry is found until its time to live has passed since it was set and never at or after that moment; getting, changing, removing or replacing it sees exactly the value last set or changed, and set and remove return the previous value only while unexpired. "
      "Cleaning removes all expired entries and no other, one key never affects another, and no value is kept alive after being removed, replaced or cleaned.",
      "inputs,histories", "all short operation sequences with all TTLs and all times between the operations", "the tests set one entry and wait for it; the exact moment of expiry and the sequences of operations are not sampled",
      [RC], [("Cache::set/get_clone/remove/on_found/clean, is_expired", RC)], ["Cache methods"], "Bounds: 2-3 operations on two keys, TTLs up to 2^32 s; up to 257 keys set, changed, cleaned and read in one order. The clock is a stand-in that any amount of time (never backwards) may pass on between operations. Operations are atomic (one mutex); concurrent use is not explored."),
    P("C20", "Cached records are used while they live, with the remaining TTL, and never after",
      "A later lookup answers with a record obtained earlier only while less than its TTL has passed, and then with a TTL that is the original one less the time passed (of the records of one name and type, the lowest TTL counts for all); unexpired answers are used without asking anyone, and expired ones are asked for again and returned with the fresh data and TTL. "
      "Whatever part of what was cached has expired, a name that can be resolved from the root is resolved.",
      "histories,inputs", "all TTLs of answers, nameservers and addresses, all times between two lookups, five delegation styles", "no test runs two lookups against servers; expiry of some records and not others is a matter of exact times",
      [RR, RC], [("search_records_in_cache, save_records_in_cache, search_nss_in_cache_with_trace", RR)], ["Resolver::new_lookup / Lookup::perform"], "Bounds: two lookups (2 or 11 names and types, then 7 or 11, those of nameservers and their addresses included) in a world of four zones; the servers, the clock and the sockets are stand-ins below the standard library's net and time modules."),
    P("C21", "Only responses to the query sent are believed, and attempts are limited",
      "The resolver takes over records only from a message that comes from the address and port queried, has QR set, the id of the query, and exactly the question asked; anything else is ignored or an error. "
      "A nameserver that gives no usable response is asked again up to the configured number of attempts and never more, then the next one, up to the configured number of nameservers; a usable response is not refused.",
      "inputs,faults", "all header words, ids, questions and sources of the response", "no test feeds the resolver any response",
      [RQ], [("send_query, send_udp_packet, send_query_with_retries", RQ), ("query_nameservers_iteratively", RR)], ["Lookup::perform"], "Bounds: one response then silence, 1-2 attempts and nameservers (silence alone: up to 20 and 7); sizes up to 512 bytes. Datagrams from other sources are dropped by the socket stand-in exactly when the socket was connected. Responses with TC set are taken as complete (a documented limitation), so TC is unconstrained. The random choice of query ids is not judged."),
    P("C22", "Lookups end without a crash whatever nameservers answer",
      "Whatever responses the queried servers give, a lookup ends without panicking after a limited number of queries: alias chains are limited as configured, delegations only ever get closer to the name, and lookups of nameserver names cannot nest or loop without end. "
      "A successful result is a chain of alias records from the name asked, followed by records of the type asked at its end.",
      "inputs,faults", "all combinations of hostile response shapes within the bounds", "no test feeds the resolver any response; a crash or an endless chase needs particular records in particular sections",
      [RR, RQ, RU], [("Lookup::perform_inner, resolve_ns_subquery, query_nameservers_iteratively", RR), ("detect_cname_loops, detect_zones_loop", RU)], ["Lookup::perform"], "Bounds: two servers' responses out of a palette of shapes, then silence; eleven endless strategies. Arbitrary undecodable bytes are C03's."),
    P("C23", "A hostile nameserver cannot affect names outside its zone",
      "Records sent by the nameservers of a zone, for whatever names and in whatever sections, never change what the resolver finds for names outside that zone, now or later from its cache, nor prevent finding it; and no query about a name outside the zone is sent to an address learned only from them.",
      "inputs,histories,faults", "all hostile response shapes within the bounds, followed by lookups of other zones' names", "no test feeds the resolver any response; forged records take effect only in later lookups",
      [RQ, RR], [("extract_next_nss_for_subzone, extract_next_nss_for_cname, extract_ns_addrs", RQ), ("save_records_in_cache, save_nss_in_cache", RR)], ["Lookup::perform"], "Bounds: one hostile zone below honest ones, the same response shape for all queries to it, three delegation styles, six later lookups of names and nameservers outside it."),
    P("C24", "Lookups find exactly what the authoritative servers hold",
      "With servers that answer correctly, a lookup finds for any name and type exactly the records of that type held by the zone the name is delegated to, following aliases from zone to zone and listing them first in order, reports the name as missing exactly if it (or the alias target) does not exist, and returns no records and no error when only the type is missing. "
      "A nameserver that times out, fails, or sends garbage or forged responses does not change the result when another nameserver of the zone or another attempt answers.",
      "inputs,configurations,faults", "all names, types, delegation styles and single faults within the bounds", "no test runs a lookup against servers",
      [RR, RQ, RU], [("Lookup::perform_inner", RR), ("perform_request, extract_*", RQ), ("extract_records, sort_nameservers", RU)], ["Lookup::perform"], "Bounds: root, 't.', 'z.t.', 'u.', 'w.v.' with nameservers inside, in the parent, or elsewhere, with and without addresses in the delegation, one of two possibly without any address; one fault of nine kinds at any of the first 4-8 queries. Larger worlds (24 nested zones, 13 nameservers, 28 records, 32 aliases) one way at a time. Servers are IPv4 stand-ins below std::net."),
    P("C25", "Every readable resolver request gets exactly one well-formed matching reply",
      "For every request whose header can be decoded the resolver sends exactly one reply, and none otherwise; it carries the request's id, opcode and RD flag, is marked as a response with RA set and AA, Z and TC clear, and has header counts equal to its sections so that it can always be encoded. "
      "Malformed requests are answered FORMERR and unsupported features NOTIMP, without records and without asking anyone; valid queries are answered with the question and NOERROR and the records found, NXDOMAIN if the name does not exist, or SERVFAIL if the lookup fails.",
      "inputs,faults", "all request headers over well-formed, unknown-type, unsupported and cut bodies, and valid queries over small worlds with silent or failing servers", "no test exercises the request handler",
      [RH], [("handle_request, handle_query, handle_decode_err, handle_err, resp_header_from_req_header", RH)], ["ResolverHandler::handle_request", "DnsWrite::reply"], "Bounds: up to 2 questions and one record per other section; worlds as in C24. The records sent with NXDOMAIN and the authority and additional sections of answers are not judged."),
    P("C26", "Queries to other servers are well-formed and limited in time",
      "Every query the resolver sends is a single standard query of class IN for the name and type being resolved, without records and with no flags set, sent to port 53 of a nameserver's address, from a socket with the configured send and receive time limits that is closed afterwards. A nameserver that stays silent is asked as often as configured, and as many nameservers as configured.",
      "inputs,faults", "all names, types, responses and faults within the bounds of C21, C22 and C24", "no test observes what the resolver sends",
      [RQ], [("build_dns_request, send_udp_packet", RQ)], ["Lookup::perform"], "Bounds: as C21, C22 and C24. Servers are only asked about names in a zone they serve in the world of C24."),
    P("C27", "Every job given to the thread pool runs once, as soon as a thread is free",
      "Whatever the number of threads and jobs, the times the jobs take and the order in which the threads run, every job given to a pool runs exactly once and to its end, no job waits while a thread of the pool is free, and jobs start in the order given where one thread takes them or time passes between them. "
      "A pool has exactly the number of threads asked for from its creation on; dropping it waits for all jobs given before and for the end of all its threads, without deadlock or panic.",
      "schedules,inputs", "pools of up to 3 threads with up to 3 jobs, short or long, in every schedule with up to 2 deviations from taking turns, and of up to 33 threads with up to 1025 jobs in one schedule", "the tests never use the thread pool",
      [TP], [("ThreadPool::new, ThreadPool::execute, Worker::new, Drop for ThreadPool", TP)], ["ThreadPool::execute", "drop(ThreadPool)"], SCHED + "Jobs that panic are not considered."),
    P("C28", "Every query that comes by UDP is answered to its sender, whatever else comes",
      "Each datagram that reaches the UDP server is given to the handler exactly once, with at most 512 bytes of it, and each reply of the handler is sent once, as one datagram of at most 512 bytes, to the address and port its query came from, cut as a truncated reply where it is longer. "
      "As many requests as there are threads are served at the same time. Errors reported when receiving, datagrams that are no queries, slow requests and running out of file descriptors never end the service and cost at most the request they happen at; sending is limited by the configured timeout.",
      "inputs,schedules,faults", "two datagrams of seven kinds (queries with any id from any address and port, by IPv4 or IPv6, of up to 512 bytes and beyond, replies of three sizes, handlers fast or slow, errors of receiving and sending), one or two threads, three datagrams of two kinds, schedules with two deviations, a query five minutes later, and up to 258 datagrams in one schedule", "no test starts a server",
      [US, TT], [("start_udp_server, UdpRequest, UdpResponse", US)], ["start_servers", "DnsHandler::handle_request"], SCHED + "Sockets are stand-ins below std::net."),
    P("C29", "Every query that comes by TCP is answered on its connection, whatever else comes",
      "However the bytes of a query and its length are split on a TCP connection and however slowly they come within the read timeout, the handler gets exactly the announced bytes, and its reply is sent once on that connection, complete, after its length and truncated only if longer than 65535 bytes; then the connection is closed. As many connections as there are threads are served at the same time. "
      "Clients that stay silent, stop or break off halfway, announce a wrong length or do not take the reply, failing accepts and running out of file descriptors never end the service nor affect other connections; every connection has the configured read and write timeouts and is closed at last.",
      "inputs,schedules,faults", "two connections of nine kinds (every cut of the query into three pieces among those tried, pauses, errors, wrong lengths, replies taken in pieces or refused), one or two threads, replies and queries around 65535 bytes, a connection five minutes later, schedules with one deviation, and up to 258 connections in one schedule", "no test starts a server",
      [TS, TT], [("start_tcp_server, TcpRequest, TcpResponse", TS)], ["start_servers", "DnsHandler::handle_request"], SCHED + "Sockets are stand-ins below std::net. Bytes that follow the announced length are not judged."),
    P("C30", "When one of the two servers ends, the other one and the service end too",
      "When the UDP or the TCP server cannot be set up, whatever address, IPv4 or IPv6, is configured and in whatever order the servers start, the other server is made to stop too and the service is given up after at most about four seconds. "
      "The end of the other server, with the requests under way that take no more than two seconds, is waited for; all threads end and all sockets are closed, requests under way are answered, and nothing panics or blocks forever.",
      "schedules,faults,configurations", "four listening addresses for each server, equal or different ports, either or both servers failing to bind, a request under way that takes 0, 2 or 10 seconds, one or two threads each, and every schedule with one deviation from taking turns", "no test starts the servers",
      [NS_, US, TS], [("start_servers, wake_up_servers", NS_)], ["start_servers"], SCHED + "Sockets are stand-ins below std::net; a wildcard address is reached at itself, as on Linux."),
    P("C31", "A configuration is accepted exactly if it is valid, and read as written",
      "A configuration file of the resolver or of the name server is accepted exactly if it is a JSON object with all settings present and of the right type, numbers within their ranges, literal IP addresses, valid zone names, a known log level, and no thread count, timeout, limit or cache setting of zero; anything else, a file cut short, with something after its end, or not text at all included, is refused with an error and never with a panic. "
      "The settings of an accepted configuration are those of the file.",
      "configurations,inputs", "both kinds of files with any one setting (thorough: any two) missing or replaced by typical or limiting wrong and right texts or arbitrary one or two digit numbers, cut anywhere (128 points), or with appended or non-UTF-8 bytes, with none or two sub zones", "no test reads a configuration",
      [RCF, NCF], [("Conf::from_file, Conf::validate", RCF), ("Conf::from_file, Conf::validate", NCF)], ["resolver::conf::Conf::from_file", "nameserver::conf::Conf::from_file"], "Bounds: as stated; the file system is a stand-in below std::fs. Port 0, unknown settings and duplicated ones are not judged."),
    P("C32", "The programs do what their configuration says",
      "Started with a valid configuration, each program listens by UDP and TCP on the configured addresses and ports with the configured numbers of threads and timeouts and logs at the configured level; the name server answers from the configured zone and sub zone files, with the configured starting TTLs where the files give none, and the resolver asks as many nameservers, as often and for as long, and follows as many aliases as configured, and cleans its cache once per configured period. "
      "Started with another number of arguments than one, a configuration that is missing or not valid, or zone files that are missing or not valid, a program ends with exit code 1 without serving anything.",
      "configurations,faults", "both programs run as a whole, with all combinations of two or three values or an arbitrary digit for each setting, six kinds of wrong files, and servers in the world that are silent, answer or lead into endless aliases", "no test runs the programs",
      ["src/bin/resolver.rs", "src/bin/nameserver.rs"], [("main", "src/bin/resolver.rs"), ("main, process_zones_confs", "src/bin/nameserver.rs")], ["the programs resolver and nameserver"], SCHED + "Sockets, files and exit are stand-ins below std. The settings entries_cleaned and trace_conf are not judged."),
    P("C33", "The cache may be used from several threads, and cleans itself",
      "Operations of several threads on one cache (setting, getting, changing, removing, cleaning) behave as if they were done one after the other in some order, whatever the schedule. "
      "The cleaning thread goes on forever, removes entries at the latest one period after they expire, and never an entry that has not expired.",
      "schedules,histories", "two threads with one or two operations each on two keys that hold nothing, a live or an expired entry, in every schedule with up to 2 deviations from taking turns; up to six entries over three to four steps of the cleaning thread with three periods", "no test uses the cache from several threads or starts its cleaning thread",
      [CA], [("Cache::set, get_clone, remove, on_found, clean, start_clean_routine", CA)], ["Cache"], SCHED),
    P("C34", "Traces tell what a lookup asked and found, and change nothing",
      "With tracing on, the trace of a lookup tells every query sent, with the name asked for and the name of the nameserver, and every record found, whether from a nameserver or from the cache, with the nameservers of every delegation and the addresses given for them; showing it never fails, and it has no color unless configured. "
      "With tracing off there is no trace, and whatever the settings, lookups find the same.",
      "configurations,faults", "all combinations of the trace settings, over lookups with aliases, delegations, missing names, sub lookups, failing servers and cached answers", "no test produces a trace",
      ["src/resolver/back_end/trace.rs"], [("Trace, display_trace_lines", "src/resolver/back_end/trace.rs"), ("Lookup::perform", RR)], ["Lookup::perform", "Display for Trace"], "Bounds: worlds as in C24 with concrete names. The wording of the trace is not judged, but the names and the records (as their Debug form) must appear."),
    P("C35", "Lookups done at the same time share the cache and do not disturb each other",
      "Lookups of several threads with one cache each find exactly what they would find alone and end without a crash, whatever the schedule and however long threads are held up or answers take. "
      "Records that one of them cached may be used by the others while they live: no time to live is ever above the one the server gave, nor reaches further than the record's expiry.",
      "schedules,delays,histories", "two threads doing up to two lookups each, of four names with addresses, an alias or nothing, with any time to live, over a cache that is empty, or holds (fresh or older) the nameserver or the addresses, with answers that take no time or half a second, in every schedule with the stated deviations from taking turns, each of which may also hold the thread up for two seconds", "no test does lookups from several threads",
      [RR, CA], [("Lookup::perform, search_records_in_cache, cache_records", RR), ("Cache::set, get_clone", CA)], ["Lookup::perform"], SCHED),
]
