"""Which harnesses decide which property, with bounds per tier."""

CRATES = ["codec", "ns", "zone", "rsv", "srv"]


def H(crate, name, quick=None, thorough=None, covers=(), bounds="", **kw):
    d = dict(crate=crate, name=name, quick=quick or [[]], thorough=thorough, covers=list(covers), bounds=bounds)
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(harnesses=[
        H("codec", "h_bits", [[2, 1]], [[2, 2], [3, 1]], ["read_bits", "write_bits", "read_bytes", "truncate"],
          "any content up to p0 bytes cut at any bit, any two cursors, p1 arbitrary operations with arbitrary operands"),
        H("codec", "h_bits_long", [[9]], [[11]], ["run", "too long"], "a run of 31 to 511 (p0 = 11: to 8191) bytes at any bit offset, read back from five offsets, then one operation"),
    ]),
    "C02": dict(harnesses=[
        H("codec", "h_header", covers=["decoded", "unknown code"], bounds="all 2^96 headers, 0-2 bytes following"),
        H("codec", "h_header_short", bounds="all inputs shorter than 12 bytes"),
    ]),
    "C03": dict(harnesses=[
        H("codec", "h_any_rdata", [[5]], [[6]], ["ok", "err"], "every supported type, arbitrary class/TTL/RDLENGTH, arbitrary data up to p0 bytes"),
        H("codec", "h_any_question", [[8]], [[10]], ["ok", "err"], "arbitrary bytes, length up to p0"),
        H("codec", "h_any_record", [[9]], [[11]], ["err"], "arbitrary bytes, length up to p0"),
        H("codec", "h_any_message", [[5]], [[6]], ["ok", "err"], "arbitrary id/flags, entries in one section (1, 2 or 65535 announced), arbitrary body up to p0 bytes"),
        H("codec", "h_mutate", [[1, 4]], [[2, 4]], ["ok", "err", "cut"], "a 127 byte compressed response with p0 arbitrary consecutive bytes at any offset >= p1, optionally cut short just after"),
        H("codec", "h_header_short"),
        H("codec", "h_records_rdlength", bounds="every supported type with RDLENGTH off by some amount"),
    ]),
    "C04": dict(harnesses=[
        H("codec", "h_name_unicode", covers=["invalid", "wire"], bounds="14 characters beyond ASCII at four places of labels of 1 to 64 characters"),
        H("codec", "h_name_text", [[5]], [[7]], ["valid", "invalid"], "every UTF-8 text up to p0 bytes"),
        H("codec", "h_name_limits", covers=["valid", "too long"], bounds="1-5 labels with lengths 1, 61-64, of letters, digits or hyphens"),
        H("codec", "h_name_limits2", covers=["within", "beyond"], bounds="every name length from 194 to 256 characters, plain and compressed"),
    ]),
    "C05": dict(harnesses=[
        H("codec", "h_name", [[6]], [[7]], ["ok", "bad"], "every message up to p0 bytes, every start offset"),
        H("codec", "h_name_big", [[9]], [[11]], ["ok", "bad", "deep"], "p0 bytes drawn from short labels, letters, terminators and pointers"),
        H("codec", "h_name_limits2", covers=["within", "beyond"], bounds="names of 194 to 256 characters through a compression pointer"),
    ]),
    "C06": dict(harnesses=[
        H("codec", "h_records", bounds="every supported type; arbitrary integers, addresses, text bytes and label characters; several name and string shapes"),
        H("codec", "h_records_rdlength", bounds="every supported type with RDLENGTH off by some amount"),
        H("codec", "h_wks", bounds="bit maps with arbitrary bytes"),
        H("codec", "h_txt_big", bounds="TXT data sizes around the length field limits"),
        H("codec", "h_records_big", covers=["decoded", "refused"], bounds="names of up to 255 octets, character strings of up to 255 (refused: 256, 300, 510) octets in characters of 1, 2 or 4, up to 256 strings, ports up to 65535"),
    ]),
    "C07": dict(harnesses=[
        H("codec", "h_message", covers=["decoded"], bounds="up to 2 entries in each section"),
        H("codec", "h_message_unknown", covers=["decoded", "skipped"], bounds="0-2 known or unknown entries per section, up to four in all, any unknown type number"),
        H("codec", "h_record_codes", bounds="every 16 bit type and class number"),
        H("codec", "h_many", [[]], [[1]], ["decoded", "dropped", "skipped"], "8 to 257 entries (p0 = 1: or 1000) in any section beside a small one in another, up to two unknown entries of up to 40000 octets"),
    ]),
    "C08": dict(harnesses=[
        H("codec", "h_many", [[]], [[1]], ["decoded", "dropped", "skipped"], "8 to 257 entries (p0 = 1: or 1000) in any section beside a small one in another, up to two unknown entries of up to 40000 octets"),
        H("codec", "h_trunc", [[3]], [[4]], ["fits", "dropped"], "0-1 questions and up to p0 records of four sizes spread over the sections, any header"),
        H("codec", "h_trunc_questions", covers=["fits", "dropped", "exactly 512", "one too many"], bounds="two long questions with every total size from 504 to 515, followed by up to three small records"),
        H("codec", "h_trunc_fine", [[60]], [[120]], ["fits", "dropped", "exactly 512", "one too many"], "every message size around the limit, the last record in any section"),
    ]),
    "C09": dict(harnesses=[
        H("codec", "h_types", covers=["known type", "unknown type", "unknown class"], bounds="every 16 bit type and class number, every 8 bit opcode"),
        H("codec", "h_question_codes", covers=["accepted", "unknown", "unsupported", "class"], bounds="every type and class number in a question"),
        H("codec", "h_record_codes", bounds="every type and class number in a record"),
    ]),
    "C10": dict(harnesses=[
        H("ns", "h_requests", covers=["cut", "format error", "not implemented", "served", "unknown type", "unreadable header"], bounds="any id and flags word; up to 2 questions and 1 record per section, each well-formed, of unknown type, or unsupported; optionally cut short"),
        H("ns", "h_short", bounds="every input shorter than a header"),
        H("ns", "h_answers", [[1, 2]], [[2, 3]], ["answer", "alias", "no data", "nxdomain", "refused"], "as C11"),
        H("ns", "h_delegation", [[1, 2, 1]], [[2, 3, 1]], ["delegated"], "as C12"),
        H("ns", "h_many", [[0, 8]], covers=["answer", "alias", "no data", "nxdomain", "refused", "delegated"], bounds="2 to 257 records, names, nameservers, addresses or sub zones; names of up to 120 labels; any query type", max_instr=200000000),
    ]),
    "C11": dict(harnesses=[
        H("ns", "h_in_zone", [[2]], [[3]], ["inside", "outside", "equal"], "equal names hash equally: two names of 0 to p0 labels of one or two arbitrary letters or digits (the engine gives every key of a hash map the same hash)"),
        H("ns", "h_answers", [[2, 3]], [[3, 3]], ["answer", "alias", "no data", "nxdomain", "refused"], "a zone (z. or the root) with SOA, NS and 1 to p0 records of three types at names 0-2 arbitrary labels below it; any query name up to p1 labels or outside the zone, six types, any id and flags"),
        H("ns", "h_many", [[0, 5]], covers=["answer", "alias", "no data", "nxdomain", "refused"], bounds="2 to 257 records, names, nameservers, addresses or sub zones; names of up to 120 labels; any query type", max_instr=200000000),
    ]),
    "C12": dict(harnesses=[
        H("ns", "h_in_zone", [[2]], [[3]], ["inside", "outside", "equal"], "equal names hash equally: two names of 0 to p0 labels of one or two arbitrary letters or digits (the engine gives every key of a hash map the same hash)"),
        H("ns", "h_delegation", [[2, 2, 1]], [[2, 3, 2]], ["delegated", "glue", "nxdomain"], "1 to p0 sub zones at arbitrary names one or two labels below the zone, 1-2 nameservers each inside any sub zone (with 1-2 glue addresses) or outside; any query name up to p1 labels below the zone"),
        H("ns", "h_many", [[5, 3]], covers=["delegated", "glue", "nxdomain"], bounds="2 to 257 records, names, nameservers, addresses or sub zones; names of up to 120 labels; any query type", max_instr=200000000),
    ]),
    "C13": dict(harnesses=[
        H("ns", "h_requests", covers=["cut", "format error", "not implemented", "served", "unknown type", "unreadable header"], bounds="as C10"),
        H("ns", "h_short"),
    ]),
    "C14": dict(harnesses=[
        H("ns", "h_in_zone", [[3]], [[4]], ["inside", "outside", "equal"], "two names of 0 to p0 labels of one or two arbitrary letters or digits"),
        H("ns", "h_only_in_auth", covers=["own", "not own"], bounds="a name, a zone and up to two sub zones of 1-2 labels each"),
    ]),
    "C15": dict(harnesses=[
        H("zone", "h_any_file", [[3]], [[4]], ["ok", "err"], "up to p0 arbitrary bytes as the whole file, after a valid start, inside TXT data, or inside the SOA"),
        H("zone", "h_mutate_file", [[1]], [[2]], ["ok", "err", "cut"], "a file using every construct with p0 arbitrary bytes inserted or overwritten at any offset, or cut there"),
        H("zone", "h_any_other_file", [[3]], [[4]], ["ok", "err", "included", "sub zone"], "up to p0 arbitrary bytes in an included or sub zone file"),
        H("zone", "h_missing_file", bounds="any one of the files missing"),
    ]),
    "C16": dict(harnesses=[
        H("zone", "h_record", [[0]], [[1]], ["good", "bad", "low TTL", "well-formed"], "8 record kinds x 8 owner forms x 5 TTL/class forms x 4 layouts after 4 kinds of context, with arbitrary digits and label characters, followed by an inheriting record; in zone z. (p0=1: and in the root zone)"),
        H("zone", "h_rdata", covers=["good", "bad", "string too long"], bounds="22 data forms incl. arbitrary name and string characters, size limits; zone z. or the root, two origins"),
        H("zone", "h_sequence", [[3]], [[3]], ["good", "bad", "include"], "p0 steps from 13 kinds of directives, records and fillers, with a (nested) included file"),
        H("zone", "h_numbers", covers=["accepted", "bad"], bounds="decimal fields with up to 11 digits, up to 4 arbitrary, around 0, 2^16 and 2^32"),
        H("zone", "h_long", covers=["good", "bad"], bounds="8 to 257 records, blank lines, blanks, strings, characters, services, origins or octets of a name, up to 17 nested or 20 included files, files of 8 KiB"),
        H("zone", "h_soa", covers=["good", "bad"], bounds="owner, TTL, class, layout and minimum TTL forms of the starting SOA"),
        H("zone", "h_validate", [[1]], covers=["accepted", "delegated name"], bounds="owners and origins inside a sub zone"),
        H("zone", "h_validate_many", covers=["accepted", "rejected"], bounds="as C17, among it names of sub zones in included files", max_instr=200000000),
        H("zone", "h_reject", bounds="75 malformed entries of every kind"),
    ]),
    "C17": dict(harnesses=[
        H("zone", "h_validate", [[1], [2]], covers=["accepted", "rejected", "no auth NS", "low auth NS", "delegated name", "no glue", "no sub NS", "stray address"], bounds="1-2 sub zones, 7-9 sets of nameservers and 4-6 sets of addresses each, in upper or lower case, 10 authoritative files"),
        H("zone", "h_sub_entries", covers=["accepted", "rejected", "low TTL"], bounds="owners, TTL/class forms, layouts with arbitrary digits; every other record type and directive"),
        H("zone", "h_validate_many", covers=["accepted", "rejected"], bounds="up to 17 sub zones with up to 9 nameservers of up to 3 addresses, nothing or one of ten things wrong at the first, middle or last of them", max_instr=200000000),
    ]),
    "C18": dict(harnesses=[
        H("zone", "h_words", [[4, 4]], [[5, 4]], ["accepted", "rejected", "unsupported"], "data of up to p0 arbitrary ASCII bytes, alone, after an opening quote or parenthesis or a word, ending the file or followed by more lines"),
        H("zone", "h_long", covers=["good", "bad"], bounds="8 to 257 records, blank lines, blanks, strings, characters, services, origins or octets of a name, up to 17 nested or 20 included files, files of 8 KiB"),
        H("zone", "h_escapes", covers=["accepted", "rejected", "unsupported"], bounds="every escape of up to 4 ASCII characters, quoted or not"),
    ]),
    "C19": dict(harnesses=[
        H("ns", "h_in_zone", [[2]], [[3]], ["inside", "outside", "equal"], "equal names hash equally: two names of 0 to p0 labels of one or two arbitrary letters or digits (the engine gives every key of a hash map the same hash)"),
        H("rsv", "h_cache", [[2, 2], [3, 1]], [[3, 2]], ["changed", "clean", "expired", "hit", "removed", "replaced"],
          "every sequence of p0 operations (set, get, remove, change, clean) on two keys, any TTL and any time between them (p1 = 2: also half seconds)"),
        H("rsv", "h_cache_many", covers=["cleaned", "hit"], bounds="9, 17, 65 or 257 keys with 1 to 257 different times to live, a third of them removed, replaced, changed or read, times around the first expiries, cleaned or not", samples=20, max_instr=200000000),
    ]),
    "C20": dict(harnesses=[
        H("ns", "h_in_zone", [[2]], [[3]], ["inside", "outside", "equal"], "equal names hash equally: two names of 0 to p0 labels of one or two arbitrary letters or digits (the engine gives every key of a hash map the same hash)"),
        H("rsv", "h_reuse", [[2, 7, 0]], [[11, 11, 1]], ["from cache", "asked", "nxdomain"], "five delegation styles, answers with or without aliased and additional records; one of p0 names and types looked up, then one of p1, any TTLs of the records (two per set) of answers, nameservers and addresses, any time between, data changed in between"),
        H("rsv", "h_world_many", [[0]], covers=["answer", "no data"], bounds="larger worlds, one way at a time: up to 24 nested zones, 13 nameservers of which all but the last fail in one of four ways, 28 records, 32 aliases, labels of 63 characters, 3 zones whose nameservers are elsewhere without addresses; then again from the cache", samples=20, max_instr=200000000),
    ]),
    "C21": dict(harnesses=[
        H("rsv", "h_match", covers=["believed", "refused"], bounds="any id, flags word, question name letter, type, class, source address and port of the response, 0-2 questions, 1-2 attempts and nameservers"),
        H("rsv", "h_size", bounds="good responses of 11 sizes from 100 to 512 bytes"),
        H("rsv", "h_ask", covers=["asked"], bounds="silent servers, up to 20 nameservers and 7 attempts, five kinds of names with arbitrary characters, all types"),
    ]),
    "C22": dict(harnesses=[
        H("rsv", "h_any", [[1, 2, 2, 2]], [[6, 4, 3, 4]], ["resolved", "failed"], "1785-6615 hostile response shapes (denial, aliases, forged, looping and mixed records, referrals anywhere, with or without addresses), followed by p0 others, then silence; 3 names, 4 types; a second lookup later"),
        H("rsv", "h_endless", covers=["ended"], bounds="11 ways of leading the lookup on forever; 1-2 nameservers and attempts, 1-3 aliases allowed"),
    ]),
    "C23": dict(harnesses=[
        H("rsv", "h_poison", [[0, 2, 1]], [[0, 4, 3]], ["resolved", "failed"], "the same hostile response shapes from the servers of a sub zone, reached in p2 delegation styles; eight later lookups in and out of it"),
    ]),
    "C24": dict(harnesses=[
        H("ns", "h_in_zone", [[2]], [[3]], ["inside", "outside", "equal"], "equal names hash equally: two names of 0 to p0 labels of one or two arbitrary letters or digits (the engine gives every key of a hash map the same hash)"),
        H("rsv", "h_world", [[], [4]], [[8]], ["answer", "alias", "no data", "nxdomain"], "five zones, z.t. in five delegation styles and (without faults) four with a nameserver that has no address, any one-letter name in them, alias chains of up to three, four types, alias targets included or not, after another lookup or not; p0: one of nine faults at any of the first p0 queries, with a second server per zone for those that are not retried"),
        H("rsv", "h_world_many", [[0]], covers=["answer", "no data"], bounds="larger worlds, one way at a time: up to 24 nested zones, 13 nameservers of which all but the last fail in one of four ways, 28 records, 32 aliases, labels of 63 characters, 3 zones whose nameservers are elsewhere without addresses; then again from the cache", samples=20, max_instr=200000000),
    ]),
    "C25": dict(harnesses=[
        H("rsv", "h_rsv_requests", covers=["cut", "format error", "not implemented", "served", "unknown type", "unreadable header"], bounds="any id and flags word; up to 2 questions and 1 record per section, each well-formed, of unknown type, or unsupported; optionally cut short"),
        H("rsv", "h_rsv_replies", covers=["answered", "failed", "nxdomain"], bounds="any one-letter name in three zones, four types, five delegation styles, servers silent, failing, refusing, empty or referring up from any of the first three queries on"),
    ]),
    "C26": dict(harnesses=[
        H("rsv", "h_match", covers=["believed", "refused"]),
        H("rsv", "h_world", [[]], [[8]], ["answer", "alias", "no data", "nxdomain"], "as C24"),
        H("rsv", "h_endless", covers=["ended"], bounds="as C22"),
        H("rsv", "h_ask", covers=["asked"], bounds="as C21"),
    ]),
    "C27": dict(harnesses=[
        H("srv", "h_pool", [[3, 3, 2]], [[4, 3, 3]], ["all busy", "concurrent"], "pools of 1 to p1 threads, up to p0 jobs long or short, given at once or one after the other; every schedule with up to p2 deviations from taking turns, at any atomic operation or system call", samples=40),
        H("srv", "h_pool_many", [[5, 7]], covers=["done"], bounds="pools of 1, 2, 3, 8 and 33 threads, up to 1025 jobs at once, all, every second or every sixteenth of them long; one schedule", samples=20),
    ]),
    "C28": dict(harnesses=[
        H("srv", "h_udp", [[2, 0], [3, 0], [2, 2]], [[4, 0], [3, 2]], ["replied"], "p0 datagrams (the first of seven kinds without deviations, the others of two) from any addresses and ports, p1 deviations from taking turns, 1 or 2 threads, fast or slow handler, sending failing once or always", samples=20),
        H("srv", "h_nofds", bounds="1 to 3 requests by UDP or TCP, each hit by a lack of file descriptors or a timeout that cannot be set, and one after them"),
        H("srv", "h_service_many", [[0]], covers=["served"], bounds="up to 258 requests (of one of four kinds, the last a query that comes 2000 s later), at once or one after the other, 1, 2 or 9 threads; one schedule", samples=20),
    ]),
    "C29": dict(harnesses=[
        H("srv", "h_tcp", [[2, 0], [2, 1]], [[3, 0], [2, 2], [3, 1]], ["replied", "refused"], "p0 connections (the first of nine kinds, the others and all with deviations of four kinds) from any addresses and ports, p1 deviations from taking turns, 1 or 2 threads, fast or slow handler", samples=20),
        H("srv", "h_nofds", bounds="1 to 3 requests by UDP or TCP, each hit by a lack of file descriptors or a timeout that cannot be set, and one after them"),
        H("srv", "h_big", covers=["cut", "whole"], bounds="replies of 65253 to 66117 bytes, among them 65535 and 65536, to queries of 21, 5000 or 65535 bytes"),
        H("srv", "h_service_many", [[1]], covers=["served"], bounds="up to 258 connections (of one of five kinds, the last a query that comes 2000 s later), at once or one after the other, 1, 2 or 9 threads; one schedule", samples=20),
    ]),
    "C30": dict(harnesses=[
        H("srv", "h_stop", [[1]], [[2]], ["ended", "request under way"], "four addresses for each server, the same port or two others, 1 or 2 threads, either or both servers failing to bind, no request or one that takes 0, 2 or 10 s, p0 deviations from taking turns", samples=20),
    ]),
    "C31": dict(harnesses=[
        H("srv", "h_conf", [[1]], [[2]], ["accepted", "rejected"], "both kinds of files, p0 settings varied", samples=20),
        H("srv", "h_conf_files", bounds="both kinds of files, missing, cut at 128 points, with five kinds of trailing bytes, or with one byte that is no UTF-8"),
    ]),
    "C32": dict(harnesses=[
        H("srv", "h_main_ns", covers=["served", "refused"], bounds="addresses, ports, threads, log levels from two or three values, timeouts and TTLs from all digits; six kinds of wrong files", argv=["nameserver", "conf.json"], samples=20),
        H("srv", "h_main_ns", [[0]], covers=["refused"], bounds="no argument", argv=["nameserver"]),
        H("srv", "h_main_ns", [[0]], covers=["refused"], bounds="two arguments", argv=["nameserver", "conf.json", "conf.json"]),
        H("srv", "h_main_rsv", covers=["servers", "silence", "aliases", "answered", "refused"], bounds="settings of the servers as for the name server, or those of the resolver from two or three values each; silence, answers or aliases from the root servers", argv=["resolver", "conf.json"], samples=20),
        H("srv", "h_main_rsv", [[0]], covers=["refused"], bounds="no argument", argv=["resolver"]),
        H("srv", "h_main_rsv", [[0]], covers=["refused"], bounds="two arguments", argv=["resolver", "conf.json", "conf.json"]),
    ]),
    "C33": dict(harnesses=[
        H("srv", "h_cache_threads", [[1, 1, 2], [2, 1, 1]], [[2, 1, 2], [2, 2, 1]], ["second before first"], "threads with p0 and p1 operations, two keys, p2 deviations from taking turns", samples=20),
        H("srv", "h_cleaner", [[3]], [[4]], ["cleaned"], "p0 steps, each setting up to two entries with three times to live and waiting a quarter or five quarters of the period", samples=20),
    ]),
    "C34": dict(harnesses=[
        H("rsv", "h_trace", covers=["asked", "cached", "silent", "delegation"], bounds="six lookups, each done twice, in the world of C24 in six delegation styles, with or without one of three faults at the first three queries; every combination of the trace settings"),
        H("rsv", "h_world_many", [[1]], covers=["answer", "no data"], bounds="the larger worlds of C24, verbose or not, without color", samples=20, max_instr=200000000),
    ]),
    "C35": dict(harnesses=[
        H("srv", "h_lookups", [[1, 1, 1], [2, 2, 0]], [[2, 1, 1], [2, 2, 0]], ["done", "from the other", "older"], "threads with p0 and p1 lookups, p2 deviations from taking turns, each of which may hold the thread up for 2 s", samples=20),
    ]),
}
