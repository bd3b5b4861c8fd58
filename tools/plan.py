"""Which harnesses decide which property: (harness, tier[, quick harness it replaces]); q = quick and thorough, t = thorough only,
e = thorough only, in the build with every public parser."""

LEX_BOUND = ("symbolic source bytes: all byte strings of up to 3 (thorough 4) characters over the 128 ASCII codes; every keyword with every "
             "two-character neighbourhood and one-character change; numbers, hex literals, ByStr widths, strings and comments with up to 5 symbolic "
             "bytes; every two-byte UTF-8 sequence in 25 contexts, every three-byte one in 2 (thorough 25), four-byte ones of all 256-character blocks (thorough all); texts of up to 70 tokens and "
             "3 lines with symbolic separators; one symbolic byte behind 65535 spaces, newlines, letters or comment characters")
TOK_BOUND = ("symbolic token kinds: windows of 3 (thorough 4) tokens of all 60 kinds, end of input included, after each of the 235 shortest "
             "prefixes reaching every dot position of every alternative of the reference grammar, followed by the shortest completion; every repetition of the grammar up to 33 times with one symbolic token "
             "behind it (thorough 129, two), and 65, 129 and 257 times without")
LEX = [("lx_free2", "q"), ("lx_free3", "q"), ("lx_free4", "t", "lx_free3"), ("lx_keyword", "q"), ("lx_keyword_near", "q"),
       ("lx_keyword_pair", "q"), ("lx_number", "q"), ("lx_string", "q"), ("lx_comment", "q"), ("lx_utf8", "q"), ("lx_three", "q"), ("lx_three_all", "t", "lx_three"), ("lx_four", "q"), ("lx_four_all", "t", "lx_four"),
       ("lx_utf8_pairs", "q"), ("lx_long", "q"), ("lx_far", "q"), ("lx_lines2", "q"), ("lx_lines", "t", "lx_lines2")]
WIN = [("w_program", "q"), ("w_many", "q"), ("w_type", "q"), ("w_all3", "q"), ("w_all4", "t", "w_all3"), ("w_repeat", "q"), ("w_repeat2", "t", "w_repeat")]

IFACE = [("w_many", "q"), ("w_all3", "q"), ("w_all4", "t", "w_all3"), ("w_types3", "q"), ("w_types4", "t", "w_types3"), ("g_types3", "q"), ("g_types4", "t", "g_types3"),
         ("w_repeat", "q"), ("w_repeat2", "t", "w_repeat"), ("t_names", "q"), ("t_types", "q"), ("t_repeated", "q"), ("t_alias", "q"), ("t_alias_all", "t"), ("t_long", "q"), ("t_deep", "q"), ("t_deep2", "t", "t_deep")]
PRINT = [("w_all2", "q"), ("w_types3", "t"), ("g_types3", "q"), ("g_types4", "t", "g_types3"), ("w_repeat", "q"), ("t_types", "q"), ("t_deep", "q"), ("t_deep2", "t", "t_deep")]
VISIT = [("w_many", "q"), ("v_plain", "q"), ("v_one", "q"), ("v_two", "t", "v_one"), ("w_visit1", "q"), ("w_all2", "q"), ("w_repeat", "q")]

GAP = [("g_gap", "q"), ("g_gap_small", "q"), ("g_gap_deep", "t"), ("g_none", "q"), ("g_all", "q"), ("g_pair", "q"), ("g_pair3", "t", "g_pair")]
GAP_BOUND = ("symbolic gaps: every gap of 1 and 2 ASCII bytes and every comment with one symbolic byte at each of the 207 positions of a program with "
             "every kind of token, and longer gaps (24 odd comments, 11 wide spaces, 15 to 255 characters; thorough 3 symbolic bytes) in four more "
             "programs, three of them rejected; no gap wherever the tokens stay apart; the same gap everywhere; every ordered pair of 82 token spellings")

CRASH = [("x_free3", "q"), ("x_hole", "q"), ("x_hole_all", "t"), ("x_hole2", "q"), ("x_byte", "q"), ("x_byte_all", "t"), ("x_cut", "q"), ("x_cut_all", "t"),
         ("x_wide", "q"), ("x_longwide", "q"), ("x_deep", "q"), ("x_deep_more", "t", "x_deep"), ("lx_free3", "q"), ("lx_free4", "t", "lx_free3"), ("lx_number", "q"),
         ("lx_string", "q"), ("lx_comment", "q"), ("lx_utf8", "q"), ("lx_utf8_pairs", "q"), ("lx_long", "q"),
         ("w_all3", "q"), ("w_all4", "t", "w_all3"), ("w_types3", "q"), ("w_types4", "t", "w_types3"), ("w_repeat", "q"), ("w_visit1", "q"),
         ("f_bytes", "q"), ("f_nul", "q")]
CRASH_BOUND = ("symbolic source texts: up to 3 free ASCII bytes alone; one or two symbolic bytes in place of, or after, each token and one at every byte of two "
               "programs (180 and 690 bytes), also cut off at every byte; 18 multi-byte characters at every byte; 22 constructs nested or repeated up to 33 "
               "(thorough 128) times, closed once too few or too often; plus the token windows and lexer texts of C02 and C09, each followed by the "
               "interface emitter and by printing every type or the error")
FILES = [("f_calls", "q"), ("f_calls2", "t", "f_calls"), ("f_bytes", "q"), ("f_bytes2", "t"), ("f_bytes3", "t"), ("f_large", "q"), ("f_huge", "q"), ("f_edge", "q"), ("f_huge2", "t"), ("f_names", "q"), ("f_nul", "q")]
PURE = [("p_history1", "q"), ("p_variant", "q"), ("p_inplace", "q"), ("p_many", "q"), ("p_swap", "q"), ("p_count", "q"), ("p_history2", "t", "p_history1")]
EQ = [("q_types1", "q"), ("q_types2", "q"), ("q_deep1", "q"), ("q_deep2", "t", "q_deep1"), ("q_long", "q"), ("q_order", "q"), ("q_fields", "q"), ("q_transitions", "q"), ("q_contracts", "q"), ("q_build", "q"), ("q_many", "q"), ("q_print", "q")]

FILES_BOUND = ("a symbolic operating system under std's own file code: two contents read with one (thorough three) deviating system calls among open, stat and "
               "the first two reads - every short read length, EINTR, ENOENT, EACCES, EIO, EISDIR, EMFILE - and six reported sizes; one (thorough two to four) "
               "symbolic content bytes, all 256 values each, at five places, whole or split at any of them; files of up to 12 KB in pieces, of 8, 65 and 128 KB (thorough 1.2 MB) around one comment, of 18 to 66 KB of multi-byte characters across every offset; eight kinds of path; "
               "paths with a NUL byte")
PURE_BOUND = ("nine sources parsed before and after one (thorough two) of 18 other sources with symbolic bytes in them, at the same, another and an inner "
              "address; one symbolic byte changed at every position of a program, at a new address and in place, and two exchanged; up to 1100 repetitions")
EQ_BOUND = ("types of depth 1 with symbolic names, widths (64 bits) and leaves against each other, paths of 1 (thorough 2) constructors with every leaf, lists of "
            "up to 2 symbolic fields and of up to 17 fixed ones rearranged, names of up to 66 bytes with one symbolic byte at ten places, 72 types that print alike against each other and against names a symbolic byte away, up to 1025 pushes, 4 of them of "
            "symbolic fields")

ENTRY = [("w_entry2", "e")]
TEXT_T = [("z_alias", "q"), ("z_alias_all", "t"), ("z_hole_all", "t"), ("z_hole2", "t"), ("z_byte_all", "t"), ("z_cut_all", "t"), ("z_wide1", "q"), ("z_wide", "t"), ("z_deep", "t")]
TEXT_BOUND = ("; (thorough: two symbolic tokens behind each of 4740 prefixes of the 52 public parsers); source texts with one symbolic byte (thorough 2) in place of, "
              "after or between the tokens of a program, read by tokenizer and parser together")

PLAN = {
    "C01": dict(harness=CRASH, bounds=CRASH_BOUND, reach=[101, 102]),
    "C13": dict(harness=FILES, bounds=FILES_BOUND, reach=[1301, 1302, 1303, 1304, 1305]),
    "C15": dict(harness=PURE, bounds=PURE_BOUND, reach=[1501, 1502, 1503, 1504, 1505, 1506, 1507]),
    "C16": dict(harness=EQ, bounds=EQ_BOUND, reach=[1601, 1602, 1603, 1604, 1605, 1606, 1607]),
    "C02": dict(harness=LEX, bounds=LEX_BOUND),
    "C03": dict(harness=LEX, bounds=LEX_BOUND),
    "C04": dict(harness=LEX, bounds=LEX_BOUND),
    "C05": dict(harness=GAP, bounds=GAP_BOUND, reach=[501, 502, 503]),
    "C06": dict(harness=IFACE, bounds=TOK_BOUND, reach=[601, 602]),
    "C07": dict(harness=IFACE, bounds=TOK_BOUND, reach=[601, 602]),
    "C08": dict(harness=IFACE, bounds=TOK_BOUND, reach=[801]),
    "C11": dict(harness=VISIT, bounds=TOK_BOUND, reach=[1101, 1102, 1103] + list(range(1110, 1156))),
    "C12": dict(harness=PRINT, bounds=TOK_BOUND, reach=[1201]),
    "C09": dict(harness=WIN + ENTRY + [("z_free3", "q"), ("z_hole", "q"), ("z_byte", "q"), ("z_cut", "q")] + TEXT_T, bounds=TOK_BOUND + TEXT_BOUND, reach=[1, 2, 3, 5]),
    "C10": dict(harness=WIN + ENTRY + [("z_hole", "q"), ("z_byte", "q"), ("z_cut", "t")] + TEXT_T, bounds=TOK_BOUND + TEXT_BOUND, reach=[1, 5]),
    "C14": dict(harness=WIN + ENTRY + [("z_free3", "q"), ("z_hole", "q"), ("z_cut", "q"), ("z_byte", "t")] + TEXT_T, bounds=TOK_BOUND + TEXT_BOUND, reach=[2, 3, 6, 7]),
}
