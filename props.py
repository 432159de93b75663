"""Per property: harnesses of the quick tier, extra harnesses of the thorough tier, stated bounds, vacuity witnesses."""
NA = {}
PROPS = {
    'C01': dict(
        harness=['c01_b1', 'c01_b2', 'c01_b3', 'c01_b4', 'c01_a5', 'c01_s6', 'c01_s7', 'c01_s9', 'c01_s11', 'c01_l1', 'c01_l2', 'c01_l3', 'c01_m1', 'c01_m2'],
        thorough=['c01_s7b', 'c01_s8', 'c01_s8b', 'c01_m3'],
        bounds='every byte string of 1 to 4 bytes; every 5-byte ASCII string in both alias modes; 6 bytes over the 11 symbols newline, space, - : a # [ ] { } , quote and 7 bytes over newline, space, ? : - a & | > ; 9 bytes over {newline, space, -, :, a}; 11 bytes over {newline, space, -, a}; long and deep documents: 44 forms of repeated pieces (numbers, words, lines, quotes, escapes, comments, blocks, flow and block collections, nesting, documents, tags, anchors, directives) 17 to 130 times and 4 forms of steps 20 deep, with 1 or 2 arbitrary characters of the indicators at three places; 1 and 2 (3) arbitrary bytes amid 25 forms of documents.',
        cover_all=[1, 2],
    ),
    'C02': dict(
        harness=['c02_n1', 'c02_n2', 'c02_n3', 'c02_n4', 'c02_n5', 'c02_n6', 'c02_n7', 'c02_k4', 'c02_k5', 'c02_w2', 'c02_w3', 'c02_w4', 'c02_w5', 'c02_t5', 'c02_t7', 'c02_p6', 'c02_m6', 'c02_l1', 'c02_l2', 'c02_ln', 'c02_u1', 'c02_u2', 'c02_f1', 'c02_t6'],
        thorough=['c02_n8', 'c02_w6', 'c02_t8', 'c02_m8'],
        bounds='texts of 1 to 7 symbols over the digits, signs, radix and exponent letters (up to 16 contexts: root, map value, map key, sequence item, flow sequence, flow map, nested, before a comment); 4 and 5 symbols over the letters of the keywords; words of 2 to 5 arbitrary printable ASCII characters; 5 to 7 symbols of plain text with indicators; wrapped plain scalars of 6 characters over {a, b, space, newline}; 21 kinds of scalars of 19, 64 and 300 characters with one or two symbolic ones at the start, in the middle or at the end; wrapped plain scalars of 9 and 40 lines; plain scalars of two lines whose words would be keywords, numbers or indicators alone (27 first words, 19 second ones) in 8 contexts; any character of two or three bytes and 7 others (the Unicode spaces, line ends, the byte order mark) at the begin, in the middle or at the end of a text, in 16 contexts.',
        covers={'c02_u1': [5], 'c02_f1': [1], 'c02_n3': [3, 4, 5], 'c02_n1': [1, 3], 'c02_k4': [1, 2, 5], 'c02_m6': [7], 'c02_l1': [3, 4, 5], 'c02_ln': [7]},
    ),
    'C03': dict(
        harness=['c03_d2', 'c03_d3', 'c03_d4', 'c03_r2', 'c03_p2', 'c03_p3', 'c03_f11', 'c03_f12', 'c03_f21', 'c03_b', 'c03_lf', 'c03_li'],
        bounds='decimal integers of up to 4 symbolic digits after the heads "", "-", 922337203685477(5|58) of either sign and 1844674407370955 (both ends of the 64-bit range); hexadecimal and octal texts with 2 symbolic digits at either end of a full-width number; numbers of 2 and 3 digits in every radix parsed from 5 contexts; decimal floats with up to 3 digits in total; every i8..u64 value and a set of 12 floats through From; floats whose mantissa, fraction or exponent has up to 22 more zeros, and exponents beyond the range, from 6 contexts; integers of every radix with 18 to 70 zeros before or behind two symbolic digits, from 6 contexts.',
        covers={'c03_d2': [1, 2], 'c03_r2': [1, 2], 'c03_p2': [3], 'c03_f12': [4], 'c03_b': [5], 'c03_lf': [4], 'c03_li': [1, 2, 3]},
    ),
    'C04': dict(
        harness=['c04_i11', 'c04_i12', 'c04_b', 'c04_f', 'c04_o', 'c04_s', 'c04_m', 'c04_p', 'c04_t', 'c04_tn', 'c04_l', 'c04_ln', 'c04_lg'],
        thorough=['c04_i22'],
        bounds='pairs of integer texts of 1 and 2 (2 and 2) symbolic digits after 8 heads (signs, leading zeros, radix prefixes), and around both ends of the range of i64; all pairs of 29 float texts; numbers that are none, with a symbolic character; strings and aliases of up to 2 ASCII bytes; all pairs of nodes of depth 2 with up to 2 entries; all triples of 20 leaves with symbolic content; lookups of every such node in maps of 1 and 2 such keys; arbitrary positions and three tags; strings, aliases, numbers, sequences, maps and nested nodes of 9 and 33 parts which differ in one symbolic character, in the order or in the length.',
        covers={'c04_i11': [1, 2], 'c04_i12': [1, 2], 'c04_f': [1, 2], 'c04_p': [1, 2], 'c04_t': [1], 'c04_l': [1, 2], 'c04_ln': [1, 2], 'c04_o': [1, 2], 'c04_s': [1, 2], 'c04_lg': [1, 2]},
    ),
    'C05': dict(
        harness=['c05_t', 'c05_i', 'c05_o', 'c05_k', 'c05_c', 'c05_m', 'c05_b', 'c05_ba'],
        bounds='9 accessors on 8 kinds of nodes with a symbolic ASCII character as text, collections of 0 to 2 entries and a symbolic 64-bit position; sequences of 0 to 3 items with a symbolic 64-bit index; maps with two symbolic string keys beside an integer and a boolean key, looked up by a symbolic string and by keys of 5 other types; sequence keys; sequences and maps of 9 and 33 entries with a symbolic index or key, paths of 33 indices; nodes of either reference kind made by the constructors, setters, conversions of texts, numbers and characters, iterators of up to 4 items or pairs and the macro, with symbolic texts, tags and positions.',
        covers={'c05_t': [1, 2], 'c05_i': [1, 2], 'c05_k': [1, 2], 'c05_c': [1, 2], 'c05_m': [1, 2], 'c05_b': [1], 'c05_ba': [1]},
    ),
    'C06': dict(
        harness=['c06_p1', 'c06_p2', 'c06_p3', 'c06_m5', 'c06_i4', 'c06_i4b', 'c06_q4', 'c06_n4', 'c06_k4', 'c06_d4', 'c06_d5', 'c06_t1', 'c06_t3', 'c06_t4', 'c06_t5', 'c06_h1', 'c06_h2', 'c06_g1', 'c06_g2', 'c06_f', 'c06_u', 'c06_ll', 'c06_lm', 'c06_lp'],
        thorough=['c06_m6', 'c06_t2', 'c06_g3'],
        bounds='strings of 1 to 3 arbitrary printable ASCII characters, tab, newline and CR in up to 12 contexts (root, value, key, item, nested, second document, part of a complex key), 4 and 5 characters over indicator, marker, quote, number, keyword and newline alphabets, strings with one arbitrary two-byte character; every tree of at most 3 (4) collections of 1 or 2 entries, depth 3 (4), with up to 9 kinds of leaves and with complex keys; chains of up to 5 collections of 4 kinds (block and complex) and of 10 of 6 kinds; two documents; tags of 1 to 3 characters with and without the core prefix on 8 kinds of nodes; numbers from Rust values; strings of 14 kinds of up to 900 characters with an arbitrary one at three places, sequences, maps and streams of 20 and 40 entries of 6 kinds, chains of 24 collections.',
        cover_all=[1],
    ),
    'C07': dict(
        harness=['c07_a3', 'c07_a4', 'c07_b7', 'c07_f6', 'c07_q6', 'c07_l6', 'c07_l7', 'c07_l8', 'c07_c8', 'c07_t6', 'c07_n6', 'c07_d7', 'c07_d8', 'c07_l1', 'c07_l2', 'c07_l3'],
        thorough=['c07_c7', 'c07_t7', 'c07_b8', 'c07_f7', 'c07_q7'],
        bounds='every ASCII document of 3 and 4 bytes; 7 bytes over {newline, space, -, :, a}; 6 over the flow indicators; 6 over quotes and backslash; block scalars of 6 to 8 bytes in three contexts; complex keys, tags, numbers and document markers with 5 to 8 bytes over their alphabets; long and deep documents: 44 forms of repeated pieces (numbers, words, lines, quotes, escapes, comments, blocks, flow and block collections, nesting, documents, tags, anchors, directives) 17 to 130 times and 4 forms of steps 20 deep, with 1 or 2 arbitrary characters of the indicators at three places.',
        cover_all=[1],
    ),
    'C08': dict(
        harness=['c08_i', 'c08_f', 'c08_c', 'c08_s', 'c08_e', 'c08_k', 'c08_o', 'c08_t', 'c08_d', 'c08_g', 'c08_m'],
        bounds='both reference kinds; every i8 and u8, the other integer widths (to 128 bits) around zero, both extremes and changes of length; 37 floats of all magnitudes incl. infinities, NaN, subnormals; every character; strings of 3 arbitrary characters in 8 positions; unit, newtype, tuple and struct variants (also nested, renamed to look like other types); options, tuples, byte arrays, sequences and maps of up to 3 entries with integer, boolean, tuple and enum keys, structs to depth 4, options of every empty value, flattened structs, internally, adjacently tagged and untagged enums, results, with symbolic leaves; strings of up to 600 characters, collections of up to 70 entries, variants and structs nested 33 deep, a struct of 14 fields; types which are written and read entry by entry without a length, any value as it says what it is, structs with renamed, skipped and default fields.',
        cover_all=[1],
    ),
    'C09': dict(
        harness=['c09_i1', 'c09_i2', 'c09_i3', 'c09_e1', 'c09_e2', 'c09_r', 'c09_k', 'c09_en', 'c09_ne', 'c09_le', 'c09_lg', 'c09_s', 'c09_g1', 'c09_g2', 'c09_f', 'c09_d'],
        bounds='integer texts of up to 3 digits and, at the end of the range of every type, with the last 2 digits symbolic, either sign, hexadecimal and octal, into all 10 integer types; 22 kinds of nodes into 26 kinds of targets (untagged, any, options, ignored and denied fields among them); 12 forms of content for 5 variants of an enum; an error at one of 8 places in nested values; sequences and maps of 0 to 4 entries into tuples, arrays and structs; strings of up to 2 ASCII bytes; every position a symbolic 64-bit number; sequences, maps and nested structs of 9 and 34 entries with one leaf of any kind; texts and bytes asked for by their own methods, values which are ignored.',
        covers={h: [1, 2] for h in ('c09_i3', 'c09_e1', 'c09_k', 'c09_en', 'c09_ne', 'c09_le', 'c09_lg', 'c09_d')},
    ),
    'C10': dict(
        harness=['c10_i', 'c10_f', 'c10_c', 'c10_cu', 'c10_s1', 'c10_s2', 'c10_s3', 'c10_n4', 'c10_k4', 'c10_i4', 'c10_q4', 'c10_e', 'c10_k', 'c10_o', 'c10_t', 'c10_d', 'c10_g', 'c10_m'],
        bounds='the values of C08 through text; strings of 1 and 2 arbitrary characters in 8 positions, of 3 in 3 positions, of 4 over number, keyword, indicator and quote alphabets in 6 to 8 positions; the large values of C08.',
        cover_all=[1],
    ),
    'C11': dict(
        harness=['c11_fs', 'c11_bs', 'c11_bm', 'c11_as', 'c11_am', 'c11_k', 'c11_kl', 'c11_q', 'c11_qs', 'c11_qa', 'c11_r', 'c11_fm', 'c11_fms', 'c11_rs', 'c11_d2', 'c11_d3', 'c11_n11', 'c11_n12', 'c11_n21', 'c11_n22', 'c11_t', 'c11_mn'],
        thorough=['c11_fs6', 'c11_bs6'],
        bounds='Three values in flow sequences, block sequences, block maps, flow maps, complex keys (also block), under an anchored block sequence, block map, root collection, beside anchored keys; each value plain, anchored, an alias, an anchored flow collection with an alias inside, or a flow sequence of such; the names a and b at every place, as choices and (in three forms) as symbolic characters; streams of 2 and 3 documents with and without end markers. Scalars with a symbolic character; names of 1 and 2 characters over letters, digits and the dash; tag and anchor in either order; 9 and 34 anchors in a sequence, in a chain, in documents of their own, on keys, and names of 70 characters, an alias or a definition with two symbolic digits.',
        cover_all=[2], covers={**{h: [1, 2] for h in ('c11_fs', 'c11_bs', 'c11_bm', 'c11_as', 'c11_am', 'c11_k', 'c11_kl', 'c11_q', 'c11_qa', 'c11_r', 'c11_fm', 'c11_d2', 'c11_d3')}, 'c11_mn': [1, 2]},
    ),
    'C12': dict(
        harness=['c12_fs', 'c12_bs', 'c12_bm', 'c12_as', 'c12_am', 'c12_k', 'c12_kl', 'c12_q', 'c12_qs', 'c12_qa', 'c12_r', 'c12_fm', 'c12_fms', 'c12_rs', 'c12_d2', 'c12_x5', 'c12_w5', 'c12_y5', 'c12_z6', 'c12_s6', 'c12_m5', 'c12_mn'],
        thorough=['c12_fs6', 'c12_bs6', 'c12_d3', 'c12_x6', 'c12_x7', 'c12_y6', 'c12_z7', 'c12_z8', 'c12_m6'],
        bounds='Three values in flow sequences, block sequences, block maps, flow maps, complex keys (also block), under an anchored block sequence, block map, root collection, beside anchored keys; each value plain, anchored, an alias, an anchored flow collection with an alias inside, or a flow sequence of such; the names a and b at every place, as choices and (in three forms) as symbolic characters; streams of 2 and 3 documents with and without end markers. Each is also dumped with its anchors and loaded again. The two modes compared on every document with 5 or 6 (8) bytes over the anchor, flow, block and marker indicators at 6 places; 9 and 34 anchors in a sequence, in a chain, in documents of their own, on keys, and names of 70 characters, an alias or a definition with two symbolic digits.',
        cover_all=[1, 2], covers={**{h: [1, 2, 3] for h in ('c12_fs', 'c12_bs', 'c12_bm', 'c12_as', 'c12_am', 'c12_k', 'c12_kl', 'c12_q', 'c12_qa', 'c12_r', 'c12_fm', 'c12_d2', 'c12_w5', 'c12_y5', 'c12_m5')}, 'c12_mn': [1, 2]},
    ),
    'C13': dict(
        harness=['c13_m2', 'c13_m3', 'c13_m4', 'c13_m6', 'c13_n', 'c13_w', 'c13_f4', 'c13_f5', 'c13_f6', 'c13_u3', 'c13_l1', 'c13_l2', 'c13_l3'],
        thorough=['c13_f7'],
        bounds='documents of 2 to 4 pieces out of line feed, carriage return + line feed, ASCII, two-, three- and four-byte characters (the first an arbitrary ASCII character) and of 6 pieces out of two, with every position between pieces; any character of one to four bytes with positions around it; two-digit lines and columns; the errors of every document of 4 characters over {a : [ ] { newline quote}, 5 over {a : [ newline}, 6 over {newline, space, a, :} and 3 followed by a multi-byte character; lines and columns up to 256; the errors of long and deep documents: 44 forms of repeated pieces (numbers, words, lines, quotes, escapes, comments, blocks, flow and block collections, nesting, documents, tags, anchors, directives) 17 to 130 times and 4 forms of steps 20 deep, with 1 or 2 arbitrary characters of the indicators at three places.',
        covers={'c13_w': [1, 2, 3, 4], 'c13_m3': [1], 'c13_f5': [1, 2], 'c13_f6': [1, 2], 'c13_u3': [1, 2], 'c13_l1': [1, 2], 'c13_l2': [1, 2], 'c13_l3': [1, 2]},
    ),
    'C14': dict(
        harness=['c14_b3', 'c14_o3', 'c14_l1', 'c14_p1', 'c14_p2', 'c14_po', 'c14_pf', 'c14_pm', 'c14_pc', 'c14_c2', 'c14_f3', 'c14_w2', 'c14_m3', 'c14_q1', 'c14_q2', 'c14_q4', 'c14_q3', 'c14_qf', 'c14_qm', 'c14_r1', 'c14_r2', 'c14_g1', 'c14_g2', 'c14_g3', 'c14_g4', 'c14_u1', 'c14_u2'],
        bounds='the documents of C17 with up to 3 collections, every node in front of which an anchor, a tag or both may stand, in the same line or on a line of their own in front of the node, plain strings in one or two lines; every word with an arbitrary second character; the recorded anchors of each document, their number and positions; collections with 9 to 34 more entries and words of 70 and 140 characters; words which begin or end with any two- or three-byte character.',
        cover_all=[1, 2],
    ),
    'C15': dict(
        harness=['c15_all3', 'c15_all2', 'c15_raw4', 'c15_raw6', 'c15_esc5', 'c15_quo5', 'c15_fold3', 'c15_fold2', 'c15_fold4', 'c15_lg', 'c15_lf'],
        thorough=['c15_fold5'],
        bounds='either quote kind: contents of 2 and 3 characters of 9 kinds (arbitrary printable ASCII, tab, Unicode, quotes, backslash, every supported escape, spaces), of 4 to 6 arbitrary or 5 escaped characters, in up to 22 contexts (root, key, value, item, flow collections, behind properties, documents); with up to one line break or blank line between any two of 2 to 4 (5) characters, with spaces around the breaks and three newline styles; contents of 8 kinds repeated 40 times with a unit of any kind before, amid or after.',
        cover_all=[1],
    ),
    'C16': dict(
        harness=['c16_l2', 'c16_l3', 'c16_l4', 'c16_w2', 'c16_e2', 'c16_d2', 'c16_f2', 'c16_f4', 'c16_f5', 'c16_g2', 'c16_h2', 'c16_hd', 'c16_y6', 'c16_y7', 'c16_y8', 'c16_y9', 'c16_y10', 'c16_lg', 'c16_u1'],
        bounds='literal and folded strings of 2 to 5 lines with arbitrary words (second character out of 85), deeper lines, blank lines, trailing spaces, all three chomping indicators, at 1 to 4 columns, with up to 4 line ends, in 7 contexts; headers with spaces and comments; every text of 6 to 10 bytes over {newline, space, letter (#, -, :)} behind a header, against a model of the block scalar grammar; blocks of 34 lines of 4 kinds (long, blank) with another one at three places, 32 columns deep; lines which begin or end with any two- or three-byte character or one of 7 others (Unicode spaces and line ends).',
        covers={'c16_l2': [1], 'c16_l3': [1], 'c16_l4': [1], 'c16_w2': [1], 'c16_e2': [1], 'c16_d2': [1], 'c16_f2': [1], 'c16_f4': [1], 'c16_f5': [1], 'c16_g2': [1], 'c16_h2': [1], 'c16_hd': [1], 'c16_y6': [1, 2, 3], 'c16_y7': [1, 2, 3], 'c16_y8': [1, 2, 3], 'c16_y9': [1, 2, 3], 'c16_y10': [1, 2, 3], 'c16_lg': [1]},
    ),
    'C17': dict(
        harness=['c17_b3', 'c17_b4', 'c17_b5', 'c17_o3', 'c17_l1', 'c17_r1', 'c17_k2', 'c17_n3', 'c17_e2', 'c17_c1', 'c17_c2', 'c17_c3', 'c17_c4', 'c17_f3', 'c17_f4', 'c17_w2', 'c17_m3', 'c17_m4', 'c17_mw', 'c17_s2', 'c17_h1', 'c17_h2', 'c17_v1', 'c17_v2', 'c17_v3', 'c17_h3', 'c17_g1', 'c17_g2', 'c17_g3', 'c17_g4', 'c17_u1', 'c17_u2', 'c17_c5', 'c17_fo', 'c17_fp'],
        thorough=['c17_o4', 'c17_l2'],
        bounds='every tree of up to 3 collections of 1 or 2 (4) entries, 4 of 2 entries with one indentation, 5 of 1 entry; block style with sequences in maps at 0 to 4, maps in maps at 1 to 4, sequence items in the line of the dash or on lines of their own; flow style with spaces and line breaks; both mixed; complex keys, those of flow maps behind the indicator or not, their values omitted or not (also of a key alone in a flow sequence), complex keys and values in the line of the indicator (sequences) or on lines of their own; chains of up to 5 collections of 4 kinds and of 10 of 6 kinds; empty values, literal blocks, plain, quoted and integer leaves; the root behind nothing, a line break, a marker, and indented. Every word has an arbitrary second character out of 85; chains of 17 and 33 collections, collections with 9 to 34 more entries, words of 70 and 140 characters; words which begin or end with any two- or three-byte character or one of 5 others.',
        cover_all=[1, 2],
    ),
    'C18': dict(
        harness=['c18_k2', 'c18_k1', 'c18_s2', 'c18_d1', 'c18_d2', 'c18_n3', 'c18_n4', 'c18_n6', 'c18_y7', 'c18_y8', 'c18_y9', 'c18_y10', 'c18_v3', 'c18_v4', 'c18_v2', 'c18_late', 'c18_mn', 'c18_u1'],
        bounds='streams of 1 to 6 documents of 23 kinds of content, separated by 6 kinds of markers, behind up to 10 kinds of directives and comments; every stream of 7 and 8 bytes over {-, ., newline, a}, 9 over {-, newline, a}, 10 over {., -, newline} against a line-wise model; versions of 2 to 4 arbitrary characters; directives behind a document; streams of 11 and 40 documents of 7 kinds, one of another kind; directives, comments and documents with any two- or three-byte character.',
        covers={'c18_k2': [1], 'c18_k1': [1], 'c18_s2': [1], 'c18_d1': [1], 'c18_d2': [1], 'c18_n3': [1], 'c18_n4': [1], 'c18_n6': [1], 'c18_y7': [2], 'c18_y8': [2], 'c18_y9': [2], 'c18_y10': [2], 'c18_v3': [3], 'c18_v4': [3], 'c18_v2': [3], 'c18_late': [3], 'c18_mn': [1]},
    ),
    'C19': dict(
        harness=['c19_all', 'c19_non', 'c19_len', 'c19_d', 'c19_dd', 'c19_bad', 'c19_badd', 'c19_lg', 'c19_u1'],
        bounds='10 kinds of tagged nodes in 16 contexts: core, local, named, verbatim, non-specific tags, each with suffixes of 1 to 4 symbolic characters, tag directives (8 combinations of primary, secondary and named handles with symbolic prefixes), undeclared handles; names and URIs of 130 characters, 40 tagged items, 40 handles; verbatim tags and prefixes with any two- or three-byte character.',
        covers={'c19_all': [1], 'c19_non': [1], 'c19_len': [1], 'c19_d': [1, 2], 'c19_dd': [1], 'c19_bad': [2], 'c19_badd': [2], 'c19_lg': [1, 2]},
    ),
    'C20': dict(
        harness=['c20_b1', 'c20_o1', 'c20_o2', 'c20_b3', 'c20_f1', 'c20_x1', 'c20_x2', 'c20_p1', 'c20_p2', 'c20_r1', 'c20_s1', 'c20_e1', 'c20_eo', 'c20_ef', 'c20_ex', 'c20_e4', 'c20_p3', 'c20_n5', 'c20_n6', 'c20_nf', 'c20_nl', 'c20_ng', 'c20_nq', 'c20_ns', 'c20_nc', 'c20_na', 'c20_t6', 'c20_t5', 'c20_tf', 'c20_tq', 'c20_td', 'c20_l6', 'c20_l5', 'c20_lf', 'c20_ll', 'c20_lg', 'c20_h6', 'c20_h5', 'c20_ht', 'c20_ha', 'c20_hs', 'c20_hf', 'c20_g1', 'c20_g2', 'c20_g3', 'c20_u1', 'c20_u2', 'c20_u3', 'c20_u4', 'c20_d'],
        thorough=['c20_all', 'c20_e5', 'c20_n7', 'c20_t7', 'c20_l7', 'c20_h7', 'c20_nf6', 'c20_tf6', 'c20_f2', 'c20_e2', 'c20_e3', 'c20_e6', 'c20_b2'],
        bounds='pairs of documents. Generated ones (up to 3 collections of 1 or 2 entries; block, flow and complex; anchors and tags; wrapped, quoted, literal and empty values) with 1 and 2 line ends changed in 9 ways (trailing spaces, comments of arbitrary characters, blank lines, comment lines at several columns, CR LF), or with another newline style, 9 kinds of head and 7 kinds of end. Every text of 4 to 6 (7) bytes over {newline, space, :, -, a} and up to 9 other alphabets, with every line break as CR or CR LF, with spaces at every line end, with another end, and with another head; documents with 12 more entries in every collection, words of 70 characters; comments with any two- or three-byte character at every place of 9 documents; documents whose words have Unicode spaces; 8 directives, valid or not, in 3 positions with two symbolic characters, under every line end.',
        cover_all=[1],
    ),
    'C21': dict(
        harness=['c21_all5', 'c21_take', 'c21_line', 'c21_word', 'c21_edge', 'c21_two', 'c21_three', 'c21_num', 'c21_quo', 'c21_tag', 'c21_pla', 'c21_ctx', 'c21_ind', 'c21_set', 'c21_lg', 'c21_con'],
        bounds='16 primitive sub-parsers on every input of 5 bytes out of 18 symbols and of 6 to 8 bytes over their own alphabets, alone and in sequences of 2 and 3; the numbers, quoted, tagged and plain strings of up to 8 bytes; indentation of up to 3 levels; each against a reference model of the documented behaviour (matched text, cursor, mismatch leaves the cursor); inputs of 20 and 260 repetitions with two symbolic characters; documents of 6 bytes given in three parts.',
        covers={'c21_all5': [1, 2], 'c21_take': [1, 2], 'c21_line': [1, 2], 'c21_word': [1, 2], 'c21_edge': [1, 2], 'c21_two': [1, 2], 'c21_three': [1, 2], 'c21_num': [1, 2], 'c21_quo': [1, 2, 3], 'c21_tag': [1, 2, 3], 'c21_pla': [1, 2], 'c21_ctx': [1], 'c21_ind': [1, 2, 4], 'c21_set': [4], 'c21_lg': [1, 2, 4], 'c21_con': [1, 4]},
    ),
    'C22': dict(
        steps=30000000,
        harness=['c22_si', 'c22_sf', 'c22_sc', 'c22_ss', 'c22_se', 'c22_sk', 'c22_so', 'c22_st', 'c22_sd', 'c22_r', 'c22_b5', 'c22_f4', 'c22_q4', 'c22_l5', 'c22_n4', 'c22_a5', 'c22_m4', 'c22_d5', 'c22_sg', 'c22_l1', 'c22_l2', 'c22_l3'],
        thorough=['c22_b6', 'c22_f5', 'c22_a6', 'c22_m5', 'c22_d6'],
        bounds='either pair of kinds, either alias mode: documents of 5 (6) bytes over {newline, space, -, :, a} and {-, ., newline, space, &, *, a}, 4 (5) over the flow indicators, 4 over quotes and numbers, 5 in a literal block, 4 to 6 over anchors, aliases and tags inside flow and block collections; the values of C08 written into nodes of either kind, and documents of 8 forms with 3 symbolic characters: every accessor, 9 kinds of targets of deserialization, the text written, the conversion between the kinds, and every error; the large values of C08; long and deep documents: 44 forms of repeated pieces (numbers, words, lines, quotes, escapes, comments, blocks, flow and block collections, nesting, documents, tags, anchors, directives) 17 to 130 times and 4 forms of steps 20 deep, with 1 or 2 arbitrary characters of the indicators at three places.',
        covers={**{h: [1, 2] for h in ('c22_r', 'c22_b5', 'c22_f4', 'c22_q4', 'c22_l5', 'c22_n4', 'c22_a5', 'c22_m4', 'c22_d5')}, 'c22_l1': [1, 2], 'c22_l2': [1, 2], 'c22_l3': [1, 2]},
    ),
    'C23': dict(
        harness=['c23_li', 'c23_lb', 'c23_ls', 'c23_lm', 'c23_lo', 'c23_oi', 'c23_os', 'c23_om', 'c23_t', 'c23_d', 'c23_lg'],
        bounds='InlineList and Optional of integers, strings, structs and options, from lists of 0 to 2 entries, single values and nothing, the values symbolic (2 digits, words of 2 characters with an arbitrary second one); Stringify of integers, floats, booleans and strings from text; missing fields; the calls of every callback counted; lists of 9 and 40 items, strings of 200 characters.',
        covers={'c23_li': [1, 2], 'c23_lb': [1, 2], 'c23_ls': [1, 2], 'c23_lm': [1, 2], 'c23_lo': [1, 2], 'c23_oi': [1, 2], 'c23_os': [1, 2], 'c23_om': [1, 2], 'c23_t': [1, 2], 'c23_d': [1], 'c23_lg': [1]},
    ),
    'C24': dict(
        harness=['c24_f7', 'c24_f7m', 'c24_b8', 'c24_q7', 'c24_s7', 'c24_l7', 'c24_g1', 'c24_g2', 'c24_g3', 'c24_d7', 'c24_p6', 'c24_c6', 'c24_r7'],
        thorough=['c24_d8', 'c24_p7', 'c24_c7', 'c24_r8'],
        bounds='every string of 7 symbols over {newline, space, letter, : [ ] ,}, {newline, space, letter, : { } ,}, {newline, space, letter, : ? -}, {newline, space, letter, \' " :}, {newline, space, letter, | > - :} and of 8 symbols over {newline, space, letter, : -}, each letter distinct; 6 (7) symbols with anchors, tags and comments, whose names and text are exempt, 7 (8) with . and -, 7 (8) with directives, which are exempt before a marker; 18 forms of documents of 9 to 30 repetitions of words with 1 to 3 arbitrary characters put in at 12 places, the number of letters.',
        cover_all=[1, 2],
    ),
}
