"""What each property's check runs: harness numbers, bounds and vacuity witnesses."""
COMMON = [
    "the transport (tower-lsp, tokio, env_logger) is replaced by a model: handlers are polled by the harness on one thread",
    "hash functions are constant in the encoding, so map iteration follows one order; assertions compare unordered answers up to order",
    "LLVM 18's scalar optimiser and the symbolic executor in /verif/engine are trusted; counterexamples are replayed on a native build",
]
FAM = [
    ("local names in two functions", "2 functions, 5 local names, each any letter"),
    ("global variables, functions, dependencies", "5 symbolic global names (any letter) over variable, declaration, definition, call, dependency"),
    ("labels of (conditional) branches", "2 functions, 5 symbolic labels, each any letter"),
    ("labels of overflow branches, switches, phis", "3 blocks, 3 symbolic labels, each any letter"),
    ("debug references", "declaration, call, 3 annotations; 4 symbolic references, each any letter"),
    ("longer names of every name character", "two 4-character local names and two qualified global names with one symbolic name character each"),
    ("duplicate definitions", "two functions of symbolic names, duplicate arguments, locals, labels, variables"),
    ("declared and defined functions", "use before definition, two declarations, one definition, symbolic names"),
]


def fam(base, which, extra, reach, **kw):
    out = []
    for i in which:
        r = reach.get(i, reach.get(None, [])) if isinstance(reach, dict) else reach
        out.append(dict(h=base + i, what=FAM[i][0], bounds=FAM[i][1] + "; " + extra, reach=r, **kw))
    return out


def seqs(base, quick, thorough, extra, reach, which=(8, 9)):
    """Any sequence of n statements (8), of n pieces of functions (9)."""
    out = []
    for n, th in [(quick, False), (thorough, True)]:
        for i in which:
            if i == 8:
                what, b = f"any {n} statements", f"every sequence of {n} statements: variable, declaration, definition, use, dependency, annotation, reference to it, over 2 names of each kind"
            else:
                what, b = f"functions of any {n} pieces", f"every sequence of {n} pieces: assignment, label, branch, conditional branch, call, phi, annotated instruction, comment, blank line, next function, over 2 names of each kind"
            out.append(dict(h=base + i, what=what, bounds=b + "; " + extra, reach=reach.get(i, []) if isinstance(reach, dict) else reach, params=[n], thorough=th))
    return out


def large(base, extra, reach, big=None, right=66000, **kw):
    """One document with 300 of everything, and symbols 66000 lines down or columns to the right."""
    few = {CUR: "cursor at either end of 18 occurrences", None: None}.get(extra, extra)
    return [
        run(base + 10, "300 of everything", "300 variables, arguments, blocks, branches, annotations, functions; 75 declarations of one function and definitions of one variable; a symbolic name at the end; " + few, big or reach, params=[300], max_path=8000000000),
        run(base + 11, "66000 lines down", "a string of 66000 lines before the symbols, a symbolic name; " + extra, reach, params=[66000, 0], max_path=4000000000, **kw),
        run(base + 11, "66000 columns to the right", "a string of 66000 characters before the symbols, a symbolic name; " + extra, reach, params=[right, 1], max_path=4000000000, **kw),
    ]


def run(h, what, bounds, reach, **kw):
    return dict(h=h, what=what, bounds=bounds, reach=reach, **kw)


CUR = "cursor: any column of any occurrence (symbolic)"
ANY = "cursor: any line and column (symbolic 32-bit numbers)"
UNI = "one document of 8 statements with a symbolic character (every Unicode scalar value except ASCII controls and quotes) "

PROPS = {
    "C01": {"runs": [
        run(0, "short texts", "every text of one ASCII character; every request", [1, 2], params=[1]),
        run(0, "texts of two characters", "every text of 2 ASCII characters; every request at every position", [1, 2], params=[2]),
        run(1, "one ASCII character in a document", "5 documents, one symbolic ASCII character inserted; every request there", [1, 2, 3], params=[1]),
        run(1, "two ASCII characters in a document", "5 documents, two symbolic ASCII characters inserted; every request there", [1, 2, 3], params=[2]),
        run(2, "one ASCII character before others", "6 documents, one symbolic ASCII character before a blank, line break, letter or nothing", [1, 2, 3], params=[1]),
        run(2, "one 2-byte character", "6 documents, any character of 2 UTF-8 bytes before a blank, line break, letter or nothing", [2, 3], params=[2]),
        run(2, "one 3-byte character", "any character of 3 UTF-8 bytes in one document", [2, 3], params=[3]),
        run(2, "one 4-byte character", "any character of 4 UTF-8 bytes in one document", [2, 3], params=[4]),
        run(3, "two lexemes at top level", "24 x 24 lexemes", [1, 2], params=[2, 0]),
        run(3, "two lexemes in a function", "24 x 24 lexemes", [1, 2, 3], params=[2, 1]),
        run(3, "three lexemes at top level", "24^3 lexemes", [1, 2], params=[3, 0]),
        run(3, "three lexemes in a block", "24^3 lexemes", [1, 2, 3], params=[3, 2]),
        run(3, "three lexemes in a function", "24^3 lexemes", [1, 2, 3], params=[3, 1], thorough=True),
        run(3, "two lexemes in an argument list", "24 x 24 lexemes", [1, 2], params=[2, 3]),
        run(3, "two lexemes in an annotation", "24 x 24 lexemes", [1, 2], params=[2, 4]),
        run(3, "two lexemes in an unfinished function", "24 x 24 lexemes", [1, 2, 3], params=[2, 5]),
        run(3, "three lexemes in an argument list", "24^3 lexemes", [1, 2], params=[3, 3], thorough=True),
        run(3, "three lexemes in an unfinished function", "24^3 lexemes", [1, 2, 3], params=[3, 5], thorough=True),
        run(4, "documents that end anywhere", "every prefix of a document with every construct", [1, 2, 3]),
        run(5, "one character replaced or removed", "every 6th place of a document with every construct; any ASCII character or none", [1, 2, 3], params=[0, 6, 1]),
        run(5, "one character replaced or removed, even places", "every 2nd place; any ASCII character or none", [1, 2, 3], params=[0, 2, 0], thorough=True),
        run(5, "one character replaced or removed, odd places", "every 2nd place; any ASCII character or none", [1, 2, 3], params=[0, 2, 1], thorough=True),
        run(6, "positions and ranges anywhere", "6 texts, positions and ranges of symbolic 32-bit numbers", [1, 2]),
        run(7, "commands", "3 commands, 0-3 arguments of 12 values each", [4]),
        run(8, "answers of the client", "12 values", [5]),
        run(9, "code actions of others", "symbolic 64-bit numbers, 8 kinds, 4 documents, 5 forms of function id", [6, 7]),
        run(10, "code actions of no form", "12 values", [7]),
        run(11, "new names", "7 symbols, 9 beginnings, one symbolic ASCII character", [8, 9], params=[1]),
        run(11, "new names, two characters", "7 symbols, 9 beginnings, 0-2 symbolic ASCII characters", [8, 9], params=[2]),
        run(12, "workspace folders of every kind", "7 x 7 folders, 3 forms, 9 locations", [10]),
        run(13, "annotations of JSON pieces", "2 of 16 pieces in 3 contexts", [11], params=[2]),
        run(14, "annotations of any characters", "2 symbolic ASCII characters in 4 contexts", [11], params=[2]),
        run(14, "annotations of any three characters", "3 symbolic ASCII characters in 4 contexts", [11], params=[3], thorough=True),
        run(15, "any order of two messages", "3 documents, 6 messages each", [1, 2, 3, 12], params=[2]),
        run(15, "any order of three messages", "3 documents, 6 messages each", [1, 2, 3, 12], params=[3], thorough=True),
        run(17, "long numbers and names", "1-150 digits, letters or colons in 12 contexts", [1, 2, 3, 13]),
        run(16, "repetitions", "16 pieces, 1-200 times, in 6 contexts", [1, 2, 3]),
    ]},
    "C02": {"runs": [
        run(0, "one character everywhere: navigation", UNI + "at 4 places; " + CUR, [2, 3]),
        run(1, "one character at one place: navigation", UNI + "at any one of 4 places, LF or CRLF; " + CUR, [2, 3], thorough=True),
        run(2, "names outside ASCII: navigation", "names of 6 non-ASCII words, one function; " + CUR, [2, 3]),
        run(10, "one character everywhere: cursor", UNI + "at 4 places; cursor at the ends of any occurrence", [11]),
        run(11, "one character at one place: cursor", UNI + "at any one of 4 places, LF or CRLF; cursor at the ends of any occurrence", [11], thorough=True),
        run(12, "names outside ASCII: cursor", "names of 6 non-ASCII words; cursor at the ends of any occurrence", [11]),
        run(20, "one character everywhere: diagnostics", UNI + "at 4 places", [20, 22]),
        run(21, "one character at one place: diagnostics", UNI + "at any one of 4 places, LF or CRLF", [20, 22]),
        run(22, "names outside ASCII: diagnostics", "names of 6 non-ASCII words", [20]),
        run(30, "one character everywhere: outline, lenses, folding", UNI + "at 4 places", [30, 31]),
        run(31, "one character at one place: outline, lenses, folding", UNI + "at any one of 4 places, LF or CRLF", [30, 31]),
        run(32, "names outside ASCII: outline, lenses, folding", "names of 6 non-ASCII words", [30, 31]),
        run(40, "one character everywhere: hints", UNI + "at 4 places", [40]),
        run(41, "one character at one place: hints", UNI + "at any one of 4 places, LF or CRLF", [40]),
        run(42, "names outside ASCII: hints", "names of 6 non-ASCII words", [40]),
        run(50, "one character everywhere: rename", UNI + "at 4 places; " + CUR, [60]),
        run(51, "one character at one place: rename", UNI + "at any one of 4 places, LF or CRLF; " + CUR, [60], thorough=True),
        run(52, "names outside ASCII: rename", "names of 6 non-ASCII words; " + CUR, [60]),
        run(60, "one character everywhere: tokens", UNI + "at 4 places", [70]),
        run(61, "one character at one place: tokens", UNI + "at any one of 4 places, LF or CRLF", [70]),
        run(62, "names outside ASCII: tokens", "names of 6 non-ASCII words", [70]),
        run(70, "one character: code actions, backtrace hints", "a symbolic character (every Unicode scalar value except ASCII controls and quotes) in a comment and a string", [71, 72]),
        run(71, "names and annotations outside ASCII: code actions, backtrace hints", "3 non-ASCII characters in comment, string, name, annotation", [71, 72]),
        run(80, "one character: syntax errors", "a symbolic character in a comment and a string, 6 malformed statements", [80]),
    ]},
    "C03": {"runs": [
        run(0, "a word of up to 14 letters and 3 digits", "every word of 1-14 lower-case letters followed by 0-3 digits", [1, 10, 11]),
        run(1, "the reserved words", "18 reserved words on one line", [1]),
        run(2, "two lexemes, any white space", "22 x 22 lexemes, 3 prefixes, 6 separators", [1, 2]),
        run(3, "lexemes around comments", "22 x 22 lexemes, LF and CRLF, comment at the end of the text or not", [1, 2]),
        run(4, "any characters in strings and comments", "two symbolic Unicode characters", [1, 2]),
        run(5, "strings that span lines", "one symbolic Unicode character, 2-3 lines, LF and CRLF", [1, 2]),
        run(6, "names of any characters", "names of 3 sigils, up to 4 symbolic name characters, with and without ::", [1]),
        run(7, "numbers", "decimal and hexadecimal numbers of 1-5 symbolic digits", [1]),
        run(8, "short words of any characters", "words of 1-5 symbolic characters", [1]),
        run(9, "far down and far right", "0, 1, 255, 256, 300 lines down; 1, 250-252, 300 columns right; 22 lexemes", [1, 2], thorough=True),
        run(10, "long lexemes", "10 kinds of lexemes of 6-300 characters", [1, 2]),
        run(12, "very far down and very far right", "a symbol behind 66000 blanks, behind a string of 66000 lines or characters, behind a comment or name of 66000 characters", [1, 2], max_path=40000000000),
        run(11, "characters that belong to no lexeme", "1-2 symbolic characters outside of the language between a name and any of 22 lexemes or the end", [1, 2]),
    ]},
    "C04": {"runs": fam(0, range(8), CUR, {None: [2, 3], 4: [2, 3, 5], 6: [2, 3, 5], 7: [2, 3, 4, 6]}) + [
        run(20, "every kind of symbol, any cursor", "one document with every symbol kind; " + ANY, [1, 2, 3, 4]),
        run(21, "every kind of symbol, any cursor, CRLF", "the same with CRLF line breaks; " + ANY, [1, 2, 3, 4]),
    ] + seqs(0, 3, 4, CUR, {8: [2, 3, 4, 5, 6], 9: [2, 3, 5, 6]}, which=(8,)) + seqs(0, 2, 3, CUR, [2, 3, 5, 6], which=(9,)) + large(0, CUR, [2, 3, 5, 6])},
    "C05": {"runs": [
        run(0, "every kind of symbol, any cursor", "one document with every symbol kind; " + ANY, [10, 11]),
        run(1, "every kind of symbol, any cursor, CRLF", "the same with CRLF line breaks; " + ANY, [10, 11]),
        run(20, "lines that end with a carriage return", "4 lines with a symbol at each end, a symbolic name; " + ANY, [10, 11]),
    ] + fam(2, range(8), ANY, [10, 11]) + seqs(2, 2, 3, ANY, [10, 11]) + [
        run(13, "66000 lines down", "a string of 66000 lines before the symbols, a symbolic name; any column (symbolic 32-bit number) of any line with symbols", [10, 11], params=[66000, 0]),
    ]},
    "C06": {"runs": fam(20, range(8), CUR, [1]) + [
        run(0, "new names of up to 2 characters", "5 symbol kinds, any 0-2 ASCII characters", [2, 3, 4]),
        run(1, "new names that start with a sigil", "5 symbol kinds, sigil of any kind, any 0-2 ASCII characters", [2, 3, 4]),
        run(2, "reserved words and words next to them", "5 symbol kinds, 18 reserved words, one name character more or one less", [2, 3, 4]),
        run(4, "new names with colons", "5 symbol kinds, letter, any ASCII character, colon, maybe any ASCII character", [2, 3, 4]),
        run(5, "longer new names", "5 symbol kinds, 13 letters, any ASCII character", [2, 3, 4]),
        run(3, "new names outside ASCII (2 bytes)", "5 symbol kinds, any character U+0080-U+07FF, alone or after a letter", [2, 3], params=[2], thorough=True),
    ] + seqs(20, 2, 3, CUR, [1]) + large(20, CUR, [1])},
    "C07": {"runs": [run(h, w + ", shift " + s, b + "; shift " + s, [2], params=[i], thorough=(i in (2, 5)))
                     for h, w, b in [(0, "local names", "2 functions, 5 local names with 1-2 symbolic digits"), (1, "labels", "2 functions, 6 labels with 1-2 symbolic digits"),
                                     (2, "global names", "variables, declared and defined functions with 1-2 symbolic digits"), (3, "debug annotations", "4 references with 1-2 symbolic digits")]
                     for i, s in enumerate(["+1", "-1", "+17", "-12", "+0", "+1000"])] + [
        run(10, "numbers at the limits", "two numbers of 7 around 0, 2^32, 2^63, 10^20; 6 shifts up to 2^63-1", [3, 4]),
        run(11, "malformed shifts", "sign, up to 2 ASCII characters, 5 suffixes", [5, 6]),
        run(12, "any digit by any digit", "number of 1-2 digits with one symbolic, shift of one symbolic digit, both signs", [7]),
    ] + seqs(20, 3, 4, "shift +1 at any occurrence", [2]) + large(20, "shift +1", [1], big=[1, 2])},
    "C08": {"runs": [
        run(0, "any cursor, lazy and eager", "one document with every symbol kind; " + ANY + "; client with and without lazy edits", [1, 2]),
        run(1, "ranges", "range from any occurrence to any other position (symbolic)", [3]),
        run(2, "capability negotiation", "data support absent/no/yes x 5 resolve property lists", [4, 5]),
    ] + fam(10, [0, 1, 2, 3, 4, 5, 6, 7], CUR + "; lazily and eagerly", []) + seqs(10, 2, 3, CUR + "; eagerly", [6]) + large(10, CUR, [7], big=[6, 7])[:1]},
    "C09": {"runs": fam(0, range(8), "all names at once", {None: [20], 6: [20, 22], 4: [20, 22]}) + seqs(0, 3, 4, "all names at once", [20, 21, 22]) + large(0, "all names at once", [20, 22])},
    "C10": {"runs": [run(k, f"{w}: {f}", f"statement form `{f}`, {b}", rc, params=[i], thorough=(k == 3 and i > 4) or (k in (13, 14, 17, 19) and i not in (1, 5)) or (k == 20 and i not in (1, 3)))
                     for k, w, b, rc in [(0, "unchanged", "unchanged, with correct statements around; LF or CRLF, 3 x 4 forms of white space and comments", [1]), (1, "one lexeme missing", "any one lexeme removed", [2, 3]),
                                         (2, "one lexeme twice", "any one lexeme doubled", []), (3, "one lexeme replaced", "any one lexeme replaced by any ASCII character", []),
                                         (4, "one lexeme inserted", "any ASCII character inserted between any two lexemes", []), (5, "cut off", "correct statements before, the text ends after any lexeme", []), (9, "a foreign character", "one of 10 characters outside of ASCII inserted between any two lexemes", [2, 3]),
                                         (6, "two lexemes swapped", "any two neighbours swapped", []), (7, "a word replaced", "any one lexeme replaced by any word of 4-7 letters", []),
                                         (11, "one lexeme missing in the last statement", "any one lexeme removed; correct statements only before", [2, 3]),
                                         (13, "one lexeme replaced in the last statement", "any one lexeme replaced by any ASCII character; correct statements only before", [2, 3]),
                                         (14, "one lexeme inserted in the last statement", "any ASCII character inserted between any two lexemes; correct statements only before", [2, 3]),
                                         (16, "two lexemes swapped in the last statement", "any two neighbours swapped; correct statements only before", [2, 3]),
                                         (17, "a word replaced in the last statement", "any one lexeme replaced by any word of 4-7 letters; correct statements only before", [2, 3]),
                                         (19, "a foreign character in the last statement", "one of 10 characters outside of ASCII inserted between any two lexemes; correct statements only before", [2, 3]),
                                         (18, "a string without an end", "a quote inserted between any two lexemes; correct statements only before", [2, 3]),
                                         (20, "two faulty statements", "any one lexeme removed, and later one of 10 other faulty statements; correct statements before, in between and after", [2, 3])]
                     for i, f in enumerate(["variable", "declare with address", "declare with modifiers", "define", "define with blocks", "define with overflow branch", "define with switch and phi", "annotation", "dependency"])]},
    "C11": {"runs": fam(0, [2, 3, 6], "graph of the last function, and all hints", {None: [50, 40], 6: [51, 40]}) + [
        run(10, "every branch form", "3 blocks, 6 x 4 instruction forms, 2 symbolic targets", [50, 40, 41]),
        run(15, "operands of every kind", "6 branch forms, 7 operands, with and without debug reference, 1-2 symbolic letters", [50, 51, 40]),
        run(11, "branches that cannot be understood", "24 malformed forms, 1 symbolic label", [50, 52]),
        run(12, "labels like keywords", "16 x 16 labels (words of the instruction syntax and of DOT, qualified), 4 branch forms", [50, 40]),
        run(14, "hints of any part of the document", "2 functions, 3 blocks, a symbolic label; any range (symbolic 32-bit numbers)", [43, 44]),
        run(13, "two functions", "2 functions of 2 blocks, 5 symbolic names", [50, 40, 41]),
    ] + seqs(0, 3, 4, "graph of the last function, and all hints", [40, 42, 50, 51], which=(9,)) + large(20, "graph of the first function, and all hints", [40, 50], big=[40, 41, 42, 50])},
    "C12": {"runs": [
        run(0, "every client, small document", "320 combinations of code action, position encoding, workspace and process settings (process id symbolic); document with a function", [1, 2]),
        run(1, "every client, every kind of symbol", "the same; document with every symbol kind", [1]),
    ]},
    "C13": {"runs": fam(0, [0, 1, 6, 7], "all names at once", {None: [30, 31], 6: [30, 31, 32]}) + [
        run(20, "functions of every small shape", "0-2 labelled blocks of 0-2 instructions, comments, blank lines, LF/CRLF, second function or not", [30, 31, 33]),
    ] + seqs(0, 3, 4, "all names at once", {8: [30, 31, 32], 9: [30, 31, 32, 33]}) + large(0, "all names at once", [30, 31, 33], big=[30, 31, 32, 33])},
    "C14": {"runs": [
        run(0, "one frame of every kind", "one frame: 10 x 10 symbol names and locations", [61, 62, 63]),
        run(1, "two frames of every kind", "two frames of 9 function names x 4 locations each", [61, 62, 63]),
        run(2, "backtraces of 0-4 frames", "0-4 frames, each of 4 kinds", [61, 62, 63]),
        run(3, "long names", "function names around the length limit, a symbolic letter", [61, 63, 65]),
        run(4, "every annotated construct", "every instruction form with an annotation, symbolic reference", [60, 61, 63, 66, 67]),
        run(5, "annotations without a backtrace", "numbers, strings, arrays, objects, null and malformed values", [60]),
        run(6, "frames that are no frames", "backtraces with malformed frames among good ones", [61, 62, 63]),
        run(7, "any character in a location", "symbolic location characters", [61, 62, 63]),
        run(9, "several annotated instructions", "3 instructions in 2 functions, each with one of 4 references; annotations before or after", [60, 61, 63]),
        run(10, "hints of any part of the document", "the same; any range (symbolic 32-bit numbers)", [43, 44]),
        run(13, "very long names", "a frame with a name of 1000 or 66000 characters, and another one", [65], max_path=8000000000),
        run(11, "long backtraces", "5-200 frames, the interesting ones first, in the middle, last or absent", [61, 63]),
        run(12, "many annotations", "150 annotated instructions, 101 annotations, one symbolic reference", [61, 63, 66, 67]),
        run(8, "annotations before their use", "annotation before or after its use, LF/CRLF, non-ASCII text", [61, 63]),
    ]},
    "C15": {"runs": [
        run(0, "any ASCII character in a function name", "one symbolic ASCII character", [61, 63], params=[1]),
        run(0, "any 2-byte character in a function name", "one symbolic character of 2 UTF-8 bytes", [61, 63], params=[2]),
        run(0, "any 3-byte character in a function name", "one symbolic character of 3 UTF-8 bytes", [61, 63], params=[3], thorough=True),
        run(0, "any 4-byte character in a function name", "one symbolic character of 4 UTF-8 bytes", [61, 63], params=[4], thorough=True),
        run(1, "any ASCII character in a file name", "one symbolic ASCII character", [61, 63], params=[1]),
        run(1, "any 2-byte character in a file name", "one symbolic character of 2 UTF-8 bytes", [61, 63], params=[2], thorough=True),
        run(1, "any 3-byte character in a file name", "one symbolic character of 3 UTF-8 bytes", [61, 63], params=[3]),
        run(1, "any 4-byte character in a file name", "one symbolic character of 4 UTF-8 bytes", [61, 63], params=[4]),
        run(2, "two characters in a function name", "two symbolic ASCII characters", [61, 63]),
        run(3, "two characters in a file name", "two symbolic ASCII characters", [61, 63]),
        run(4, "JSON escapes", "16 x 16 escapes in names and paths", [61, 63]),
        run(5, "markup", "28 x 28 pieces of markup in names and paths", [61, 63]),
        run(6, "any ASCII character in the path of an existing file", "one symbolic ASCII character", [61, 63, 64], params=[1]),
        run(6, "any 2-byte character in the path of an existing file", "one symbolic character of 2 UTF-8 bytes", [61, 63, 64], params=[2], thorough=True),
        run(6, "a longer character in the path of an existing file", "sampled 3- and 4-byte characters", [61, 63, 64], params=[3]),
        run(7, "markup in the path of an existing file", "30 pieces of markup", [61, 63, 64]),
    ]},
    "C16": {"runs": [
        run(0, "which functions an annotation belongs to", "3 declarations, 3 annotations, symbolic letters in their names; every function and variable", [70, 71, 72]),
        run(1, "workspace folders and files", "0-3 workspace folders of 6 kinds, which of 3 files exist", [70, 71]),
        run(8, "a root URI with and without workspace folders", "6 roots, 0-2 workspace folders, which of 3 files exist", [70, 71, 74, 75]),
        run(2, "any digits", "1-4 symbolic digits of the line", [71]),
        run(3, "annotations without a location", "23 other annotations", [70]),
        run(4, "lines at the limits", "7 line numbers around 0, 2^16, 2^31 and 2^32", [71]),
        run(5, "any ASCII character in the path", "one symbolic ASCII character", [71], params=[1]),
        run(5, "any 2-byte character in the path", "one symbolic character of 2 UTF-8 bytes", [71], params=[2], thorough=True),
        run(5, "a longer character in the path", "sampled 3- and 4-byte characters", [71], params=[3]),
        run(6, "dots in paths", "12 paths with dots, slashes and escapes", [73]),
        run(7, "several annotations of one name", "1800 combinations of repeated annotations", [70, 71]),
    ]},
    "C17": {"runs": [
        run(0, "histories of one notification", "2 documents, 4 kinds of notification, symbolic versions, a symbolic letter per text; every request afterwards", [91, 92, 93, 94, 95], params=[1]),
        run(0, "histories of two notifications", "the same, two steps", [91, 92, 93, 94, 95], params=[2]),
        run(1, "histories of three notifications", "1 document, 4 kinds of notification, three steps; every request afterwards", [91, 92, 93, 94, 95], params=[3]),
        run(2, "a slow client", "2 documents, 2 changes while the client takes no messages; every request meanwhile and afterwards", [96, 91, 92]),
        run(4, "two changes at once", "2 changes of one document under way at once, up to 5 turns in any order, client slow or not, 3 x 3 texts with a symbolic letter, symbolic versions", [97, 91, 92]),
        run(5, "URIs that are almost the same", "3 URIs against 15 others that differ in case, folder, extension, query, fragment, host or scheme; 3 texts with a symbolic letter", [91, 92]),
        run(7, "faulty texts, two notifications", "2 opens or changes to 13 texts, most of them faulty, with a symbolic letter; compared with the last text in a new document, 15 cursors", [99], params=[2]),
        run(7, "faulty texts, three notifications", "the same with 3 opens or changes", [99], params=[3], thorough=True),
        run(6, "many documents", "151 open documents", [98]),
        run(3, "many changes", "4-6 texts one after the other, a symbolic letter in each", [91, 92]),
    ]},
    "C18": {"runs": [
        run(0, "one document, one step while a graph is shown", "4 kinds of step, 3 answers of the client, a symbolic letter per text", [100, 105, 106], params=[1]),
        run(1, "two documents, one step while a graph is shown", "2 documents x 4 kinds of step, 3 answers", [100, 105, 106], params=[1]),
        run(1, "two documents, two steps while a graph is shown", "2 steps of 2 documents x 4 kinds, 3 answers", [100, 105, 106], params=[2]),
        run(0, "one document, three steps while a graph is shown", "3 steps of 4 kinds, 3 answers", [100, 105, 106], params=[3], thorough=True),
        run(2, "two graphs at once", "a change in between, 4 kinds of step, 3 answers in either order", [102]),
        run(3, "the client is slow to take diagnostics", "2 documents, 2 changes under way, requests meanwhile", [103]),
        run(4, "the request is cancelled", "4 kinds of step before and after", [104]),
    ]},
    "C21": {"runs": [
        run(w, f"two lexemes {c}: {x}", f"24 x 24 lexemes; {b}", r, params=[2, i], thorough=(i == 5 and w == 2))
        for i, c in enumerate(["at top level", "in a function", "in a block", "in an argument list", "in an annotation", "in an unfinished function"])
        for w, x, b, r in [(0, "document", "the whole document", [114, 116]), (2, "symbols", "cursor on the first or second character of any word", [130, 131, 132, 133])]
    ] + [
        run(1, "two lexemes in a block: any cursor", "24 x 24 lexemes; " + ANY, [130, 131, 132, 133], params=[2, 2], thorough=True),
        run(0, "three lexemes in a block: document", "24^3 lexemes; the whole document", [110, 111, 112, 113, 114, 115, 116], params=[3, 2], thorough=True),
        run(0, "three lexemes in a function: document", "24^3 lexemes; the whole document", [110, 111, 112, 113, 114, 116], params=[3, 1], thorough=True),
        run(2, "three lexemes at top level: symbols", "24^3 lexemes; cursor on the first or second character of any word", [130, 131, 132, 133], params=[3, 0], thorough=True),
        run(10, "documents that end anywhere: document", "every prefix of a document with every construct", [110, 111, 112, 113, 114, 116]),
        run(12, "documents that end anywhere: symbols", "every prefix; cursor on the first or second character of any word", [130, 131, 132, 133]),
        run(20, "one character replaced or removed: document", "every 6th place of a document with every construct; any ASCII character or none", [110, 111, 112, 113, 114, 116], params=[0, 6, 5]),
        run(22, "one character replaced or removed: symbols", "every 12th place; any ASCII character or none; cursor on the first or second character of any word of the line", [130, 131, 132, 133], params=[0, 12, 5]),
        run(20, "one character replaced or removed, even places: document", "every 2nd place of a document with every construct; any ASCII character or none", [110, 111, 112, 113, 114, 116], params=[0, 2, 0], thorough=True),
        run(22, "one character replaced or removed, every 4th place: symbols", "every 4th place; any ASCII character or none; cursor on the first or second character of any word of the line", [130, 131, 132, 133], params=[0, 4, 2], thorough=True),
        run(30, "any ASCII character: document", "6 documents, one symbolic ASCII character inserted", [110, 111, 112, 113, 114, 116], params=[1]),
        run(31, "any ASCII character: any cursor", "6 documents, one symbolic ASCII character inserted; " + ANY, [130, 131, 133], params=[1]),
        run(30, "any 2-byte character: document", "6 documents, any character of 2 UTF-8 bytes inserted", [110, 111, 112, 113, 114, 116], params=[2]),
        run(32, "any 2-byte character: symbols", "6 documents, any character of 2 UTF-8 bytes inserted; cursor on the first or second character of any word", [130, 131, 133], params=[2], thorough=True),
        run(40, "a lexeme behind a document", "24 lexemes behind a document with every construct", [110, 111, 112, 113, 114, 116]),
        run(42, "a lexeme behind a document: symbols", "24 lexemes; cursor on the first or second character of any word", [130, 131, 132]),
    ]},
    # situations of other properties (harness 0-99: C01, 100: C14, 200: C16, 300: C17, 400: C18)
    "C22": {"runs": [
        run(1, "one ASCII character in a document", "5 documents, one symbolic ASCII character inserted; every request there", [505], params=[1]),
        run(2, "one 2-byte character", "6 documents, any character of 2 UTF-8 bytes; every request there", [505], params=[2]),
    ] + [
        run(3, "two lexemes " + c, "24 x 24 lexemes; every request there", [505], params=[2, i])
        for i, c in enumerate(["at top level", "in a function", "in a block", "in an argument list", "in an annotation", "in an unfinished function"])
    ] + [
        run(4, "documents that end anywhere", "every prefix of a document with every construct", [505]),
        run(5, "one character replaced or removed", "every 6th place of a document with every construct; any ASCII character or none", [505], params=[0, 6, 1], thorough=True),
        run(6, "positions and ranges anywhere", "6 texts, positions and ranges of symbolic 32-bit numbers", [505]),
        run(7, "commands", "3 commands, 0-3 arguments of 12 values each", [505]),
        run(8, "answers of the client", "12 values", [505]),
        run(9, "code actions of others", "symbolic 64-bit numbers, 8 kinds, 4 documents, 5 forms of function id", [505]),
        run(10, "code actions of no form", "12 values", [505]),
        run(11, "new names", "7 symbols, 9 beginnings, one symbolic ASCII character", [505], params=[1]),
        run(12, "workspace folders of every kind", "7 x 7 folders, 3 forms, 9 locations", [505]),
        run(13, "annotations of JSON pieces", "2 of 16 pieces in 3 contexts", [505], params=[2]),
        run(15, "any order of two messages", "3 documents, 6 messages each", [505], params=[2]),
        run(16, "repetitions", "16 pieces, 1-200 times, in 6 contexts", [505], thorough=True),
        run(101, "backtraces of two frames", "two frames of every kind", [505]),
        run(106, "frames that are no frames", "malformed frames", [505]),
        run(201, "external definitions", "0-3 workspace folders of 6 kinds, which of 3 files exist", [505]),
        run(300, "histories of one notification", "2 documents, 4 kinds of notification, symbolic versions; every request afterwards", [505], params=[1]),
        run(300, "histories of two notifications", "the same, two steps", [505], params=[2], thorough=True),
        run(302, "a slow client", "2 documents, 2 changes while the client takes no messages", [505], thorough=True),
        run(401, "a graph is shown", "2 documents x 4 kinds of step, 3 answers", [505], params=[1]),
        run(402, "two graphs at once", "a change in between, 4 kinds of step, 3 answers in either order", [505]),
        run(404, "the request is cancelled", "4 kinds of step before and after", [505]),
    ]},
}
