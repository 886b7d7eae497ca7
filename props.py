"""What each check runs, and the bounds it states."""
import re
import subprocess

LIMIT = dict(quick=240, thorough=3000)
PER = dict(quick=60, thorough=600)

# entries that only the thorough tier runs, besides those with `deep` in the name
SLOW = {"c06_wide2", "c10_wide2", "c13_wide", "c16_wide"}


def is_deep(n):
    # names of the entries that only the thorough tier runs
    return "deep" in n or n in SLOW or bool(re.search(r"_(ins3|nest3|single3|multi3|bothall)$", n))


def entries(prop, replay):
    p = subprocess.run([replay], stdout=subprocess.PIPE, text=True)
    pre = prop.lower() + "_"
    return [n for n in p.stdout.split() if n.startswith(pre)]


ASSUMPTIONS = [
    "what is executed is the LLVM IR rustc emits for /repo's current sources in the release profile with overflow checks "
    "on (opt-level 2, one codegen unit, no vectorisation), not the machine code; sampled leaves and every counterexample are "
    "run on natively built release and dev binaries",
    "the regex crate is replaced in the encoded program by verif's backtracking matcher of the same syntax (regex-shim); "
    "the native replays use the real crate",
    "the symbolic engine (symx) and Z3 are trusted; memory allocation succeeds; stack depth is not bounded",
    "inputs are the texts the entries build: every value of the symbolic bytes, within the stated sizes and shapes; longer "
    "or differently shaped texts are outside the claim",
]

W = ("windows: every value of the stated number of free ASCII bytes inside fixed contexts; edits: every text a two- or three-byte "
     "overwrite or two-byte insertion (four in the thorough tier), or a removal of a few bytes, away from the templates; one token of a "
     "template (thorough: two neighbouring) replaced by any name, number, string, character, operator or other token, two tokens by "
     "the same new one, and any character of two to four bytes at any place; literals, operators, functions, types and modules that mean "
     "something (0, \"\", True, identity, Basics, ...) in 4 to 18 templates; ")
N = "nesting of up to 300 levels; "
PROPS = {}


def p(id, title, bounds, **k):
    PROPS[id] = dict(title=title, bounds=bounds, **k)


p("C01", "Parsing is total", "verdict against the reference reader: 4 free ASCII bytes (thorough: 5), 6 after `x = `, or 2 (3) free UTF-8 characters in 36 "
  "grammar contexts; two-byte (three-byte) overwrites, one-byte (three-byte) insertions at, and cuts of, every position of a 950-byte module; up to 40 repetitions "
  "of 17 pieces; the texts of 80 entries of the other properties: long repetitions, deep nesting, shapes (thorough: replaced tokens)")
p("C02", "The tree holds every token, in order", W + "4 (5) free bytes in 35 contexts, operator and record alphabets of 5 and 6 "
  "bytes, all pairs of 22 expression shapes, of 65 expression templates (triples), two-byte (three-byte) edits at every position of a 950-byte module; the texts of 80 entries of the other properties: long repetitions, deep nesting, shapes (thorough: replaced tokens)")
p("C03", "Identifiers and keywords", W + "names of free characters up to 4097, chosen ones up to 65537; two of one length of up to 33; every keyword with up to 2 free bytes around it")
p("C04", "Operator names", W + "operators of 1 to 4 free characters in expressions, definitions, export lists and declarations")
p("C05", "Numbers", W + "up to 5 free bytes of a number, runs of up to 4097 free digits, 65537 chosen ones; integers of 1 to 40 and floats of up to 40 + 21 digits of 5 patterns")
p("C06", "Strings", W + "up to 4 free characters of a string, one to four bytes each; strings of up to 65537 characters with free bytes at three places")
p("C07", "Characters", W + "any one character of one to four bytes; every `\\x` escape of free bytes")
p("C08", "Application", W + N + "2 (3 in one context) terms of 16 kinds in 9 contexts; up to 1025 arguments; 6 blank shapes between 4 terms; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C09", "Binary operators", W + N + "2 operands of 22 kinds with free operators in 9 contexts; chains of up to 1025 operands; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C10", "Lists, tuples, parentheses", W + N + "0 to 3 elements of 22 kinds in 9 contexts; up to 1025 elements; tuple "
  "constructors of 1 to 40 commas; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C11", "Records", W + N + "0 to 2 fields with values of 22 kinds in 9 contexts; up to 1025 fields; field-name patterns of 1 to 6 names; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C12", "Access and qualified names", W + "0 to 4 module parts and 0 to 4 fields in 9 contexts; up to 1025 of each; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C13", "Conditionals", W + N + "22 kinds in each of the three places; chains of 1 to 1025; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C14", "Lambda", W + N + "1 to 2 (3) parameters of 16 kinds, bodies of 22 kinds, 9 contexts; up to 1025 parameters; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C15", "Let", W + N + "1 to 2 (3) entries of 9 kinds; bodies of 22 kinds; up to 1025 entries; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C16", "Case", W + N + "1 to 2 branches with patterns of 18 kinds, bodies of 22 kinds; up to 1025 branches; compositions: any of 65 expression templates around or in each of the property's own (thorough: three deep, in 4 places, 8 kinds of leaf)")
p("C17", "Layout", "25 programs of 3 to 7 lines with every line indented by 0 to 3..8 blanks; pairs of columns differing by -1, 0, 1 at "
  "27 columns up to 513; 8 free blanks or line breaks in 4 places")
p("C18", "Blanks and comments", "17 programs: each gap filled with 12 shapes of blank (comment text free), pairs of gaps with 6 x 6 "
  "shapes, all gaps at once, each gap filled with a run of up to 4097 blanks, line ends, comment lines or characters of a comment, and 2 (4) free ASCII bytes in each gap")
p("C19", "Type annotations", W + N + "types of 10 to 12 kinds in 10 contexts; up to 1025 arrows, arguments, elements or fields; 21 templates three deep")
p("C20", "Type and alias declarations", W + N + "1 to 2 (3) constructors with 0 to 2 arguments of 10 kinds; up to 1025 constructors or parameters")
p("C21", "Module headers", W + "3 header kinds, 1 to 3 name parts, 0 to 3 items of 6 kinds; up to 1025 parts, items, constructors or effects")
p("C22", "Imports", W + "1 to 3 name parts, alias or not, 0 to 3 items of 6 kinds; up to 1025 parts, items or imports")
p("C23", "Operator declarations", W + "1 to 5 free digits, free names of 1 to 3 characters; values around 2^63 and 2^64 with free last digits")
p("C24", "Comment statements", W + "0 to 4 (8) free characters of one to three bytes; comments up to 600 bytes; up to 1025 comments; between all "
  "pairs of 15 kinds of statement")
p("C25", "Ports", W + N + "types of 10 kinds, 0 to 8 parameters, bodies of 22 kinds; up to 1025 ports")
p("C26", "Functions", W + N + "0 to 2 (3) parameters of 16 kinds, with and without a signature, bodies of 22 kinds; up to 1025 parameters or functions")
p("C27", "Sequences of statements", W + N + "all pairs (triples) of 15 kinds with free blanks between; up to 1025 statements; concatenations of 5 x 5 "
  "texts with one free byte")
p("C30", "No effect but the result", "3 (4) free bytes in 36 contexts, 2 (4) before and after 7 other texts; one-byte (two-byte) overwrites of a 950-byte module; 7 texts after one of the same length, in the same memory or not, that differs in 2 (4) bytes; up to 1025 texts of 3 kinds before; two texts with free names, numbers, strings, comments or operators of one length; each text of 80 entries of the other properties twice")

TOOL = dict(exe="bins/replay/target/%s/tool-replay", any_order=True)
p("C28", "The import checker lists exactly the functions imported by name", "1 import of 1 to 2 items and 2 imports of 1 item, of 6 kinds, with other "
  "statements around (thorough: 2 of 2); imports anywhere among up to 3 statements of 12 kinds, names repeated or not; names of up to 300 "
  "characters; up to 1025 items or imports; files up to 16 KiB; files that are not UTF-8; 3 (5) free ASCII bytes in 5 contexts; one-byte edits, replaced tokens "
  "and listed characters of two to four bytes at every position of a 130-byte file; no argument, one file of any name, up to 20 more arguments", build=("engine", "check", "tools"),
  ll="bins/check/target/release/deps/elm_tool_check.ll", cap=60_000_000, **TOOL)
p("C29", "The dump tool prints the tree, or the verdict, of every Elm file it is given", "files: 22 kinds of expression, 11 of statement, 2 to 3 free "
  "ASCII bytes in 3 contexts, replaced tokens, sizes of 0 to 16 KiB; 7 argument forms, a file of any name, files that are not UTF-8; directories given in 13 forms; directories: pairs of 14 names, any "
  "name of 1 to 20 printable characters, directories of any name of 1 to 16 characters at depth 1 and 2, names up to 250 characters, 16 names outside the usual, trees and errors of 2 and 3 files, "
  "3 files in all places of 8 shapes of nested directories, up to 520 files, 100 levels; one or two symbolic links of 4 names to 11 places, a link given as the path", build=("engine", "dump", "tools"),
  ll="bins/dump/target/release/deps/elm_tool_dump.ll", cap=60_000_000,
  assumptions=["the system calls the tools reach (open, read, stat, directory reading, exit, arguments) are modelled by bins/help/src/model.rs: "
               "no read errors, no file that changes while it is read; replays run the built tool on real files"], **TOOL)
PROPS["C28"]["assumptions"] = PROPS["C29"]["assumptions"]

for _i in (6, *range(8, 17), *range(19, 28)):
    PROPS["C%02d" % _i]["bounds"] += "; one to five programs with a line break to one of 5 columns, a comment or nothing in every two gaps between their tokens"
for _i in (1, 2, 17, 30):
    PROPS["C%02d" % _i]["bounds"] += "; 60 programs with a line break to one of 5 columns, a comment or nothing in every gap between their tokens (thorough: two gaps)"
