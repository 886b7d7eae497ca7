"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import props as P

L = "src/ast/"
HELP = L + "helpers.rs"
EXPR = L + "expression/mod.rs"
TY = L + "type_/mod.rs"
ST = L + "statement/"
E = L + "expression/"

# id: statement, quantifier text, why tests cannot settle it, files, mechanisms
T = {}


def t(id, statement, over, why, files, mech):
    T[id] = (statement, over, why, files, mech)


t("C01", "For every text, parsing returns: either the statements of the whole text or an error. It never panics, overflows, "
  "loops for ever or stops part of the way through the text with a success.",
  "every text (any Unicode characters, any truncation or corruption of a valid module)",
  "the tests parse about 400 short well-formed snippets; panics and silent truncation show on malformed or unusual ones",
  [L + "mod.rs", ST + "mod.rs", HELP, EXPR],
  [("the whole text must be consumed", L + "mod.rs file"), ("repetition of statements", ST + "mod.rs statements")])
t("C02", "The tree of an accepted text holds every name, literal and operator of the text exactly once, in the order of the text, "
  "and nothing else; only punctuation, keywords, blanks and comments inside statements go without a trace.",
  "every accepted text",
  "a test compares one snippet with one tree; dropped, doubled or reordered tokens show only in combinations no test has",
  [EXPR, TY, ST + "mod.rs", ST + "export.rs"],
  [("trees are built by tuples and folds over the parsed parts", EXPR), ("export and import lists", ST + "export.rs")])
t("C03", "A lower-case name is a letter a to z followed by ASCII letters, digits and underscores, or a lone underscore, and never a keyword; "
  "an upper-case name starts with A to Z. A name is taken whole and unchanged, so a keyword with "
  "more letters after it is a name, and a keyword is never read as a name.",
  "all names of any length and all characters, in every role a name can have",
  "the tests have a few dozen names; the rule is about every character in every position and each of the keywords",
  [HELP, E + "variable.rs", E + "access.rs", E + "access_function.rs"],
  [("lower-case names and the keyword list", HELP + " lo_name"), ("upper-case names", HELP + " up_name")])
t("C04", "An operator name is a run of operator characters taken whole, except the reserved runs `=`, `.`, `..`, `->`, `--`, `|` and `:`; "
  "it is kept unchanged in expressions, in parentheses, in definitions, in export lists and in "
  "operator declarations.",
  "all runs of operator characters, in every role an operator can have",
  "the tests use about ten operators; the runs of one to four characters over the operator alphabet are many thousands",
  [HELP, E + "variable.rs", EXPR, ST + "export.rs", ST + "infix.rs"],
  [("operator characters and reserved runs", HELP + " operator"), ("comma operators", E + "variable.rs op")])
t("C05", "Digits with an optional plus or minus sign are an integer literal, and with a dot between digits a float literal; the literal "
  "keeps the text of the number as written. Anything else that starts like a number is rejected or read as separate tokens "
  "by the rules, never as a number of a different value.",
  "all number-like texts in every place a literal can stand",
  "the tests have a handful of numbers; signs, leading zeros, several dots and lengths combine without end",
  [E + "integer.rs", E + "float.rs", EXPR], [("integers", E + "integer.rs"), ("floats", E + "float.rs")])
t("C06", "A string literal in single or triple quotes holds exactly the characters between its quotes, whatever they are, with "
  "`\\\"` standing for a quote that does not end the string; an unterminated string is an error.",
  "all string contents of any characters and lengths, in every place a literal can stand",
  "the tests have a dozen contents; quotes, backslashes, line breaks and multi-byte characters combine without end",
  [E + "string.rs"], [("single-quoted content", E + "string.rs single_string"), ("triple-quoted content", E + "string.rs multi_string")])
t("C07", "A character literal holds exactly the one character between its quotes; `'\\xHH'` holds the character whose code is the "
  "two hex digits. No other text between quotes is accepted as a character.",
  "every Unicode character and every escape, in every place a literal can stand",
  "the tests have five characters",
  [E + "character.rs"], [("content and escapes", E + "character.rs character_content")])
t("C08", "Terms one after another, separated by blanks, are an application of the first to the others, associating to the left; "
  "application binds tighter than every operator, and every argument is kept in order.",
  "any number and any kinds of terms, any blanks between them, in every place an expression can stand",
  "the tests apply two or three variables; the argument kinds, counts and separations are not bounded",
  [EXPR], [("application", EXPR + " application")])
t("C09", "Operands with operators between them are read as one chain that keeps every operand and every operator in order, "
  "nested to the right and without regard to precedence; `as` and `::` in patterns are read alike.",
  "any number and kinds of operands, any operators and blanks between them, in every place an expression can stand",
  "the tests chain two or three operands of a few kinds",
  [EXPR, L + "binop.rs"], [("operator chains", EXPR + " binary"), ("operators and `as`", EXPR + " operator_or_as")])
t("C10", "`[ ]` with elements between commas is the list and `( )` with two or more is the tuple of exactly these elements in "
  "order; parentheses around one expression, with or without blanks inside, are that expression, and `(,)`, `(,,)` ... are "
  "the tuple constructors. Unbalanced, empty or doubled separators are errors.",
  "any number and kinds of elements, any blanks, any nesting, in every place an expression can stand",
  "the tests have lists and tuples of at most three simple elements",
  [EXPR, E + "variable.rs"], [("lists and tuples", EXPR), ("tuple constructors", E + "variable.rs op")])
t("C11", "A record literal is exactly its fields, each name with its value, in order; a record update is also the name of the "
  "record it updates; a record pattern in an argument is exactly its names. Missing or doubled separators are errors.",
  "any number of fields, any names, values and blanks, in every place they can stand",
  "the tests have records of one or two simple fields",
  [EXPR], [("records, updates and simplified records", EXPR)])
t("C12", "`r.a.b` is access to each field in order, `.a` is the access function, and `M.N.x` or `M.N.T` is the qualified name with "
  "every module part in order; blanks around a dot change or break the reading.",
  "any number of parts, any names, in every place a term can stand",
  "the tests have up to three parts",
  [E + "access.rs", E + "access_function.rs", E + "variable.rs", HELP],
  [("access", E + "access.rs"), ("access functions", E + "access_function.rs"), ("qualified names", E + "variable.rs")])
t("C13", "`if c then a else b` holds exactly the condition and the two branches, whatever expressions these are, and `else` "
  "always belongs to the nearest open `if`.",
  "all kinds of conditions and branches, chains of any length, any blanks",
  "the tests have three conditionals of simple parts",
  [EXPR], [("conditionals", EXPR + " if_expression")])
t("C14", "`\\p q -> body` is a lambda of exactly its parameters in order and its body, which extends as far right as it can.",
  "any number and kinds of parameters, any body, any nesting and blanks",
  "the tests have four lambdas of simple parameters",
  [EXPR], [("lambdas", EXPR + " lambda")])
t("C15", "`let` holds exactly its definitions, in order, each with its own parameters, signature and body, and the expression "
  "after `in`; the definitions are the entries that start on the column of the first.",
  "any number and kinds of definitions, any bodies, nesting and indentation",
  "the tests have lets of one or two simple definitions",
  [EXPR, E + "function.rs"], [("let", EXPR + " let_expression"), ("local functions", E + "function.rs")])
t("C16", "`case e of` holds exactly its branches in order, each pattern with its own body; the branches are the entries that start "
  "on the column of the first, so inner branches belong to the inner case.",
  "any number of branches, any patterns, bodies, nesting and indentation",
  "the tests have cases of two or three simple branches",
  [EXPR], [("case", EXPR + " case_expression and case_"), ("indentation", HELP + " new_line_and_exact_indent")])
t("C17", "Line breaks group code by column alone: a line that starts further right than the expression it stands in "
  "continues it, a line on the column of the first branch or definition starts the next one, and a line on column zero "
  "starts a new statement. Anything else is an error, never another grouping.",
  "any indentation of every line, at any distance from the margin, for every construct that spans lines",
  "the tests indent by two or four blanks; the rule is about every combination of columns",
  [HELP, EXPR, E + "function.rs"], [("indentation rules", HELP + " spaces_or_new_lines_and_indent, new_line_and_exact_indent")])
t("C18", "Where two tokens of a definition, type, record or list may stand apart, any blanks may stand in any number, line breaks with enough "
  "indentation and line comments of any text included, without any effect on the tree.",
  "every gap between tokens, every shape of blank and every comment text",
  "the tests separate tokens by one or two shapes of blank at a few gaps",
  [HELP, EXPR, TY, ST + "import.rs", ST + "module.rs", ST + "type_declaration.rs"],
  [("blanks and comments", HELP + " spaces, spaces_and_newlines, spaces_or_new_lines_and_indent")])
t("C19", "A type annotation is read as exactly the type it writes: names and variables unchanged, arguments, tuple elements, "
  "record fields and extended record in order, arrows associating to the right, and parentheses only grouping.",
  "any type of any size, in every place a type can stand, with any blanks",
  "the tests have about thirty small types",
  [TY, L + "type_/core.rs"], [("types", TY)])
t("C20", "A type declaration holds exactly its name and parameters and, in order, its constructors with all their arguments; an "
  "alias exactly its name, parameters and type.",
  "any number of parameters, constructors and arguments, any types and layout",
  "the tests have six declarations of one to three constructors",
  [ST + "type_declaration.rs"], [("type declarations and aliases", ST + "type_declaration.rs")])
t("C21", "A module header (plain, port or effect) holds exactly its kind, its full dotted name, its effects and its exposed items in "
  "order, with the constructors each exposed type exposes.",
  "any names, any number and kinds of items, any layout",
  "the tests have ten headers",
  [ST + "module.rs", ST + "export.rs", HELP], [("headers", ST + "module.rs"), ("export lists", ST + "export.rs")])
t("C22", "An import holds exactly the dotted module name, the alias if there is one, and the exposed items in order if there are any.",
  "any names, any number and kinds of items, any layout",
  "the tests have eight imports",
  [ST + "import.rs", ST + "export.rs"], [("imports", ST + "import.rs"), ("export lists", ST + "export.rs")])
t("C23", "An operator declaration holds exactly its associativity, its precedence with the value of its digits, and its operator or "
  "function name; a precedence too large to represent is an error, never a wrapped or clipped value.",
  "every precedence number, every operator and name, all three associativities",
  "the tests have four declarations of one digit",
  [ST + "infix.rs"], [("operator declarations", ST + "infix.rs infix_declaration")])
t("C24", "A comment that starts on column zero between statements, `--` up to the end of the line or `{- -}` over any lines, is a "
  "statement of its own that holds exactly its text; it neither hides nor joins the statements around it.",
  "every comment text of any characters and length, between any statements",
  "the tests have five comments",
  [ST + "comment.rs", ST + "mod.rs"], [("comments", ST + "comment.rs")])
t("C25", "A port signature holds exactly its name and type, and a port definition exactly its name, parameters and body.",
  "all names, types, parameters, bodies and layouts",
  "the tests have four ports",
  [ST + "port.rs"], [("ports", ST + "port.rs")])
t("C26", "A top-level definition of a function or operator holds exactly its name, its parameters in order and its body, together with "
  "the name and type of the signature on the line before, when there is one.",
  "any number and kinds of parameters, any names, types, bodies and layouts",
  "the tests have ten definitions",
  [E + "function.rs", ST + "mod.rs", ST + "core.rs"], [("definitions and signatures", E + "function.rs")])
t("C27", "A file is exactly the list of its statements in the order they stand, whatever kinds they are and however many blank lines "
  "separate them; the statements of two files put one after the other are those of the first followed by those of the second.",
  "any number of statements, all pairs of kinds, any separation",
  "one test has a file of two statements; the joints between kinds and the counts are not bounded",
  [ST + "mod.rs", L + "mod.rs"], [("statements", ST + "mod.rs statements"), ("choice of the kind of statement", ST + "mod.rs statement")])
t("C30", "Parsing has no effect but its result: it writes nothing to standard output or error, touches no files or environment, and "
  "gives the same result for the same text whatever was parsed before.",
  "every text, after every other text",
  "no test looks at output or repeats a parse after another one",
  [L + "mod.rs", HELP, E + "character.rs"], [("parsers are pure functions of the text", L)])

t("C28", "For a file that parses, the check tool prints exactly the functions and operators that the file's imports expose by name, in "
  "order; for one that does not it prints the error, and without an argument the usage, with exit status 1.",
  "every file", "no test runs the tool", ["src/check.rs"],
  [("collection of names", "src/check.rs get_imported_names, get_export_set_imports")])
t("C29", "For a file the dump tool prints its tree or its error, or with -q one line that says whether it parsed; for a directory it does "
  "so for every file below it whose name ends in .elm and for no other, and without a path it prints nothing.",
  "every file and directory, with and without -q", "no test runs the tool", ["src/dump.rs"],
  [("one file", "src/dump.rs dump_file"), ("a directory", "src/dump.rs dump_directory")])

NA = {}


def na(id, title, statement, over, why, files, mech, reason):
    T[id] = (statement, over, why, files, mech)
    NA[id] = (title, reason)


na("C31", "Parsing takes time polynomial in the length of the text",
   "The time to parse a text grows at most polynomially with its length and nesting depth.",
   "every text", "the tests' texts nest at most three deep", [EXPR, TY],
   [("ordered choice with backtracking", EXPR)],
   "an asymptotic claim has no bound a solver run could settle, and the code does not have the property: every level of nested "
   "parentheses, tuples or records is parsed again by each alternative, so the time doubles per level; a repair would be another grammar")
na("C32", "Deeply nested text does not exhaust the stack",
   "A text nested to any depth is parsed or rejected without exhausting the call stack.",
   "every depth of nesting", "the tests' texts nest at most three deep", [EXPR, TY],
   [("recursive descent", EXPR)],
   "frame sizes are a fact of the machine code, which the encoded intermediate representation does not hold, and recursive descent "
   "without a limit on depth cannot have the property for every depth; the exponential time of C31 keeps the depths a run can reach far below it")

ORACLE = dict(
    C01="no panic, overflow, bad access or hang; verdict of the reference reader",
    C02="a lexer over the text against the leaves of the tree",
    C17="reference reader; the column rule stated directly for branches, definitions and continuations",
    C18="the tree of the same text with single blanks; reference reader for free bytes",
    C28="names collected while the imports are built; reference reader for free bytes and edits",
    C29="the printed form of the reference reader's tree; the names of the files put into the directories",
    C27="built trees; concatenation of two files against the two; reference reader",
    C30="nothing written, no environment or file read; the result of a first parse against that after another text")


def main():
    import subprocess
    full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    hook = [l.split()[0] for l in full if " hook: " in l]
    with open(P.__file__.replace("props.py", "properties.jsonl"), "w") as f:
        for i in sorted(T):
            st, over, why, files, mech = T[i]
            title = NA[i][0] if i in NA else P.PROPS[i]["title"]
            assert len(title) <= 80, title
            f.write(json.dumps(dict(
                id=i, title=title, statement=st, quantifier=dict(over=["inputs"], text=over), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=["the result of parsing a whole file", "elm-parser-dump"]))) + "\n")
    level = ("bounded: the solver decides every value of the symbolic bytes within the bounds (%s). Trusted: the symbolic engine, Z3, "
             "rustc up to LLVM IR, and the stand-in for the regex crate; counterexamples and sampled leaves are run on native builds. "
             "Texts of other shapes or beyond the sizes are outside the claim.")
    m = dict(version=1, setup_cmd="python3 build.py",
             hooks=dict(guard="cfg(elm_verif)", enable="RUSTFLAGS='--cfg elm_verif'", source_commits=hook),
             checks=[dict(property=i, quick_cmd="python3 check.py " + i,
                          thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                          evidence_file="evidence/%s.json" % i,
                          technique="symbolic execution of the compiled parser's LLVM IR with Z3 (bounded), counterexamples replayed natively",
                          level="model_checking", level_note=level % P.PROPS[i]["bounds"]) for i in sorted(P.PROPS)],
             not_applicable=[dict(property=i, reason=NA[i][1]) for i in sorted(NA)])
    json.dump(m, open(P.__file__.replace("props.py", "MANIFEST.json"), "w"), indent=1)
    d = P.__file__.replace("props.py", "DESIGN.md")
    s = open(d).read()
    a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
    rows = ["| %s | %s | %s | %s |" % (i, P.PROPS[i]["title"], ORACLE.get(i, "built trees; reference reader for windows and edits"),
                                       P.PROPS[i]["bounds"].replace(P.W, "W; ").replace("|", "\\|")) for i in sorted(P.PROPS)]
    open(d, "w").write(s[:a] + "<!-- table -->\n| id | what | oracle | bounds |\n|----|------|--------|--------|\n" +
                       "\n".join(rows) + "\n" + s[b:])
    assert not set(NA) & set(P.PROPS) and set(T) == set(NA) | set(P.PROPS)


main()
