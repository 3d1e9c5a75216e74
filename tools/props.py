#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run `python3 tools/props.py` in /verif to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Lexing any input terminates and then stays at EOF",
  "For every byte sequence, creating a lexer returns, every Scan call returns, and calling Scan repeatedly yields an EOF token after finitely many calls. Once Scan has returned EOF, every later call returns EOF again.",
  ["inputs", "histories"], "all byte sequences (valid UTF-8 or not, any length), all numbers of Scan calls",
  "Tests scan about 1000 random sources of well-formed ASCII tokens; none holds invalid UTF-8, an unterminated token or a lone sign, and a hang is only visible on the input that triggers it.",
  ["lexer/lexer.go"], [("rune advance", "lexer.Lexer.next"), ("token loops", "lexer.Lexer.Scan and the scan helpers it calls")],
  ["lexer.NewLexer", "lexer.Lexer.Scan"])
p("C02", "Lexing never panics",
  "For every byte sequence and every number of Scan calls, the lexer never panics: no index or slice of the source is out of range and nothing nil is dereferenced.",
  ["inputs", "histories"], "all byte sequences, all numbers of Scan calls",
  "The tests feed well-formed sources only; slice bounds depend on where the input ends relative to each token form.",
  ["lexer/lexer.go", "token/token.go"], [("source slicing", "lexer scan helpers"), ("end-of-input sentinel", "lexer.NewLexer")],
  ["lexer.Lexer.Scan"])
p("C03", "The lexer never writes to the caller's source buffer",
  "Creating a lexer over a byte slice, scanning it and parsing from it never modify any byte of that slice, nor any byte of its backing array beyond its length.",
  ["inputs"], "all source slices, including slices with spare capacity and sub-slices of a larger buffer",
  "Every test passes a freshly converted string literal and never looks at the buffer afterwards.",
  ["lexer/lexer.go"], [("source copy", "lexer.NewLexer")], ["lexer.NewLexer"])
p("C04", "Operators and punctuation lex faithfully and by longest match",
  "Whenever Scan returns an operator or punctuation token, its literal is exactly that token's spelling in the token table and exactly those characters stand in the source at the token's position. Every single-character operator yields its own token, and among '/', '//', '/=', '//=', '=', '=>', '.', '..' and '...' the longest spelling present is the one chosen.",
  ["inputs"], "all byte sequences and scan positions",
  "TestLexerFuzz separates all tokens by blanks, so adjacent operators, and operators followed by arbitrary text, are never tried.",
  ["lexer/lexer.go", "token/token.go"], [("operator switch", "lexer.Lexer.Scan"), ("spelling table", "token.tokens")],
  ["lexer.Lexer.Scan", "token.Token.String"])
p("C05", "Token positions are exact",
  "For every token Scan returns, Offset is the byte offset of the token's first character, Line is one more than the number of newline characters before that offset, and Column is the distance from the last preceding newline (from just before the source start on line 1).",
  ["inputs"], "all byte sequences and scan positions",
  "TestLexerFuzz checks positions on single-line ASCII sources only.",
  ["lexer/lexer.go", "token/position.go"], [("newline bookkeeping", "lexer.Lexer.skipWhitespace"), ("position construction", "lexer.Lexer.Scan")],
  ["lexer.Lexer.Scan"])
p("C06", "No source text vanishes between tokens",
  "Between the end of one token and the start of the next the lexer skips only blanks, tabs, carriage returns and newlines. The literal of an identifier, decimal number, comment or text token is verbatim source text of that token.",
  ["inputs"], "all byte sequences and scan positions",
  "The tests use blank-separated tokens and compare literals on samples.",
  ["lexer/lexer.go"], [("whitespace skipping", "lexer.Lexer.skipWhitespace"), ("literal slicing", "lexer scan helpers")],
  ["lexer.Lexer.Scan"])
p("C07", "Illegal characters and lexical errors always surface from parsing",
  "If the source contains a character outside the language (an ILLEGAL token) or an unterminated text literal, the error list ParseFile returns is not empty. ParseFile always returns a non-nil tree.",
  ["inputs", "programs"], "all token streams a source can produce, wherever in the file the illegal token or lexical error occurs",
  "No test parses a source with an illegal character or a lexical error.",
  ["parser/parser.go", "lexer/lexer.go"], [("prefix dispatch", "parser.Parser.parseEntry"), ("lexer error transfer", "parser.Parser.ParseFile")],
  ["parser.Parser.ParseFile"])
p("C08", "Parsing any source terminates",
  "For every source, creating a parser and calling ParseFile returns after finitely many steps (memory for the recursion permitting).",
  ["inputs", "programs"], "all token streams, including truncated and malformed ones",
  "The tests parse well-formed sources; a loop that fails to consume only shows on the malformed input that reaches it.",
  ["parser/parser.go"], [("token consumption", "parser.Parser.next"), ("entry loops", "group, array, map and file loops")],
  ["parser.NewParser", "parser.Parser.ParseFile"])
p("C09", "Parsing any source never panics",
  "For every source, with a fresh or a shared environment, creating a parser and calling ParseFile never panics (memory for the recursion permitting): malformed input ends in diagnostics. A shared environment holds what earlier parses put there, never a nil node.",
  ["inputs", "programs", "histories"], "all token streams; environments filled by earlier parses",
  "Error paths (wrong operand types, missing operands, truncated rules, duplicate names) are hardly exercised by the tests.",
  ["parser/parser.go", "parser/diagnostic.go", "ast", "environment/environment.go"],
  [("denotation handlers", "parser parse functions"), ("position accessors", "ast Start/End methods")],
  ["parser.Parser.ParseFile"])
p("C10", "No diagnostic the parser raises is lost",
  "Every problem the parser detects while parsing, including the checks it defers to the end of the file, is present in the error list ParseFile returns; the list is empty only if no problem was detected.",
  ["inputs", "programs"], "all token streams and all error paths",
  "The parser tests compare diagnostics only when the counts already agree, so a dropped diagnostic passes.",
  ["parser/parser.go", "parser/diagnostic.go"], [("diagnostic propagation", "parse functions' error results"), ("error handler", "parser.NewParser errorHandler")],
  ["parser.Parser.ParseFile"])
p("C11", "No parsed operand or entry is dropped from the tree",
  "Whenever ParseFile reports no error, every operand, entry and item it parsed is attached to the tree it returns: both sides of every operator, every entry of every group, map and array, and the value of every rule (comments excepted). No name or literal of the source becomes two nodes.",
  ["inputs", "programs"], "all well-formed sources",
  "The end-to-end tests only check that the error list is empty, and the tree comparison skips groups and arrays whose lengths differ.",
  ["parser/parser.go", "ast"], [("operand storage", "parse functions' composite nodes"), ("group entry conversion", "parseGroup / parseArray")],
  ["parser.Parser.ParseFile"])
p("C12", "Unresolved references are diagnosed; forward references are not",
  "A name in type position that no rule of the file and no entry of the supplied environment defines is reported, unless it is a socket or plug name (leading '$'), which never is. A name that is defined anywhere, before or after its use and by any of '=', '/=' and '//=', is not reported, and no rule is refused because a name is not defined yet.",
  ["inputs", "programs", "histories"], "all sources and rule orders",
  "The sample files contain defined names only, so neither direction of the check is exercised.",
  ["parser/parser.go", "environment/environment.go"], [("deferred checks", "parser.Parser.tasks"), ("symbol registration", "parser.Parser.parseRule")],
  ["parser.Parser.ParseFile"])
p("C13", "The first definition of a name wins and redefinition is refused",
  "Adding a name to an environment succeeds exactly when the name is absent, and then looking it up returns the value added; adding a present name returns ErrSymbolExists and changes nothing. No operation on one name affects another.",
  ["inputs", "histories"], "all histories of Add, Exists and Get over all names and values",
  "Tests try two names and one repetition.",
  ["environment/environment.go"], [("existence check before insert", "environment.Environment.Add")],
  ["environment.Environment.Add", "environment.Environment.Get"])
p("C14", "The tree walk accepts every node and visits every child",
  "Walking any tree built from the AST node types never panics, visits every non-nil child of every node exactly once, the elements of a list in their order, and ends each node's visit with a nil visit; when a visitor returns nil its subtree is skipped.",
  ["inputs", "programs"], "all trees over all node types",
  "No test calls the walker.",
  ["ast/astutils/walk.go", "ast"], [("type switch", "astutils.Walk")], ["astutils.Walk"])
p("C15", "Position accessors work on every node, complete or partial",
  "Calling Start or End on any AST node value, including nodes whose optional or erroneous children are absent and empty collections, returns and never panics.",
  ["inputs", "programs"], "all node values constructible by the parser or a library user",
  "No test calls Start or End on partial nodes, and the parser itself calls them on error paths.",
  ["ast"], [("accessor methods", "ast Start/End methods")], ["ast.Node.Start", "ast.Node.End"])
p("C16", "Choice, range and control operators group by RFC 8610 precedence",
  "Binary operators bind in the order of RFC 8610: control and range operators bind tighter than the type choice '/', which binds tighter than the key separators ':' and '=>', which bind tighter than the group choice '//', which binds tighter than assignment. The right operand of an operator never absorbs an operator that binds more loosely than it, and never leaves out one that binds more tightly.",
  ["inputs", "programs"], "all expressions over the operators",
  "The only precedence test parses one file and checks that the error list is empty.",
  ["token/token.go", "parser/parser.go"], [("precedence table", "token.Token.Precedence"), ("operand parsing", "infix handlers' minimum precedence")],
  ["token.Token.Precedence", "parser.Parser.ParseFile"])
p("C17", "Every construct the README lists for the parser has a handler",
  "Each primitive type name, literal form, collection opener, occurrence indicator and unwrap that the README marks as supported by the parser is accepted at the start of a type, and each listed choice, comparison and constraint operator, range operator and key separator is accepted after an operand.",
  ["programs"], "all tokens of the supported constructs",
  "Sample files cover a subset of the tokens.",
  ["parser/parser.go", "token/token.go", "README.md"], [("handler registration", "parser.NewParser")], ["parser.Parser.ParseFile"])
p("C18", "Exactly the language's words are keywords",
  "The identifiers that lex as something other than IDENT are exactly CDDL's type and value names, and the dotted names that lex as an operator are exactly the control operators of the token table; each maps to the token of that spelling. Every token has its own non-empty spelling.",
  ["inputs"], "all identifier spellings",
  "TestIdentifers samples a dozen spellings.",
  ["token/token.go", "lexer/lexer.go"], [("keyword table", "token init"), ("keyword lookup", "token.Lookup")],
  ["token.Lookup", "lexer.Lexer.Scan"])
p("C19", "Leaves of the tree hold what the source says",
  "A type name, identifier, boolean, text or number parsed where a type is expected becomes the node of its own kind: it carries the token, the whole text of the identifier or text literal, or exactly the number that is written (in the base of its prefix, with 64 bits; numbers that do not fit are diagnosed), and its Start is the position of the token.",
  ["inputs"], "all texts, numbers and positions of the tokens that stand for themselves",
  "TestNumericLiteral and TestTextLiteral sample a few values.",
  ["parser/parser.go", "ast/identifier.go", "ast/integer.go", "ast/float.go"], [("prefix handlers of single tokens", "Parser.parseEntry and the registered prefix functions")],
  ["parser.Parser.ParseFile"])
p("C20", "Independent instances share no mutable state",
  "Lexers, parsers, environments, generators and validators created independently share no mutable package state: after package initialisation (or a one-time initialisation under sync.Once) no package-level variable, nor anything reachable from one, is modified, so independent instances may be used from different goroutines.",
  ["schedules", "histories"], "all interleavings of operations on independent instances",
  "No test runs two instances concurrently.",
  ["token/token.go", "lexer/lexer.go", "parser/parser.go", "environment/environment.go", "transforms/codegen/golang"],
  [("package-level variables", "token.keywords, token.tokens, environment.ErrSymbolExists, gogen.converters")], ["all exported library API"])
p("C21", "Results are a function of the input",
  "Scanning, parsing, walking, printing and code generation produce the same result for the same input on every run: library code draws on no random source, clock, environment variable or goroutine scheduling, and no map iteration order reaches its output.",
  ["inputs", "schedules"], "all inputs and runs",
  "A test run cannot show that another run agrees.",
  ["lexer", "parser", "ast", "environment", "token", "transforms/codegen/golang"], [("absence of nondeterministic sources", "library packages")], ["all exported library API"])
p("C22", "Library code does not touch files, network or process",
  "Lexing, parsing, AST utilities, environment, validators and code generation open, read, write or remove no file, start no process, use no network and never terminate the process; generated code and printed trees go only to the writer or stream the caller chose.",
  ["inputs", "programs"], "all inputs to the library API",
  "Absence of an effect on untried paths cannot be shown by running some paths.",
  ["lexer", "parser", "ast", "environment", "token", "errors", "runtime/validators", "transforms/codegen"], [("absence of effectful calls", "library packages")], ["all exported library API"])
p("C23", "JSON and YAML configurations mean the same",
  "A configuration written in cddlc.json and the same configuration in cddlc.yaml load to equal values: every setting has the same key and the same meaning in both formats, distinct settings have distinct keys, and an unknown setting is treated the same way in both. The values inside the free-form `options` mapping are excluded.",
  ["configurations"], "all configuration values",
  "No test loads a configuration.",
  ["config/config.go", "cmd/cddlc/commands/init.go", "transforms/codegen/golang/options.go"], [("field tags", "config structs")], ["config.LoadConfig"])
p("C24", "Configuration loading reports every failure",
  "Loading a configuration returns a configuration only if the file was opened and decoded without error in the format its name designates; an unreadable file, an unknown file name or a decoding error yields an error and no configuration.",
  ["configurations", "fault_sequences"], "all file names, contents and I/O failures",
  "No test loads a configuration, let alone a broken one.",
  ["config/config.go"], [("error propagation", "config.LoadConfig")], ["config.LoadConfig"])
p("C25", "No command succeeds after a failure",
  "Whenever reading a source, loading the configuration, parsing, generating or writing output fails during the commands generate, init, lex or parse, the command returns an error (a non-zero exit), and parse errors are printed before it does.",
  ["inputs", "fault_sequences"], "all inputs and all I/O failures",
  "The commands have no tests.",
  ["cmd/cddlc/commands.go", "cmd/cddlc/commands/generate.go", "cmd/cddlc/commands/init.go", "cmd/cddlc/main.go"], [("error propagation", "command functions")], ["cddlc generate", "cddlc init", "cddlc lex", "cddlc parse"])
p("C26", "A failed generate leaves the previous output file intact",
  "If the source cannot be read, does not parse or cannot be generated, 'cddlc generate' neither truncates nor overwrites an existing output file for it.",
  ["inputs", "fault_sequences"], "all sources and failures before the output is complete",
  "The command has no tests.",
  ["cmd/cddlc/commands/generate.go"], [("order of truncation and generation", "commands.generateFile")], ["cddlc generate"])
p("C27", "init never damages an existing configuration",
  "'cddlc init' writes only to a configuration file that did not exist before; if one exists, in any of the supported names it may write, the file is left untouched and the command fails.",
  ["configurations", "schedules"], "all states of the directory, including a file appearing concurrently",
  "The command has no tests.",
  ["cmd/cddlc/commands/init.go"], [("exclusive creation", "commands.getFileHandle")], ["cddlc init"])
p("C28", "Every opened file is closed",
  "On every path, including error paths, each file the tool opens for a source, a configuration or an output is closed before the function that owns it returns.",
  ["inputs", "fault_sequences"], "all paths through file-opening functions",
  "A leaked descriptor is invisible in a short test run.",
  ["cmd/cddlc/commands.go", "cmd/cddlc/commands/generate.go", "cmd/cddlc/commands/init.go", "config/config.go"], [("close pairing", "file-opening functions")], ["cddlc generate", "cddlc init", "config.LoadConfig"])
p("C29", "Diagnostics are printed for every error and any position",
  "Printing a parser's error list against its source never panics and prints one entry for every error in the list, in order, whatever line and column the error carries.",
  ["inputs"], "all sources and error positions",
  "The printing functions have no tests.",
  ["cmd/cddlc/commands.go", "cmd/cddlc/commands/generate.go"], [("line lookup", "errorStringer")], ["cddlc generate", "cddlc parse"])
p("C30", "Every primitive type and literal has the right Go counterpart",
  "Code generation maps each primitive the README marks as supported to its Go counterpart (tstr/text to string, bstr/bytes to []byte, bool to bool, int and nint to int, uint to uint, float types to Go floats) and each literal rule to a Go literal of the same value, text being a quoted Go string; it never panics on any of them.",
  ["programs"], "all rules whose value is a primitive type or literal",
  "TestGen generates one array rule and does not look at the output.",
  ["transforms/codegen/golang"], [("type dispatch", "gogen transpileNode"), ("literal rendering", "gogen literal functions")], ["gogen.Generator.Visit"])
p("C31", "No group or array entry is dropped by code generation",
  "The struct generated for a group or array has one field for every entry, in source order, or generation fails loudly; optional entries carry the omitempty tag and arrays the toarray marker.",
  ["programs"], "all groups and arrays",
  "TestGen does not inspect the generated code.",
  ["transforms/codegen/golang/gen_grouped.go"], [("entry loop", "gogen transpileGroupLike")], ["gogen.Generator.Visit"])
p("C32", "Size constraints reach the generated validation method with their import",
  "Every '.size' constraint of a rule, at any depth of its group, appears once as a validator call with its own operands in that rule's Valid method, and the generated file imports the validator package exactly once whenever, and only if, it uses it.",
  ["programs"], "all rules with size constraints",
  "No test generates a constrained type.",
  ["transforms/codegen/golang/gen_operator.go", "transforms/codegen/golang/gen.go", "transforms/codegen/golang/gen_grouped.go"], [("validator collection", "gogen structure"), ("import collection", "gogen Generator")], ["gogen.Generator.String"])
p("C33", "generate writes every source to its own output",
  "When everything it does succeeds, generate loads the configuration of the working directory and, for every build, writes for each file of the source directory whose name ends in .cddl exactly one output, named after the source with .go for .cddl, in that build's output directory (which it makes if it is missing), with the code generated from that source for that build's package; it writes nothing else.",
  ["configurations", "histories"], "all configurations and directory contents",
  "The commands have no tests.",
  ["cmd/cddlc/commands/generate.go"], [("loop over builds and sources", "commands GenerateCmd")], ["cddlc generate"])
p("C34", "Registered case conversions are accepted, others refused",
  "Validating generator options succeeds exactly for the case conversions the generator registers ('camelcase', 'snakecase') and returns an error for any other value.",
  ["configurations"], "all option values",
  "No test validates options.",
  ["transforms/codegen/golang/options.go", "transforms/codegen/golang/gen_identifiers.go"], [("converter registry", "gogen init")], ["gogen.Options.Valid"])
p("C35", "Runtime validators decide their relations exactly",
  "The range and limit validators return exactly the documented relation for every value and bounds of every numeric type, including equal bounds, reversed bounds and NaN: exclusive means strictly inside, inclusive includes both limits, less and greater are strict. MustBool returns only for true and MustNotErr only for nil.",
  ["inputs"], "all values and bounds of all integer and float types",
  "The validators have no tests.",
  ["runtime/validators/validators.go"], [("comparisons", "validators functions")], ["validators package API"])
p("C36", "Commands and printing never panic",
  "The commands init, generate, lex, parse and doctor end by returning or exiting and never panic, whatever the arguments, the sources and the configuration hold (empty lists, null entries) and whichever operation fails. Printing or classifying a token, position, range, diagnostic, list of diagnostics, identifier, comment group or (partial) tree and validating a configuration never panic.",
  ["inputs", "configurations", "faults"], "all configurations, arguments and failing operations; all values of the printed types",
  "The commands and the printer have no tests.",
  ["cmd/cddlc/commands/generate.go", "cmd/cddlc/commands/init.go", "cmd/cddlc/commands.go", "config/config.go", "parser/diagnostic.go", "token/token.go", "token/position.go", "ast/astutils/print.go"],
  [("actions of the commands", "GenerateCmd, InitCmd, LexerCmd, ParseCmd, DoctorCmd"), ("printing", "String, Error, Diagnostic, Format")], ["cddlc", "config.Config.Valid", "astutils.Print"])
p("C37", "Operators keep their operands, bounds and places in the tree",
  "On every parse without a diagnostic the node of a choice, range, control operator, key, occurrence, tag, unwrap, optional, enumeration, group, map or array is of the operator's own kind and carries its token (and a comparison the operator's text): the operand before the operator stands in the node's left field and the operand behind it in the right one, and the node starts where its first token starts. The lower bound of an occurrence is the number before it, or 0 for a leading '*' and 1 for a leading '+'; the upper bound is the number that follows it directly, and there is none otherwise. A tag holds exactly the major type and number that are written, and a rule the name before its assignment.",
  ["inputs", "programs"], "all sources that parse without a diagnostic",
  "The tests compare a few trees; the sides, bounds and positions of most operators occur in none of them.",
  ["parser/parser.go", "ast/occurrence.go", "ast/tag.go", "ast/range.go", "ast/typechoice.go", "ast/entry.go"], [("handlers", "parser.Parser.parseOccurrence, parseTag, parseBound, parseTypeChoice, parseColon, parseRule")], ["parser.Parser.ParseFile"])
# not claimed
p("C40", "Generated Go code compiles",
  "Whenever code generation succeeds, the emitted file is a Go file that compiles.",
  ["programs"], "all sources", "TestGen does not compile its output.",
  ["transforms/codegen/golang"], [("code emission", "gogen.Generator.String")], ["gogen.Generator.String"])
p("C41", "The parser accepts exactly RFC 8610's grammar",
  "A source is accepted without error if and only if it is a well-formed CDDL specification in the supported subset.",
  ["inputs", "programs"], "all sources", "Samples only.",
  ["parser/parser.go"], [("grammar", "parser handlers")], ["parser.Parser.ParseFile"])
p("C42", "Parsing takes time and stack linear in the source",
  "Lexing and parsing use time and memory proportional to the size of the source, and nesting depth is limited only by memory.",
  ["inputs"], "all sources", "Tests use small sources.",
  ["parser/parser.go", "lexer/lexer.go"], [("recursive descent", "parser.Parser.parseEntry")], ["parser.Parser.ParseFile"])
p("C43", "The size validator implements RFC 8610's .size",
  "The generated size check accepts a value exactly when its byte size satisfies the .size constraint of RFC 8610.",
  ["inputs"], "all values and sizes", "Not tested.",
  ["runtime/validators/validators.go"], [("size comparison", "validators.CheckSize")], ["validators.CheckSize"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
