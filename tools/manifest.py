#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: run `python3 tools/manifest.py` in /verif."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
AI = "path-partitioned abstract interpretation of the SSA form"
TRUST = "Trusts go/types, go/ssa and the analyser's models of the standard library functions it meets."
# property: (technique, level note)
CLAIMS = {
 "C01": (AI + " with a termination measure per loop", "Sound for the whole input space up to the analyser's models: every loop reachable from Scan has a strictly progressing bounded measure, and Scan after EOF is EOF. " + TRUST),
 "C02": (AI + " (bounds, nil and conversion obligations)", "Every index, slice, dereference and call reachable from NewLexer and Scan is discharged for sources of any length and content. " + TRUST),
 "C03": (AI + " with a read-only ownership mark on the source array", "Every store, copy and append reachable while lexing is shown not to target the caller's array. Parsing reaches the source only through the lexer. " + TRUST),
 "C04": (AI + " of one Scan from the lexer's proved invariant", "Inductive: the state between two calls is described by an invariant that is re-established after Scan; every operator token on every path has its spelling under it and no longer operator in front of it. " + TRUST),
 "C05": (AI + " of one Scan with ghost newline counters", "Inductive over calls of Scan; Line and Column are compared with the number and place of the newlines before the token for every path. " + TRUST),
 "C06": (AI + " of one Scan with literal provenance", "Inductive over calls of Scan; literals are tracked as slices of the source. ILLEGAL tokens and normalised hexadecimal, octal and binary numbers are not compared verbatim. " + TRUST),
 "C07": (AI + " with summaries of the recursion and ILLEGAL tokens as ghost events", "Any token sequence, any operands, any environment; the recursion of the parser is a least fixed point over summaries by look-ahead class. The lexer is a model that may return ILLEGAL and record errors at any call; that an unterminated text literal is recorded is decided on Scan itself. " + TRUST),
 "C08": (AI + " with summaries of the recursion and a measure of the tokens left", "Any token sequence, any operands, any environment; the recursion of the parser is a least fixed point over summaries by look-ahead class. The lexer is a model (that Scan ends is C01). " + TRUST),
 "C09": (AI + " with summaries of the recursion (nil, bounds, conversion and panic obligations)", "Any token sequence, any operands, any environment of non-nil nodes, every deferred check with the parser unknown. What is taken for granted of literals is shown on the lexer. That Start and End of a node never panic is C15; stack exhaustion is not covered. " + TRUST),
 "C10": (AI + " with diagnostics as debts that are paid by the list of errors or the caller", "Any token sequence, any operands, any environment; every conversion, environment call, handler and deferred check able to fail. Failures of operations other than strconv conversions, the environment and the handlers are not tracked. " + TRUST),
 "C11": (AI + " with nodes, operands and converted numbers as debts that are paid by reachability from the returned node", "Any token sequence, any operands. Every node of a recursive call without a diagnostic, operand and converted number must be reachable from the node a function returns without a diagnostic; lists of nodes only grow and no name or text literal is passed over unread. Paths that raise a diagnostic are C10's. " + TRUST),
 "C16": (AI + " with summaries of the recursion, one per operator and precedence", "Any token sequence. For each right operand that is parsed: which operators it may absorb and before which it may end, by dispatch, whatever numbers the table uses. Operators that prefix a type (~, &, ?, *) and the comma, which only separates entries, are not covered. " + TRUST),
 "C17": (AI + " with summaries of the recursion, the token fixed", "Every construct of the README's table. A type name is accepted on every path when the source ends behind it; other constructs have a path without a diagnostic, which a handler that refuses only some operands also has. " + TRUST),
 "C12": (AI + " with the name that is read tracked to its deferred check and the environment split on its presence", "Any token sequence, any environment, every deferred check with the parser unknown. That the environment keeps names is C13, that reports reach the caller is C10. Names in places the parser takes for keys (before a colon) are not types. " + TRUST),
 "C13": (AI + " over an unknown table", "Any history of additions is an unknown table; one operation on two different unknown names is decided on every path. " + TRUST),
 "C14": (AI + " per node type with visits as events", "Every node type, unknown fields, lists of unknown length; recursive calls are events, so the result holds for trees of any height. Lists are assumed to hold no nil. " + TRUST),
 "C15": (AI + " per node type and accessor", "Every node type and both accessors for unknown fields; by induction on the height of the tree. Lists are assumed to hold no nil. " + TRUST),
 "C18": (AI + " of the token tables and of Lookup", "The table is computed from the initialiser's code; Lookup is decided for each word, for near misses and for all other strings at once, and Scan on every path. " + TRUST),
 "C19": (AI + " of single tokens, with the identity of texts and numbers", "Every token that stands for itself, as the last token of the source, with unknown text and position. What strconv reads in a text is taken as documented; leaves inside longer constructs are made by the same handlers (C16, C17), names of rules, tags and occurrence bounds are decided by C37. " + TRUST),
 "C20": ("whole-program alias and effect analysis of the SSA form", "May-analysis over fields, parameters, results, closures and dynamic calls, insensitive to paths: every store, map update, append, copy, delete and library call of the library packages is an obligation. Heap cells reached through lists of pointers are not followed. Trusts a table of which standard library calls write through their arguments."),
 "C21": ("effect analysis of the SSA form: nondeterministic sources, map iteration order, formatted addresses, goroutines", "Every library call and every map iteration of the library packages is an obligation. Uses of a map iteration that are neither known to be order-free nor known to show the order are reported as undecided. Trusts a table of nondeterministic standard library calls."),
 "C22": ("enumeration of call sites and references in the SSA form", "Every reference to a standard library function or variable in the library packages is an obligation. Trusts a table of which packages and functions touch files, processes, network or standard streams."),
 "C23": ("comparison of struct types and tags in the type-checked program", "Every field of every struct reachable from config.Config. Trusts the decoders' documented key and type mappings; types with their own decoding methods are undecided."),
 "C24": (AI + " with failing library operations split into success and failure", "Fifteen file names in and outside the supported ones, and any other name; every outcome of opening and decoding. The file system and the decoders are models that may fail at each call. " + TRUST),
 "C25": (AI + " with failing operations as ghost state", "Every path of the four actions, with each library operation and the scanner, parser and generator able to fail at each call. Ignored errors of closing files that were only read do not count as failures, nor does a missing file that was asked about. Counters are taken to stay below 2^63. " + TRUST),
 "C26": (AI + " with ghost typestate of the output file", "Every path of generate and every operation that creates, truncates, replaces or removes a file. A loop that parses begins a new source at each round. Opening without truncation is not counted as damage unless the handle is written or truncated. " + TRUST),
 "C27": (AI + " with an effect rule for files", "Every path of init and every open, create, rename, remove and truncate on it. " + TRUST),
 "C28": (AI + " with a typestate of handles", "Every path of the four actions and of LoadConfig; each call site that opens a file is one handle. Loops that open several handles before closing any are not decided. Handles made by library helpers are the helpers' own. " + TRUST),
 "C29": (AI + " over diagnostics with unknown fields", "Every printing function for one diagnostic or a list of any length, any line, position and message; the marker's column and the position in the text are compared with the fields. " + TRUST),
 "C30": (AI + " of the code generator on single rules, with the provenance of every printed text", "Every primitive type and spelling and every literal, with unknown positions and values and any name that converts to a Go identifier. Values are followed into strconv and fmt by operation and operands; that those print and quote as documented is assumed. null, which has no Go type, is recorded as a known finding. " + TRUST),
 "C31": (AI + " of the code generator on shapes of trees, with the provenance of names", "Every kind of entry alone, in pairs and triples, some lists of up to six entries, nesting to depth three, names unknown and distinct; lists of unknown length and kind for the number of fields. Which fields an entry of a deeper nesting gets is not decided. " + TRUST),
 "C32": (AI + " of the code generator on shapes of trees, with the provenance of operands", "Each sized type, direct, in entries, optional, repeated and nested to depth three, up to three constraints in a rule and three rules in a file; operands unknown. Larger combinations are not decided. " + TRUST),
 "C33": (AI + " of the generate action over a file system model with the provenance of what is written", "Two builds of three and two sources among other files and directories, unknown packages and directories, every operation succeeding, output directories present or missing. Other numbers and failing operations (C25, C26) are not decided. " + TRUST),
 "C34": (AI + " of Valid with an unknown conversion", "Each word and all other strings at once. " + TRUST),
 "C35": (AI + " per order type of the arguments", "Every instantiation, all 13 weak orders of value and bounds and 12 more with NaN: comparisons are decided from the order alone, arithmetic on the values is not. " + TRUST),
 "C36": (AI + " of the commands with failing operations and configurations with nil entries, and of the printing functions on unknown values", "Every path of the actions and of the printing functions; panics inside library code outside the repository, in the lexer and the parser (C02, C09) and in printing diagnostics with their lines (C29) are not decided here. Parts of a tree are printed by the call under way (induction over the tree). " + TRUST),
 "C37": (AI + " of each operator's handler behind each kind of operand, with the identity of operands, numbers and texts", "Every operator and bracket of the parser behind every token that stands for itself; an operand behind an operator is any node. What is read in a number's text is taken as documented; places of entries named by a number, the ends of nodes and the names of integer keys are not decided. " + TRUST),
}
NA = {
 "C40": "Whether an arbitrary generated file type-checks depends on the user's names and types (collisions, unresolved names, cyclic types): a runtime quantity no static argument about the generator bounds. The parts that are visible in the generator's shape (imports, literals, fields, receivers) are claimed as C30, C31 and C32.",
 "C41": "Equivalence of a hand-written recursive-descent parser with a grammar quantifies over all token sequences; the tree also deliberately accepts a subset. Its structural parts are claimed separately (C10, C11, C16, C17).",
 "C42": "Running time and stack depth are runtime quantities; no static bound in reach.",
 "C43": "The generated size check's meaning depends on runtime sizes of arbitrary values obtained by reflection (and CBOR encodings); no structural necessary condition beyond C35 and C32 is sound here.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i}",
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "No sound static check of this property has been finished; see DESIGN.md.")})
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "All checks are one static analyser, cddlvet, run on /repo's current source; see DESIGN.md. No hooks are needed in /repo."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
