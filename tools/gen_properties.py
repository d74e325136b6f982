#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
PARSE=["parser/proto.go","parser/syntax.go","parser/edition.go","parser/import.go","parser/package.go","parser/option.go","parser/message.go","parser/field.go","parser/mapField.go","parser/groupField.go","parser/oneof.go","parser/enum.go","parser/reserved.go","parser/extend.go","parser/extensions.go","parser/declaration.go","parser/service.go","lexer/constant.go","lexer/fullIdent.go","lexer/messageType.go"]
p("C01","Only sentences of the documented grammar are accepted",
 "Parse, and every exported statement parser, returns a result without an error only when the tokens it consumed form a sentence of the grammar documented for that statement (with the documented permissive extensions when permissive mode is on).  Nothing is skipped, swallowed or repaired silently: no token may be missing, extra, misplaced or of the wrong kind.",
 ["inputs","configurations"],"every source text, in permissive and strict mode",
 "Tests show acceptance of good samples and rejection of a handful of bad ones; the set of malformed sources that must be rejected is infinite.",
 PARSE,[("recursive descent parser, one method per production","parser/*.go Parse*"),("token expectations after every Next","parser/*.go `if p.lex.Token != ...`")],["(*parser.Parser).Parse*","protoparser.Parse"])
p("C02","Every sentence of the documented grammar is accepted",
 "Whenever the source of a statement is a sentence of its documented grammar (including the documented permissive extensions in permissive mode), the corresponding parser succeeds.  A parser gives up only at a token that cannot continue any sentence.",
 ["inputs","configurations"],"every grammatical source text, in permissive and strict mode",
 "The sentences are infinite (any order and number of statements, options, names, comments anywhere); tests exercise about two hundred.",
 PARSE,[("statement dispatch on the looked-ahead keyword","parser/proto.go, parser/message.go, parser/enum.go, parser/service.go, parser/oneof.go"),("optional parts read with lookahead and pushed back","parser/*.go UnNext")],["(*parser.Parser).Parse*","protoparser.Parse"])
p("C03","Names, types, numbers, labels and modifiers reach the AST unchanged",
 "In every parsed element the name, type, field or enum number, range bounds, label and modifier flags, import location, package name, syntax or edition version and stream flags are exactly those written at that place of the source, none swapped, altered, truncated or defaulted.",
 ["inputs","configurations"],"every accepted source text and every element in it",
 "Tests compare a few literal ASTs; a field filled from the wrong token in one combination of optional parts is not among them.",
 PARSE,[("text of the current token copied into locals and AST fields","parser/*.go")],["fields of *parser.Field, MapField, GroupField, OneofField, EnumField, Range, Reserved, RPC, Import, Package, Syntax, Edition, Declaration ..."])
p("C04","Option names and constants reach the AST unchanged",
 "For every option (statement, field option or enum value option) the recorded name and constant are the source's own tokens concatenated in order, with nothing lost, added or reordered other than the documented normalisation of aggregate separators.  Adjacent string literals are merged (permissive mode) into one literal with exactly the same contents, and every option of a list is recorded once, in order.",
 ["inputs","configurations"],"every accepted option, of any nesting and length, in permissive and strict mode",
 "Option names and aggregates nest without bound; tests contain a few dozen constants.",
 ["parser/option.go","parser/field.go","parser/enum.go","lexer/constant.go","lexer/fullIdent.go"],[("text accumulation while parsing names and aggregates","parser/option.go"),("merging of string literals","lexer/constant.go")],["OptionName and Constant of *parser.Option, FieldOption, EnumValueOption"])
p("C05","Bodies hold every statement exactly once, in source order",
 "The body of every proto, message, group, enum, oneof, service, rpc, extend, extensions and reserved element lists each statement of the source block exactly once, in source order, as the element type that the grammar gives it, and never contains a nil element.",
 ["inputs","configurations"],"every accepted source text: any number and order of statements in any block",
 "Needs arbitrary sequences of statements; tests have one or two of each kind.",
 PARSE,[("statement loops appending to the body slices","parser/proto.go, message.go, enum.go, service.go, extend.go, oneof.go, reserved.go, declaration.go")],["ProtoBody, MessageBody, EnumBody, ServiceBody, ExtendBody, OneofFields, Options, Ranges, FieldNames, Declarations"])
p("C06","Element positions delimit the element's source text",
 "The start position of every parsed element is the position of its first token and its last position is that of its last character (the terminating ';' or closing bracket, or the accepted trailing ';' of a block), and a comment's positions delimit the comment text.",
 ["inputs","configurations"],"every accepted source text and every element carrying a position",
 "Tests fix the offsets of single examples; positions depend on which optional parts and pushed-back lookahead were read.",
 PARSE+["parser/comment.go","lexer/scanner/position.go"],[("positions sampled from the current token","parser/*.go startPos/lastPos"),("bulk advance over a comment's text","lexer/scanner/position.go AdvancedBulk")],["Meta.Pos, Meta.LastPos"])
p("C07","Comments before a statement are attached to that statement",
 "All comments between the previous statement (after its same-line trailing comment) and a statement of a proto, message, enum, service, extend, oneof or declaration-list body are, in order and each exactly once, that statement's leading comments.  They attach to no other element and none is lost (options inside an rpc block carry no comments and an empty statement has nowhere to keep them).",
 ["inputs","configurations"],"every accepted source text with any number of comments at any place",
 "Comments may appear between any two tokens in any number; tests place a few.",
 ["parser/comment.go","parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","parser/extensions.go"],[("comments collected before dispatch","parser/*.go ParseComments at loop heads")],["Comments fields"])
p("C08","A trailing comment on the same line becomes the inline comment",
 "The first comment after a statement becomes its inline comment exactly when it starts on the line on which the statement ends, and the first comment after an opening bracket that has an inline-comment slot is recorded there exactly when it is on the bracket's line.  A comment that starts on a later line is left for the following statement.",
 ["inputs","configurations"],"every accepted source text with comments, for every line layout",
 "Depends on line relations for every statement kind and every lookahead state; tests have a handful of layouts.",
 ["parser/inlineComment.go","parser/proto.go","parser/message.go","parser/extensions.go","parser/declaration.go"],[("line comparison with the last token","parser/inlineComment.go parseInlineComment")],["InlineComment, InlineCommentBehindLeftCurly, InlineCommentBehindLeftSquare"])
p("C09","Requested body comments and rpc comments are all kept, in order",
 "With body comments requested, every comment of a proto, message, enum, service or extend body that belongs to no other element appears in that body in order, and without the request no comment ever appears in a body.  All comments inside an rpc signature are recorded once, in order, as embedded comments of that rpc.",
 ["inputs","configurations"],"every accepted source text with comments at any place, with and without the option",
 "Needs arbitrary comment placement (empty bodies, before empty statements, before the closing bracket).",
 ["parser/proto.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/comment.go","lexer/lexer.go","lexer/scanner/scanner.go"],[("flush of pending comments at the end of a body","parser/*.go bodyIncludingComments"),("scanned comments filtered by offset","lexer/lexer.go FindMidComments")],["ProtoBody, MessageBody, EnumBody, ServiceBody, ExtendBody, RPC.EmbeddedComments"])
p("C10","A failed parse returns no result and a positioned error",
 "When a parser returns an error its result is nil, and the error is (or wraps) the library's positioned error, carrying a source position no later than the offending token.  A parser never returns a nil result together with a nil error, except the two documented optional statements when they are absent.",
 ["inputs","configurations"],"every rejected source text",
 "Every one of about a hundred error exits must obey it, in every state; tests only check that some error was returned.",
 PARSE+["parser/error.go","lexer/error.go","parser/meta/error.go"],[("uniform error constructors","parser/error.go, lexer/error.go"),("(nil, err) returns","parser/*.go")],["results of protoparser.Parse and Parse*"])
p("C11","Strict mode refuses exactly the permissive extensions",
 "Each documented extension (aggregate and list option constants, adjacent string literals, fully qualified option names, ';' after a block) is accepted if and only if permissive mode is on; sentences of the base grammar are treated alike in both modes.  Permissive mode is the default of Parse.",
 ["inputs","configurations"],"every source text in both modes",
 "Two infinite languages have to be compared; tests try single examples in one mode.",
 ["parser/option.go","parser/message.go","parser/enum.go","parser/service.go","parser/extend.go","parser/oneof.go","lexer/constant.go","protoparser.go"],[("permissive guards","`p.permissive` uses"),("default configuration","protoparser.go Parse")],["protoparser.Parse with and without WithPermissive"])
p("C12","Parsing terminates on every input",
 "Every scanning, parsing, visiting and interpreting call returns after finitely many steps for every finite input, including truncated ones and inputs ending in the middle of any token: no loop can go round without consuming source or list elements.",
 ["inputs","configurations"],"every finite source text, every truncation of it",
 "An unbounded loop shows only on the specific malformed or truncated input that reaches it.",
 PARSE+["lexer/scanner/scanner.go","lexer/scanner/comment.go","lexer/scanner/strLit.go","lexer/scanner/numberLit.go"],[("every loop iteration consumes a token or leaves the loop","statement loops"),("end-of-input tests in scanning loops","lexer/scanner/*.go")],["protoparser.Parse"])
p("C13","No input makes the library panic",
 "No source text, configuration or parsed AST makes scanning, parsing, visiting or interpreting panic: no nil dereference, index or slice out of range, failed type assertion or nil-map write is reachable.",
 ["inputs","configurations"],"every source text and configuration",
 "Panics hide on rare paths (empty lists, pushed-back lookahead, error exits).",
 PARSE+["lexer/scanner/scanner.go","lexer/lexer.go","interpret/unordered/proto.go"],[("nil checks before optional parts are used","parser/*.go, interpret/unordered/*.go"),("bounds checks on the pushback buffers","lexer/scanner/scanner.go")],["any exported function"])
p("C14","Stack use is bounded by the nesting depth of the source",
 "Recursion happens only where the source itself nests (a block in a block, an aggregate in an aggregate) or the AST does: long flat sources, long runs of whitespace or comments, long literals and long lists never deepen the call stack.",
 ["inputs"],"every source text",
 "Needs inputs of millions of tokens to show, which tests do not have; a stack overflow is fatal and not recoverable.",
 ["lexer/scanner/scanner.go","parser/message.go","parser/option.go"],[("iteration in the scanner and in statement loops","lexer/scanner/scanner.go, parser/*.go")],["protoparser.Parse"])
p("C15","Lookahead leaves the parser state as if it had not happened",
 "Peeking at one or more tokens, testing for end of input, trying an optional token, trying for an inline comment and probing for a group leave the token stream exactly as it was whenever they do not consume; pushed-back text is delivered again exactly once, in order, and can be rescanned under another lexing mode.",
 ["inputs","histories"],"every sequence of scans, peeks and push-backs the library can make, on every source text",
 "Unit tests cover single push-backs on single tokens; errors need particular sequences such as nested or doubled push-backs.",
 ["lexer/lexer.go","lexer/scanner/scanner.go","parser/parser.go","parser/groupField.go","parser/inlineComment.go"],[("raw text of the last scan is put back","lexer/lexer.go UnNext, UnNextTo, PeekN; lexer/scanner/scanner.go UnScan")],["(*lexer.Lexer).Peek, PeekN, ConsumeToken, (*parser.Parser).IsEOF"],
 [("raw text of the last scan","what UnScan puts back","lexer/scanner/scanner.go lastScanRaw"),("pushback buffer","runes to deliver before the reader's","lexer/scanner/scanner.go lastReadBuffer")])
p("C16","Keywords are reserved only where the grammar expects one",
 "Whether a word is a keyword, boolean or number word, and whether quotes and digits start literals, depends only on the lexing mode of the call that scans it, and that mode is always restored afterwards: any keyword can be used as a name, type, package part or option name wherever the grammar allows an identifier.",
 ["inputs","histories"],"every keyword in every identifier position, every sequence of scans under every mode",
 "About thirty keywords times all identifier positions; tests try a few.",
 ["lexer/lexer.go","lexer/scanner/scanner.go","lexer/scanner/token.go","lexer/scanner/mode.go"],[("mode set for one scan and restored","lexer/lexer.go nextWithSpecificMode"),("mode tests","lexer/scanner/scanner.go scan")],["(*lexer.Lexer).Next*"])
p("C17","The token kind is determined by the spelling and the mode",
 "Each punctuation character, keyword, boolean word, number word, identifier, number, string and the end of input is reported as its own token kind under every lexing mode, and any other character is reported as illegal.",
 ["inputs"],"every character, every word and every mode",
 "The table has about fifty rows, 32 modes and more than a million code points.",
 ["lexer/scanner/token.go","lexer/scanner/scanner.go","lexer/scanner/boolLit.go","lexer/scanner/floatLit.go"],[("tables from spelling to token","lexer/scanner/token.go asMiscToken, asKeywordToken"),("dispatch on the first character","lexer/scanner/scanner.go scan")],["(*scanner.Scanner).Scan"])
p("C18","Tokens are maximal and their text is the exact source text",
 "Identifiers, integers, floats and strings are recognised exactly according to their documented lexical grammar with maximal munch, malformed ones are reported as errors, and the text of every token is the exact source text it covers.",
 ["inputs"],"every sequence of characters",
 "Literal grammars are infinite; tests try about fifty literals.",
 ["lexer/scanner/ident.go","lexer/scanner/numberLit.go","lexer/scanner/strLit.go","lexer/scanner/lettersdigits.go","lexer/scanner/scanner.go"],[("hand-written scanners for each literal","lexer/scanner/*.go")],["(*scanner.Scanner).Scan"])
p("C19","Comments and whitespace are lexed exactly",
 "A line comment extends to the end of the line, a block comment to its first terminator, both may end at the end of input only if complete, and comments and whitespace separate tokens without otherwise influencing them; comments are reported as tokens only on request, with their exact text.",
 ["inputs"],"every sequence of characters and both comment modes",
 "Edge cases ('/*/', '/***/', comment at end of input, unterminated comment) are each a different input.",
 ["lexer/scanner/comment.go","lexer/scanner/scanner.go"],[("comment scanner","lexer/scanner/comment.go scanComment"),("whitespace skipping","lexer/scanner/scanner.go scan")],["(*scanner.Scanner).Scan"])
p("C20","Pushed-back text is scanned again identically",
 "After a scan, un-scanning restores the source position and the remaining input exactly, for any token, any mode, with or without skipped whitespace and comments, at the end of input and inside already pushed-back text; the raw text a scan reports is a copy that later scanning cannot alter.",
 ["inputs","histories"],"every input, scanner state and mode",
 "Needs all combinations of pushed-back and fresh input across buffer boundaries.",
 ["lexer/scanner/scanner.go"],[("reversal of the last raw text into the pushback buffer","lexer/scanner/scanner.go UnScan, read, unread, peek"),("copying accessor","lexer/scanner/scanner.go LastScanRaw")],["(*scanner.Scanner).UnScan, LastScanRaw, SetLastScanRaw"])
p("C21","Positions count bytes, lines and columns exactly and reversibly",
 "For valid UTF-8 source every reported position has the byte offset, the line (from 1) and the column in characters (from 1) of the character it designates, whatever mixture of advancing and putting back led there; advancing over a text and reverting it is the identity.",
 ["inputs","histories"],"every text (multi-byte characters, empty lines, any line structure) and every advance/revert sequence",
 "Errors appear only with multi-byte characters or push-back across line ends.",
 ["lexer/scanner/position.go","lexer/scanner/scanner.go"],[("Advance/Revert with per-line column memory","lexer/scanner/position.go")],["scanner.Position"],[("columns","last column of each finished line","lexer/scanner/position.go")])
p("C22","A visitor reaches every element of the AST exactly once",
 "Accepting a visitor that always continues calls it exactly once for every element and comment reachable in the AST (statements, fields, options of rpcs and oneofs, declarations, leading, inline, behind-bracket and embedded comments) and for nothing else.",
 ["inputs","configurations"],"every AST",
 "Tests visit two hand-made ASTs; an element type or comment slot that is never visited stays unnoticed.",
 ["parser/visitor.go","parser/visitee.go","parser/proto.go","parser/message.go","parser/service.go","parser/oneof.go","parser/extensions.go"],[("Accept methods","parser/*.go Accept")],["Accept of every Visitee"])
p("C23","A visitor's refusal prunes exactly the refused element",
 "Every element dispatches itself to the visitor method of its own type first, before anything below it, and when that method returns false nothing below that element is visited while its siblings still are; optional parts that are absent are not visited.",
 ["inputs"],"every AST and every visitor",
 "Tests use visitors that always return true.",
 ["parser/visitor.go","parser/*.go"],[("early return in Accept","parser/*.go Accept")],["Accept of every Visitee"])
p("C24","The unordered interpretation loses, duplicates and reorders nothing",
 "The unordered form contains every element of each interpreted body exactly once, in the list of its own type and in source order, and carries over the name, comments, inline comments, positions, syntax, edition and file meta of every element it converts.",
 ["inputs"],"every AST",
 "Tests convert three ASTs.",
 ["interpret/unordered/proto.go","interpret/unordered/message.go","interpret/unordered/enum.go","interpret/unordered/service.go","interpret/unordered/extend.go"],[("type switches partitioning each body","interpret/unordered/*.go")],["unordered.InterpretProto and the other Interpret functions"])
p("C25","Everything Parse returns can be interpreted as unordered",
 "Unordered interpretation succeeds on every AST that parsing can return, in every configuration: each element type a parser can put into a body is accepted by the interpretation of that body.",
 ["inputs","configurations"],"every accepted source text and configuration",
 "Element types a parser can emit and those an interpreter accepts are listed in different packages and drift apart silently.",
 ["interpret/unordered/*.go","parser/*.go","protoparser.go"],[("type switch cases vs. statement kinds","interpret/unordered/*.go")],["protoparser.UnorderedInterpret"])
p("C26","A failing reader is never reported as a successful parse",
 "If reading the source fails with anything but the end of input, the parse returns an error; a truncated source is never returned as if it were the whole file.",
 ["fault_sequences","inputs"],"every read failure at every point of every source",
 "No test injects a read error; a failure must be injected at each point of the source.",
 ["lexer/scanner/scanner.go","lexer/lexer.go"],[("sticky read error turned into an illegal token","lexer/scanner/scanner.go")],["protoparser.Parse with a failing io.Reader"])
p("C27","Independent parses share no mutable state",
 "Scanners, lexers, parsers and interpretations used on different inputs share no mutable state: concurrent parses need no locking and one parse never influences another.",
 ["schedules","histories"],"every interleaving and sequence of parses in one process",
 "Race tests would need the right pair of concurrent calls; no test parses concurrently.",
 ["lexer/scanner/*.go","lexer/*.go","parser/*.go","interpret/unordered/*.go","protoparser.go"],[("all state hangs off the per-call Parser, Lexer and Scanner","protoparser.go Parse"),("read-only package tables","parser/field.go, parser/mapField.go")],["protoparser.Parse"])
p("C28","Visiting and interpreting never modify the AST",
 "Accepting a visitor, converting to the unordered form and the accessor methods of AST elements leave every AST element unchanged.",
 ["inputs","histories"],"every AST and every sequence of such calls",
 "Tests compare outputs, never the input afterwards.",
 ["parser/*.go","interpret/unordered/*.go"],[("read-only traversal","Accept and Interpret functions")],["Accept, Interpret*, Comment.Lines, Syntax.Version"])
p("C29","Each configuration option does exactly what it says",
 "The filename option reaches every reported position and the file meta and nothing else, the debug option never changes results, and the permissive and body-comment options act only through the documented grammar and body-content differences; options given in any order reach the component they configure.",
 ["configurations","inputs"],"all option combinations and orders",
 "Sixteen combinations times all inputs; tests try a few.",
 ["protoparser.go","lexer/lexer.go","lexer/scanner/scanner.go","parser/parser.go"],[("functional options passed down to lexer, scanner and parser","protoparser.go Parse")],["protoparser.Parse"])
p("C30","The library has no side effects besides reading its input",
 "Parsing, visiting and interpreting write to no file, socket or standard output, never exit the process, start no goroutine and read no environment; the only outside effects are reading the given reader and logging.",
 ["inputs","configurations"],"every call",
 "A side effect on one rare path is invisible to result comparisons.",
 ["lexer/lexer.go","lexer/scanner/*.go","parser/*.go","interpret/unordered/*.go","protoparser.go"],[("only pure standard-library calls, plus log","imports of the library packages")],["any exported function"])
p("C31","Comment text accessors return exactly the comment's own text",
 "For every comment, telling its style and splitting it into lines strips exactly the comment markers (leading marker, and the closing marker of a block comment) once and otherwise returns the text unchanged, line by line.",
 ["inputs"],"every comment text",
 "Contents may themselves contain markers; tests try three texts.",
 ["parser/comment.go"],[("prefix and suffix stripping","parser/comment.go Lines, IsCStyle")],["(*parser.Comment).Lines, IsCStyle"])
p("C32","Accepted syntax versions are reported correctly",
 "The numeric version of every syntax statement the parser can produce is the number written in it, and unknown version strings give zero.",
 ["inputs"],"every syntax value",
 "Two cooperating places list the versions.",
 ["parser/syntax.go"],[("version switch","parser/syntax.go Version")],["(*parser.Syntax).Version"])
p("C33","Parsing takes time and memory linear in the size of the source",
 "The time and memory a parse needs grow linearly with the size of the source, for every source.",
 ["inputs"],"every source text, asymptotically",
 "Tests use small inputs and measure nothing.",
 ["lexer/scanner/scanner.go"],[("single pass with bounded lookahead","lexer/scanner/scanner.go")],["protoparser.Parse"])
p("C34","Accepted sources agree with the reference compiler",
 "Every source that the reference protobuf compiler accepts is accepted in permissive mode, and its elements carry the same names, numbers and options as the compiler's descriptor.",
 ["inputs"],"every source accepted by protoc",
 "The reference implementation is not part of the repository.",
 ["parser/proto.go"],[("grammar of the parser","parser/*.go")],["protoparser.Parse"])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
