#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl: run `python3 meta/props.py` after editing."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

SRV = "No test runs the language server at all (the suite links only the parser library), so "
J = "nclangsrv/JsonMessageHandler.cpp"

p("N01", "Every request is answered exactly once, notifications never",
  "Handling an initialize, completion, completion-resolve, hover, code-lens, code-lens-resolve or shutdown request writes exactly one reply, whatever the server state and whichever parameters the request carries. Handling a document-opened or document-changed notification writes exactly one diagnostics notification. Every other supported notification, and every unknown method, writes nothing.",
  ["inputs", "histories"], "every supported method, every path through its handler, every server state (unknown documents, no results, no descriptions)",
  SRV + "no method, state or path is sampled.",
  [J], [("method dispatch", "JsonMessageHandler::parse"), ("one handler per method, each ending in one framed write", J)], ["standard output"])
p("N02", "Every message is framed with its exact byte length and flushed",
  "Each message the server writes is a Content-Length header carrying exactly the number of bytes of the body that follows, one blank line, then that body and nothing else. The output is flushed before the server reads the next message.",
  ["inputs", "histories"], "every message body, including non-ASCII text, on every handler path",
  SRV + "no frame is ever inspected; a length computed from something else than the written body only shows on particular contents.",
  [J], [("header, separator and body written from one string", J)], ["standard output"])
p("N03", "Standard output carries only protocol messages",
  "While serving a client, nothing but framed protocol messages is written to standard output, neither by the server nor by the parser library it calls. Diagnostics about the server itself go to the log file.",
  ["inputs", "histories", "configurations"], "all code reachable from the server's entry point",
  SRV + "a stray print on a rare path corrupts the stream only when that path runs.",
  ["nclangsrv", "parser"], [("all frames written by the message handler", J), ("file logger", "nclangsrv/Logger.cpp")], ["standard output"])
p("N04", "Replies carry the request's own id and one result",
  "A reply to a request with an integer id carries that same id, the protocol version 2.0 and exactly one result member. A diagnostics notification carries its method name, the uri of the document it was computed from, and that document's list of diagnostics.",
  ["inputs", "histories"], "every request id and document uri",
  SRV + "replies are never matched with requests.",
  [J], [("id taken from the request", "JsonMessageHandler::parse and the handlers")], ["standard output"])
p("N05", "The server stops on shutdown, exit or end of input, and only then",
  "After a shutdown request (once its reply is written) or an exit notification the server stops reading and ends. It also ends when its input is closed. No other message makes it stop.",
  ["inputs", "histories"], "every message sequence, and end of input at any point",
  SRV + "the main loop is not exercised.",
  ["nclangsrv/nclangsrv.cpp", J], [("exit flag polled after each message", "nclangsrv/nclangsrv.cpp main"), ("flag set by shutdown and exit", J)], ["process lifetime"])
p("N06", "Advertised capabilities and served methods agree",
  "Every capability announced in the reply to initialize is backed by a handler for the corresponding methods, including the resolve step where one is announced. Every request method the server serves is announced, and document synchronisation is announced as full text, which is what the change handler consumes.",
  ["configurations", "inputs"], "all advertised capabilities and all dispatched methods",
  SRV + "the capability object and the dispatcher are never compared.",
  [J], [("capability object", "JsonMessageHandler::initialize"), ("dispatcher", "JsonMessageHandler::parse")], ["standard output"])
p("N07", "Answers about a document come from that document's latest text",
  "Opening or changing a document replaces everything the server keeps for that uri (lines, macro values, path results) with the results for the new text; closing it drops them. Hover and code-lens requests are answered only from what is stored for the uri named in the request, a code-lens resolve only from the document whose lenses were asked for last.",
  ["histories"], "every interleaving of open, change, close, hover and lens requests over several documents",
  SRV + "no sequence over two documents is tried.",
  [J], [("per-uri context map", "JsonMessageHandler.h")], ["standard output"], [("mFileContexts", "per-document results", "nclangsrv/JsonMessageHandler.h")])
p("N08", "Turning the log on or off changes nothing else",
  "With no log file configured the server never touches the logger. Code that runs only when a log is configured, once the server has started, has no effect besides writing the log.",
  ["configurations", "inputs"], "every use of the logger, with and without a log path",
  SRV + "neither configuration runs; a missing check shows only on the error path that logs.",
  ["nclangsrv"], [("null checks around every log statement", "nclangsrv/*.cpp")], ["process lifetime", "standard output"])
p("N09", "Lazily loaded parts are present before they are used",
  "Description tables, configuration readers and other parts the server creates on demand exist whenever a request uses them, whatever requests came before and in whichever order.",
  ["histories", "inputs"], "every order of requests after start, every path to a use of an on-demand part",
  SRV + "the crash needs an unusual request order (resolve before completion, hover before any open).",
  ["nclangsrv/JsonMessageHandler.cpp", "nclangsrv/NCParser.cpp"], [("fetch-on-demand functions", J)], ["process lifetime"])
p("N10", "No exception raised while handling a message ends the server",
  "Whatever a message or a program text contains, an exception raised while the server handles it is caught inside the server, which then goes on to serve the next message.",
  ["inputs", "fault_sequences"], "every exception any library or repository function reachable from message handling can raise",
  SRV + "the raising inputs (overlong numbers, missing files, empty values) are unusual.",
  ["nclangsrv/nclangsrv.cpp", J], [("message loop", "nclangsrv/nclangsrv.cpp main")], ["process lifetime"])
p("D01", "Each failing line yields one diagnostic, placed on that line",
  "When a program is checked, every line whose check fails yields exactly one diagnostic and every line that passes yields none. The diagnostic's line is that line's position in the document, blank lines counted, whatever the text of the line or of the message.",
  ["inputs"], "every program text: any number of lines, blank lines, any failure message",
  SRV + "line numbering over blank lines and message rewriting are never observed; parser tests check single lines.",
  ["nclangsrv/NCParser.cpp", J], [("line loop and message prefix", "NCParser::parse"), ("prefix parsed back into a range", "JsonMessageHandler::textDocument_publishDiagnostics")], ["published diagnostics"])
p("D02", "Each diagnostic shows the whole message of its own line",
  "The text of a failing line's diagnostic is exactly the message the parser gave for that line, complete and whatever characters it contains; if the parser gave none it is the line itself in quotes. Nothing of the messages of other lines shows up in it.",
  ["inputs", "histories"], "every failing line, every message text, after any earlier lines",
  SRV + "message texts are never followed to the diagnostic; one holding a colon, or left over from an earlier line, is not tried.",
  ["nclangsrv/NCParser.cpp", J], [("message composed per line", "NCParser::parse"), ("prefix taken off again", "JsonMessageHandler::textDocument_publishDiagnostics")], ["published diagnostics"])
p("C01", "Every configured machine parameter reaches the parameter it names",
  "Each value in the machine settings file, and each field of the settings structures passed through the C interface, ends up in the parameter of the same name: none is dropped, none lands in another parameter. The same holds for the word limits and code groups of the shipped configuration.",
  ["configurations"], "every key of the settings file, every field of every settings structure, every word-grammar field",
  SRV + "and parser tests fill the structures themselves; positional initialisation makes two swapped fields of the same type compile and pass.",
  ["nclangsrv/NCSettingsReader.cpp", "nclangsrv/WordGrammarReader.cpp", "nclangsrv/CodeGroupsReader.cpp", "parser/AllAttributesParserWrapperBase.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/heidenhain/AllAttributesParserWrapper.cpp", "nclangsrv/NCParser.cpp"],
  [("key-by-key copies and positional aggregates", "the readers and C wrappers")], ["parser settings"])
p("C02", "A configuration that cannot be read is reported every time",
  "If a settings, grammar or code-group file cannot be read completely, the read is reported as failed and a program check made with it yields an error diagnostic instead of results. This is repeated on every later check until a read succeeds; a failed read is never taken for a successful one.",
  ["fault_sequences", "histories"], "every reader, failure at any point of the read, any number of later checks",
  SRV + "no failing read is tried, let alone a second check after it.",
  ["nclangsrv/NCSettingsReader.cpp", "nclangsrv/WordGrammarReader.cpp", "nclangsrv/CodeGroupsReader.cpp", "nclangsrv/NCParser.cpp"],
  [("success flag set last", "the readers' read()"), ("result checked by the program check", "NCParser::parse")], ["published diagnostics"])
p("C03", "Every machine driver has a control family and a complete configuration",
  "Every machine driver the server accepts is assigned a control family, and ships a configuration directory of the same name with word limits, code groups and English descriptions that the server's readers accept completely. Every word, code group and operation they list is well-formed: numeric ranges are ordered, word types are known ones, codes are numeric.",
  ["configurations"], "every accepted driver and every entry of every shipped configuration file",
  "Tests load none of the shipped configuration files.",
  ["conf", "parser/GeneralParserDefines.cpp", "nclangsrv/NCParser.cpp"], [("driver names", "operator<< / operator>> for the driver type"), ("shipped files", "conf/<driver>/")], ["server start-up with a given driver"])
p("C04", "Settings names convert to values and back without change",
  "Every named machine setting (drivers, machine types, motions, planes, units, modes, word types, rotation options) has a distinct text form, and reading that text gives back the same setting. A text that names no setting is rejected.",
  ["configurations"], "every enumerator of every setting with a text form",
  "Tests convert none of them; two swapped names compile.",
  ["parser/GeneralParserDefines.cpp", "parser/GeneralParserDefines.h", "parser/fanuc/AllAttributesParserDefines.cpp"], [("to-text and from-text pairs", "parser/GeneralParserDefines.cpp")], ["settings file round trip"])
p("C05", "The editor extension starts the server with options it understands",
  "Every option the editor extension passes when it launches the server is an option the server declares, carrying the matching setting. Every configuration key and command the extension reads or registers is declared in the extension's manifest, and every language it activates for is contributed there.",
  ["configurations"], "all launch options, configuration keys and commands of the extension",
  "The extension has no tests; the two sides are in different languages and nothing compiles them together.",
  ["vscode-client/src/extension.ts", "package.json", "nclangsrv/nclangsrv.cpp"], [("server arguments", "vscode-client/src/extension.ts"), ("option declarations", "nclangsrv/nclangsrv.cpp main")], ["server command line"])
p("M01", "Every message exists in every language and gets the arguments it shows",
  "Every message the parser can issue has exactly one text in every supported language, with the same number of inserted arguments in each. Every place that issues a message supplies exactly as many arguments as that text inserts.",
  ["inputs", "configurations"], "every message name, every language, every place that issues one",
  "Tests compare a few English texts; a Polish text, or a message on a rare error path, is never rendered.",
  ["parser/fanuc/MessageText_en.cpp", "parser/fanuc/MessageText_pl.cpp", "parser/fanuc/MessageTextImpl.h"], [("per-language tables", "parser/fanuc/MessageText_*.cpp"), ("formatters", "parser/fanuc/MessageTextImpl.h")], ["diagnostic text"])
p("P01", "Each enabled check runs on every line and its failure is reported",
  "With macro evaluation enabled, for every line that parses each further check that is enabled (macro evaluation itself, value ranges, rotation, code groups, repeated M codes on Haas controls, path calculation, zero-point travel limits) is applied to the words that take effect on that line, and if it fails the line is reported as failed with that check's message. Unique words are checked on every line that parses. A check that is disabled never makes a line fail.",
  ["inputs", "configurations"], "every combination of enabled checks, every failing check, lines with and without macro substitution",
  "Tests enable the checks in a few combinations on a few lines; dropping one from a rarely used combination passes them.",
  ["parser/fanuc/AllAttributesParser.cpp"], [("stage sequence and exception handlers", "AllAttributesParser::parse")], ["result and message of a line check"])
p("P02", "A line's syntax verdict does not depend on earlier lines",
  "Whether a line is syntactically accepted depends on its text and the active word limits, not on bracket counts, assignments or messages left over from lines checked before (Fanuc family of controls).",
  ["histories"], "every sequence of lines, accepted or rejected",
  "Each test parses with a fresh parser or feeds well-formed sequences, so leftovers never matter.",
  ["parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/AllAttributesParserGrammar.h"], [("state cleared before each parse", "AllAttributesParser::parse, simple_parse")], ["result of a line check"])
p("P03", "No line of text makes an exception leave the parser library",
  "For any text, the parser's line operations (check, unit conversion, numbering, rotation, splitting, comment and optional-block removal) return a result; no exception leaves them.",
  ["inputs"], "every text, and every exception reachable from a line operation",
  "The raising texts (a number too long, a word without digits, an unsupported expression) are not in the tests.",
  ["parser/fanuc/AllAttributesParser.cpp", "parser/heidenhain/AllAttributesParser.cpp"], [("exception handlers of the line operations", "AllAttributesParser")], ["parser API"])
p("P04", "G20 selects inches and G21 millimetres, for limits as for reporting",
  "After a line with G20 that is checked with macro evaluation and accepted the active unit is inches, after one with G21 millimetres, and until then the one the settings give; other words leave it unchanged. Word limits applied to a line are those of the unit active when the line is checked.",
  ["histories", "configurations"], "every line sequence and every default unit",
  "No test switches units between lines and looks at the limits.",
  ["parser/fanuc/GrammarSelector.cpp", "parser/fanuc/AllAttributesParser.cpp"], [("unit selection", "parser/fanuc/GrammarSelector.cpp")], ["unit system, range messages"])
p("P05", "Reset brings the path calculator and counters back to their start state",
  "After a reset, the path calculator behaves as one just created with the same settings: every modal value, total and remembered position is back at its starting value. The same holds for resetting macro values and line numbering.",
  ["histories"], "every piece of state kept between lines, after any history",
  "Tests create a new calculator per case and never compare a reset one with a new one on all modal state.",
  ["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/Renumberer.h", "parser/fanuc/AllAttributesParser.cpp"], [("reset", "AttributesPathCalculator::reset, Renumberer::reset, reset_macro_values")], ["path and time results"])
p("P06", "Rotating the coordinate system is a proper rotation for every option",
  "For each rotation option the axis words are permuted and sign-changed as one proper rotation by that option's angle about its axis, with the same transformation for the circle-centre words. Work-plane codes follow the rotated plane. Clockwise and counter-clockwise arc codes (with or without leading zeros) are exchanged exactly when the XY plane, so rotated, is seen from its other side. All other words and macro references are unchanged.",
  ["inputs", "configurations"], "all nine options, every axis, centre, plane and arc word, with and without sign",
  "Tests check a few words for a few options.",
  ["parser/fanuc/AxesRotator.cpp"], [("transformation table and visitor", "parser/fanuc/AxesRotator.cpp")], ["rotated words"])
p("P07", "The three work planes are treated alike",
  "Arc, helix and drilling calculations in the XZ and YZ planes apply the same formulas as in the XY plane, to the axes and centre words of that plane in the corresponding roles.",
  ["inputs"], "every arc, helix and drill cycle in every plane, absolute and incremental",
  "Tests cover the XY plane widely and the others on a few values.",
  ["parser/fanuc/PathCalculator.h", "parser/fanuc/AttributesPathCalculator.cpp"], [("per-plane forwarding functions", "parser/fanuc/PathCalculator.h"), ("per-plane selection", "AttributesPathCalculator::evaluate")], ["path results"])
p("P08", "Values that may be absent are read only when present",
  "A word's optional parts, an optional parameter of a motion, or the result of a lookup is read only on paths where it is known to be present; a missing one is reported or defaulted, never read.",
  ["inputs"], "every optional value and lookup result in the library and the server, every path to a read",
  "Reading an absent value needs an unusual combination of words; the result is undefined behaviour rather than a failing assertion.",
  ["parser", "nclangsrv"], [("presence checks before each read", "throughout the visitors and AttributesPathCalculator::evaluate")], ["path results", "process lifetime"])
p("P09", "Every function and operator the expression syntax accepts can be evaluated",
  "Every function name the macro expression syntax accepts is evaluated as the function of that name, and every operator it accepts is evaluated as that operator; nothing accepted ends up as unsupported. SIN, COS and TAN take degrees, ASIN, ACOS and ATAN give degrees; multiplication, division, AND and MOD bind before addition, subtraction, OR and XOR, and operators of the same binding are applied from left to right.",
  ["inputs"], "every function symbol and operator of the expression grammar",
  "Tests evaluate some of them.",
  ["parser/fanuc/ValueCalculator.cpp"], [("symbol table", "ValueCalculator::build_symbols"), ("evaluator", "eval in ValueCalculator.cpp")], ["macro values"])
p("P10", "Modal system macros mirror the words of the line that sets them",
  "A line carrying one of the words B, D, E, F, H, M, N or S sets the three system macros of that word's modal group, and no others, to the word's signed value at that line; when a word is repeated the last one counts. A line that makes a tool the active one sets macros 4120, 4320 and 4520 to that tool's number, and a line that does not leaves them alone.",
  ["inputs"], "every modal word and every system macro number",
  "Tests look at few of the numbers.",
  ["parser/fanuc/SystemMacroAssigner.cpp", "parser/fanuc/AttributesPathCalculator.cpp"], [("word to macro table", "parser/fanuc/SystemMacroAssigner.cpp")], ["macro values"])
p("P11", "Rewriting a line reproduces every part of every word, in order",
  "Wherever parsed words are turned back into text (the server, the C interface, the file splitter), every part of a word that is present appears exactly once and in the order in which it is written in a program, and absent parts add nothing. Where macro references are replaced by their values, the value takes the place of the reference with the sign in front of it applied once.",
  ["inputs"], "every combination of present and absent parts of a word, every word form",
  "Tests rewrite common words only; the rare parts (assignment, sign, brackets, macro) in combination are not covered.",
  ["nclangsrv/NCParser.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/fanuc/MacroEvaluatedCodeVerifier.cpp"], [("word visitors", "the files listed"), ("macro substitution", "MacroEvaluatedCodeVisitor in parser/fanuc/MacroEvaluatedCodeVerifier.cpp")], ["rewritten text"])
p("P12", "A macro reference gets the value last assigned at or before its line",
  "Looking up a macro for a line yields the value assigned to that same macro number by the nearest line not after it; a macro never assigned by then is reported as missing, never given another macro's value. An expression, which is evaluated while its line is checked, uses the value assigned last; assigning a macro again, on a later line or on the same one, gives it the new value.",
  ["inputs", "histories"], "every lookup site, every set of assignments",
  "Tests look up macros that exist; a neighbouring number or a later line is not tried.",
  ["parser/fanuc/MacroDefines.h", "parser/fanuc/CodeGroupsVerifier.cpp", "parser/fanuc/MacroEvaluatedCodeVerifier.cpp", "parser/fanuc/ValueCalculator.cpp", J], [("ordering by number then by descending line", "parser/fanuc/MacroDefines.h"), ("lower-bound lookups with a number check", "the files listed")], ["substituted values", "hover text"])
p("P13", "Integer division and remainder never see a zero divisor",
  "No program text can make the parser or the server divide an integer by zero: every integer divisor is a non-zero constant or checked before the division, and the smallest number is never divided by -1.",
  ["inputs"], "every integer division and remainder in the library and the server",
  "The tests use non-zero operands.",
  ["parser", "nclangsrv"], [("divisor checks", "parser/fanuc/ValueCalculator.cpp")], ["process lifetime"])
p("P14", "Unit conversion scales exactly the length and feed words, both ways alike",
  "Converting to inches divides, and converting to millimetres multiplies, by 25.4 exactly the values of length and feed words, and exchanges the unit codes accordingly; all other words, dwell lines, optional-block lines and macro expressions stay as they were. A line that does not parse is not converted.",
  ["inputs"], "every word type, both directions, every special line form",
  "Tests convert a handful of lines per direction.",
  ["parser/fanuc/UnitConverter.cpp", "parser/fanuc/AllAttributesParser.cpp"], [("conversion visitor", "parser/fanuc/UnitConverter.cpp")], ["converted words"])
p("P15", "Renumbering counts by the step and keeps everything but the number word",
  "Renumbering gives consecutive numbered lines numbers that differ by the configured step, starting from the configured start value and wrapping at the maximum; with a frequency above one it numbers one line of that many. It never changes or removes anything but the line-number word at the front of the line, and skips lines it must not number.",
  ["inputs", "histories"], "every settings combination and sequence of lines",
  "Tests run some settings combinations on short programs.",
  ["parser/fanuc/Renumberer.cpp", "parser/fanuc/Renumberer.h"], [("counter and frequency state", "parser/fanuc/Renumberer.h")], ["renumbered words"], [("counter, current_frequency", "numbering state", "parser/fanuc/Renumberer.h")])
p("P16", "Each word check rejects exactly the lines it is there for",
  "A repeated word is reported exactly if an address marked unique (or M, for the check of M codes on Haas controls) occurs twice on the line. A code group conflict is reported exactly if two G codes, or two M codes, of the line share a group. A range error is reported exactly if the whole number at S, T or F (on lathes the first half of a tool number of more than two digits) is above the machine's maximum, or an axis position is outside its travel as seen from the zero point. A rotation error is reported, where the operator starts the spindle, exactly for a line with S, M3 or M4; otherwise exactly once, at the first line by which a G1 or a drilling cycle G81 to G89 but not both a speed and M3 or M4 have been given.",
  ["inputs", "histories", "configurations"], "every word form, every limit and number, every sequence of spindle words",
  "Tests try a few numbers and pairs of codes; comparing with another limit, or a check that stops after the second word, passes them.",
  ["parser/fanuc/UniqueCode.cpp", "parser/fanuc/SameWordInBlockVerifier.cpp", "parser/fanuc/RangeVerifier.cpp", "parser/fanuc/CodeGroupsVerifier.cpp", "parser/fanuc/RotationVerifier.cpp"],
  [("one visitor per check", "the files listed")], ["result of a line check"], [("G, M, S, error_reported", "spindle words seen so far", "parser/fanuc/RotationVerifier.h")])
p("A01", "Every buffer handed out by the C interface is released by its counterpart",
  "Every array and object the C interface allocates for a caller is released by the matching dispose function, exactly once and with the matching form of delete, including every nested string.",
  ["inputs", "histories"], "every allocation reaching an output parameter, every dispose function",
  "Tests never go through the C interface.",
  ["parser/AllAttributesParserWrapperBase.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/heidenhain/AllAttributesParserWrapper.cpp"], [("create/dispose pairs", "the wrapper files")], ["C interface"])
p("A02", "Arrays handed out by the C interface are completely initialised",
  "Every element of every array the C interface hands to a caller is initialised before it is returned, also for lines or entries that are empty, and strings are terminated inside their buffers.",
  ["inputs"], "every array allocated for a caller, every path that fills it",
  "Tests never go through the C interface; uninitialised elements often read as zero.",
  ["parser/AllAttributesParserWrapperBase.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/heidenhain/AllAttributesParserWrapper.cpp"], [("value-initialised arrays and explicit terminators", "the wrapper files")], ["C interface"])
p("A03", "Every C entry point performs the operation it is named after, unaltered",
  "Each exported function performs the like-named parser operation with all of its arguments in their places and returns that operation's result unchanged.",
  ["inputs"], "every exported function and argument",
  "Tests never go through the C interface; arguments of equal type can be exchanged unnoticed.",
  ["parser/AllAttributesParserWrapperBase.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/heidenhain/AllAttributesParserWrapper.cpp"], [("forwarding functions", "parser/AllAttributesParserWrapperBase.cpp")], ["C interface"])
p("A04", "The .NET binding matches the C interface it calls",
  "Every function the .NET binding imports exists in the C interface with the same number and kinds of parameters, and every structure and enumeration passed between them has the same members in the same order with the same values.",
  ["configurations"], "every imported function, marshalled structure and enumeration",
  "The .NET tests do not run here and nothing compiles the two sides together.",
  ["parser_net/AllAttributesParser.cs", "parser/AllAttributesParserWrapperBase.h", "parser/GeneralParserDefines.h"], [("declarations on both sides", "the files listed")], [".NET interface"])
p("F01", "Nothing is used after it was moved from or after its scope ended",
  "No object is read after its contents were moved elsewhere (unless assigned again first), and no reference, pointer or view is kept to a temporary or local object beyond that object's lifetime.",
  ["inputs", "histories"], "every move, reference member, captured reference and returned reference in the library and the server",
  "The leftovers often still hold plausible values, so tests pass.",
  ["parser", "nclangsrv"], [("ownership passed by value or reference", "throughout")], ["path results", "process lifetime"])
p("X01", "Path lengths and machining times are geometrically right",
  "The path length and time reported for every motion equal the geometric length of the commanded tool path and the time to travel it at the commanded feed.",
  ["inputs"], "all motions and coordinates", "Real-valued inputs; tests sample points.",
  ["parser/fanuc/PathCalculator.cpp", "parser/fanuc/MathUtils.h"], [("formulas", "parser/fanuc/PathCalculator.cpp")])
p("X02", "The line syntax accepts exactly the NC words of the control",
  "A line is accepted exactly if it is a well-formed block of the selected control's programming language.",
  ["inputs"], "all line texts", "Tests sample lines.",
  ["parser/fanuc/AllAttributesParserGrammar.h", "parser/heidenhain/AllAttributesParserGrammar.h"], [("grammar rules", "the grammar headers")])
p("X03", "Splitting a program loses and duplicates nothing",
  "The parts a program is split into contain, in order, every motion of the original program, each exactly once, apart from the approach and retraction moves the splitter adds.",
  ["inputs"], "all programs and split settings", "Tests split some programs.",
  ["parser/fanuc/FileSplitter.cpp"], [("splitter", "parser/fanuc/FileSplitter.cpp")])

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
