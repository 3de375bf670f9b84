"""What each claimed check is: module, deciding method, and what it does and does not decide."""
AI = 'path-sensitive abstract interpretation of the server over clang-extracted syntax trees'
SRV = dict(module='p_server')
LOG = dict(module='p_log')
CHECKS = {
 'N01': dict(SRV, technique=AI + ': counts of replies written per path', min_obligations=20,
   note='Every path of JsonMessageHandler::parse is interpreted for each method name the source compares with (and an unknown one), with and without id, known and unknown document. A path of a request must write exactly one reply, a path of a notification none. Loops over documents and lists are summarised over all iterations. Decides the reply count, not the content of a reply.'),
 'N02': dict(SRV, technique=AI + ': terms of header and body compared', min_obligations=8,
   note='For every write to standard output: the number after Content-Length is the size of exactly the bytes that follow the blank line, and the stream is flushed before control returns to the reading loop; the reader takes exactly that many bytes.'),
 'N03': dict(SRV, technique='call-graph effect analysis (who may write standard output)', min_obligations=3,
   note='Every reference to std::cout, stdout, printf, puts and file descriptor 1 in functions reachable from main through resolved calls (virtual calls, function objects and constructors included) lies in a function whose writes are framed messages; stream objects handed down as parameters are followed.'),
 'N04': dict(SRV, technique=AI + ': reply terms traced to the request', min_obligations=8,
   note='In every reply written, the value stored under id is the value read under id of the same message, and exactly one of result and error is present on a path.'),
 'N05': dict(SRV, technique='typestate of the exit flag plus analysis of the reading loop under end of input', min_obligations=4,
   note='The exit flag is set on every path of shutdown/exit as the protocol wants and on no path of another method; the loop of main is executed with a stream at its end and must leave; with data it must continue.'),
 'N06': dict(SRV, technique=AI + ': capabilities object compared with the dispatcher', min_obligations=8,
   note='Each capability in the initialize reply has a method that the dispatcher answers with a result, and each served optional method is advertised.'),
 'N07': dict(SRV, technique=AI + ': data flow from the stored document to the answer', min_obligations=6,
   note='didOpen/didChange store the text of the message under its uri, didClose removes it; each request about a document reads the text stored under the uri of its own message and no other copy.'),
 'N08': dict(LOG, technique='null-world reachability and branch-effect comparison', min_obligations=20,
   note='With the logger absent no path dereferences it, and the branches taken only when it is present change nothing but the log: every write, call and return value outside the log is compared between both branches.'),
 'N09': dict(LOG, technique='non-null dataflow on lazily created readers', min_obligations=6,
   note='Each dereference of a lazily created reader is dominated on every path by its creation, and each created reader is read before use.'),
 'N10': dict(SRV, technique='interprocedural exception-escape analysis of the serving loop', min_obligations=3,
   note='The exceptions that may leave the handling of one message are computed through the call graph; each must be caught between the message and the loop of main, and the handler must return to the loop.'),
 'D01': dict(module='p_diag', technique='symbolic string terms through the line loop, the message splitter and the publishing loop', min_obligations=500,
   note='For every shape of library message and line text distinguished by the code, the composed diagnostic is followed through splitting and publishing: one diagnostic per failing line with that line number, none for a passing line.'),
 'D02': dict(module='p_diag', technique='symbolic string terms from the parser call to the published diagnostic', min_obligations=300,
   note='In the line loop the composed message must be the line number followed by the whole of what the parser call of that line put into an empty message (or the quoted line if that stayed empty). The publishing loop is then run on messages of every composed form with an arbitrary rest, holding colons or not: the diagnostic must show exactly that rest.'),
  'P01': dict(module='p_parse', technique='abstract interpretation of the line check with every stage a black box that may succeed or fail', min_obligations=200,
   note='The line check is interpreted for every combination of the five optional checks and every control family. Each stage forks into success and each way it can fail (exceptions computed by escape analysis). On every accepting path all enabled stages must have succeeded, applied to the words in effect (those of the substituted text if there is one) and to the settings they are named after; on every rejecting path an enabled stage must have failed and the message must contain that stage\'s own. What a stage decides inside is not looked at here.'),
 'P02': dict(module='p_parse', technique='typestate of the line grammar at every use, by abstract interpretation of all line operations', min_obligations=8,
   note='Every line operation is interpreted with the grammar in an unknown state left by earlier lines. At every call that parses a text, each data member the grammar keeps (message, bracket and macro state) must have been put back to its start value on that path; functions run by the grammar may not change anything with static lifetime.'),
 'P04': dict(module='p_parse', technique='abstract interpretation of unit selection per word, and of which word limits the grammar holds after each operation', min_obligations=200,
   note='The unit selector is run on every letter and G code; the settings call on each default unit; the line check from each unit with the selection forking both ways. After each, the active limits must be the selected ones and the grammar must have been built for them; every text must be parsed under the active limits. Lines checked without macro evaluation and rejected lines keep limits and grammar in agreement but are not required to select.'),
 'P03': dict(module='p_exc', technique='interprocedural exception-escape analysis (least fixed point over the call graph, visitors and grammar actions included)', min_obligations=18,
   note='For every line operation of both parsers the set of exceptions that can leave it is computed: its own throws, those of the functions it calls, of the visitors it applies, of the grammar it parses with, and of the library calls documented to throw, less what the enclosing handlers catch by type or base. The set must be empty. Exhausted memory is left out.'),
 'P05': dict(module='p_path', technique='abstract interpretation of constructor and reset, compared member by member', min_obligations=60,
   note='Every constructor is interpreted to a symbolic state; every member another method may write (effect analysis) is then made unknown and reset is interpreted: each member must be the same term again. Loops are compared by what one iteration does. A moved-from argument counts as unknown.'),
 'P06': dict(module='p_rot', technique='abstract interpretation of the rotation visitor over word forms, against the rotation group', min_obligations=600,
   note='For each option, each axis and centre word in each form and sign, each plane and arc code, macro references and an arbitrary other word, the rewritten word is computed and compared with the proper rotation about the named axis. Does not decide arcs outside the XY plane, for which the code keeps no plane state.'),
 'P07': dict(module='p_plane', technique='abstract interpretation of the path calculator, once per work plane; results compared after renaming axes to their roles', min_obligations=500,
   note='Blocks with arcs, helices and drilling cycles (every choice of axis and centre words, absolute and incremental, one and two blocks) are interpreted with symbolic numbers in G17, G18 and G19. Axis and centre letters are renamed to the roles they play in the plane, and every member of the calculator, every error and the condition of every path must then be the same term. Formulas called for different planes are expanded and compared as functions of their arguments. Does not decide whether the shared formula is geometrically right.'),
 'P14': dict(module='p_unit', technique='abstract interpretation of the conversion visitor over word forms; arithmetic terms compared', min_obligations=150,
   note='The converter is built by interpretation from word limits holding one word of every type, then applied to every word form (whole, fraction, sign, macro, bracket, assignment), unit codes with and without leading zero, dwell, optional-block and text words. Scaled values must be exactly the number written divided or multiplied once by 25.4; everything else must be the identical term. The rounding to the number of decimals is not decided.'),
 'P15': dict(module='p_renum', technique='abstract interpretation of the renumbering of one line, per line form and settings case', min_obligations=150,
   note='The renumberer is built by interpretation; counter, step, maximum and number texts are symbols. Frequencies are enumerated (small values and those next to constants in the code) with every position. Numbered, plain and skipped lines must give exactly the line expected, the next number must be one step further or start over when that is above the maximum. Also the line operations and every settings value the library builds itself. The width of leading zeros is not decided.'),
 'P08': dict(module='p_opt', technique='path-sensitive presence analysis of every optional read, iterator read and front()/back(), function by function up the callers, and abstract interpretation of the path calculator over enumerated word lines and preceding states', min_obligations=250,
   note='Each read of an optional, of an iterator and of front()/back() in the library and the server is looked for on every path of its function from arbitrary arguments; where that does not settle it, with its callees followed, then inside each caller up to three calls away. A read that is not known to be there in the end is a violation. The reads of the path calculator (whose presence depends on the words of the line and the state) are decided on enumerated lines: all subsets of the relevant words for arcs, drilling cycles, straight moves, tool exchange, G28 and others, after enumerated states; there only a certain absence is a violation. Pointers, indices and reads the loop abstraction loses are outside.'),
 'P10': dict(module='p_sysmac', technique='abstract interpretation of the macro assigner and of tool selection over word forms', min_obligations=400,
   note='The assigner is interpreted on each modal word in each form (whole, fraction, sign), on two words of a kind, on all together and on every other letter: exactly the macros of the group must be written, for the line being checked, with the term that denotes the signed value. The path calculator, built by interpretation for each machine type and tool-change setting, is run on lines that do and do not select a tool. The conversion of the text to a number is a library call that is not looked into.'),
 'P09': dict(module='p_macro', technique='abstract interpretation of the expression evaluator per accepted name; queries on the grammar rules', min_obligations=30,
   note='The names and operators that are accepted are read off the constructors of the symbol table and of the grammar. The evaluator is then interpreted with each of them and a symbolic operand, and the resulting term is compared with the function the name stands for (forward trigonometry takes degrees, inverse gives degrees); the rule an operator stands in decides its binding, and a sequence of two operators the order. BCD and BIN are only required to be evaluated to something that depends on the operand. What Boost.Spirit makes of the grammar is not looked into.'),
 'P12': dict(module='p_macro', technique='abstract interpretation of every macro lookup and assignment; the order decided over separating keys', min_obligations=13,
   note='The order of the entries is decided on pairs of keys that separate all its cases. The substitution, the code-group check, the expression evaluator and hover are interpreted on a reference with a symbolic number and line over arbitrary macro values: whenever the value of an entry is read, the path must have established that it is an entry of the number asked for, and the key looked up must carry that number and line (in an expression, which is evaluated while its line is checked, the latest one). The assignment is interpreted with the expression as a black box. That the line given to the parser is the line of the text is D01.'),
 'P13': dict(module='p_macro', technique='guard analysis of every integer division by abstract interpretation with call-graph climb', min_obligations=5,
   note='Every integer division and remainder of the library and the server is listed from the types of its operands. A divisor that is not a constant must be known not to be zero (and not -1 under a possibly smallest dividend) on every path of its function, or of the functions that call it; the operands of expression operators are arbitrary.'),
 'P16': dict(module='p_verif', technique='abstract interpretation of each word check; rejecting conditions compared as linear inequalities', min_obligations=1200,
   note='Each check is interpreted on word forms with symbolic numbers and limits. The inequalities a path has decided when it rejects or accepts are brought into a canonical linear form and compared with the stated ones; repeated words and code groups are decided over table contents that separate the cases, the spindle check over all sequences of up to three (some four) line kinds. How a text becomes a number is a library call that is not looked into.'),
 'P11': dict(module='p_capi', technique='abstract interpretation of every word-to-text site over every combination of word parts, comparison of the produced text', min_obligations=25,
   note='The server, every function of the C interface that hands out words, the file splitter and the macro substitution are interpreted on 288 words: each of the 256 combinations of present and absent parts, plus comments, texts and one-character words. What ends up in the caller\'s memory (followed through new[], memcpy and element writes) must be the text of the word in a program. A reference to a macro with an unknown value is interpreted per combination of parts; its sign must be applied once.'),
 'A01': dict(module='p_capi', technique='ownership analysis: abstract interpretation of each C function followed by its dispose function, allocation and release events matched', min_obligations=25,
   note='Each C function is interpreted with the parser as a black box over a set of results it may hand over (none, several, empty ones); then the dispose function that takes what it hands out, found from the parameter types, is interpreted on the memory the call left behind. Every allocation must be released once with the form that matches.'),
 'A02': dict(module='p_capi', technique='definite-initialisation analysis of caller-visible memory by abstract interpretation of each C function', min_obligations=25,
   note='Each C function is interpreted with the parser as a black box over the results it may hand over; each element of each array up to the length handed out, each member of each structure, must have been written, and each C string must be terminated inside its buffer.'),
 'C01': dict(module='p_conf', technique='value-flow analysis by abstract interpretation: every key of the settings, grammar and code-group documents and every field of the C structures traced by name to the parameter it ends in', min_obligations=30,
   note='The three readers are interpreted over documents whose every entry is a value of its own (any axis, word and group names; one, two and in the thorough tier three entries per collection); every getter must then give, field by field, the value of the like-named key in its own type. The C constructors, the structure-taking C functions, the program check and the constructors and setters of the parser are followed the same way. That a value is converted to text and back without loss is not covered here (C04).'),
 'C02': dict(module='p_conf', technique='typestate analysis of read() and of the program check: abstract interpretation with an exceptional exit at every access to the document, over sequences of checks', min_obligations=8,
   note='Each access to a document may fail with the exception the library documents, or be missing where a default is given: on every such path read() must return false and let no exception out, a later read must read the file again and end with all values. NCParser::parse is then interpreted over sequences of checks (two; thorough three) in which every read succeeds or fails: nothing may be used from a reader that never succeeded, and a failed read ends in a non-empty list of errors.'),
 'C03': dict(module='p_ship', technique='abstract interpretation of the readers and of the places that make them, to a list of files and typed entries asked for; comparison with the shipped JSON files', min_obligations=40,
   note='The accepted drivers are read off the text conversions. For each the places that make a reader are interpreted, giving the file asked for; each reader is interpreted over a symbolic document, giving the entries and their types. Every shipped file must exist, be JSON and hold each entry as a value of that type; ranges must be ordered, words and operations well-formed. Only the English descriptions; whether the listed codes are right for the control is not decided.'),
 'A03': dict(module='p_capi', technique='forwarding analysis: abstract interpretation of each C function against a recording parser, arguments traced to parameters by name, type and order', min_obligations=40,
   note='Each C function is interpreted with the parser as a black box that records which operation is performed with which terms. The operation must be the like-named one, performed once; every argument must be one passed in, like-named members and parameters must agree and equal types keep their order; its result is returned and its macro values, path values and message are handed out unchanged.'),
 'M01': dict(module='p_msg', technique='abstract interpretation of the message formatters over the static message tables, per call site', min_obligations=150,
   note='Each issuing site found in the syntax trees is interpreted through its formatter against each language table: the name must have exactly one text in every language, the texts must have the same number of placeholders and the site must supply as many arguments.'),
 'C04': dict(module='p_names', technique='abstract interpretation of the to-text and from-text functions per enumerator', min_obligations=250,
   note='For every enumerator of every setting with a text form both functions are interpreted over the constant: the texts are distinct, reading a text gives back its enumerator, and reading a text that is none of them does not yield a setting.'),
}
for k, v in CHECKS.items(): v.setdefault('min_obligations', 1)
NOT_APPLICABLE = {
 'X01': 'Path lengths and machining times are floating-point results of trigonometry over runtime coordinates; no static argument in reach bounds them. The structural clauses (reset, plane symmetry, unit scaling) are separate properties.',
 'X02': 'The accepted language is defined by Boost.Spirit expressions evaluated against run-time symbol tables read from JSON; comparing it with the control manual is comparing two languages of which one exists only as prose.',
 'X03': 'Whether the concatenated outputs equal the input depends on the runtime history of blocks, tool changes and channel headers; no loop invariant in reach of a syntax-level analysis expresses it.',
}
