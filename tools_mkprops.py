import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Lexing yields exactly the tokens of the configuration syntax",
  "For every input text, lexing (without external lexers) returns, in order, exactly the lexemes of NGINX configuration syntax: unquoted words, quoted strings without their delimiters, comments up to the end of the line, and each of { } ; as a token of its own. Inside a quoted string only the escaped delimiter is unescaped, everywhere else a backslash stays with the character it escapes (one that escapes the end of a comment or of the input is dropped), carriage returns are dropped, and ${...} stays inside its word. Nothing else is added, lost, duplicated or reordered, and a token is marked quoted exactly when it was written in quotes.",
  ["inputs"],"all byte strings fed to the lexer, of any length",
  "unit tests lex about a dozen fixed files; the state machine has state x character x escape combinations that no sample covers",
  ["lex.go","util.go"],[("tokenize","lex.go:tokenize"),("isSpace/isEOL","util.go")],
  [dict(name="lexState,token,esc,quote,newToken,readNext",meaning="state of the hand-written lexer",where="lex.go:tokenize")],["Lex","LexWithOptions"])
p("C02","Every token and lexical error carries the right line number",
  "For every input text, the line reported for a word, quoted string or comment is 1 plus the number of line feeds before its first character (its opening quote for a quoted string; a word that starts with an escaped line feed counts from the line after it), whatever multi-line quoted strings, comments, escaped newlines or carriage returns precede it. A { } or ; carries the line of the run of non-blank characters it belongs to, and a lexical error reports the line on which it is detected. Line numbers never decrease along the token stream.",
  ["inputs"],"all byte strings fed to the lexer",
  "line counting interacts with every lexer state; tests check lines on a few files only",
  ["lex.go"],[("tokenLine/tokenStartLine","lex.go:tokenize"),("SubScanner.Scan","lex.go")],None,["NgxToken.Line"])
p("C03","Lexing always ends; unbalanced or empty statements give one final error",
  "For every input text, lexing stops and closes its token stream. The stream holds an error exactly when a } closes no open block, a { or ; follows no word (start of input, or another ; { } with only blanks or comments between), or the input ends with open blocks; that error is the last token and the only one. In an error-free stream the unquoted braces are balanced and never closed before they are opened.",
  ["inputs"],"all byte strings fed to the lexer",
  "termination and balance are statements about every prefix of every input; tests contain three unbalanced files",
  ["lex.go"],[("depth, dupSpecialChar","lex.go:tokenize"),("emit/close(tokenCh)","lex.go:tokenize")],None,["Lex channel"])
p("C04","A directive is accepted exactly when its registered rules allow it",
  "For every directive, block context, terminator, argument list and set of directive sources, validation accepts the directive if and only if the context or the directive is unknown (and unknown directives are not forbidden) or at least one rule given for that directive permits the context (unless context checks are off) and that same rule permits the terminator, the argument count, the on/off value and the parenthesised expression (unless argument checks are off); a directive ended by the } of its parent is never accepted. Rules from all sources given are considered together; without sources the default table is used.",
  ["inputs","configurations"],"all directives, contexts, terminators, argument lists, rule masks and option combinations",
  "tests try particular directives; the decision is over 2^33 mask values times arguments times options",
  ["analyze.go","util.go"],[("analyze","analyze.go:analyze"),("validExpr, validFlag","util.go"),("unionBitmaskMaps","analyze.go")],None,["Parse with checks on"])
p("C05","Directives are checked in the block path they really sit in",
  "For every nesting of blocks, the context used to validate a directive (and named in its error) is the list of enclosing block names from the top of the file, prefixed by the context of the include that pulled the file in, with everything at or below a location inside http counted as http > location. The context of one block or included file is never changed by blocks parsed before or after it.",
  ["inputs","histories"],"all nestings and orders of sibling blocks and includes",
  "tests nest two or three levels; sharing between sibling contexts only shows at particular depths and orders",
  ["analyze.go","parse.go"],[("enterBlockCtx","analyze.go"),("contexts table, blockCtx.key, getLastBlock","analyze.go, parse.go"),("includes queue","parse.go:Parse")],None,["ParseError.BlockCtx","Parse errors"])
p("C06","Bodies of map-like blocks are checked as parameters, not directives",
  "Inside a map-like block (map, geo, types, match, split_clients, charset_map, geoip2, otel_exporter) every statement is accepted exactly when it ends with ; and its argument count fits the rule of that block or of that special parameter, and is then returned marked as a map parameter without being validated, ignored or followed as a directive. A statement that does not fit yields an error naming the block and its line, and no statement is returned for it.",
  ["inputs"],"all map-like blocks, parameter names, argument lists and terminators",
  "tests sample a few parameters per block",
  ["analyze_map.go","parse.go"],[("analyzeMapBody, hasValidArguments","analyze_map.go"),("map-like branch","parse.go:parse")],None,["Directive.IsMapBlockParameter"])
p("C07","The parsed tree mirrors the token stream",
  "For every token stream that parses without error, the returned directives are, in order and nesting, exactly the statements of the stream: name from the first token, arguments from the following tokens up to the terminator (comments apart; an if loses its outer parentheses), line from the first token, and children exactly for statements opened with {, namely those up to the matching }. No statement is lost, duplicated, reordered or attached to another parent, and parsing stops exactly at the end of the stream or of the block.",
  ["inputs"],"all token streams and option settings",
  "a recursive descent over unbounded input; tests compare about forty trees",
  ["parse.go"],[("parser.parse","parse.go:parse"),("enterBlockCtx","analyze.go")],None,["Config.Parsed"])
p("C08","Status and error lists agree and miss nothing",
  "For every parse that returns a payload, its status is failed exactly when it has errors, each file's status is failed exactly when that file has errors, the payload's errors are the files' errors with the same line and file in the order they were found, and the error callback ran once per error with that error. When asked to stop on error, the first error met is returned instead of a payload, and every error found in a file's tokens (also inside skipped blocks) is reported.",
  ["inputs","configurations"],"all inputs, option settings and error sequences",
  "tests cover single-error files; bookkeeping must agree for any mixture of errors over any number of files",
  ["parse.go","errors.go"],[("handleError","parse.go:Parse"),("parser.parse error paths","parse.go:parse")],None,["Payload.Status, Errors, Config[].Errors"])
p("C09","Includes are resolved once, in order, to the right config",
  "For every set of files, each include directive lists, in the order of its matches (globs sorted, a plain path only if it can be opened, relative patterns taken from the main file's directory), the indexes of configs whose file is exactly the matched path. The main file is config 0, every distinct path is parsed exactly once at the position of its index, and with single-file parsing no include is followed.",
  ["inputs","configurations"],"all include graphs, glob results and open failures",
  "tests use a handful of include trees",
  ["parse.go"],[("include branch","parse.go:parse"),("includes/included","parse.go:Parse")],None,["Directive.Includes, Payload.Config"])
p("C10","Include cycles are reported exactly when they exist",
  "For every include graph, parsing fails with an include-cycle error if and only if some file includes itself directly or through other files; files merely included several times are not a cycle. The outcome does not depend on map iteration order.",
  ["inputs","schedules"],"all finite include multigraphs, all map iteration orders",
  "three graphs are tested; the property quantifies over all graphs and iteration orders",
  ["parse.go"],[("isAcyclic","parse.go"),("includeEdges, includeInDegree","parse.go:parse")],None,["Parse error"])
p("C11","Combining replaces every include by the included directives",
  "For every acyclic payload, the combined payload has one config (none for an empty payload) named after the first file whose directives are those of the first config with every include that lists configs replaced in place by the expanded directives of those configs, recursively and at every depth, everything else unchanged and in order. An index with no config gives an error instead, all file errors are concatenated in order, the status is failed exactly when a file failed, and the original payload is left untouched.",
  ["inputs"],"all payloads whose includes are acyclic",
  "tests combine three payloads",
  ["util.go","types.go"],[("combineConfigs, performIncludes","util.go"),("Payload.Combined","types.go")],None,["Payload.Combined, ParseOptions.CombineConfigs"])
p("C12","Build writes every directive once, in order, with correct syntax",
  "For every tree of directives and build options (non-negative indent), the text built is exactly: each directive on its own line indented by its depth, its quoted name and arguments separated by single spaces (an if condition in parentheses, with a blank before a first argument that is quoted; map parameters named if like any other), ended by ; or by its children between { and }, comments as # text, on the same line as the preceding statement when they carry its line number and that statement was not written by a registered builder. A builder registered for a directive name replaces exactly that directive's text; a requested header comes first; the tree is not modified.",
  ["inputs","configurations"],"all directive trees and option values",
  "tests build about twenty trees; depth and sibling combinations are unbounded",
  ["build.go"],[("buildBlock, Build, margin","build.go"),("registerBuilder.applyBuildOptions","build.go")],None,["Build output"])
p("C13","Quoted arguments read back as the same single argument",
  "For every string without backslashes and control or non-printable characters, the text Enquote writes for it is read back by the lexer as exactly one token with that string as its value, never as a comment, a terminator, a variable block or several tokens. Strings that need no quotes are written unchanged.",
  ["inputs"],"all such strings of any length",
  "tests quote a dozen strings; the property relates two hand-written scanners over all strings",
  ["build.go","util.go","lex.go"],[("Enquote, needsQuote, escape","build.go"),("repr","util.go"),("tokenize","lex.go")],None,["Build then Lex"])
p("C14","No configuration, payload or directive tree makes the library panic",
  "For every token stream, directive list, payload (with acyclic includes and no nil directives) and option setting with a non-negative indent, lexing, parsing, validating, combining, comparing, quoting and building return normally: no index or slice is out of range, no nil is dereferenced, no closed channel is used.",
  ["inputs","configurations"],"all inputs of the functions under contract",
  "absence of run-time failure for every input; tests only show it for their inputs",
  ["parse.go","analyze.go","util.go","build.go","lex.go","lua.go","types.go"],[("prepareIfArgs, validExpr","util.go"),("margin","build.go"),("parser.parse","parse.go")],None,["any exported function"])
p("C15","Directive equality is exact and an equivalence",
  "For all directive trees, two directives are equal if and only if they have the same name, arguments, line, file, comment (present or not), map-parameter flag, include indexes and, pairwise in order, equal children; nil equals only nil. Equality is therefore reflexive, symmetric and transitive, and comparing changes nothing.",
  ["inputs"],"all pairs and triples of directive trees",
  "tests compare about fifteen pairs",
  ["types.go"],[("Directive.Equal, equals, strPtrEqual","types.go")],None,["Directive.Equal"])
p("C16","Lua block bodies are carried verbatim",
  "For every Lua block directive, lexing returns the text between its outer braces unchanged as one quoted argument (set_by_lua_block first returns its variable), where braces between Lua quotes (each quote character toggles, escapes and Lua comments are not interpreted) do not count, followed by one ; token; building such a directive writes name, variable and body back between braces unchanged. If the block does not start with { the result is an error, and a body that never closes yields no argument.",
  ["inputs"],"all Lua texts",
  "tests use six Lua snippets",
  ["lua.go","lex.go"],[("Lua.Lex","lua.go"),("Lua.Build","lua.go"),("SubScanner","lex.go")],None,["Lex with Lua lexer, Build with Lua builder"])
p("C17","Every config is written once, complete, to its own file",
  "For every payload, writing it out creates one file per config, in order, named by the config's file (joined to the target directory when relative), whose content is that config's built text, with its trailing blanks replaced by exactly one newline on disk, and with one newline added at close in memory. The first failure stops the writing and is returned; nothing is reported as success that was not written.",
  ["inputs","fault_sequences"],"all payloads and all failures of create, write and close",
  "tests write a few payloads and inject no failure",
  ["build.go","buffer.go"],[("BuildFiles, BuildInto","build.go"),("FileString, StringsCreator","buffer.go")],None,["BuildFiles, BuildInto, StringsCreator.Files"])
p("C18","Ignored directives, unwanted comments and forbidden names never appear",
  "For every input and option setting, no directive named in the ignore list appears in the returned tree outside map-like bodies and nothing of its block does; without comment parsing no comment appears, and with it every comment outside skipped statements and map-like bodies appears once with its text; with unknown directives forbidden, every returned directive outside map-like bodies is known to a source. With single-file parsing no directive has include indexes.",
  ["inputs","configurations"],"all inputs and option combinations",
  "tests combine options on a few files",
  ["parse.go","analyze.go"],[("options branches","parse.go:parse"),("contains","util.go")],None,["Config.Parsed"])
p("C19","An if condition loses exactly its outer parentheses",
  "For every if directive whose first argument starts with ( and whose last ends with ), the arguments returned are the original ones with that one opening and that one closing parenthesis and the adjoining blanks removed, an argument that becomes empty at either end being dropped, and all others unchanged and in order; without such parentheses the arguments are unchanged.",
  ["inputs"],"all argument lists",
  "tests cover about eight argument lists",
  ["util.go","parse.go"],[("prepareIfArgs, validExpr","util.go")],None,["Directive.Args of if"])
p("C20","Generated directive tables contain exactly the selected definitions",
  "For every source tree and generator configuration, the generated table contains exactly the directives defined in its C and C++ files that are not filtered out, each with its overriding masks if it has an override and otherwise with all masks found in all files, each C mask name translated to its Go counterpart. A mask name without counterpart, an unreadable file or a tree without directives is an error, not a silent omission.",
  ["inputs","configurations"],"all extracted definitions, filters and overrides",
  "tests run ten small source trees",
  ["internal/generator/generator_util.go","cmd/generate/cmd_util.go"],[("masksFromFile, getMasksFromPath, genFromSrcCode","internal/generator/generator_util.go"),("overrideItem.UnmarshalText, override.Set, filterFlag.Set","cmd/generate/cmd_util.go")],None,["Generate"])
p("C21","External lexers and builders get exactly their registered names",
  "For every set of registrations, an external lexer or builder is used for a name exactly when that name was registered, the last registration of a name winning; a lexer is consulted for any word written with its name that starts a statement or a line. The tokens an external lexer produces are passed on unchanged and in order directly after the directive name that triggered it, and lexing continues with the first character it did not read, counting the lines it did read.",
  ["inputs","configurations"],"all registrations, inputs and external lexer behaviours",
  "tests register the Lua module and one toy lexer",
  ["lex.go","build.go"],[("registerLexer.applyLexOptions","lex.go"),("extension hand-over","lex.go:tokenize"),("registerBuilder.applyBuildOptions","build.go")],None,["LexWithOptions, Build"])
p("C22","Building and parsing again gives the same directives",
  "For every file that parses without error, with no external lexers or builders registered, whose names, arguments and comments contain no backslash, control or non-printable character: building the parsed file (any indent above zero or tabs, no header) and parsing the text in its place, with the same options, gives without error the same tree up to line numbers, and the same includes. Left out are comments that carry the line number of a comment right before them (Build writes these on one line), if conditions that are empty once their parentheses are taken off, and directive sources under which an if does not take any number of arguments.",
  ["inputs"],"all such configurations",
  "relates the whole parser and the whole builder over all inputs; tests round-trip a few files",
  ["build.go","parse.go","lex.go","util.go"],[("Build","build.go"),("Parse","parse.go"),("Enquote","build.go")],None,["Parse(Build(Parse(x)))"])
p("C23","A finished parse leaves no goroutine running",
  "After Parse returns, with or without error, no goroutine started by it keeps running or stays blocked.",
  ["schedules","inputs"],"all inputs and all schedules",
  "needs the scheduler's view of goroutine lifetimes for inputs longer than the channel capacity",
  ["parse.go","lex.go","lua.go","util.go"],[("go tokenize","lex.go:LexWithOptions"),("go func","lua.go, util.go:performIncludes")],None,["runtime.NumGoroutine"])
p("C24","The JSON form of a payload builds the same configuration",
  "For every parsed payload, marshalling it to JSON, reading it back and building it gives the same text as building the payload itself.",
  ["inputs"],"all payloads",
  "goes through reflection-based encoding of every tree",
  ["types.go","build.go"],[("json tags","types.go"),("ParseError.MarshalJSON","errors.go")],None,["json.Marshal, json.Unmarshal, Build"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
