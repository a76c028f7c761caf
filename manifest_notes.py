c('C04', 'analyze, hasValidArguments, validFlag, validExpr and DefaultDirectivesMatchFunc meet their contracts for every input: accepted iff the specification accepts. Assumed: string library models, the generated tables as read by the extractor, match functions are pure.')
c('C06', 'analyzeMapBody, hasValidArguments, parse and Parse meet their contracts for every block, parameter, argument list, terminator and token stream; map_statements and what_is_returned_fits are theorems over them. Assumed: as for C07.')
PARSE = ' Assumed: file system, glob and callback are pure functions, errors.As, path and sort models; Combined is called without a postcondition here (its body is verified under C10, C11, C14).'
c('C05', 'parse, Parse, analyze, enterBlockCtx and tokenError meet their contracts for every input; that everything returned was accepted in the path it stands in (what_is_returned_fits, every_file_fits), the closed form of that path (path_of_a_directive) and the path of included files are theorems over these contracts.' + PARSE)
c('C18', 'parse, Parse and analyze meet their contracts for every input and option setting; that no ignored or forbidden name, unwanted comment or include index is returned (what_is_returned_fits, every_file_fits, forbidden_never_appears, no_comment_unless_asked) and that wanted comments are (lemma_mirror) are theorems over these contracts.' + PARSE)
c('C15', 'Equal, equals and strPtrEqual meet their contracts for every pair of trees (termination included); reflexivity, symmetry and transitivity are lemmas over the contract.')
c('C19', 'prepareIfArgs meets its contract for every argument list. Assumed: models of the strings functions.')
c('C12', 'Build, buildBlock, margin, Enquote, repr and applyBuildOptions meet their contracts for every tree, option value and writer: the text written is exactly the specified text (termination included). Assumed: writer, string library and external-builder models.')
c('C01', 'tokenize, LexWithOptions and the registrations meet their contract for every input: the channel holds exactly the tokens of the reference automaton in spec/lex.rs and is closed. Assumed: bufio.Scanner and strings models, external lexers are pure functions of name and remaining input, goroutine modelled as sequential producer.')
c('C02', 'Token and error lines are those of the contract of tokenize (line feeds read so far); monotone lines are a lemma over it.')
c('C03', 'Termination (loop variant), closing of the channel, and the error/balance guarantees are lemmas over the contract of tokenize.')
c('C21', 'Registration order, hand-over to external lexers and builders, positions and lines after them are in the contracts of tokenize, Scan, buildBlock and the registrations. Assumed: external lexers and builders are pure functions.')
c('C13', 'Enquote, needsQuote, escape, repr and tokenize meet their contracts for every string; that the quoted text reads back as one token is a theorem over these contracts (any length). Assumed: UTF-8 decoding and %q facts (spec/quotelem.rs, axioms ax_*), library models.')
c('C16', '(*Lua).Lex, (*Lua).Build, its name table and registrations and (*SubScanner).Scan meet their contracts for every input: the tokens, lines and characters read are those of spec/lua.rs; termination included. Assumed: bufio.Scanner model (no read errors), goroutine modelled as sequential producer.')
c('C07', 'parse, Parse, openFile and tokenError meet their contracts for every token stream, option setting and file queue: the tree, state and errors are exactly those of spec/parse.rs. That a tree returned without errors mirrors its tokens (validator mirror) and that no token read carries an error are theorems over these contracts (any nesting). Assumed: file system, glob and callback are pure functions, errors.As, path and sort models; Combined is called without a postcondition here (its body is verified under C10, C11, C14).')
c('C08', 'parse, Parse, its error handler, tokenError and openFile meet their contracts for every input, option setting and file queue; that status, errors and callback calls agree (status_and_errors_agree), that with StopParsingOnError the first error is returned (stopping_returns_the_first_error) and that no erroneous token is read over (no_token_error_is_missed) are theorems over these contracts.' + PARSE)
c('C09', 'parse, Parse and openFile meet their contracts for every file system, glob result and include graph; that every path is parsed once at its index, the main file first, and every include points to the configs of the files it names (every_include_is_resolved) is a theorem over these contracts.' + PARSE)
c('C10', 'isAcyclic, parse, Parse and openFile meet their contracts for every include graph (isAcyclic ends on each; the loop of Parse over the file queue has no measure: partial correctness); that Parse reports a cycle exactly when some file includes itself, directly or through others (cycle_is_reported), over edges that are exactly the resolved includes (edges_are_the_includes), and that without one combining ends (no_cycle_no_endless_include), are theorems over these contracts.' + PARSE)
c('C11', 'Combined, combineConfigs and performIncludes meet their contracts for every payload whose include chains are finite, at any depth and nesting (termination included): what is returned is the specified expansion. That no include is left in it and that a payload without includes is returned unchanged are theorems; that Parse only combines payloads with finite include chains is proved under C10. Assumed: goroutines feeding one channel are modelled as sequential producers.')
c('C14', 'The safety obligations (slice bounds, nil pointers and maps, channel use, library preconditions, loop variants of lexer, Lua lexer and parser) of every function under contract are discharged for every input, from contracts cut down to what safety needs; combining ends for acyclic payloads by C10/C11. Assumed: library models, extractor semantics; stack depth and memory are not modelled.')
c('C17', 'BuildFiles, BuildInto, Build, the in-memory creator and its files meet their contracts for every payload, option value and sequence of failing operations: the files created and completed, their contents, the failure returned and the order are exactly those of spec/output.rs. Assumed: models of os, bytes and Creator (a created file is empty; Close completes it); a FileString is reached through the writer made of it.')
c('C20', 'masksFromFile, getMasksFromPath, genFromSrcCode, Generate, the filter and override parsers meet their contracts for every source tree and configuration: the table handed to the template holds exactly the selected definitions, and every unreadable file, unknown mask or empty tree is an error. Assumed: what the three regular expressions extract (their patterns are fixed by the specification), WalkDir, string and JSON models, the template.')
c('C22', 'Build, buildBlock, Enquote, LexWithOptions, tokenize, Parse and parse meet their contracts; that the text built for any tree in the domain is read as exactly the tokens of the tree (built_text_reads_back) and that parsing it in place of the file gives the same tree up to lines and the same includes (built_file_parses_back: any nesting, size, option setting) are theorems over these contracts, by induction over trees and token streams. Assumed: UTF-8 decoding, %q, strings.TrimLeftFunc/TrimRightFunc leave text without outer blanks alone (axioms ax_*), file system and glob are functions, library models; Combined is called without a postcondition here (its body is verified under C10, C11, C14).')
