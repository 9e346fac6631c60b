#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
E='pkg/etx/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('E01','Parsing is total and deterministic',
 'For any byte string whose brackets and interpolations nest at most 100 deep, parsing returns (no panic, no crash, no endless loop) with exactly one of a document tree and an error. Parsing the same bytes again gives the same outcome: an equal tree with equal positions, or the same error message.',
 ['inputs'],'every byte string up to a few tens of KiB: valid documents, damaged documents, token soup, raw bytes (invalid UTF-8, NUL, CR)',
 'The tests parse a few hundred hand-written well-formed snippets once each; totality quantifies over all byte strings.',
 [E+'parser.go',E+'lexer.go',E+'value.go'],
 [('parse entry points return (nil, err) or (ast, nil)',E+'parser.go: Parse, ParseString, ParseBytes'),('number and heredoc captures return errors instead of panicking',E+'value.go: Capture methods')],
 ['return values of ParseString/ParseBytes, recovered panics, process death'])
p('E02','All parse entry points agree, and a failing reader never yields a document',
 'Parsing the same content from a string, from bytes, or from a reader that delivers it in any chunks gives the same document or the same error. If the reader fails before the end of its content, parsing reports an error (from which the reader\'s own error can be unwrapped) and returns no document; the input bytes are never modified, and a document does not depend on them after parsing.',
 ['inputs','fault_sequences'],'every document, every way of splitting it into reads (one byte at a time, zero-length reads, data returned together with EOF), every offset at which the reader fails',
 'Tests call each entry point on one or two fixtures with well-behaved readers; chunkings and read faults are never exercised.',
 [E+'parser.go'],[('Parse, ParseString and ParseBytes share one grammar and wrap errors with %w',E+'parser.go')],
 ['returned document (projected) and error of the three entry points'])
p('E03','Operators group by the documented precedence',
 'In every accepted expression, operators bind in this order, loosest first: ternary ?:, ||, &&, |, ^, &, equality (== !=), relational (< <= > >=), shifts (<< >>), additive (+ -), multiplicative (* / %), unary (! ~ - +), then calls, indexing and member access; parentheses override it. The operators of one level stay in one chain in source order with their operands, whatever the nesting, spacing or length of the expression.',
 ['inputs'],'every expression over all operators, parentheses, calls, indexes, member access, lists, maps, strings with interpolation, if and switch, to any depth',
 'Expression tests check one operator at a time; the number of operator combinations is unbounded.',
 [E+'expr.go',E+'lexer.go'],[('one grammar struct per precedence level, each one built on the next',E+'expr.go: Expr ... ExprPrimary'),('operator tokens ordered longest first',E+'lexer.go: lexRules')],
 ['document tree returned by ParseString, projected to operator chains'])
p('E04','Documents keep their structure: items, names, labels, types, bodies and order',
 'The tree of an accepted document holds exactly the items of the source, in source order and with the same nesting: declarations (kind, name, type, value), functions (name, parameters and their types, return types, body statements), types (enum and object members), blocks (name, labels, body), attributes (key, value), if/switch branches and cases, list and map entries, and comments. No item, label, parameter, branch or entry is dropped, duplicated, renamed, reordered or attached to another parent.',
 ['inputs'],'every well-formed document, whatever the number and nesting of its items',
 'Parsing tests use documents with one or two items of one kind; they cannot cover the combinations and sizes that user documents have.',
 [E+'ast.go',E+'decl.go',E+'func.go',E+'type.go',E+'block.go',E+'attribute.go',E+'comment.go',E+'value.go',E+'expr.go'],
 [('grammar annotations of the tree structs','struct tags in pkg/etx/*.go')],['document tree returned by ParseString'])
p('E05','String and heredoc literals keep their exact content',
 'For every accepted string or heredoc, the concatenation of its parts in source order (text, escape sequences, unicode escapes, ${} interpolations, %{} directives, $${ and %%{ literals, lone $ and % signs) reproduces what stands between its delimiters, character for character, and each part has the right kind. A string ends only at its own unescaped quote, and a heredoc only at a line that begins with its whole delimiter word; the delimiter and the leading-tabs mark of a heredoc are kept.',
 ['inputs'],'every string and heredoc content: any Unicode text, quotes of the other kind, line breaks, sigils, escapes, nested interpolations containing strings, maps and blocks; delimiter-like words inside heredocs',
 'Tests use about twenty fixed literals, mostly one fragment each.',
 [E+'lexer.go',E+'value.go'],[('lexer states String, Unicode, Heredoc, HeredocRow, StringExpr',E+'lexer.go: lexRules'),('StringFragment and HeredocFragment grammar',E+'value.go')],['ValueString.Fragment and Heredoc.Fragments of the parsed tree'])
p('E06','Number literals keep their value and spelling',
 'Every integer literal (decimal, 0x, 0b, 0o and leading-0 octal, with digit separators) is stored with exactly its value, however long; every decimal literal is stored within one unit of its last written significant digit, and never less precisely than a float64. The spelling is kept as written (a leading-0 octal being respelled with 0o), and a malformed number is rejected rather than approximated.',
 ['inputs'],'every number literal of every base up to several hundred digits, exponents within +-300, any placement of separators',
 'Tests check literals that fit in a few digits; precision loss only shows on long ones.',
 [E+'value.go',E+'lexer.go'],[('ValueNumber.Capture with a precision derived from the literal',E+'value.go')],['ValueNumber.Value and ValueNumber.Source'])
p('E07','Layout and comments do not change what a document means',
 'Changing only the amount and kind of white space between tokens (spaces, tabs, blank lines, LF or CRLF line ends where line breaks are allowed) or adding, changing or removing comments between items does not change the rest of the parsed document: same items, names, expressions and literals in the same order.',
 ['inputs'],'every document, every pair of layouts of it (heredoc openers keep their LF, as the language requires)',
 'Tests fix one layout per snippet.',
 [E+'lexer.go',E+'ast.go',E+'value.go',E+'expr.go'],[('white space is elided by the lexer, LF tokens are optional in the grammar',E+'lexer.go and struct tags')],['projected trees of the same document under different layouts'])
p('E08','Source positions are exact',
 'The position recorded in every node built by the parser (offset in bytes, line, and column counted in characters from 1) is that of the first character of the first token that the node covers, for any mixture of tabs, CR, multi-line literals and non-ASCII text before it. The scalar payload nodes for booleans and numbers, which carry no position, are located by their enclosing value.',
 ['inputs'],'every accepted document',
 'Tests compare positions on short single-line ASCII snippets.',
 [E+'ast.go',E+'lexer.go'],[('ASTNode.Pos filled in by the parser',E+'ast.go: ASTNode')],['ASTNode.Pos of every node reachable from the returned tree'])
p('E09','The parser accepts exactly the language',
 'A document is accepted if and only if its text can be derived from the language\'s grammar: unterminated or unbalanced constructs, missing operands, stray or duplicated tokens, misplaced separators and keywords are rejected with an error, and every derivable document (with alternatives decided within 50 tokens) is accepted. Nothing of the input is skipped to reach acceptance.',
 ['inputs'],'every token sequence near a valid document: tokens dropped, duplicated, swapped, replaced, spliced between documents, truncations',
 'Tests have about a hundred negative cases; the boundary of the language is unbounded.',
 [E+'lexer.go',E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'decl.go'],[('lexer rules and grammar annotations',E+'*.go')],['accept/reject and tree against an independently written reader of the same language'])
p('E10','Nothing in the source is silently lost or invented',
 'For every accepted document, the significant tokens of the source (identifiers, keywords with meaning, operators, literals and their parts, comments) are found again in the parsed tree, each exactly once and in source order, and the tree contains no name, literal, operator or comment that the source does not.',
 ['inputs'],'every accepted document, generated or obtained by damaging another one',
 'A token dropped by the grammar (a repeated construct captured into a single field, for instance) only shows on inputs that tests do not contain.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'decl.go',E+'comment.go'],[('every capture of the grammar goes to a field of its own','struct tags in pkg/etx/*.go')],['in-order flattening of the tree against the token sequence of the source'])
p('E11','Errors point at the place where the document goes wrong',
 'When a document is rejected because of a character that no token can start with, the reported position (offset, line, column) is exactly that of this character. When it is rejected for its syntax (including unterminated literals), the position is that of one of its tokens or its end, and never before the start of the first top-level item that cannot be read. The rendered message starts with "parsing failed: " followed by that same line and column.',
 ['inputs'],'every rejected document; malformed number literals, whose errors carry no position, are excepted',
 'Tests only assert that an error is returned.',
 [E+'parser.go',E+'lexer.go'],[('error wrapping with %w keeps the positioned error reachable',E+'parser.go')],['errors.As to the positioned error, and the message text'])
p('E12','The tree can be navigated completely and consistently in both directions',
 'After parsing, the parent of every node is the node that lists it among its children (top-level items have none), every node is listed by exactly one parent, no node is missing from its parent\'s children, and children are listed in source order (label, then type, then value or body). Walking children from the document therefore visits every declaration, type, expression, literal, fragment and comment exactly once.',
 ['inputs'],'every accepted document',
 'Tests compare Children on hand-built nodes of one level; parents are only checked on a few parsed ones.',
 [E+'parser.go',E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'decl.go'],[('updateParentRefs',E+'parser.go'),('Children methods','pkg/etx/*.go')],['Children() and Node().Parent over the whole tree, compared with a reflective walk of its fields'])
p('E13','A clone is an equal and fully independent copy',
 'Cloning any node of a parsed document gives a tree with the same structure, contents and positions. The clone shares no mutable storage with the original and holds no reference into it: changing either one, in any field, never changes the other, and the original is left untouched by cloning.',
 ['inputs','histories'],'every document, every node of it, every mutation of either copy',
 'Tests clone hand-built nodes with one child and compare a few top-level references.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'utils.go'],[('Clone methods, cloneCollection, cloneStrings','pkg/etx/*.go')],['reflective comparison and address-set intersection of the two trees'])
p('E14','Formatting preserves meaning',
 'The formatted text of any parsed document parses again, to a document with the same items, names, labels, types, expressions (same grouping), literals and comments in the same order. This also holds for documents with comments and blank lines in every allowed place, multi-line literals at any nesting, and both quote styles.',
 ['inputs'],'every accepted document (except heredocs whose body starts with an empty line, a recorded finding)',
 'Tests compare the formatted text of hand-built nodes with fixed strings and never parse it again.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'decl.go',E+'attribute.go',E+'comment.go',E+'utils.go'],[('FormattedString methods','pkg/etx/*.go'),('indent',E+'utils.go')],['projection of parse(format(parse(x))) against that of parse(x)'])
p('E15','Formatting is a fixed point',
 'Formatting the result of parsing formatted text gives the same text again, byte for byte. Formatted text is also independent of the white space of the source inside lines: documents that differ only in spaces and tabs between tokens format identically.',
 ['inputs'],'every accepted document',
 'No test formats twice.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'comment.go',E+'utils.go'],[('FormattedString methods','pkg/etx/*.go'),('indent',E+'utils.go')],['format(parse(format(parse(x)))) == format(parse(x))'])
p('E16','Formatting, cloning and navigating never fail on, nor change, a parsed document',
 'On every parsed document, formatting, cloning and listing the children of the document and of any of its nodes return without panicking (the empty placeholder in a comment or blank line of a type, which has no text, excepted for formatting). They leave the document unchanged, and calling them again gives the same result.',
 ['inputs','histories'],'every accepted document, every node, every order of calls',
 'Tests call each method once on hand-built nodes, and assert panics for unset ones; whether parsed trees can reach those panics is not tested.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'func.go',E+'type.go',E+'block.go',E+'utils.go'],[('FormattedString, Clone, Children methods','pkg/etx/*.go')],['recovered panics; deep snapshot of the tree before and after'])
p('E17','Parsing and reading documents is safe from any number of goroutines',
 'Any number of goroutines may parse documents at the same time, and format, clone and navigate one shared parsed document at the same time, without data races. Each call gives the result it would give alone.',
 ['schedules','inputs'],'all interleavings of concurrent parses of different or equal inputs and of read-only use of shared trees',
 'Parallel subtests exist but do not share trees or compare results, and are not run under the race detector.',
 [E+'parser.go',E+'lexer.go',E+'utils.go',E+'value.go'],[('a parser is built per call; package-level state is read-only',E+'parser.go, lexer.go, value.go, utils.go')],['Go race detector reports; results of concurrent calls against sequential ones'])

D='pkg/dag/'
p('E18','The JSON form of a document is complete',
 'Encoding any parsed document, or any of its nodes, as JSON succeeds, and gives the same text each time and for its clones. For documents of valid UTF-8, decoding that text gives back the same items, names, labels, types, operators and their grouping, bodies, literals and comments in the same order; every number keeps its spelling, and its value to at least the precision of a float64. Positions and parents are not part of the JSON form.',
 ['inputs'],'every accepted document, with every kind of node in every place, and every node of it',
 'No test encodes a document; the JSON names of the fields of some forty structs are only strings in tags, where a collision or an omission loses a part of some documents without an error.',
 [E+'ast.go',E+'expr.go',E+'value.go',E+'block.go',E+'func.go',E+'type.go',E+'decl.go',E+'attribute.go',E+'comment.go',E+'ident.go'],
 [('json tags of the tree structs','struct tags in pkg/etx/*.go')],['json.Marshal and json.Unmarshal of documents and nodes'])
p('E19','Documents put together from parsed parts work like parsed ones',
 'After replacing expressions, types and keys of a document by clones of parts of other documents, and inserting, moving and removing items, entries, statements, cases, arguments and parameters, updating the parent references gives every node the parent that lists it, changes nothing else, and can be repeated. Such a document formats without failure to a text that depends on its contents only, not on the positions its parts came from, and that parses back to the same content; its clone equals it; the documents that lent the parts are unchanged. (Recorded limits: heredocs of the E14 finding, and function types beyond the parser lookahead.)',
 ['histories','inputs'],'every sequence of edits of every document with parts of any others',
 'Tests clone, format and link parsed or hand-built trees of one construct; none edits a document, links it again or formats parts that come from different sources.',
 [E+'parser.go',E+'ast.go',E+'utils.go',E+'expr.go',E+'value.go',E+'block.go',E+'func.go',E+'type.go'],
 [('UpdateParentRefs / updateParentRefs',E+'ast.go, parser.go'),('Clone, FormattedString','pkg/etx/*.go')],['parent references, formatted text, trees parsed again, images of the lending documents'])
p('E20','The formatter writes one canonical layout',
 'The formatted text of a document, and of each of its parts, is the one canonical layout of its content. Top-level items are separated by exactly one empty line and the text ends with one line break. Statements, block items, enum and object members, list and map entries, cases and branches stand on lines of their own, indented by one tab for each body, list, map, type, switch, case or branch around them; lines that continue a string, heredoc or multi-line comment are never indented. Empty lines between the items of a body, type, list or map are kept, and are empty. Binary operators, ?: and the inside of heredoc interpolations have one space on each side, unary operators none; commas and colons are followed by one space; values of the members of an enum or object start in one column, one space after the longest label; list and map entries end with a comma; bodies, lists and maps without items are written on the line they begin on. Parentheses around a lone value or name are left out, others are kept.',
 ['inputs'],'every accepted document: all constructs, nested in all ways, with comments and empty lines wherever they are allowed (heredocs of the E14 finding excepted)',
 'The tests compare the formatted text of some two hundred small trees, nearly all of one construct; indentation, alignment and separation are about constructs inside each other and lists of any length.',
 [E+'ast.go',E+'utils.go',E+'expr.go',E+'value.go',E+'block.go',E+'func.go',E+'type.go',E+'decl.go',E+'attribute.go',E+'comment.go'],
 [('FormattedString of every node','pkg/etx/*.go'),('indent: one tab before each line that does not continue a literal',E+'utils.go'),('label alignment in TypeEnum and TypeObject',E+'type.go')],['formatted text'])
p('E21','A part formatted alone can be put in its place again',
 'Every node of an accepted document, formatted by itself, gives a text that, written where the language expects a part of that kind (an item in a body, a member in a type, an entry or key in a list or map, a case in a switch, arguments in a call, a type after a colon, an expression after a key, ...), is accepted and means that part: the document made of it equals the document made of the node.',
 ['inputs'],'every node of every accepted document (heredocs of the E14 finding excepted)',
 'List, map, enum, object and block items have formatters that whole-document formatting does not use; the tests call a few of them on one or two trees and never read the result again.',
 [E+'value.go',E+'type.go',E+'block.go',E+'func.go',E+'expr.go',E+'decl.go',E+'ident.go',E+'comment.go'],
 [('FormattedString of every node kind','pkg/etx/*.go')],['formatted text of single nodes, the document read from it'])
p('E22','Nodes built by hand are cloned, navigated and encoded like parsed ones',
 'For a node of any exported kind (function literals - Lambda, LambdaParameter - included, which no document contains), built by hand with any contents that its kind allows: Clone gives a node with equal contents and positions that shares no mutable storage with it and has no parent, and nil for nil; Children lists each node it holds exactly once, those of one field in their order; its JSON form decodes to the same contents; a document of such nodes gets right parents from UpdateParentRefs. A Lambda is formatted as its comment, its parameters (label, or label: type, separated by ", ") in parentheses, " => " and its expression. A finite number that is not negative and has no source text is formatted as a literal that reads back as its value, at its precision (24 bits or more; for a power of two a neighbour is allowed, which math/big may choose).',
 ['inputs'],'every node of every kind with every subset of its fields (alternatives of one kind exclude each other), strings, numbers (unset, infinite and of any precision) and lists of any length',
 'The tests clone and list a few hand-written trees per kind; a field left out of a Clone or Children shows only where that field is set and looked at.',
 [E+'lambda.go',E+'ast.go',E+'utils.go',E+'expr.go',E+'value.go',E+'block.go',E+'func.go',E+'type.go',E+'comment.go',E+'ident.go',E+'decl.go',E+'attribute.go'],
 [('Clone, Children of every node','pkg/etx/*.go'),('FormattedString of Lambda and LambdaParameter',E+'lambda.go'),('UpdateParentRefs / updateParentRefs',E+'ast.go, parser.go')],['images of nodes and clones, listed children, encoded text, formatted text of lambdas'])
p('E23','The cost of a document grows with its size, not with its nesting',
 'Parsing an accepted document nested at most 100 deep, or rejecting a text whose brackets are not nested, and formatting, cloning, linking, navigating and encoding the document take a time that grows no faster than about the square of its length (with the indentation that formatting adds): no number of operators, items, literals, comments, calls, members, branches or levels makes it explode. (Recorded limit: a text that goes wrong inside of calls, indexes, member accesses or signs nested in lists is rejected after a time that doubles with each level.)',
 ['inputs'],'long documents of every kind up to about 40 KB and documents nested up to 96 deep in any mixture of constructs',
 'The documents of the tests are a few lines long and two levels deep: time that doubles with each level or grows with the cube of the length cannot be seen there.',
 [E+'parser.go',E+'expr.go',E+'value.go',E+'lexer.go',E+'utils.go'],[('alternatives of the grammar are distinguished within their first tokens',E+'expr.go, value.go: parser tags'),('recursive formatting, cloning and linking visit each node once',E+'ast.go, utils.go')],['processor time of each call at two sizes'])
p('D01','The graph behaves as a set of vertices and a set of edges',
 'After any sequence of operations, every query (vertex lookup and listing, edge test, parents, children, ancestors, descendants, roots, leaves, order, size, text rendering) answers as a plain set of vertices with their values and a plain set of directed edges would. Each operation fails exactly in its documented cases and with the documented error: empty identifier, unknown vertex, duplicate vertex, empty or unknown source or target, identical ends, duplicate edge, missing edge, loop; deleting a vertex removes exactly its own edges.',
 ['histories'],'every sequence of additions, deletions, reductions and queries over any identifiers and values',
 'Tests run fixed sequences of a few operations on hand-made graphs of up to ten vertices, and the package is not even part of the stable suite.',
 [D+'dag.go',D+'errors.go'],[('vertices, inboundEdges, outboundEdges kept in step',D+'dag.go')],['return values of all exported methods against a naive model'],
 [('inboundEdges/outboundEdges','two indexes of one edge relation',D+'dag.go')])
p('D02','The graph never contains a cycle, and only cycle-making edges are refused',
 'No sequence of operations makes a vertex its own ancestor. An edge between two distinct known vertices that are not already linked is refused with the loop error exactly when its source can already be reached from its target, and accepted otherwise, also after deletions and transitive reductions.',
 ['histories'],'every sequence of edge additions, edge and vertex deletions, reductions and cache-warming queries',
 'Tests try a handful of loops on fresh graphs; staleness after deletions and reductions needs histories.',
 [D+'dag.go'],[('loop check against the descendants of the target',D+'dag.go: AddEdge')],['result of AddEdge; topological order of the observed edges'])
p('D03','A refused operation changes nothing',
 'An operation that returns an error leaves the graph as it was: same vertices and values, same edges, and same answers to every query, including those that were answered before.',
 ['histories'],'every failing operation in every reachable graph state',
 'Tests check the error, not the whole state after it.',
 [D+'dag.go'],[('checks come before mutations',D+'dag.go')],['full observable state before and after the failing call'])
p('D04','Ancestors and descendants always reflect the current edges',
 'At any time the ancestors (descendants) reported for a vertex are exactly the vertices from which it can be reached (which it can reach) over the edges present at that moment, each with its current value, whatever queries were made and answered earlier. A vertex deleted and added again starts without relations.',
 ['histories'],'every interleaving of queries that fill the caches with additions, deletions and reductions',
 'Cache staleness depends on which queries preceded which mutations; tests query mostly fresh graphs.',
 [D+'dag.go'],[('cache invalidation in AddEdge, DeleteEdge, DeleteVertex, ReduceTransitively',D+'dag.go')],['GetAncestors/GetDescendants against reachability over observed edges'],
 [('ancestorsCache, descendantsCache','transitive closures computed so far',D+'dag.go')])
p('D05','Transitive reduction is minimal and preserves reachability',
 'Transitive reduction removes exactly the edges for which another path of two or more edges exists, and adds none: reachability between all pairs, vertices and values are unchanged, and reducing again changes nothing. Later operations see the reduced graph.',
 ['inputs','histories'],'every acyclic graph, with any caches filled before',
 'Tests reduce a few graphs of at most ten vertices.',
 [D+'dag.go'],[('removal of children that are descendants of other children',D+'dag.go: ReduceTransitively')],['edges before and after; reachability matrices'])
p('D06','Walks visit every relative exactly once, nearest first',
 'Walking the ancestors or descendants of a vertex, as a stream or as an ordered list, delivers each of them exactly once and nothing else, never the vertex itself, in non-decreasing order of shortest distance from it; the stream then ends. Starting a walk on an empty or unknown identifier reports the documented error and starts nothing.',
 ['inputs','schedules'],'every acyclic graph, start vertex and consumer speed',
 'Tests check sets or one order on small graphs; breadth-first order depends on graph shape and map iteration order.',
 [D+'dag.go'],[('fifo with visited set',D+'dag.go: walkAncestors, walkDescendants')],['sequence received from the walkers against BFS distances'])
p('D07','A walk can be stopped at any moment without leaks or crashes',
 'Once a stop has been signalled, at most one more vertex is delivered, the stream is closed and the walk ends, whether or not anybody is still receiving. Signalling never blocks or panics, also before the first vertex, after the last one, or by closing the signal channel; no goroutine survives a walk that was stopped or fully consumed.',
 ['schedules','histories'],'every graph, every point of the walk at which the consumer stops, signals, closes, or walks away, under any scheduling',
 'The two signal tests stop once after two vertices on one graph, and are known to be flaky.',
 [D+'dag.go'],[('stop signal polled and selected on when delivering',D+'dag.go: walkAncestors, walkDescendants')],['channel operations by the consumer, goroutine stacks at quiescence'])
p('D08','Returned collections are snapshots',
 'Maps and lists returned by any query belong to the caller: modifying them never changes the graph or any later answer, and later operations on the graph never change collections returned before.',
 ['histories'],'every query in every reachable state, every modification of its result, every following sequence of operations',
 'No test modifies a result and queries again.',
 [D+'dag.go'],[('results are built as new maps',D+'dag.go: copyMap, loadFromCache')],['graph state after clobbering results; results kept across mutations'])
p('D09','Sets obey set algebra and operations leave their operands alone',
 'For all sets: membership, addition, deletion, intersection, difference, filtering, listing and copying agree with mathematical sets, including empty and nil sets. Intersection, difference, filter, list and copy do not modify their operands, and their results are never nil sets and share no storage with them.',
 ['inputs','histories'],'all pairs of sets and all sequences of set operations',
 'Tests use a few fixed sets (two of them fail at random because of map order).',
 [D+'set.go'],[('Set methods',D+'set.go')],['results of Set methods against sorted-slice models'])
p('D10','Walks in flight and queries by the owner do not race',
 'Any number of walks may be in flight on one graph while its owner goroutine makes queries on it, and independent graphs may be used from independent goroutines, without data races. Walks and queries all give the answers they would give alone.',
 ['schedules'],'all interleavings of walk goroutines with each other and with queries that fill caches',
 'Tests run one walk at a time without the race detector.',
 [D+'dag.go'],[('walk goroutines only read the edge maps',D+'dag.go: walkAncestors, walkDescendants')],['Go race detector reports; answers against the sequential ones'])
p('D11','No graph operation takes time that explodes with the number of paths',
 'Every operation and query of the graph (adding and deleting vertices and edges, also refused ones, parents, children, ancestors, descendants, ordered lists, walks, roots, leaves, transitive reduction) ends within a time that is polynomial in the numbers of vertices and edges, whatever the number of paths: on ladders, layers and dense graphs with more than 2^40 paths, whatever the order in which the edges were added, none takes more than seconds of processor time.',
 ['inputs','histories'],'graphs with exponentially many paths and graphs of up to a thousand vertices, edges added in any order, caches filled at any time',
 'The graphs of the tests have fewer than a dozen vertices: an algorithm that visits every path is as fast there as one that visits every vertex.',
 [D+'dag.go'],[('caches of ancestors and descendants are filled during the recursion',D+'dag.go: getAncestorsIDs, getDescendantsIDs'),('walks keep the set of visited vertices',D+'dag.go: walkAncestors, walkDescendants')],['processor time of each call'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
