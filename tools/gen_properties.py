import json
D="pkg/dag/dag.go"; S="pkg/dag/set.go"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
REW="none in /repo: the check rewrites a scratch copy of the packages so that every goroutine start, channel operation, lock, clock and map iteration goes through the simulator"
L=[]
L.append(p("G01","A walk visits every related vertex exactly once, nearest first, then ends",
 "Walking the ancestors (or descendants) of a known vertex delivers every vertex it is reachable from (or that is reachable from it) exactly once, never the start vertex, in non-decreasing distance from the start, and then closes the delivery channel. This holds however slowly or irregularly the receiver reads. Walking from an empty or unknown identifier is refused with the documented error and starts nothing.",
 ["schedules","histories","inputs"],"every graph reached by any history of accepted changes, every start vertex, every interleaving of the walk's background thread with its receivers, every map iteration order",
 "the tests walk one fixed 10-vertex graph with one eager receiver under whatever schedule the host happened to choose",
 [D],[("breadth-first walk in a background goroutine feeding an unbuffered channel","pkg/dag/dag.go AncestorsWalker/DescendantsWalker, walkAncestors/walkDescendants")],
 [("visited, fifo","frontier of the walk","pkg/dag/dag.go walkAncestors/walkDescendants")],["identifiers received from the returned channel, and its closing"],REW))
L.append(p("G02","A walk can be stopped at any instant, promptly, safely, leaving nothing behind",
 "Sending one stop request (either value) on a walk's second channel, at any moment of its life including after it has ended, never blocks and never crashes the sender. Once the request has been sent at most one more identifier can be received, after which the delivery channel is closed. The walk's background thread always finishes after a stop request or after its last identifier was received, even if the receiver stops reading as soon as it has asked to stop.",
 ["schedules","fault_sequences"],"every graph, start vertex, number of identifiers received before the stop, thread that sends the stop, and interleaving of stop, receiver and walk",
 "the two stop tests send one stop in mid-walk under one host schedule and never look at what the walk does afterwards; one of them is excluded from the stable set as flaky",
 [D],[("stop channel polled between deliveries","pkg/dag/dag.go walkAncestors/walkDescendants"),("channels closed when the walk ends","pkg/dag/dag.go AncestorsWalker/DescendantsWalker")],
 None,["sends on the stop channel","receives from the delivery channel","background threads still alive when everything else is idle"],REW))
L.append(p("G03","Ordered ancestor/descendant lists are complete, nearest first, self-contained",
 "The ordered ancestor and descendant lists of a known vertex contain exactly the vertices a walk would deliver, each once, in non-decreasing distance; an empty or unknown identifier gives the documented error and no list. When the call returns, no background activity on the graph remains: the graph may be changed straight away.",
 ["schedules","histories"],"every graph reached by any history, every vertex, every schedule of the internal walk, every change made directly after the call",
 "the tests look at a few fixed graphs and never change the graph after the call",
 [D],[("list collected from an internal walk until its channel closes","pkg/dag/dag.go GetOrderedAncestors/GetOrderedDescendants")],None,["returned slice, returned error, background threads and unsynchronised accesses after return"],REW))
L.append(p("G04","The graph never holds a cycle",
 "After any history of operations, no vertex of the graph can reach itself by following edges. Adding an edge is refused with the loop error exactly when it would close a cycle, and an edge that would not close one is never refused as a loop.",
 ["histories","schedules","inputs"],"every history of vertex and edge additions and removals, transitive reductions, queries that warm the internal caches, and walks in between, under every map iteration order",
 "the tests try a loop on a handful of freshly built graphs; staleness of the cached reachability the loop test relies on only shows after particular multi-step histories",
 [D],[("loop test against cached descendants before inserting","pkg/dag/dag.go AddEdge"),("cache invalidation on every change","pkg/dag/dag.go AddEdge/DeleteEdge/DeleteVertex/ReduceTransitively")],
 [("descendantsCache, ancestorsCache","memoised reachability","pkg/dag/dag.go")],["AddEdge result, edges as listed by GetChildren"],REW))
L.append(p("G05","Vertices, edges and their listings match the history of accepted changes",
 "After any history, looking up a vertex or an edge, listing vertices, roots, leaves, parents and children, counting vertices and edges, and printing the graph all describe exactly the graph built by the accepted operations: a vertex keeps the value it was added with, and removing a vertex removes it and all edges touching it. Each listed name carries the value of its own vertex.",
 ["histories","schedules"],"every history of accepted and refused operations, re-used identifiers included, with walks interleaved, for every supported kind of identifier",
 "each test builds one small graph (often by filling private fields) and applies one operation to it",
 [D],[("paired inbound/outbound edge sets kept in step","pkg/dag/dag.go AddEdge/DeleteEdge/DeleteVertex/ReduceTransitively")],
 [("vertices, inboundEdges, outboundEdges","the graph","pkg/dag/dag.go")],["every query result after every operation"],REW))
L.append(p("G06","Ancestor and descendant answers are exact after any history",
 "At every point of any history, the ancestors (descendants) reported for a vertex are exactly the vertices that reach it (that it reaches) in the current graph, each with its own value, and an empty or unknown identifier is refused with the documented error. The answer does not depend on which queries were asked before.",
 ["histories","schedules"],"every history of changes, transitive reductions, and queries in any order (cold, warm and partially warm caches), every map iteration order",
 "tests query freshly built graphs; a stale or half-filled cache needs a particular query, change, query sequence",
 [D],[("memoised recursive closure with invalidation of ancestors/descendants of a changed edge","pkg/dag/dag.go getAncestorsIDs/getDescendantsIDs, AddEdge, DeleteEdge, DeleteVertex")],
 [("descendantsCache, ancestorsCache","memoised reachability","pkg/dag/dag.go")],["GetAncestors/GetDescendants results"],REW))
L.append(p("G07","Transitive reduction keeps reachability and removes every redundant edge",
 "Transitively reducing a graph leaves all vertices and their values in place, leaves every reachability relation unchanged, and leaves exactly those edges whose endpoints are joined by no other path. The result is the same whatever was asked of the graph before and in whatever order internal tables are visited, and every later operation behaves accordingly.",
 ["histories","schedules"],"every graph reached by any history, warm or cold caches, every map iteration order while edges are being removed, every continuation",
 "the tests reduce a few hand-built graphs once and do not continue from the result; removal happens while iterating tables whose order varies per run",
 [D],[("redundant edges found from the cached closure and removed in place, caches flushed","pkg/dag/dag.go ReduceTransitively")],None,["edges, reachability and later operations after ReduceTransitively"],REW))
L.append(p("G08","Collections handed out by a graph are private to the caller",
 "A map or list returned by any query can be emptied, overwritten or extended by the caller at any time, also while other threads walk the graph, without changing the graph or any later answer; and later changes to the graph do not alter a collection handed out earlier.",
 ["histories","schedules"],"every query, every scribble on its result, every later operation, with walks in progress",
 "tests compare returned collections but never modify them or keep them across later changes",
 [D],[("fresh copies for every returned collection","pkg/dag/dag.go copyMap, loadFromCache, Get*")],None,["later answers after scribbling; earlier results after changes"],REW))
L.append(p("G09","Walks run alongside other walks and the owner's queries without interference",
 "On a graph that is not being changed, any number of walks can be in progress at once, read by different threads, stopped or abandoned part-way, while the owning thread keeps asking any query (including cached reachability); every answer and every delivery is what it would have been alone, with no unsynchronised access to shared memory. Once a walk's delivery channel has closed it never touches the graph again, so the graph may then be changed.",
 ["schedules","fault_sequences"],"every interleaving of several walk threads, their receivers, and the owner's queries and later changes; receivers that stall, stop or die",
 "no test has two walks, or a walk and a query, in progress at the same time, and none runs under a controlled schedule or race detector",
 [D],[("walks only read edge tables; caches are touched only by the owner's calls; channel closing is the hand-over","pkg/dag/dag.go walkAncestors/walkDescendants, getAncestorsIDs/getDescendantsIDs")],None,["deliveries, answers, happens-before order of memory accesses"],REW))
L.append(p("G10","Separate graphs are independent, also across threads",
 "Operations on one graph, including its walks, failures and reductions, never affect another graph. Different threads can each use their own graph at the same time, and each graph behaves exactly as if it were the only one, with no unsynchronised access to shared memory.",
 ["schedules","histories"],"every interleaving of independent histories on two or more graphs",
 "every test uses a single graph in a single thread",
 [D,S],[("all state lives in the graph value","pkg/dag/dag.go AcyclicGraph")],None,["all answers per graph; happens-before order of memory accesses"],REW))
L.append(p("G11","Set operations are exact and leave their operands untouched",
 "Intersection, difference, filter, copy and listing of sets (absent ones included) return exactly the mathematically expected elements in a new collection, and neither change their operands nor share storage with them. This holds when several threads read the same sets at once and modify their own results, and when a filter callback fails part-way.",
 ["schedules","fault_sequences","histories"],"every pair of sets, every interleaving of threads sharing them, every map iteration order, every callback failure point",
 "tests compare fixed sets, one assumes a fixed listing order, and none modifies a result, shares a set between threads or lets a callback fail",
 [S],[("every operation builds a fresh set","pkg/dag/set.go")],None,["results and operands after every operation"],REW))
L.append(p("G12","A refused operation changes nothing",
 "An operation that reports an error (empty, unknown, duplicate or identical identifiers, missing or duplicate edge, loop) reports one that the documentation gives for a condition that really holds, and leaves everything that can be observed about the graph exactly as it was, now and after any continuation. An operation for which none of these conditions holds is never refused.",
 ["histories","fault_sequences"],"every refused operation at every point of every history, every continuation",
 "tests check the error value of single refused operations and not that later behaviour is unaffected",
 [D,"pkg/dag/errors.go"],[("all conditions are checked before the first write","pkg/dag/dag.go AddVertex/DeleteVertex/AddEdge/DeleteEdge, checkVertexID, checkEdgeIDs")],None,["errors and complete observable state before and after"],REW))
P="pkg/etx/parser.go"
L.append(p("E01","Parsing a stream does not depend on how its bytes arrive",
 "Parsing from a reader gives the same tree (contents, positions, links) or the same error as parsing the same bytes from memory, whatever the sizes and pauses of the individual reads, including empty reads, data delivered together with the end of the stream, readers that write beyond the reported bytes of the buffer they are lent, and readers with extra capabilities. If the reader has a name, positions carry it.",
 ["inputs","fault_sequences","schedules"],"every document, every division into reads, every reader kind, every stall point",
 "the tests parse from readers that deliver a short text in one piece",
 [P],[("stream drained completely before lexing","pkg/etx/parser.go Parse")],None,["tree or error from Parse against ParseString/ParseBytes"],REW))
L.append(p("E02","A failing read never yields a tree",
 "If a read fails with anything but a clean end of stream, at any byte and even when the failing read also delivered data or what arrived so far is a complete document, parsing returns no tree and an error from which the reader's own error can be recovered. A later parse, of the same or other data, is unaffected, also when the reader crashed the call.",
 ["fault_sequences","crash_points","inputs"],"every document, every failing byte offset, every error kind (including errors that resemble end of stream), every reader kind",
 "the single failing-reader test fails on the first read with no data",
 [P],[("read error checked before lexing and wrapped","pkg/etx/parser.go Parse")],None,["returned tree and error; later parses"],REW))
L.append(p("E03","Concurrent parses behave as if each ran alone",
 "Any number of threads can parse at the same time, the first parses of the process included, from strings, shared byte slices or their own streams, valid, malformed and failing inputs mixed; each gets exactly the tree or error it would get alone, with no unsynchronised access to shared memory.",
 ["schedules","inputs","fault_sequences"],"every interleaving of concurrent parses of every mix of inputs, from a cold or warm process",
 "all tests parse in one thread and without a race detector",
 [P,"pkg/etx/lexer.go","pkg/etx/value.go"],[("lexer rules, grammar and parser built per call; shared patterns are read-only","pkg/etx/parser.go parser, pkg/etx/lexer.go lexRules")],None,["every result against a parse run alone; happens-before order of memory accesses"],REW))
L.append(p("E04","A parsed tree shares no memory with its input or with any other tree",
 "After parsing returns, the caller may overwrite or reuse the input buffer or reader, parse other documents, and edit one tree at will, from any thread; no other tree, even one parsed from the same input, ever changes as a result.",
 ["histories","schedules"],"every order and interleaving of parses, buffer reuse and tree edits",
 "no test overwrites an input after parsing or edits one of two trees from the same input",
 [P,"pkg/etx/ast.go"],[("input copied before lexing; a new tree per call","pkg/etx/parser.go Parse/ParseString/ParseBytes")],None,["trees compared with their first reading after every edit and reuse"],REW))
L.append(p("E05","A clone is a faithful, fully independent copy",
 "Cloning a tree, or any part of one that offers cloning, yields the same content and positions, and the copy shares no modifiable memory with the original. Threads may edit or relink the copy while others read, print or clone the original (and the other way round) without either side seeing the other's changes or racing with them.",
 ["schedules","histories","inputs"],"every tree, every cloned node, every interleaving of edits on one side with reads on the other",
 "the tests compare clones of small hand-built nodes for equality and do not edit the copy",
 ["pkg/etx/ast.go","pkg/etx/value.go","pkg/etx/func.go","pkg/etx/expr.go","pkg/etx/type.go","pkg/etx/block.go","pkg/etx/lambda.go","pkg/etx/decl.go","pkg/etx/attribute.go","pkg/etx/utils.go"],[("recursive Clone methods, slices copied element by element","pkg/etx/*.go Clone, pkg/etx/utils.go cloneCollection/cloneStrings")],None,["original and copy before and after edits on the other; happens-before order of memory accesses"],REW))
L.append(p("E06","Reading a tree never changes it, so threads can share it",
 "Printing, cloning and listing the children of any node leave the tree as it was and can be done by any number of threads on the same tree at once, each getting what it would get alone, which depends on nothing but what the tree holds at that moment, with no unsynchronised access to shared memory. A list of children belongs to the caller, who may modify it without affecting the tree or other readers.",
 ["schedules","inputs"],"every tree, every interleaving of printing, cloning and traversing threads, every edit of a returned list of children",
 "the tests call each method once, in one thread, on hand-built nodes",
 ["pkg/etx/ast.go","pkg/etx/expr.go","pkg/etx/value.go","pkg/etx/func.go","pkg/etx/type.go","pkg/etx/block.go","pkg/etx/lambda.go","pkg/etx/decl.go","pkg/etx/attribute.go","pkg/etx/ident.go","pkg/etx/comment.go"],[("printing works on values and builders local to the call; child lists are built per call","pkg/etx/*.go FormattedString/Children")],None,["results per thread; the tree before and after; happens-before order of memory accesses"],REW))
L.append(p("E07","Damaged streams never crash or hang the parser",
 "For any byte stream, including valid documents cut short at any byte, with bits flipped, pieces lost, doubled or spliced, every way of parsing it returns within a bounded number of steps, does not panic, yields exactly one of a tree or an error, and all ways agree. Later parses are unaffected.",
 ["fault_sequences","crash_points","inputs"],"every document and every sequence of damage applied to it",
 "the tests contain a few malformed texts",
 [P,"pkg/etx/lexer.go","pkg/etx/value.go"],[("lexer and grammar errors returned as errors; captures validate their text","pkg/etx/parser.go, pkg/etx/value.go Capture")],None,["outcome of Parse, ParseString and ParseBytes, step count"],REW))
L.append(p("E08","The reader is used only during the call, one read at a time, up to its end",
 "Parsing a stream calls the reader only between the start and the return of the call, never two reads at once, keeps no background activity afterwards, does not read again once the reader has reported its end or a failure, and does not close it. A successful parse has read up to the end of the stream.",
 ["schedules","fault_sequences"],"every document, every division into reads, stalls and failures, several parses from different readers in progress",
 "the tests' readers do not record how they are used",
 [P],[("stream drained in the calling thread","pkg/etx/parser.go Parse")],None,["calls made on the reader"],REW))
L.append(p("E09","The outcome of a parse depends only on its bytes",
 "Parsing given bytes always yields the same tree or the same error, whatever was parsed before in the process (valid, malformed or failing), whatever happened to earlier trees, and whatever the iteration order of internal tables; the tree contains exactly the names and texts of its own document.",
 ["histories","schedules"],"every sequence of earlier parses and edits, every map iteration order while the lexer and grammar are built and used",
 "each test parses once; the order of the internal rule tables varies per process and is never varied deliberately",
 [P,"pkg/etx/lexer.go"],[("no state kept between parses; ordered rule lists inside each lexer state","pkg/etx/lexer.go lexRules, pkg/etx/parser.go parser")],None,["tree or error of repeated parses"],REW))
PURE="pure function of its input"
L.append(p("P01","Printing a parsed file and parsing it again gives the same tree",
 "For every file that parses, its formatted text parses again to a tree with the same content, comments and empty lines included.",
 ["inputs"],"every valid document","tests print hand-built nodes one at a time and never feed the text back to the parser",
 ["pkg/etx/ast.go","pkg/etx/value.go","pkg/etx/expr.go","pkg/etx/type.go","pkg/etx/block.go"],[("FormattedString methods","pkg/etx/*.go")]))
L.append(p("P02","Expressions group by the documented precedence and associativity",
 "Every expression is parsed into the tree given by the operator precedence and associativity table of the language description.",
 ["inputs","programs"],"every expression","tests cover single operators and few combinations",
 ["pkg/etx/expr.go","pkg/etx/README.md"],[("one grammar level per precedence class","pkg/etx/expr.go")]))
L.append(p("P03","Literals keep their value",
 "Every number, string, heredoc and boolean literal is captured with exactly the value and text written in the source.",
 ["inputs"],"every literal","tests sample literals",
 ["pkg/etx/value.go","pkg/etx/lexer.go"],[("Capture methods and lexer states","pkg/etx/value.go, pkg/etx/lexer.go")]))
L.append(p("P04","Parent links and child lists describe the same complete tree",
 "In every parsed tree each node's children list names all its direct sub-nodes, and each of those has it as parent.",
 ["inputs"],"every valid document","tests check hand-built nodes one level deep",
 ["pkg/etx/ast.go","pkg/etx/parser.go","pkg/etx/expr.go"],[("Children methods, UpdateParentRefs","pkg/etx/*.go")]))
L.append(p("P05","Every documented construct is accepted and nothing else",
 "The parser accepts exactly the documents described by the language description, and reports the position of the first offending token otherwise.",
 ["inputs","programs"],"every text","tests sample constructs",
 ["pkg/etx/lexer.go","pkg/etx/README.md"],[("lexer rules and grammar tags","pkg/etx/lexer.go, pkg/etx/*.go")]))
L.append(p("P06","The command line tool runs its action and reports errors by its exit status",
 "Running the tool without arguments performs its action and exits with status 0; an error makes it exit with a non-zero status.",
 ["inputs"],"every command line","there is no test for the command",
 ["cmd/cli/main.go"],[("cli app with one action","cmd/cli/main.go main")]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch)
print(len(L))
