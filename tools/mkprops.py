#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="c/graphLib/"
EX="The existing tests enumerate the geng representatives of all graphs with 5..10 vertices (one labelling and edge order each, judged by the library's own integrity checker) plus three sample files"
# ---------------- embedding algorithms
p("E01","Planar graphs get a correct planar embedding",
 "For every simple undirected graph that is planar, embedding it with the planar flag returns OK and leaves the same labelled graph, with the adjacency lists forming a rotation system whose faces satisfy Euler's formula in every connected component. A non-planar graph is never reported as planar.",
 ["inputs"],"every simple graph of any size, labelling, edge insertion order, density up to complete, connected or not",
 EX+"; larger graphs, other labellings, deep DFS trees, many bicomps and cut vertices are never reached.",
 [L+"planarityRelated/graphEmbed.c",L+"graphDFSUtils.c",L+"graphUtils.c"],
 [("edge addition: Walkup/Walkdown/bicomp merge and flip, orientation and joining in post-processing",L+"planarityRelated/graphEmbed.c")],
 ["gp_Embed return value and the adjacency lists left in the graph, after gp_SortVertices"])
p("E02","Non-planar graphs get a Kuratowski subgraph",
 "For every simple undirected graph that is not planar, embedding it with the planar flag returns NONEMBEDDABLE and leaves a subgraph of the input (same vertex labels, only input edges) that is exactly a subdivision of K5 or of K3,3 with no other edges. A planar graph is never reported as non-planar.",
 ["inputs"],"every simple non-planar graph, with obstructions of any size, position and type, and any surrounding planar structure",
 EX+"; obstructions with long paths, far from the DFS root, or spanning many bicomps are out of reach at 10 vertices.",
 [L+"planarityRelated/graphNonplanar.c",L+"planarityRelated/graphIsolator.c",L+"planarityRelated/graphEmbed.c"],
 [("minor type choice and isolation of the obstruction",L+"planarityRelated/graphNonplanar.c"),("edge marking and deletion of unmarked edges",L+"planarityRelated/graphIsolator.c")],
 ["gp_Embed return value and remaining edges"])
p("E03","Outerplanar graphs get a correct outerplanar embedding",
 "For every simple undirected outerplanar graph, embedding with the outerplanar flag returns OK and leaves the same labelled graph with a planar rotation system in which, for each connected component, one face contains every vertex of that component. A graph that is not outerplanar is never reported as outerplanar.",
 ["inputs"],"every simple graph, outerplanar ones of any size and block structure included",
 EX+"; large block trees, long cycles with many chords and many components are not reached.",
 [L+"planarityRelated/graphEmbed.c"],[("Walkup/Walkdown with the externality rule of outerplanarity",L+"planarityRelated/graphEmbed.c")],
 ["gp_Embed(OUTERPLANAR) return value and adjacency lists"])
p("E04","Non-outerplanar graphs get a K4 or K2,3 obstruction",
 "For every simple undirected graph that is not outerplanar, embedding with the outerplanar flag returns NONEMBEDDABLE and leaves a subgraph of the input that is exactly a subdivision of K4 or of K2,3. An outerplanar graph never gets this result.",
 ["inputs"],"every simple non-outerplanar graph, any size and position of the obstruction",
 EX+"; obstructions with long paths or in graphs with many blocks are not reached.",
 [L+"planarityRelated/graphOuterplanarObstruction.c",L+"planarityRelated/graphIsolator.c"],
 [("outerplanar obstruction isolation",L+"planarityRelated/graphOuterplanarObstruction.c")],["gp_Embed(OUTERPLANAR) return value and remaining edges"])
p("E05","K2,3 search is exact",
 "Searching any simple graph for a K2,3 homeomorph returns NONEMBEDDABLE exactly when the graph has a subgraph homeomorphic to K2,3, leaving exactly such a subgraph of the input, and returns OK exactly when it has none. The input labelling is preserved in the reported subgraph.",
 ["inputs"],"every simple graph, with any mix of outerplanar blocks, K4 blocks and other blocks",
 EX+"; long chains of K4 blocks and outerplanar blocks before the only K2,3 need more than 10 vertices.",
 [L+"homeomorphSearch/graphK23Search.c",L+"homeomorphSearch/graphK23Search_Extensions.c"],
 [("continuation of the search past separable K4s",L+"homeomorphSearch/graphK23Search.c")],["gp_Embed(SEARCHFORK23) result and remaining edges"])
p("E06","K3,3 search is exact",
 "Searching any simple graph for a K3,3 homeomorph returns NONEMBEDDABLE exactly when the graph has a subgraph homeomorphic to K3,3, leaving exactly such a subgraph of the input, and returns OK exactly when it has none. This includes graphs whose non-planarity comes only from K5 subdivisions separable by 2-cuts.",
 ["inputs"],"every simple graph, with K5 pieces, planar pieces and K3,3 pieces glued at vertices and vertex pairs",
 EX+"; two K5 pieces glued at a pair already need 8 vertices, so reductions of several K5s followed by a K3,3 are barely reached.",
 [L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK33Search_Extensions.c"],
 [("extra K3,3 tests on a K5 minor, bicomp reduction to a 4-cycle/edge and path restoration",L+"homeomorphSearch/graphK33Search.c")],["gp_Embed(SEARCHFORK33) result and remaining edges"])
p("E07","K4 search is exact",
 "Searching any simple graph for a K4 homeomorph returns NONEMBEDDABLE exactly when the graph has a subgraph homeomorphic to K4 (it is not series-parallel), leaving exactly such a subgraph of the input, and returns OK exactly when it has none.",
 ["inputs"],"every simple graph, in particular large series-parallel graphs with or without one K4 piece",
 EX+"; the bicomp reductions needed on large series-parallel graphs do not occur at 10 vertices in number.",
 [L+"homeomorphSearch/graphK4Search.c",L+"homeomorphSearch/graphK4Search_Extensions.c"],
 [("reduction of 2-cut separable parts to edges, and restoration of reduced paths",L+"homeomorphSearch/graphK4Search.c")],["gp_Embed(SEARCHFORK4) result and remaining edges"])
p("E08","Planar drawing is a valid visibility representation",
 "For every planar graph (from which no edge was deleted, which drawing does not support), embedding with the draw-planar flag returns OK with a valid planar embedding plus coordinates in which every vertex has its own row, every edge its own column, each edge spans exactly the rows of its two endpoints, each vertex's horizontal range covers the columns of all its edges, and no edge crosses a vertex that is not its endpoint. For non-planar graphs the result is NONEMBEDDABLE.",
 ["inputs"],"every simple planar graph, connected or not, with isolated vertices, any labelling",
 EX+", and two drawing samples; tie-breaking over deep chains of merged bicomps is not reached.",
 [L+"planarityRelated/graphDrawPlanar.c",L+"planarityRelated/graphDrawPlanar_Extensions.c"],
 [("tie marking and breaking during embedding; vertex order, edge order and ranges in post-processing",L+"planarityRelated/graphDrawPlanar.c")],
 ["the <DrawPlanar> section written after the adjacency list"])
p("E09","The ASCII rendition shows exactly the embedded graph",
 "The text rendition of a drawing, of a graph with at least one edge, produced to a string or to a file, has two lines per vertex of one character per edge column, shows each vertex as a horizontal run with its label (0-based or 1-based as the graph's input was) and each edge as a vertical line between the two vertices it joins, so the labelled graph can be recovered from it. String and file renditions are identical, and rendering changes nothing.",
 ["inputs"],"every planar graph that was embedded with the drawing extension, with labels of one or more digits, 0-based and 1-based",
 "Two exemplar renditions with single-digit labels; the exhaustive tests never render.",
 [L+"planarityRelated/graphDrawPlanar.c"],[("rendering loops",L+"planarityRelated/graphDrawPlanar.c")],["gp_DrawPlanar_RenderToString / RenderToFile output"])
p("E10","Results do not depend on presentation or history",
 "The verdict of every algorithm is the same for every relabelling of the vertices, order and direction in which edges are inserted, way in which the graph was supplied (edge calls, any supported file format, copy, dup), presence of attached but unused extensions, spare capacity, prior DFS sorting (undone before embedding) or prior use of the same graph object. Repeating a run on an equal graph object gives an identical result.",
 ["inputs","histories","configurations"],"all graphs, all pairs of presentations of the same abstract graph, all six algorithms",
 "Each abstract graph is tested in one presentation only, in a fresh or reinitialised object of the same order.",
 [L+"planarityRelated/graphEmbed.c",L+"graphDFSUtils.c",L+"graphUtils.c",L+"extensionSystem/graphExtensions.c"],
 [("initialisation of all per-run state",L+"planarityRelated/graphEmbed.c")],["gp_Embed return value and remaining graph"])
p("E11","Verdicts respect graph operations",
 "Deleting or contracting an edge of a planar, outerplanar, K4-free or K3,3-free graph keeps the verdict; subdividing edges keeps the verdict (for outerplanarity and K2,3 it may only turn OK into NONEMBEDDABLE); adding isolated or pendant vertices, gluing at a vertex and disjoint union change the verdict only as the definition says (union is free exactly when both parts are). Re-running an algorithm other than drawing on the obstruction it returned again gives NONEMBEDDABLE with that same subgraph, and removing any one of its edges makes it embeddable (except for a properly subdivided K4, which contains a K2,3, found by the outerplanarity algorithm).",
 ["inputs"],"all graphs and all single graph operations, all algorithms",
 "No test relates the verdicts of two different graphs except edge deletion on graphs up to 8 vertices for three of the algorithms.",
 [L+"planarityRelated/graphEmbed.c",L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK4Search.c",L+"homeomorphSearch/graphK23Search.c"],
 [("exactness of each algorithm",L+"planarityRelated/graphEmbed.c")],["gp_Embed return values"])
p("E12","The integrity checker accepts right results and rejects wrong ones",
 "The result checker returns the embed result unchanged for every genuine result of every algorithm, and returns NOTOK when the result graph was altered so that it is no longer a valid embedding of the original (a missing edge, an edge not in the original, a non-planar rotation, an inner vertex in an outerplanar embedding, drawing coordinates that no longer form a visibility representation) or no longer exactly a valid obstruction contained in the original. Checking leaves both graphs as they were.",
 ["inputs"],"all graphs, all algorithms, and all single alterations that an independent oracle confirms to break validity",
 "The tests call the checker only on genuine results and expect success; no test shows it rejects anything.",
 [L+"planarityRelated/graphTests.c"],[("subgraph tests, facial walk and Euler count, homeomorph recognition",L+"planarityRelated/graphTests.c")],["gp_TestEmbedResultIntegrity return value"])
p("E13","DFS numbering, sorting, lowpoints and least ancestors are right",
 "After creating the DFS tree every vertex has the parent, and every edge the type, of a genuine depth-first search forest; sorting by DFS index renames vertices to DFS order while keeping the original number of each vertex, and sorting again restores exactly the original numbering and adjacency orders. Least ancestor and lowpoint of each vertex equal their textbook values.",
 ["inputs"],"all simple graphs, in either vertex order state, and any number of repeated sorts",
 "No test looks at DFS data; a wrong lowpoint usually shows only through a wrong verdict on a larger graph.",
 [L+"graphDFSUtils.c"],[("gp_CreateDFSTree, gp_SortVertices, gp_LowpointAndLeastAncestor",L+"graphDFSUtils.c")],["vertex parent/index/lowpoint/leastAncestor accessors and edge types"])
p("E14","Embedding work stays linear in graph size",
 "For planar embedding, outerplanar embedding, drawing and the K2,3, K4 and K3,3 searches, the work done on graphs of N vertices with O(N) edges grows proportionally to N. In particular no family of graphs (long paths and cycles, stars, deep DFS trees, stacked triangulations, many blocks, subdivided obstructions) makes it quadratic.",
 ["inputs"],"all graph families and sizes (measured as executed instrumented branches, not time)",
 "Tests never go beyond 10 vertices in the exhaustive part and do not measure work.",
 [L+"planarityRelated/graphEmbed.c",L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK4Search.c",L+"planarityRelated/graphDrawPlanar.c"],
 [("external face short-circuiting, bucket sorts, lazy flips",L+"planarityRelated/graphEmbed.c")],["executed basic-block edge counts of the instrumented library"])
# ---------------- graph data structure
p("G01","Edge insertion, deletion and queries follow a simple graph model",
 "After any sequence of valid edge additions (plain, positioned, dynamic) and deletions, the neighbour lists of every vertex, in order, the edge count, the adjacency tests, edge lookups and degrees are exactly those of a model holding an ordered neighbour list per vertex, and each list reads the same backward. Additions beyond the arc capacity are refused with NONEMBEDDABLE and change nothing.",
 ["histories"],"all sequences of edge operations on graphs of any order, with edge slots freed and reused",
 "Tests only build graphs by reading them and delete single edges; sequences of insertions at both ends, positioned insertions and reuse of freed slots are not exercised.",
 [L+"graphUtils.c",L+"graphStructures.h"],[("gp_AddEdge/gp_InsertEdge/gp_DeleteEdge with the edge hole stack",L+"graphUtils.c")],["gp_GetFirstArc/NextArc/Neighbor traversal, gp_IsNeighbor, gp_GetNeighborEdgeRecord, degree queries"],
 [("edgeHoles","stack of freed edge slots",L+"graphStructures.h")])
p("G02","Arc capacity grows on demand without losing anything",
 "Ensuring a larger even arc capacity, directly or through dynamic edge addition at any starting capacity, keeps every edge and every adjacency order, reports at least the requested capacity, and allows that many edges; a simple graph on N vertices can always be built up to all N(N-1)/2 edges with dynamic addition. Requests that are not positive and even are refused without effect.",
 ["histories"],"all orders, starting capacities and growth histories, with and without freed edge slots",
 "Growth happens in the tests only while reading files whose graphs exceed 3N edges, from one starting capacity.",
 [L+"graphUtils.c"],[("_EnsureArcCapacity, gp_DynamicAddEdge",L+"graphUtils.c")],["gp_GetArcCapacity, gp_AddEdge results, traversal"])
p("G03","Hide, contract and identify operations are undone exactly",
 "Hiding an edge or a vertex removes exactly those edges from all traversals; restoring hidden edges in reverse order, or restoring vertices after hiding vertices, contracting edges and identifying vertex pairs, gives back exactly the graph with the same ordered neighbour lists as before. Between, the graph is the one graph theory says: the contracted or merged vertex has the union of the neighbours without duplicates or self-loops.",
 ["histories"],"all nested sequences of hide/contract/identify operations followed by restoration",
 "No existing test calls any of these operations directly; they are library API used by other applications.",
 [L+"graphUtils.c"],[("hidden edge stack and stack-bottom markers",L+"graphUtils.c")],["adjacency traversal before, between and after"],
 [("theStack","records of hidden edges and identified vertices",L+"graphStructures.h")])
p("G04","Copies and duplicates are exact and independent",
 "Duplicating or copying a graph, in any state including after embedding and with extensions attached, yields a graph with identical edges, adjacency orders, vertex numbering, flags and extension data; later operations on either, including embedding, further copying, extension removal and freeing, never change or break the other. Copying adjacency lists copies exactly the edges.",
 ["histories"],"all graphs, all states, all subsequent histories on either object",
 "Tests copy graphs only to compare them right afterwards, and free both in one order.",
 [L+"graphUtils.c",L+"extensionSystem/graphExtensions.c"],[("gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists, gp_CopyExtensions",L+"graphUtils.c")],["written graphs, embed results on both objects"])
p("G05","Reinitialised or reused graph objects behave like new ones",
 "After any history of reading, editing, embedding and extension use, reinitialising a graph object makes it an empty graph of the same order, and every later operation on it gives exactly the result a newly created object with the same extensions would give. Reusing one object for many graphs therefore never changes any result.",
 ["histories"],"all histories of operations followed by reinitialisation and further operations",
 "The exhaustive tests do reuse one object, but only along read-embed cycles of one algorithm.",
 [L+"graphUtils.c",L+"planarityRelated/graphDrawPlanar_Extensions.c",L+"homeomorphSearch/graphK33Search_Extensions.c",L+"homeomorphSearch/graphK4Search_Extensions.c"],
 [("gp_ReinitializeGraph and its overloads",L+"graphUtils.c")],["results compared with a fresh object"])
p("G06","Extensions can be attached and detached in any order",
 "Attaching an extension twice has no further effect; attaching and detaching the four extensions in any order and number leaves a graph on which exactly the attached ones are active, the others are gone, and all algorithms whose extensions are attached, as well as the core ones, give correct results. Detaching a known extension that is not attached succeeds and changes nothing, and each attached extension can be found by its identifier until it is removed.",
 ["histories"],"all sequences of attach, detach, duplicate, reinitialise and embed with all extensions",
 "Tests attach exactly one extension to a fresh graph and never detach.",
 [L+"extensionSystem/graphExtensions.c"],[("function overload chains and their fix-up on removal",L+"extensionSystem/graphExtensions.c")],["embed results, gp_FindExtension/gp_GetExtension"])
p("G07","Invalid arguments are refused without effect",
 "Graph operations called with null graphs, out-of-range vertices or otherwise invalid arguments that the interface documents as errors return NOTOK (or zero/NULL), never crash, and leave the graph unchanged; freeing null or already freed graph pointers is harmless.",
 ["inputs"],"all public operations and all invalid argument positions",
 "No test passes an invalid argument to the library.",
 [L+"graphUtils.c",L+"io/graphIO.c",L+"planarityRelated/graphEmbed.c"],[("argument checks at the head of each public function",L+"graphUtils.c")],["return values and unchanged graph"])
p("G08","Low-level containers behave like their abstract models",
 "The integer stack, the list collection, the string buffer and the string-or-file stream behave, for every sequence of operations allowed by their interface, like a stack with bounded capacity, a set of disjoint circular ordered lists, a growing string with a read position, and a character stream with one-position unget, in string and in file mode alike.",
 ["histories"],"all operation sequences and sizes",
 "Containers are exercised only through the algorithms, at small sizes.",
 [L+"lowLevelUtils/stack.c",L+"lowLevelUtils/listcoll.c",L+"io/strbuf.c",L+"io/strOrFile.c"],[("container implementations",L+"lowLevelUtils/listcoll.c")],["container accessors"])
# ---------------- I/O
p("F01","Adjacency list format round-trips exactly",
 "Writing any graph (including embeddings, digraphs with one-way arcs, 0-based or 1-based) in adjacency list format and reading it back gives the same order, edges, arc directions, index base and adjacency order, and a second write is byte-identical. File and string forms have the same bytes and read the same.",
 ["inputs"],"all graphs, orders, directions, densities, index bases",
 "A handful of sample files are read and compared with exemplars.",
 [L+"io/graphIO.c",L+"io/strbuf.c"],[("_ReadAdjList/_WriteAdjList",L+"io/graphIO.c")],["gp_Write/gp_WriteToString/gp_Read/gp_ReadFromString"])
p("F02","Adjacency matrix format round-trips exactly",
 "Writing any undirected graph as an adjacency matrix produces the upper-triangular 0/1 matrix of exactly its edges, and reading it back, from a file or from a string, gives the same labelled graph; reading any well-formed matrix text gives the graph it denotes.",
 ["inputs"],"all undirected graphs and well-formed upper-triangular matrix texts",
 "Matrix output is compared for three samples; no test reads a matrix.",
 [L+"io/graphIO.c"],[("_ReadAdjMatrix/_WriteAdjMatrix",L+"io/graphIO.c")],["gp_Write/gp_WriteToString/gp_Read/gp_ReadFromString"])
p("F03","g6 encoding and decoding agree with the format definition",
 "Writing any simple undirected graph as g6 produces exactly the bytes the published graph6 definition prescribes for that labelled graph, to a file or to a string, and reading any valid graph6 line, with or without the header, gives exactly the graph it denotes. Orders of every length class the library supports are covered.",
 ["inputs"],"all simple graphs of 1 up to hundreds of vertices, and all valid graph6 lines",
 "Only geng output of orders 5..10 and three samples are read, and two samples are written; orders above 62 are never used.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c",L+"io/g6-api-utilities.c"],[("_decodeGraph, _encodeAdjMatAsG6",L+"io/g6-read-iterator.c")],["gp_Write/gp_Read with g6, iterators"])
p("F04","g6 iterators process whole multi-graph files",
 "Reading a g6 file or string of any number of graphs of the same order through the read iterator delivers exactly those graphs in order, then reports the end, with the right running count; writing any sequence of graphs through the write iterator yields a g6 file or string that the read iterator reads back as the same sequence, with the right written count.",
 ["inputs","histories"],"all sequences of same-order graphs, to and from files and strings, with and without header",
 "Reading is exercised with geng files of orders 5..10; multi-graph writing is never exercised.",
 [L+"io/g6-read-iterator.c",L+"io/g6-write-iterator.c"],[("iterator state machines",L+"io/g6-read-iterator.c")],["iterator API results"])
p("F05","Every supported input format is recognised and denotes the same graph",
 "The same abstract graph written in adjacency list (0- or 1-based), adjacency matrix, LEDA or g6 format is recognised automatically when read, and gives the same labelled edge set; a chain of transformations through any of the writable formats preserves it. Optional g6 headers and ordinary whitespace variations do not matter.",
 ["inputs"],"all simple graphs and all formats and conversion chains",
 "LEDA reading and matrix reading are never tested, and conversions only on three samples.",
 [L+"io/graphIO.c"],[("format detection in gp_Read",L+"io/graphIO.c")],["gp_Read, gp_ReadFromString, gp_Write, gp_WriteToString"])
p("F06","Arbitrary input bytes never break memory safety or leak",
 "Reading any byte sequence as a graph file or graph string, directly or through the g6 read iterator, terminates with a defined result, never accesses memory out of bounds or uninitialised, leaks nothing once the graph is freed, and when it reports success leaves a well-formed graph that can be embedded, written and freed.",
 ["inputs"],"all byte strings, notably mutations and truncations of valid files in all formats",
 "Tests read only well-formed inputs.",
 [L+"io/graphIO.c",L+"io/g6-read-iterator.c",L+"io/strbuf.c",L+"io/strOrFile.c"],[("input validation in the readers",L+"io/graphIO.c")],["sanitizers, allocation ledger, structural validation of the graph read"])
p("F07","Malformed input is reported, not silently accepted",
 "Input that violates its format is answered with an error result: g6 lines with invalid characters, wrong length for their order, unsupported order prefix or damaged header, adjacency lists with missing lines, wrong vertex numbers or out-of-range neighbours, matrices with too few or non-numeric entries. A truncated file is never read successfully as if it were complete.",
 ["inputs"],"all single corruptions of valid inputs that an independent parser classifies as malformed",
 "Tests read only well-formed inputs.",
 [L+"io/graphIO.c",L+"io/g6-read-iterator.c"],[("validation in readers and propagation of their result codes",L+"io/g6-read-iterator.c")],["gp_Read/gp_ReadFromString/iterator return values"])
p("F08","Drawings survive writing and reading",
 "Writing a graph embedded with the drawing extension and reading the text into a graph with that extension attached restores the embedding and the drawing coordinates of every vertex and edge, so that rendering it gives identical text and every further generation of writing and reading gives identical text; a graph without the extension reads the same file as the plain embedding. This holds for files and strings, 0- and 1-based.",
 ["inputs"],"all planar graphs drawn by the library",
 "No test reads a drawing back.",
 [L+"io/graphIO.c",L+"planarityRelated/graphDrawPlanar_Extensions.c"],[("read and write post-processing of extra data",L+"planarityRelated/graphDrawPlanar_Extensions.c")],["gp_WriteToString/gp_ReadFromString, rendition"])
# ---------------- random generation
p("R01","Random graphs with a given edge count are as specified",
 "Asking for a random graph with a given number of edges yields a simple connected graph (when the number allows it) with exactly that many edges; up to 3N-6 edges the graph is planar, at 3N-6 it is maximal planar, and with more edges it contains a maximal planar spanning subgraph. This holds for every order, edge count up to complete, and random seed.",
 ["inputs"],"all orders, edge counts 0..N(N-1)/2, and seeds of the C random number generator",
 "Random generation is not part of the automated tests.",
 [L+"graphUtils.c"],[("gp_CreateRandomGraphEx",L+"graphUtils.c")],["the generated graph"])
p("R02","Random graphs are simple, connected and usable",
 "The default random graph generator yields, for every order and seed, a simple connected graph with between N-1 edges and the capacity limit, and the generated graph is a well-formed graph object on which all algorithms work; the same seed gives the same graph.",
 ["inputs"],"all orders and seeds",
 "Random generation is not part of the automated tests.",
 [L+"graphUtils.c"],[("gp_CreateRandomGraph",L+"graphUtils.c")],["the generated graph"])
# ---------------- command line
p("L01","Specific-graph command reports and writes correct results",
 "The specific-graph command exits 0 or 1 exactly according to whether the input graph has the embedding (or lacks/has the searched homeomorph) and negative on error, and writes to the named output files the embedding, obstruction or homeomorph, or drawing it documents, each a correct certificate for the input in its original numbering. Quiet mode changes only messages; the legacy command form gives the same embedding.",
 ["inputs","configurations"],"all readable input graphs in all formats, all algorithm commands, with and without second output file and quiet mode",
 "Eight algorithm/sample combinations are compared with exemplars through an internal test path, not through the command line.",
 ["c/planarityApp/planaritySpecificGraph.c","c/planarityApp/planarityCommandLine.c"],[("SpecificGraph, callSpecificGraph, legacyCommandLine","c/planarityApp/planaritySpecificGraph.c")],["process exit code and output files"])
p("L02","Test-all command counts every graph correctly",
 "Running an algorithm over a g6 file writes a result line whose numbers of graphs, of embeddable and of non-embeddable ones are those of the file, with SUCCESS, for any number of graphs of any one order; a file containing a malformed line gives ERROR and a failing exit code.",
 ["inputs"],"all g6 files of graphs of one order, all algorithm commands",
 "The counts are checked for complete enumerations of orders 5..10, which exercise one order class and dense reuse only.",
 ["c/planarityApp/planarityTestAllGraphs.c"],[("TestAllGraphs","c/planarityApp/planarityTestAllGraphs.c")],["result file and exit code"])
p("L03","Transform command preserves the graph in every format",
 "Transforming a readable graph file to g6, adjacency list or adjacency matrix writes a file denoting exactly the same labelled graph and exits 0; unreadable input or an unknown format gives a failing exit code.",
 ["inputs"],"all graphs, all input formats and all three output formats",
 "Ten sample transformations are compared with exemplars through an internal test path.",
 ["c/planarityApp/planarityTransformGraph.c","c/planarityApp/planarityCommandLine.c"],[("TransformGraph","c/planarityApp/planarityTransformGraph.c")],["exit code and output file"])
p("L04","Random-graph commands produce what they announce",
 "The random maximal planar command writes a maximal planar graph and its embedding and exits 0; the random nonplanar command writes a maximal planar graph plus one edge and its Kuratowski subgraph; the random graphs command processes the requested number of graphs with the given algorithm without error, with statistics adding up to that number.",
 ["inputs"],"all sizes, numbers of graphs and algorithm commands, at any time (the seed is the clock)",
 "These commands are not part of the automated tests.",
 ["c/planarityApp/planarityRandomGraphs.c","c/planarityApp/planarityCommandLine.c"],[("RandomGraph, RandomGraphs","c/planarityApp/planarityRandomGraphs.c")],["exit code, output files, printed statistics"])
p("L05","The built-in self-test notices every wrong result file",
 "The self-test command succeeds on the shipped sample files in any directory they are placed in, and fails, naming the failure, whenever any of the exemplar files it compares with is missing or differs from the right one in anything but its line ends.",
 ["inputs","faults"],"all single alterations of every exemplar, default and named directory, quiet or not",
 "The test suite runs the self-test on the right samples only; nothing shows that it can fail.",
 ["c/planarityApp/planarityHelp.c","c/planarityApp/planarityCommandLine.c","c/planarityApp/planarityUtils.c"],[("runQuickRegressionTests, runSpecificGraphTests, TextFileMatchesString","c/planarityApp/planarityCommandLine.c")],["exit code and messages"])
p("L06","The menu does what the commands do",
 "Every operation chosen in the interactive menu has the same result files, console output and verdict as the command-line command with the same parameters, in any sequence of operations and modes; an invalid choice changes nothing; and the program ends with exit code 0 when asked to quit or when its standard input ends, wherever in the dialogue that happens.",
 ["inputs","histories"],"all scripts of menu operations and all points at which the input can end",
 "No test runs the menu.",
 ["c/planarityApp/planarityMenu.c","c/planarityApp/planarityUtils.c"],[("Menu, TransformGraphMenu, TestAllGraphsMenu, Reconfigure","c/planarityApp/planarityMenu.c")],["result files, console output, exit code"])
p("L07","Wrong command lines are refused",
 "A command line that lacks a parameter, names an unknown command, algorithm or format, an unreadable or malformed input, a name beyond the length limit or an output that cannot be written, gives a message and the error exit code (never that of success or of non-embeddability), and never crashes, hangs or writes anything but the files it was given as outputs.",
 ["inputs","faults"],"all commands and all kinds of single mistakes in their command lines",
 "The tests use only right command lines.",
 ["c/planarityApp/planarityCommandLine.c","c/planarityApp/planarityUtils.c"],[("commandLine, callRandomGraphs, callTestAllGraphs, callTransformGraph, callSpecificGraph","c/planarityApp/planarityCommandLine.c")],["exit code, messages, files of the working directory"])
# ---------------- faults
p("X01","Failed memory allocations are reported without damage",
 "If any single memory allocation fails during creating, initialising, reading, copying, extending, embedding, drawing or writing a graph, the operation reports failure (or succeeds without needing it), nothing crashes or is freed twice, and freeing the graph objects afterwards releases everything.",
 ["fault_sequences"],"every allocation point of every public operation, on all graphs",
 "No test injects allocation failures.",
 [L+"graphUtils.c",L+"io/graphIO.c",L+"extensionSystem/graphExtensions.c"],[("error paths after allocation",L+"graphUtils.c")],["return codes, sanitizers, allocation ledger"])
p("X02","Failed or short file operations are reported",
 "If opening, reading or writing a file fails at any point (missing or unwritable file, device full), the read, write, render or iterator operation reports failure, no graph data or memory is corrupted or leaked, no file stays open, and the same graph can be used and written elsewhere afterwards.",
 ["fault_sequences"],"every stream operation of every file-based function, failing once",
 "No test injects I/O failures.",
 [L+"io/graphIO.c",L+"io/strOrFile.c",L+"io/g6-write-iterator.c"],[("checks on stream results",L+"io/graphIO.c")],["return codes, allocation and stream ledger"])
p("X03","A full object life cycle leaves nothing behind",
 "Any sequence of public operations on any number of graph objects, iterators and returned strings, each finally released with its documented release call, has released every allocation and closed every file that the library made, and never touched memory outside them.",
 ["histories"],"all histories mixing creation, reading, editing, extensions, embedding, copying, writing and freeing",
 "Tests run without sanitizers or leak accounting.",
 [L+"graphUtils.c",L+"io/graphIO.c",L+"extensionSystem/graphExtensions.c"],[("gp_Free and the free functions of each module",L+"graphUtils.c")],["sanitizers, allocation and stream ledger"])
# ---------------- test support tools
TS="TestSupport/planaritytesting/"
p("T01","The test tools' graph class behaves like a graph",
 "In the Python test tools, a Graph built, copied and edited by any sequence of operations holds exactly the adjacency lists those operations describe: deep copies are equal and then independent, invalid vertices and malformed adjacency lists are refused with GraphError and change nothing, degree counts are right, and its text form is read by planarity as the same graph. The shared helpers accept and expand exactly the valid ranges, refuse duplicate keys and recognise the file formats planarity writes.",
 ["histories"],"all operation histories on graphs with 2..12 vertices; all malformed adjacency lists, ranges and key lists",
 "The Python tools have no tests.",
 [TS+"graph.py",TS+"planaritytesting_utils.py"],[("adjacency lists, validation, deep copy",TS+"graph.py"),("range parsing, file type detection",TS+"planaritytesting_utils.py")],["Graph's public methods, str(graph) given to planarity -x"])
p("T02","Comparing two .g6 files finds exactly their differences",
 "For any two .g6 files, the comparison tool writes exactly the encodings that occur more than once in each file with the numbers of the lines they are on, the encodings of each file that the other lacks, and the encodings of both files that first occur on different lines; a result file is written exactly when there is something to report.",
 ["inputs"],"all pairs of .g6 files with any repetition, order, overlap, header, blank lines and file names",
 "The Python tools have no tests.",
 [TS+"g6_diff_finder.py"],[("encoding tables and their differences",TS+"g6_diff_finder.py")],["files written to the results directories"])
p("T03","Edge deletion analysis exposes missed homeomorphs only",
 "For a .g6 file and a choice of K2,3, K3,3 or K4 search, edge deletion analysis reports no missed homeomorph when the search answers correctly; when the search wrongly answers that a graph has none, it counts and keeps the results of exactly the graphs that do contain the homeomorph (a graph that is nothing but a subdivision of K4 may go unreported).",
 ["inputs","fault_sequences"],"all small graphs with any of the obstructions, and any choice of graphs for which the search is made to fail",
 "The Python tools have no tests, and the search never fails on its own.",
 [TS+"edge_deletion_analysis.py",TS+"graph.py"],[("obstruction type by degree counts; re-examination after deleting each edge",TS+"edge_deletion_analysis.py")],["the returned count and the result directories kept"])
p("T04","Test tables report the verdicts of the graphs in the files",
 "Running all algorithms over one .g6 file per edge count with the orchestrator and tabulating the outputs gives, for every algorithm, one row per edge count whose numbers of graphs, OK and NONEMBEDDABLE verdicts are the true ones, rows flagged ERROR exactly for the files that cannot be read to the end, totals that are the sums of the rows, and output files whose name or contents do not fit are refused.",
 ["inputs"],"all sets of graph files of an order, plain, canonical or makeg, with or without unreadable graphs and edge deletion results",
 "The Python tools have no tests; the recorded tables are never recomputed by the tests.",
 [TS+"planarity_testAllGraphs_orchestrator.py",TS+"planarity_testAllGraphs_output_parsing.py",TS+"test_table_generator.py","c/planarityApp/planarityTestAllGraphs.c"],
 [("calls of planarity -t, parsing of its output, table layout and totals",TS+"test_table_generator.py")],["the table files"])
p("T05","The recorded result tables hold for every relabelling",
 "For every order from 5 to 7 and every algorithm, testing all graphs of that order, one per isomorphism class, gives for each number of edges the numbers of graphs, OK and NONEMBEDDABLE verdicts recorded in TestSupport/tables, however the vertices of the graphs are labelled and in whatever order they are listed.",
 ["inputs"],"all labellings and orders of the graphs of 5, 6 and 7 vertices",
 "The tests read one fixed file of representatives per order, with the labelling the generator chose.",
 ["TestSupport/tables","c/planarityApp/planarityTestAllGraphs.c",L+"planarityRelated/graphEmbed.c",L+"homeomorphSearch/graphK33Search.c",L+"homeomorphSearch/graphK4Search.c"],
 [("planarity -t and the algorithms it runs","c/planarityApp/planarityTestAllGraphs.c")],["the result line of planarity -t"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
