--------------------------------- MODULE Dot ---------------------------------
(***************************************************************************)
(* Graph dumps.  The contexts of a program form a forest (a composite       *)
(* context has its members, a PMU its two pipelines, as children), and      *)
(* every channel leads from the context at its sending end to the one at    *)
(* its receiving end.  A dump walks the forest: it shows a context without  *)
(* children as a node and another as a cluster around its children, and     *)
(* each channel as an edge labelled with its capacity and latencies.        *)
(*                                                                         *)
(* MODE = "laws": the walk, over all forests and channels within bounds,    *)
(* shows everything exactly once.  MODE = "judge": dumps of programs before *)
(* and after their execution are compared with what the program has.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
BigUniverse == IOEnv.BIG = "1"
Runs == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.RUNS) ELSE <<>>

VARIABLES tid, parent, chans, todo, nodes, edges, err
vars == <<tid, parent, chans, todo, nodes, edges, err>>

------------------------------------------------------------------------------
(* The walk.  parent[x] = 0: a registered context *)
N == IF BigUniverse THEN 5 ELSE 4
Forests == {f \in [1 .. N -> 0 .. N] : \A x \in 1 .. N : f[x] < x}
Pairs == (1 .. N) \X (1 .. N)
Kids(f, x) == {y \in 1 .. N : f[y] = x}
Show == /\ todo # {}
        /\ \E x \in todo :
             /\ nodes' = Append(nodes, <<x, parent[x], Kids(parent, x) = {}>>)
             /\ todo' = (todo \ {x}) \cup Kids(parent, x)
        /\ UNCHANGED <<tid, parent, chans, edges, err>>
ShowEdge == /\ todo = {} /\ Len(edges) < Len(chans)
            /\ edges' = Append(edges, <<chans[Len(edges) + 1], Len(edges) + 1>>)
            /\ UNCHANGED <<tid, parent, chans, todo, nodes, err>>
Complete ==
  Mode = "laws" /\ todo = {} =>
    /\ Len(nodes) = N /\ ToSet(nodes) = {<<x, parent[x], Kids(parent, x) = {}>> : x \in 1 .. N}
ParentsFirst ==
  Mode = "laws" => \A i \in DOMAIN nodes : nodes[i][2] = 0 \/ \E j \in 1 .. (i - 1) : nodes[j][1] = nodes[i][2]

------------------------------------------------------------------------------
(* Dumps of the implementation: nodes <<context, parent, leaf, labelled with its own id>>, edges <<from, to, channel,
   capacity, latency, response latency>>; parts of a PMU x are 1000 x and something *)
P == Runs[tid]
Procs == DOMAIN P.procs
Tops == {P.procs[p].top : p \in Procs}
Everything == DOMAIN P.parent
RECURSIVE Root(_)
Root(x) == IF P.parent[x] = 0 THEN x ELSE Root(P.parent[x])
IsPmu(x) == x <= P.nctx /\ P.procs[x].k = "pmur"
Leaf(x) == x <= P.nctx /\ ~IsPmu(x)
\* what is shown of the registered contexts T, and the PMUs whose parts have numbers of their own
WantNodes(T) == {<<x, P.parent[x], Leaf(x), TRUE>> : x \in {y \in Everything : Root(y) \in T}}
Pmus(T) == {x \in Everything : IsPmu(x) /\ Root(x) \in T}
IsPart(n) == n[1] >= 1000
Count(s, n) == Cardinality({i \in DOMAIN s : s[i] = n})
NodeRule(d, T) ==
  LET ns == d.nodes whole == SelectSeq(ns, LAMBDA n : ~IsPart(n)) parts == SelectSeq(ns, IsPart)
  IN IF \E i \in DOMAIN ns : ~ns[i][4] THEN "dot-label"
     ELSE IF \E n \in WantNodes(T) : Count(whole, n) # 1 THEN "dot-node"
     ELSE IF ToSet(whole) # WantNodes(T) THEN "dot-extra-node"
     ELSE IF Cardinality({parts[i][1] : i \in DOMAIN parts}) # Len(parts) THEN "dot-part"
     ELSE IF \E i \in DOMAIN parts : parts[i][2] # parts[i][1] \div 1000 \/ ~parts[i][3] THEN "dot-part"
     ELSE IF \E i \in DOMAIN parts : parts[i][2] \notin Pmus(T) THEN "dot-part"
     ELSE IF \E x \in Pmus(T) : Cardinality({i \in DOMAIN parts : parts[i][2] = x}) # 2 THEN "dot-part"
     ELSE ""
\* the code of an edge's end stands for process p
Stands(code, p) == IF P.procs[p].k \in {"pmur", "pmuw"} THEN code >= 1000 /\ code \div 1000 = P.procs[p].own ELSE code = p
Real == {c \in DOMAIN P.chans : ~P.chans[c].void}
EdgesOf(d, c) == {i \in DOMAIN d.edges : d.edges[i][3] = c}
\* the parts of a PMU at the ends of edges: <<code, process>>
Ends(d) == {<<d.edges[i][1], P.chans[d.edges[i][3]].snd>> : i \in DOMAIN d.edges}
             \cup {<<d.edges[i][2], P.chans[d.edges[i][3]].rcv>> : i \in DOMAIN d.edges}
EdgeRule(d) ==
  IF \E i \in DOMAIN d.edges : d.edges[i][3] \notin Real THEN "dot-extra-edge"
  ELSE IF \E c \in Real : Cardinality(EdgesOf(d, c)) # 1 THEN "dot-edge"
  ELSE IF \E i \in DOMAIN d.edges : LET e == d.edges[i] c == P.chans[e[3]] IN ~Stands(e[1], c.snd) \/ ~Stands(e[2], c.rcv)
       THEN "dot-ends"
  ELSE IF \E a, b \in Ends(d) : (a[1] = b[1]) # (a[2] = b[2]) THEN "dot-ends"
  ELSE IF \E i \in DOMAIN d.edges :
            LET e == d.edges[i] c == P.chans[e[3]] IN e[4] # c.cap \/ e[5] # c.lat \/ e[6] # c.rlat
       THEN "dot-spec"
  ELSE ""
First(s) == LET n == SelectSeq(s, LAMBDA r : r # "") IN IF n = <<>> THEN "" ELSE n[1]
Rule ==
  IF P.out # "done" THEN ""
  ELSE First(<<NodeRule(P.x.before, Tops), EdgeRule(P.x.before),
               NodeRule(P.x.after, Tops \ ToSet(P.fails)), EdgeRule(P.x.after)>>)
Judge ==
  /\ todo = {0} /\ todo' = {} /\ err' = Rule
  /\ (IF err' = "" THEN PrintT(<<"ACCEPT", tid>>) ELSE PrintT(<<"REJECT", tid, err', 0, 0>>))
  /\ UNCHANGED <<tid, parent, chans, nodes, edges>>

Init ==
  /\ nodes = <<>> /\ edges = <<>> /\ err = ""
  /\ IF Mode = "judge" THEN tid \in 1 .. Len(Runs) /\ parent = <<>> /\ chans = <<>> /\ todo = {0}
     ELSE /\ tid = 0 /\ parent \in Forests /\ chans \in {<<p>> : p \in Pairs} \cup {<<p, p>> : p \in Pairs}
          /\ todo = Kids(parent, 0)
Next == IF Mode = "judge" THEN Judge ELSE Show \/ ShowEdge
Spec == Init /\ [][Next]_vars
==============================================================================
