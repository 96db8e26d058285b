------------------------------- MODULE Pbf -------------------------------
(***************************************************************************)
(* PBF files: what they contain, how it is encoded, and how it is read.     *)
(*                                                                          *)
(* A file is a sequence of blobs. A data blob holds a block: a string       *)
(* table, the scale of its coordinates and time stamps, and groups of       *)
(* objects. `Enc*` is the encoding (PBF wire format as integers: delta      *)
(* coded columns, indices in the string table). The variables are the state *)
(* of a reader (stringpbf/arcpbf PBFReader) that works on the encoding      *)
(* only, one object at a time, with the accumulators of the real decoders.  *)
(* The properties say that it delivers what `Meaning` says the file holds.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Files            \* the set of (abstract) files to look at

None == -1                \* an optional value that is absent

VARIABLES
    file,                 \* the abstract file
    wire,                 \* its encoding: all the reader looks at
    bi,                   \* number of blobs taken from the source
    gi, oi,               \* group and object being decoded in the current block
    acc,                  \* accumulators of the group being decoded
    buf,                  \* decoded, not yet delivered
    out,                  \* delivered to the caller
    mode                  \* "idle": between calls; "decode": filling buf; "ended"

vars == <<file, wire, bi, gi, oi, acc, buf, out, mode>>

------------------------------------------------------------------------------
\* Abstract objects. All fields exist in all objects; those that do not apply are empty.
\*  t: "n" "w" "r"; tags: <<<<key, value>>, ..>> of strings (integers > 0); mem: <<<<type, id, role>>, ..>>
\*  ver ts cs uid user vis: None if absent; vis: 0 or 1; user and role: a string, 0 is the empty one.
NewObj(t, id) == [t |-> t, id |-> id, tags |-> <<>>, lat |-> 0, lon |-> 0, refs |-> <<>>, mem |-> <<>>,
                  ver |-> None, ts |-> None, cs |-> None, uid |-> None, user |-> None, vis |-> None]

NewBlob(k) == [k |-> k, c |-> "zlib", gran |-> 0, la |-> 0, lo |-> 0, dg |-> 0, st |-> <<1, 2, 3, 4>>, gr |-> <<>>]
NewGroup(k, objs) == [k |-> k, objs |-> objs]

\* 0 stands for "not written": the defaults of the format
Gran(b) == IF b.gran = 0 THEN 100 ELSE b.gran
DateGran(b) == IF b.dg = 0 THEN 1000 ELSE b.dg

------------------------------------------------------------------------------
\* What a file means: the objects it delivers. Positions in nanodegrees, times in milliseconds.
Deleted(o) == o.vis = 0
MeaningObj(b, o) ==
    [t |-> o.t, id |-> o.id, tags |-> o.tags, refs |-> o.refs, mem |-> o.mem,
     lat |-> IF o.t = "n" THEN b.la + Gran(b) * o.lat ELSE 0,
     lon |-> IF o.t = "n" THEN b.lo + Gran(b) * o.lon ELSE 0,
     ver |-> o.ver, cs |-> o.cs, uid |-> o.uid, user |-> o.user,
     hasts |-> o.ts # None, ts |-> IF o.ts = None THEN 0 ELSE o.ts * DateGran(b),
     del |-> Deleted(o)]

RECURSIVE FlattenMap(_, _)
FlattenMap(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o FlattenMap(F, Tail(s))

MeaningBlob(b) ==
    IF b.k # "data" THEN <<>>
    ELSE FlattenMap(LAMBDA g : [i \in 1..Len(g.objs) |-> MeaningObj(b, g.objs[i])], b.gr)
Meaning(f) == FlattenMap(MeaningBlob, f)

------------------------------------------------------------------------------
\* The encoding
Delta(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE s[i] - s[i - 1]]
Col(objs, F(_)) == [i \in 1..Len(objs) |-> F(objs[i])]
Idx(st, s) == IF s = 0 THEN 0 ELSE CHOOSE i \in 1..Len(st) : st[i] = s
IdxOpt(st, s) == IF s = None THEN None ELSE Idx(st, s)

\* A column of optional values is there for all objects of a dense group, or for none
Has(objs, F(_)) == objs # <<>> /\ F(objs[1]) # None
OptCol(objs, F(_), delta) == IF ~Has(objs, F) THEN <<>> ELSE IF delta THEN Delta(Col(objs, F)) ELSE Col(objs, F)
UniformGroup(g) == \A i, j \in 1..Len(g.objs) :
    LET a == g.objs[i] b == g.objs[j] IN
    /\ (a.ver = None) = (b.ver = None) /\ (a.ts = None) = (b.ts = None) /\ (a.cs = None) = (b.cs = None)
    /\ (a.uid = None) = (b.uid = None) /\ (a.user = None) = (b.user = None) /\ (a.vis = None) = (b.vis = None)

EncTags(st, tags) == FlattenMap(LAMBDA kv : <<Idx(st, kv[1]), Idx(st, kv[2])>>, tags)

EncDense(st, objs) ==
    [k |-> "dense", id |-> Delta(Col(objs, LAMBDA o : o.id)),
     lat |-> Delta(Col(objs, LAMBDA o : o.lat)), lon |-> Delta(Col(objs, LAMBDA o : o.lon)),
     \* the tags of all nodes, each closed by 0; left out if there are none at all
     kv |-> IF \A i \in 1..Len(objs) : objs[i].tags = <<>> THEN <<>>
            ELSE FlattenMap(LAMBDA o : EncTags(st, o.tags) \o <<0>>, objs),
     ver |-> OptCol(objs, LAMBDA o : o.ver, FALSE), ts |-> OptCol(objs, LAMBDA o : o.ts, TRUE),
     cs |-> OptCol(objs, LAMBDA o : o.cs, TRUE), uid |-> OptCol(objs, LAMBDA o : o.uid, TRUE),
     sid |-> OptCol(objs, LAMBDA o : IdxOpt(st, o.user), TRUE), vis |-> OptCol(objs, LAMBDA o : o.vis, FALSE)]

EncObj(st, o) ==
    [id |-> o.id, keys |-> [i \in 1..Len(o.tags) |-> Idx(st, o.tags[i][1])],
     vals |-> [i \in 1..Len(o.tags) |-> Idx(st, o.tags[i][2])],
     refs |-> Delta(o.refs),
     roles |-> [i \in 1..Len(o.mem) |-> Idx(st, o.mem[i][3])],
     memids |-> Delta([i \in 1..Len(o.mem) |-> o.mem[i][2]]),
     types |-> [i \in 1..Len(o.mem) |-> o.mem[i][1]],
     ver |-> o.ver, ts |-> o.ts, cs |-> o.cs, uid |-> o.uid, sid |-> IdxOpt(st, o.user), vis |-> o.vis]

EncGroup(st, g) ==
    CASE g.k = "dense" -> EncDense(st, g.objs)
      [] g.k \in {"ways", "relations"} -> [k |-> g.k, objs |-> [i \in 1..Len(g.objs) |-> EncObj(st, g.objs[i])]]
      [] OTHER -> [k |-> g.k]
EncBlob(b) == [k |-> b.k, c |-> b.c, gran |-> b.gran, la |-> b.la, lo |-> b.lo, dg |-> b.dg, st |-> b.st,
               gr |-> [i \in 1..Len(b.gr) |-> EncGroup(b.st, b.gr[i])]]
Enc(f) == [i \in 1..Len(f) |-> EncBlob(f[i])]

------------------------------------------------------------------------------
\* The reader: decoding one object
Acc0 == [id |-> 0, lat |-> 0, lon |-> 0, ts |-> 0, cs |-> 0, uid |-> 0, sid |-> 0, kv |-> 1]

Lookup(st, i) == IF i = 0 THEN 0 ELSE st[i]
At(col, i) == IF i <= Len(col) THEN col[i] ELSE None

\* the tags of the next dense node, and where they end
RECURSIVE DenseTags(_, _, _)
DenseTags(st, kv, i) ==
    IF i > Len(kv) THEN [tags |-> <<>>, next |-> i]
    ELSE IF kv[i] = 0 THEN [tags |-> <<>>, next |-> i + 1]
    ELSE LET rest == DenseTags(st, kv, i + 2)
         IN [tags |-> <<<<Lookup(st, kv[i]), Lookup(st, kv[i + 1])>>>> \o rest.tags, next |-> rest.next]

RECURSIVE Sums(_, _)
Sums(from, s) == IF s = <<>> THEN <<>> ELSE <<from + Head(s)>> \o Sums(from + Head(s), Tail(s))

DenseOne(b, g, i) ==       \* <<object, accumulators>>
    LET tg == DenseTags(b.st, g.kv, acc.kv)
        a == [id |-> acc.id + g.id[i], lat |-> acc.lat + g.lat[i], lon |-> acc.lon + g.lon[i],
              ts |-> acc.ts + (IF i <= Len(g.ts) THEN g.ts[i] ELSE 0),
              cs |-> acc.cs + (IF i <= Len(g.cs) THEN g.cs[i] ELSE 0),
              uid |-> acc.uid + (IF i <= Len(g.uid) THEN g.uid[i] ELSE 0),
              sid |-> acc.sid + (IF i <= Len(g.sid) THEN g.sid[i] ELSE 0), kv |-> tg.next]
    IN <<[t |-> "n", id |-> a.id, tags |-> tg.tags, refs |-> <<>>, mem |-> <<>>,
          lat |-> b.la + Gran(b) * a.lat, lon |-> b.lo + Gran(b) * a.lon,
          ver |-> At(g.ver, i), cs |-> IF g.cs = <<>> THEN None ELSE a.cs,
          uid |-> IF g.uid = <<>> THEN None ELSE a.uid,
          user |-> IF g.sid = <<>> THEN None ELSE Lookup(b.st, a.sid),
          hasts |-> g.ts # <<>>, ts |-> IF g.ts = <<>> THEN 0 ELSE a.ts * DateGran(b),
          del |-> At(g.vis, i) = 0], a>>

PlainOne(b, g, i) ==
    LET w == g.objs[i]
        ids == Sums(0, w.memids)
    IN [t |-> IF g.k = "ways" THEN "w" ELSE "r", id |-> w.id,
        tags |-> [j \in 1..Len(w.keys) |-> <<Lookup(b.st, w.keys[j]), Lookup(b.st, w.vals[j])>>],
        refs |-> Sums(0, w.refs),
        mem |-> [j \in 1..Len(w.types) |-> <<w.types[j], ids[j], Lookup(b.st, w.roles[j])>>],
        lat |-> 0, lon |-> 0, ver |-> w.ver, cs |-> w.cs, uid |-> w.uid,
        user |-> IF w.sid = None THEN None ELSE Lookup(b.st, w.sid),
        hasts |-> w.ts # None, ts |-> IF w.ts = None THEN 0 ELSE w.ts * DateGran(b), del |-> w.vis = 0]

GroupSize(g) == CASE g.k = "dense" -> Len(g.id) [] g.k \in {"ways", "relations"} -> Len(g.objs) [] OTHER -> 0

------------------------------------------------------------------------------
Init == /\ file \in Files
        /\ wire = Enc(file)
        /\ bi = 0 /\ gi = 0 /\ oi = 0 /\ acc = Acc0 /\ buf = <<>> /\ out = <<>> /\ mode = "idle"

\* next() with an empty buffer: take the next blob. Only data blobs are decoded.
TakeBlob == /\ mode = "idle" /\ buf = <<>> /\ bi < Len(wire)
            /\ bi' = bi + 1
            /\ IF wire[bi'].k = "data" /\ wire[bi'].gr # <<>>
               THEN mode' = "decode" /\ gi' = 1 /\ oi' = 0 /\ acc' = Acc0
               ELSE UNCHANGED <<mode, gi, oi, acc>>
            /\ UNCHANGED <<file, wire, buf, out>>

DecodeObj == /\ mode = "decode"
             /\ LET b == wire[bi] g == b.gr[gi] IN
                /\ oi < GroupSize(g)
                /\ oi' = oi + 1
                /\ IF g.k = "dense"
                   THEN LET d == DenseOne(b, g, oi + 1) IN buf' = Append(buf, d[1]) /\ acc' = d[2]
                   ELSE buf' = Append(buf, PlainOne(b, g, oi + 1)) /\ UNCHANGED acc
             /\ UNCHANGED <<file, wire, bi, gi, out, mode>>

\* Nothing carries over from one group into the next
EndGroup == /\ mode = "decode" /\ oi = GroupSize(wire[bi].gr[gi])
            /\ acc' = Acc0 /\ oi' = 0
            /\ IF gi < Len(wire[bi].gr) THEN gi' = gi + 1 /\ UNCHANGED mode ELSE gi' = 0 /\ mode' = "idle"
            /\ UNCHANGED <<file, wire, bi, buf, out>>

Deliver == /\ mode = "idle" /\ buf # <<>>
           /\ out' = Append(out, Head(buf)) /\ buf' = Tail(buf)
           /\ UNCHANGED <<file, wire, bi, gi, oi, acc, mode>>

End == /\ mode = "idle" /\ buf = <<>> /\ bi = Len(wire)
       /\ mode' = "ended"
       /\ UNCHANGED <<file, wire, bi, gi, oi, acc, buf, out>>

Done == mode = "ended" /\ UNCHANGED vars

Next == TakeBlob \/ DecodeObj \/ EndGroup \/ Deliver \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
\* Properties
Taken == IF mode = "decode"
         THEN \* what the part of the current block that is decoded means
              LET b == file[bi]
                  done == FlattenMap(LAMBDA g : g, [i \in 1..(gi - 1) |-> b.gr[i].objs])
                          \o SubSeq(b.gr[gi].objs, 1, oi)
              IN Meaning(SubSeq(file, 1, bi - 1)) \o [i \in 1..Len(done) |-> MeaningObj(b, done[i])]
         ELSE Meaning(SubSeq(file, 1, bi))

\* P01 P02 P03 P04: delivered and waiting objects are those of what has been taken, in order, each once
Faithful == out \o buf = Taken
\* P01: the end is only reported when everything was delivered
Complete == mode = "ended" => out = Meaning(file)
\* P02: accumulators are zero between groups
NoCarry == mode = "idle" => acc = Acc0 /\ gi = 0 /\ oi = 0
\* P04
AllObjs == FlattenMap(LAMBDA b : IF b.k = "data" THEN FlattenMap(LAMBDA g : g.objs, b.gr) ELSE <<>>, file)
DeletedOnlyIfMarked == LET all == AllObjs IN \A i \in 1..Len(out) : out[i].del <=> Deleted(all[i])
WellFormedFile == \A i \in 1..Len(file) : \A j \in 1..Len(file[i].gr) :
    file[i].gr[j].k = "dense" => UniformGroup(file[i].gr[j])

\* P01: reading ends, and what has been delivered stays delivered
Ends == <>(mode = "ended")
Stays == [][IsPrefix(out, out') /\ (mode = "ended" => mode' = "ended" /\ out' = out)]_vars

\* One behaviour per file: its encoding, and what must be delivered
Emit == mode = "ended" => PrintT(ToJson([w |-> wire, x |-> out]))
=============================================================================
