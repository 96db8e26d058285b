--------------------------- MODULE PbfStretch ---------------------------
(***************************************************************************)
(* Size. The files of PbfFocus are small; what the reader delivers does not *)
(* depend on how many objects, references, members, tags or strings there   *)
(* are: replacing each of them by a run of K in the file replaces it by a   *)
(* run of K in what is delivered. Checked here for small K, where TLC runs  *)
(* the reader on the stretched files themselves; the replay uses the same   *)
(* functions (compared with what is emitted here) with K in the thousands.  *)
(*  k.o: objects, k.r: references of a way, k.m: members, k.t: tags,        *)
(*  k.p: unused strings at the front of each table, k.f: the file, repeated *)
(***************************************************************************)
EXTENDS PbfFocus

CONSTANT Ks                \* the stretchings
VARIABLE base, k           \* the file that was stretched, and how
svars == <<vars, base, k>>

MaxOf(a, b) == IF a > b THEN a ELSE b
\* copy j (from 0) of a string. 0 is the empty string, whatever the copy.
Str(s, j) == IF s <= 0 THEN s ELSE s + 100 * j
Copies(q) == MaxOf(q.t, MaxOf(q.m, q.o))
Run(s, n, F(_, _)) == [i \in 1..(Len(s) * n) |-> F(s[(i - 1) \div n + 1], (i - 1) % n)]
Plus(v, j) == IF v = None THEN None ELSE v + (j % 3)

StretchTags(q, tags) == Run(tags, q.t, LAMBDA kv, j : <<Str(kv[1], j), Str(kv[2], j)>>)
StretchRefs(q, refs) == Run(refs, q.r, LAMBDA r, j : r * q.r + j)
StretchMem(q, mem) == Run(mem, q.m, LAMBDA m, j : <<m[1], m[2] * q.m + j, Str(m[3], j)>>)
\* the same for objects of a file and for those delivered
StretchObj(q, o, j) ==
    [o EXCEPT !.id = @ * q.o + j, !.tags = StretchTags(q, @), !.refs = StretchRefs(q, @), !.mem = StretchMem(q, @),
              !.cs = Plus(@, j), !.uid = Plus(@, j), !.user = Str(@, j)]
StretchObjs(q, os) == Run(os, q.o, LAMBDA o, j : StretchObj(q, o, j))
StretchTable(q, st) == [i \in 1..q.p |-> 99] \o Run(st, Copies(q), LAMBDA s, j : Str(s, j))
StretchBlob(q, b) ==
    [b EXCEPT !.st = StretchTable(q, @), !.gr = [i \in 1..Len(b.gr) |-> [b.gr[i] EXCEPT !.objs = StretchObjs(q, @)]]]
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
StretchFile(q, f) == Times([i \in 1..Len(f) |-> StretchBlob(q, f[i])], q.f)

SInit == /\ base \in Files /\ k \in Ks
         /\ file = StretchFile(k, base)
         /\ wire = Enc(file)
         /\ bi = 0 /\ gi = 0 /\ oi = 0 /\ acc = Acc0 /\ buf = <<>> /\ out = <<>> /\ mode = "idle"
SNext == Next /\ UNCHANGED <<base, k>>
SSpec == SInit /\ [][SNext]_svars

\* P01 P02: size does not matter
Uniform == mode = "ended" => out = Times(StretchObjs(k, Meaning(base)), k.f)
SEmit == mode = "ended" => PrintT(ToJson([f |-> base, x |-> Meaning(base), k |-> k, fk |-> file, xk |-> out]))

K(o, r, m, t, p, f) == [o |-> o, r |-> r, m |-> m, t |-> t, p |-> p, f |-> f]
SmallKs == {K(1, 1, 1, 1, 0, 1), K(3, 1, 1, 1, 0, 1), K(1, 3, 2, 1, 2, 1), K(1, 1, 1, 3, 1, 2), K(2, 2, 3, 2, 1, 1)}
\* a few of each of the families of PbfFocus, of all kinds of objects
StretchBases == CarryFiles \cup {f \in DeltaWays \cup DeltaRels : TRUE}
=============================================================================
