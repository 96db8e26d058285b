---------------------------- MODULE SourceDocs ----------------------------
(* Inputs for Source, small enough to have all their schedules looked at. *)
EXTENDS Source
Exact(r) == [mode |-> "exact", recs |-> r, tail |-> 0]
Buffered(r, t) == [mode |-> "buffered", recs |-> r, tail |-> t]
\* length, header, body; at least one blob falls into several pieces
Blobs == {Exact(<<>>), Exact(<<<<1, 1, 1>>>>), Exact(<<<<4, 1, 1>>>>), Exact(<<<<2, 2, 2>>>>), Exact(<<<<1, 1, 1>>, <<2, 1, 2>>>>), Exact(<<<<1, 2, 1>>, <<1, 1, 2>>>>)}
MoreBlobs == Blobs \cup {Exact(<<<<4, 3, 3>>>>), Exact(<<<<2, 2, 2>>, <<2, 2, 2>>>>), Exact(<<<<1, 1, 1>>, <<1, 1, 1>>, <<2, 1, 1>>>>)}
Elements == {Buffered(<<>>, 1), Buffered(<<<<3>>>>, 1), Buffered(<<<<1>>, <<2>>>>, 1), Buffered(<<<<2>>, <<2>>>>, 2)}
MoreElements == Elements \cup {Buffered(<<<<1>>, <<3>>, <<1>>>>, 1), Buffered(<<<<5>>>>, 2), Buffered(<<<<2>>, <<2>>, <<2>>>>, 1)}
Quick == Blobs \cup Elements
Thorough == MoreBlobs \cup MoreElements
=============================================================================
