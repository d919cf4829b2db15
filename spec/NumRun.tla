------------------------------- MODULE NumRun -------------------------------
EXTENDS NumText, TLC, Json
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES d, z
vars == <<d, z>>
Read(kind, bs) == NEof(NFeed(NInit(kind), bs, 1))
Init == d \in 1..Len(Corpus) /\ z = <<>>
Next == z = <<>> /\ z' = <<Read("s", Corpus[d]), Read("u", Corpus[d]), Read("r", Corpus[d])>> /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Show(s) == <<s.m, s.n, TextOf(s), Types(s)>>
Out == z # <<>> => PrintT(ToJson(<<"R", d, Show(z[1]), Show(z[2]), Show(z[3])>>))
Sane == z # <<>> => \A i \in 1..3 : NSane(z[i])
=============================================================================
