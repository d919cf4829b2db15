------------------------------ MODULE NodeRun ------------------------------
(* Long histories: requests are taken from a file, those that have no      *)
(* meaning where they come are passed over.                                *)
EXTENDS NodeVal
Corpus == ndJsonDeserialize("corpus.ndjson")
VARIABLES w, i
RInit == /\ w \in 1..Len(Corpus) /\ i = 1
         /\ regs = Inits[Corpus[w][1]] /\ hist = <<>>
RNext == /\ i <= Len(Corpus[w][2]) /\ i' = i + 1 /\ UNCHANGED w
         /\ LET o == Corpus[w][2][i]
            IN  IF o[1] \in Ops /\ Can(o, regs) /\ Small(Result(o, regs))
                THEN regs' = Result(o, regs) /\ hist' = Append(hist, i)
                ELSE UNCHANGED <<regs, hist>>
RSpec == RInit /\ [][RNext]_<<vars, w, i>>
RTypeOK == TypeOK
ROut == i <= Len(Corpus[w][2]) \/ PrintT(ToJson(<<"H", w, hist, regs>>))
=============================================================================
