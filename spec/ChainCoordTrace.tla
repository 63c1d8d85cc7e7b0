--------------------------- MODULE ChainCoordTrace ---------------------------
(* {"axis":1..3,"ev":[{"e":"build","cart":[..],"idx":[1-based],"chain":[..]},          *)
(*  {"e":"rechain","idx","chain","cart"},{"e":"move","d","chain","cart"}]}              *)
EXTENDS ChainCoord, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Ev == Traces[tr].ev
E  == Ev[l]
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ n = 0 /\ cart = <<>> /\ chain = <<>> /\ idx = <<>>
TNext == \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ tr' = tr
            /\ \/ E.e = "build"   /\ Build(E.d, E.idx)
               \/ E.e = "rechain" /\ Rechain(E.idx)
               \/ E.e = "move"    /\ Advance(E.d)
            /\ chain' = E.chain /\ cart' = E.cart
         \/ l > Len(Ev) /\ UNCHANGED <<cvars, tr, l>>
TSpec == TInit /\ [][TNext]_<<cvars, tr, l>>
=============================================================================
