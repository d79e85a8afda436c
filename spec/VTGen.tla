------------------------------- MODULE VTGen -------------------------------
(* Emission of the histories TLC explores, for replay in the real code.     *)
EXTENDS Json, IOUtils, Sequences, Naturals, TLC
GenFile == IOEnv.VT_GEN
GenLen == atoi(IOEnv.VT_LEN)
EmitHist(h) == Serialize(ToJson(h) \o "\n", GenFile,
                 [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
