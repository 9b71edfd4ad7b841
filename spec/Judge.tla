------------------------------ MODULE Judge ------------------------------
(* The frame shared by the trace-checking machines: one behaviour per recorded
   case, ending in a verdict ("ok", a violated clause, or BAD for an illegal
   case).  The machine of each module walks stages kept in pc.              *)
EXTENDS Num, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Report(i, id, v) == PrintT("V|" \o ToString(i) \o "|" \o id \o "|" \o v)
==========================================================================
