--------------------------- MODULE HostDeviceImpl ---------------------------
(* The two copies and the flag the owning array keeps (host copy h, device   *)
(* copy d, sync = "the host copy is current"), transcribed, refine the       *)
(* single contents of HostDevice: every read returns the logical value.      *)
(* OffsetSync = FALSE is set_offset as it was before the repair recorded in  *)
(* known-findings.txt; TLC finds the lost device write.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NA, Vals, OffsetSync
VARIABLES h, d, sync, log, got
vars == <<h, d, sync, log, got>>
A == 1..NA
Init == /\ h = [a \in A |-> <<0, 0>>] /\ d = h /\ sync = [a \in A |-> TRUE] /\ log = h /\ got = <<0, <<>>>>
Write(a, i, v) == /\ d' = [d EXCEPT ![a][i] = v] /\ sync' = [sync EXCEPT ![a] = FALSE]
                  /\ log' = [log EXCEPT ![a][i] = v] /\ UNCHANGED <<h, got>>
Host(a) == /\ h' = IF sync[a] THEN h ELSE [h EXCEPT ![a] = d[a]]
           /\ sync' = [sync EXCEPT ![a] = TRUE] /\ got' = <<a, h'[a]>> /\ UNCHANGED <<d, log>>
Dev(a) == /\ sync' = [sync EXCEPT ![a] = FALSE] /\ got' = <<a, d[a]>> /\ UNCHANGED <<h, d, log>>
Fill(a) == \E x, y \in Vals : /\ h' = [h EXCEPT ![a] = <<x, y>>] /\ d' = [d EXCEPT ![a] = <<x, y>>]
             /\ sync' = [sync EXCEPT ![a] = TRUE] /\ log' = [log EXCEPT ![a] = <<x, y>>] /\ UNCHANGED got
Offset(a, i, v) ==
  LET base == IF OffsetSync /\ ~sync[a] THEN d[a] ELSE h[a]
      nw == [base EXCEPT ![i] = v]
  IN  /\ h' = [h EXCEPT ![a] = nw] /\ d' = [d EXCEPT ![a] = nw]
      /\ sync' = IF OffsetSync THEN [sync EXCEPT ![a] = TRUE] ELSE sync
      /\ log' = [log EXCEPT ![a][i] = v] /\ UNCHANGED got
Copy(a, b) == /\ h' = [h EXCEPT ![b] = h[a]] /\ d' = [d EXCEPT ![b] = d[a]] /\ sync' = [sync EXCEPT ![b] = sync[a]]
              /\ log' = [log EXCEPT ![b] = log[a]] /\ UNCHANGED got
New(a) == /\ h' = [h EXCEPT ![a] = <<0, 0>>] /\ d' = [d EXCEPT ![a] = <<0, 0>>] /\ sync' = [sync EXCEPT ![a] = TRUE]
          /\ log' = [log EXCEPT ![a] = <<0, 0>>] /\ UNCHANGED got
Next == \E a \in A : \/ \E i \in 1..2, v \in Vals : Write(a, i, v) \/ Offset(a, i, v)
                     \/ Host(a) \/ Dev(a) \/ Fill(a) \/ New(a) \/ \E b \in A : Copy(a, b)
\* the value just read was the logical one (got is only changed by reads)
ReadLaw == [][got' # got => got'[2] = log[got'[1]]]_vars
Coherent == \A a \in A : d[a] = log[a] /\ (sync[a] => h[a] = log[a])
=============================================================================
