----------------------------- MODULE MapFlashMC -----------------------------
(* Instances of MapFlash for TLC: key and value lengths in bytes (the harness  *)
(* uses keys of 1 + k % 3 bytes).                                              *)
EXTENDS MapFlash
K1 == <<2>>
K2 == <<2, 3>>
Va1 == <<5>>       \* words of 4
Va2 == <<5, 13>>
Vb1 == <<1>>       \* words of 1 and 2
Vb2 == <<1, 9>>
Vc2 == <<14, 30>>  \* words of 8
Vd2 == <<30, 62>>  \* words of 32
Ve2 == <<1, 5>>
=============================================================================
