---------------------------- MODULE QueueFlashMC ----------------------------
EXTENDS QueueFlash
La1 == <<5>>       \* words of 4
La2 == <<5, 13>>
La3 == <<5, 13, 37>>
Lb2 == <<1, 9>>    \* words of 1 and 2
Lb1 == <<9>>
Lc2 == <<14, 30>>  \* words of 8
Ld2 == <<30, 62>>  \* words of 32

M1 == <<13>>
M2 == <<13, 37>>
N1 == <<37>>
Le1 == <<5>>
Lf1 == <<30>>
=============================================================================
