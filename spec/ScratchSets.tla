----------------------------- MODULE ScratchSets -----------------------------
\* Bounds for Scratch.tla
EXTENDS Scratch
R1 == <<1>>
R11 == <<1, 1>>
R21 == <<2, 1>>
R22 == <<2, 2>>
R111 == <<1, 1, 1>>
Messages == {<<"int32", "message">>, <<"string", "message">>}
Plain == {<<"int32", "bytes">>, <<"string", "string">>, <<"string", "int32">>, <<"int32", "int32">>}
OnePlain == {<<"string", "int32">>}
OneMessage == {<<"int32", "message">>}
Both == Messages \cup Plain
=============================================================================
