------------------------------ MODULE ServeMC ------------------------------
(* A small site.                                                               *)
EXTENDS Serve
MCPath == {<<"index.html">>, <<"d">>, <<"d", "index.html">>, <<"www", "index.html">>}
MCRoot == <<"out", "www">>
=============================================================================
