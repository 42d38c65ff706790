------------------------------- MODULE MCGlare -------------------------------
(* Two users calling each other, and one user with two devices being called,   *)
(* or calling.                                                                 *)
EXTENDS MCNet
GlareDevices == {<<"p", 1>>, <<"q", 1>>}
GlarePlaces == {[c |-> 1, from |-> <<"p", 1>>, to |-> "q"], [c |-> 2, from |-> <<"q", 1>>, to |-> "p"]}
TiePlaces == {[c |-> 1, from |-> <<"p", 1>>, to |-> "q"], [c |-> 1, from |-> <<"q", 1>>, to |-> "p"]}
MultiDevices == {<<"p", 1>>, <<"q", 1>>, <<"q", 2>>}
MultiPlaces == {[c |-> 1, from |-> <<"p", 1>>, to |-> "q"]}
\* one of them calls as it is called
CrossPlaces == {[c |-> 1, from |-> <<"p", 1>>, to |-> "q"], [c |-> 2, from |-> <<"q", 2>>, to |-> "p"]}
CrossBack == {[c |-> 2, from |-> <<"p", 1>>, to |-> "q"], [c |-> 1, from |-> <<"q", 2>>, to |-> "p"]}
=============================================================================
