------------------------------ MODULE MCActor ------------------------------
EXTENDS ActorImpl
MCDelays == {-1, 0, 2}
=============================================================================
