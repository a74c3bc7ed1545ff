------------------------------- MODULE MCSink -------------------------------
EXTENDS Sink
TheItems == <<<<1>>, <<2, 3, 4>>, <<>>, <<5, 6>>, <<7, 8, 9, 10, 11>>, <<12>>>>
AllLimits == 0..13
=============================================================================
