------------------------------- MODULE MCPool -------------------------------
EXTENDS PoolImpl
ScriptA == << <<"s", "s", "w", "s", "w">> >>
ScriptB == << <<"s", "w">>, <<"s", "s", "w">> >>
ScriptC == << <<"w", "w", "s">>, <<"s", "w">> >>
ScriptD == << <<"s", "w">>, <<"s", "w">>, <<"w">> >>
ScriptE == << <<"s", "s", "w", "s", "s", "w">>, <<"s", "w", "s", "w">> >>
=============================================================================
