----------------------------- MODULE MCFssCount -----------------------------
EXTENDS FssCount
MCEmails == {<<>>, <<1>>, <<1, 2>>}
MCTexts == {<<1>>, <<2>>, <<1, 2>>}
=============================================================================
