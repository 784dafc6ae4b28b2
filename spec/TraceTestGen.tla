------------------------------ MODULE TraceTestGen ------------------------------
EXTENDS TraceCalls
T == INSTANCE TestGen WITH ops <- <<>>, cur <- <<>>, cases <- <<>>
JudgeGen(c) == T!JudgeT(c)
=============================================================================
