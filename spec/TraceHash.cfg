INIT Init
NEXT Next
INVARIANT Accepted
INVARIANT PendingShort
