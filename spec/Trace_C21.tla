----------------------------- MODULE Trace_C21 ------------------------------
EXTENDS C21, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
