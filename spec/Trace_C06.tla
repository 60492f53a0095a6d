----------------------------- MODULE Trace_C06 ------------------------------
EXTENDS C06, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
