----------------------------- MODULE Trace_C17 ------------------------------
EXTENDS C17, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
