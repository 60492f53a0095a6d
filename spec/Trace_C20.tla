----------------------------- MODULE Trace_C20 ------------------------------
EXTENDS C20, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
