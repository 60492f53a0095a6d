----------------------------- MODULE Trace_C13 ------------------------------
EXTENDS C13, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
