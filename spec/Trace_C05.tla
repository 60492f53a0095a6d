----------------------------- MODULE Trace_C05 ------------------------------
EXTENDS C05, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
