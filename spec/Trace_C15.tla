----------------------------- MODULE Trace_C15 ------------------------------
EXTENDS C15, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
