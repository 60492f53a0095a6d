----------------------------- MODULE Trace_C10 ------------------------------
EXTENDS C10, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
