----------------------------- MODULE Trace_C12 ------------------------------
EXTENDS C12, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
