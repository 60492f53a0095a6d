----------------------------- MODULE Trace_C14 ------------------------------
EXTENDS C14, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
