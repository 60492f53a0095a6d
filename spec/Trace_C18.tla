----------------------------- MODULE Trace_C18 ------------------------------
EXTENDS C18, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
