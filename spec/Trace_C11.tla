----------------------------- MODULE Trace_C11 ------------------------------
EXTENDS C11, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
