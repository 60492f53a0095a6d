----------------------------- MODULE Trace_C19 ------------------------------
EXTENDS C19, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
