----------------------------- MODULE Trace_C09 ------------------------------
EXTENDS C09, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
