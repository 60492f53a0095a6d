----------------------------- MODULE Trace_C01 ------------------------------
EXTENDS C01, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
