----------------------------- MODULE Trace_C16 ------------------------------
EXTENDS C16, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
