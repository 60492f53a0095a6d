----------------------------- MODULE Trace_C08 ------------------------------
EXTENDS C08, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
