----------------------------- MODULE Trace_C03 ------------------------------
EXTENDS C03, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
