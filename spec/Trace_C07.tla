----------------------------- MODULE Trace_C07 ------------------------------
EXTENDS C07, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
