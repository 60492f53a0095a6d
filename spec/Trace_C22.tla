----------------------------- MODULE Trace_C22 ------------------------------
EXTENDS C22, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
