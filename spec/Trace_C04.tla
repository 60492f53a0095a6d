----------------------------- MODULE Trace_C04 ------------------------------
EXTENDS C04, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
