----------------------------- MODULE Trace_C02 ------------------------------
EXTENDS C02, Json, IOUtils
VARIABLES c, l, st
Cases == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE Trace
=============================================================================
