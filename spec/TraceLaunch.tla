---------------------------- MODULE TraceLaunch ----------------------------
EXTENDS Launch, TraceBase
LTInit(cfg) == LaunchInit
LTStep(cfg, s, e) == LaunchStep(s, e)
=============================================================================
