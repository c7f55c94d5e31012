----------------------------- MODULE MCHttpBody -----------------------------
EXTENDS HttpBody, HttpBodyCases
WantAB == <<A, B>>
=============================================================================
