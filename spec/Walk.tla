-------------------------------- MODULE Walk --------------------------------
\* Prints the state graph of a bounded instance, for the conformance runner to drive through the code.
\* A state is named by two fingerprints (64 bits together); the operation is printed in full.
EXTENDS Sequences, TLC, TLCExt, Json
LOCAL Fp(s) == ToString(TLCFP(<<1, s>>)) \o "." \o ToString(TLCFP(<<"s", s, 2>>))
PrintStep(pre, op, post) == PrintT("T@" \o Fp(pre) \o "~" \o ToJson(op) \o "~" \o Fp(post))
PrintInit(s) == PrintT("I@" \o Fp(s))
=============================================================================
