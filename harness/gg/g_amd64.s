#include "textflag.h"

// func G() uintptr
TEXT ·G(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
