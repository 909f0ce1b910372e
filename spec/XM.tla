------------------------------- MODULE XM -------------------------------
(* Real arithmetic for specifications and trace validation.              *)
(* A real is a string in decimal notation ("0.25", "-1.5E-3", "NaN").    *)
(* Every operator below is evaluated by java/XM.java (TLC module          *)
(* override) in IEEE double precision; the bodies here only give shapes. *)
FAdd(a, b) == CHOOSE x \in STRING : TRUE
FSub(a, b) == CHOOSE x \in STRING : TRUE
FMul(a, b) == CHOOSE x \in STRING : TRUE
FDiv(a, b) == CHOOSE x \in STRING : TRUE
FNeg(a) == CHOOSE x \in STRING : TRUE
FLog(a) == CHOOSE x \in STRING : TRUE
FExp(a) == CHOOSE x \in STRING : TRUE
FSin(a) == CHOOSE x \in STRING : TRUE
FCos(a) == CHOOSE x \in STRING : TRUE
FSqrt(a) == CHOOSE x \in STRING : TRUE
FAbs(a) == CHOOSE x \in STRING : TRUE
FMax(a, b) == CHOOSE x \in STRING : TRUE
FMin(a, b) == CHOOSE x \in STRING : TRUE
FLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
FLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE
FFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FNaN(a) == CHOOSE x \in BOOLEAN : TRUE
FInt(a) == CHOOSE x \in STRING : TRUE          \* integer to real
F32(a) == CHOOSE x \in STRING : TRUE           \* rounded to single precision
FFloor(a) == CHOOSE x \in {0} : TRUE           \* real to integer
FClose(a, b, rel, abs) == CHOOSE x \in BOOLEAN : TRUE
FSum(s) == CHOOSE x \in STRING : TRUE
FProd(s) == CHOOSE x \in STRING : TRUE
FMaxSeq(s) == CHOOSE x \in STRING : TRUE
FDot(s, t) == CHOOSE x \in STRING : TRUE
FArgMax(s) == CHOOSE x \in {1} : TRUE          \* first greatest, from 1
FArgMin(s) == CHOOSE x \in {1} : TRUE          \* first least, from 1
FDet(c, n) == CHOOSE x \in STRING : TRUE       \* determinant, row-major n x n
FInv(c, n) == CHOOSE x \in {<<>>} : TRUE  \* inverse, row-major n x n
FQuad(x, m, c) == CHOOSE r \in STRING : TRUE   \* (x-m)' C^-1 (x-m)
FForm(x, m, a) == CHOOSE r \in STRING : TRUE   \* (x-m)' a (x-m)
FText(q) == CHOOSE r \in STRING : TRUE         \* the text of these character codes
Eager(v) == v                                  \* evaluated at once (speed only)
Same(a, b) == a = b                            \* deep, FALSE on type mismatch
CloseV(a, b, rel, abs) == a = b                \* deep, reals up to tolerance
DiffAt(a, b) == CHOOSE x \in STRING : TRUE     \* path of the first difference
=========================================================================
