---------------------------------- MODULE Q ----------------------------------
(* Rational numbers, written as numerals: the string "n" for an integer and   *)
(* "n/d" for n/d in lowest terms, d > 1.  TLC's own integers are 32 bit, and  *)
(* the implementation computes with doubles, each of which IS a rational      *)
(* n * 2^k; a logged float therefore enters the specification without loss.   *)
(* The operators below are evaluated by java/Q.java (as TLC's Integers is by  *)
(* tlc2.module.Integers); the definitions here say what they mean.            *)
LOCAL INSTANCE Integers

QInt(i)      == CHOOSE q \in STRING : TRUE   \* the numeral of the TLC integer i
QNum(a)      == CHOOSE i \in Int : TRUE      \* numerator   (of a small rational)
QDen(a)      == CHOOSE i \in Int : TRUE      \* denominator (of a small rational)
IsQ(a)       == CHOOSE b \in BOOLEAN : TRUE  \* a is a numeral

QAdd(a, b)   == CHOOSE q \in STRING : TRUE   \* a + b
QSub(a, b)   == CHOOSE q \in STRING : TRUE   \* a - b
QMul(a, b)   == CHOOSE q \in STRING : TRUE   \* a * b
QDiv(a, b)   == CHOOSE q \in STRING : TRUE   \* a / b,  b # 0
QLe(a, b)    == CHOOSE b_ \in BOOLEAN : TRUE \* a <= b
QLt(a, b)    == CHOOSE b_ \in BOOLEAN : TRUE \* a < b

QRnd(a)      == CHOOSE q \in STRING : TRUE   \* nearest dyadic with 160 significant bits
QSqrt(a)     == CHOOSE q \in STRING : TRUE   \* the following: to 150 bits
QExp(a)      == CHOOSE q \in STRING : TRUE
QLn(a)       == CHOOSE q \in STRING : TRUE
QSin(a)      == CHOOSE q \in STRING : TRUE
QCos(a)      == CHOOSE q \in STRING : TRUE
QAtan2(y, x) == CHOOSE q \in STRING : TRUE
QPi          == CHOOSE q \in STRING : TRUE

Force(v)     == v                            \* identity; evaluates lazy functions once

QAbs(a)      == IF QLt(a, "0") THEN QSub("0", a) ELSE a
QNeg(a)      == QSub("0", a)
QMax(a, b)   == IF QLe(a, b) THEN b ELSE a
QMin(a, b)   == IF QLe(a, b) THEN a ELSE b
QSq(a)       == QMul(a, a)
QInv(a)      == QDiv("1", a)
QSgn(a)      == IF a = "0" THEN 0 ELSE IF QLt(a, "0") THEN -1 ELSE 1
=============================================================================
