------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any width for TLC, whose own integers have 32 bits.       *)
(* A number is a sequence <<sign, l0, l1, ...>>: sign is -1, 0 or 1, limbs are *)
(* 0..9999, least significant first, without leading zero limbs.               *)
EXTENDS Integers, Sequences, TLC
LOCAL Base == 10000
LOCAL Mag(a) == SubSeq(a, 2, Len(a))
LOCAL Sgn(a) == a[1]
RECURSIVE TrimR(_)
LOCAL TrimR(m) == IF Len(m) > 0 /\ m[Len(m)] = 0 THEN TrimR(SubSeq(m, 1, Len(m) - 1)) ELSE m
LOCAL Mk(s, m) == LET t == TrimR(m) IN IF Len(t) = 0 THEN <<0>> ELSE <<s>> \o t
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
RECURSIVE AddM(_, _, _, _)
LOCAL AddM(a, b, i, c) == IF i > Mx(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                          ELSE LET s == At(a, i) + At(b, i) + c
                               IN <<s % Base>> \o AddM(a, b, i + 1, s \div Base)
RECURSIVE SubM(_, _, _, _)
LOCAL SubM(a, b, i, c) == IF i > Len(a) THEN <<>>        \* a >= b
                          ELSE LET s == a[i] - At(b, i) - c
                               IN <<s % Base>> \o SubM(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE LessFrom(_, _, _)
LOCAL LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
LOCAL LessM(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))

RECURSIVE SmallMag(_)
LOCAL SmallMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o SmallMag(n \div Base)
BI(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o SmallMag(n) ELSE <<-1>> \o SmallMag(-n)

BNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Mag(a)
BAdd(a, b) == IF Sgn(a) = 0 THEN b ELSE IF Sgn(b) = 0 THEN a
              ELSE IF Sgn(a) = Sgn(b) THEN Mk(Sgn(a), AddM(Mag(a), Mag(b), 1, 0))
              ELSE IF LessM(Mag(a), Mag(b)) THEN Mk(Sgn(b), SubM(Mag(b), Mag(a), 1, 0))
              ELSE Mk(Sgn(a), SubM(Mag(a), Mag(b), 1, 0))
BSub(a, b) == BAdd(a, BNeg(b))
BLess(a, b) == LET d == BSub(a, b) IN d[1] = -1
BLeq(a, b) == LET d == BSub(a, b) IN d[1] # 1
BAbs(a) == IF a[1] = -1 THEN BNeg(a) ELSE a
RECURSIVE MulLimb(_, _, _, _)
LOCAL MulLimb(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                             ELSE LET s == a[i] * d + c
                                  IN <<s % Base>> \o MulLimb(a, d, i + 1, s \div Base)
RECURSIVE MulM(_, _)
LOCAL MulM(a, b) == IF Len(b) = 0 THEN <<>>
                    ELSE AddM(MulLimb(a, b[1], 1, 0), LET r == MulM(a, Tail(b)) IN IF Len(r) = 0 THEN <<>> ELSE <<0>> \o r, 1, 0)
BMul(a, b) == Mk(Sgn(a) * Sgn(b), MulM(Mag(a), Mag(b)))
\* Floor of a / b for b > 0 (used to find multiples): binary search on limbs, digit by digit
RECURSIVE DivDigit(_, _, _, _)
LOCAL DivDigit(r, b, lo, hi) == \* largest q in lo..hi with q*b <= r
  IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2
                          IN IF BLeq(BMul(BI(m), b), r) THEN DivDigit(r, b, m, hi) ELSE DivDigit(r, b, lo, m - 1)
RECURSIVE DivM(_, _, _, _, _)
LOCAL DivM(a, b, i, r, q) == \* a magnitude limbs from i down to 1, r remainder, q quotient limbs collected
  IF i = 0 THEN <<q, r>>
  ELSE LET r2 == BAdd(BMul(r, BI(Base)), BI(a[i]))
           d == DivDigit(r2, b, 0, Base - 1)
       IN DivM(a, b, i - 1, BSub(r2, BMul(BI(d), b)), <<d>> \o q)
BFloorDiv(a, b) == LET t == DivM(Mag(a), b, Len(a) - 1, BI(0), <<>>)
                       q == Mk(1, t[1])
                   IN IF Sgn(a) >= 0 THEN q
                      ELSE IF t[2][1] = 0 THEN BNeg(q) ELSE BSub(BNeg(q), BI(1))
ASSUME /\ BMul(BI(123456), BI(-654321)) = BNeg(BMul(BI(654321), BI(123456)))
       /\ BFloorDiv(BI(-7), BI(2)) = BI(-4) /\ BFloorDiv(BI(123456789), BI(10007)) = BI(12337)
       /\ BAdd(BI(99999), BI(-100000)) = BI(-1) /\ BSub(BI(5), BI(5)) = BI(0)
       /\ BFloorDiv(BMul(BI(1234567891), BI(1000000007)), BI(1000000007)) = BI(1234567891)
=============================================================================
