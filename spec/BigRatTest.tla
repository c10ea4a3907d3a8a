---------------------------- MODULE BigRatTest ----------------------------
(* BigRat (Java-overridden) against BigRatPure (the same text, interpreted) *)
EXTENDS Num, Json, IOUtils
Pu == INSTANCE BigRatPure
Cases == JsonDeserialize(IOEnv.TRACE_FILE)
Z2(c) ==
  /\ ZAdd(c.a, c.b) = Pu!ZAdd(c.a, c.b)
  /\ ZMul(c.a, c.b) = Pu!ZMul(c.a, c.b)
  /\ ZCmp(c.a, c.b) = Pu!ZCmp(c.a, c.b)
  /\ ZNeg(c.a) = Pu!ZNeg(c.a)
  /\ c.b[1] = 0 \/ ZFloorDiv(c.a, c.b) = Pu!ZFloorDiv(c.a, c.b)
R2(c) ==
  /\ RAdd(c.x, c.y) = Pu!RAdd(c.x, c.y)
  /\ RSub(c.x, c.y) = Pu!RSub(c.x, c.y)
  /\ RMul(c.x, c.y) = Pu!RMul(c.x, c.y)
  /\ RNeg(c.x) = Pu!RNeg(c.x)
  /\ RCmp(c.x, c.y) = Pu!RCmp(c.x, c.y)
  /\ RFloor(c.x) = Pu!RFloor(c.x)
  /\ RTrunc(c.x, 3) = Pu!RTrunc(c.x, 3)
  /\ RSig(c.x, 3) = Pu!RSig(c.x, 3)
  /\ RIsZero(c.y) \/ RDiv(c.x, c.y) = Pu!RDiv(c.x, c.y)
  /\ RSum(<<c.x, c.y, c.x>>) = Pu!RSum(<<c.x, c.y, c.x>>)
  /\ RDot(<<c.x, c.y>>, <<c.y, c.y>>) = Pu!RDot(<<c.x, c.y>>, <<c.y, c.y>>)
  /\ Rat(c.i) = Pu!Rat(c.i) /\ Z(c.i) = Pu!Z(c.i)
  /\ c.i = 0 \/ Frac(7, c.i) = Pu!Frac(7, c.i)
  /\ c.want.add = RAdd(c.x, c.y) /\ c.want.mul = RMul(c.x, c.y)
  (* elementary functions against values from an independent library *)
  /\ Near(c.sin, Sin(c.t), Ten(-14)) /\ Near(c.cos, Cos(c.t), Ten(-14))
  /\ RelNear(c.exp, Exp(c.t), 12)
  /\ RelNear(c.sqrt, Sqrt(RAbs(c.t)), 13)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1
        /\ IF Z2(Cases[i']) /\ R2(Cases[i']) THEN TRUE ELSE PrintT(<<"REJECT", 1, i', {"bignum"}>>)
Spec == Init /\ [][Next]_i
============================================================================
