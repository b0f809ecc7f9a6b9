------------------------------ MODULE GenShapes -----------------------------
(***************************************************************************)
(* Every hint of up to MaxDims dimensions over an alphabet, against every  *)
(* shape of up to MaxRank sizes over Sizes.                                *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS MaxDims, MaxRank, Kind, Backend
Alphabet == CASE Kind = "plain" -> <<I(0), I(1), I(2), W, Ell, NoneDim>>
              [] Kind = "big" -> <<I(1), I(2), W, Ell>>
              [] Kind = "sym" -> <<I(2), W, Ell, X, Y, XplusN(1), XtimesN(2), XplusY, XtimesY, XminusY>>
              [] Kind = "sym2" -> <<Ell, X, Y, Xhalf, Xsquare, XplusN(-1), Expr(1, FALSE, << <<2, X1>>, <<3, Y1>> >>), Z>>
Sizes == IF Kind \in {"plain", "big"} THEN <<0, 1, 2>> ELSE IF Kind = "sym" THEN <<1, 2, 3>> ELSE <<0, 1, 2, 4>>
Shapes == UpTo(Sizes, MaxRank)
PlanOf(ds) == Plan(<<Mk(Backend, Dims(ds))>> \o [j \in 1..Len(Shapes) |-> IsInst(H(1), Val(Backend, Shapes[j]))])
ASSUME Write(Map(PlanOf, UpTo(Alphabet, MaxDims)))
=============================================================================
