------------------------------ MODULE GenDtypes -----------------------------
(***************************************************************************)
(* Every dtype part, alone and with a few shape parts, against arrays of   *)
(* every dtype and a few shapes.                                           *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Backend
Parts == IF Backend = "A"
         THEN Map(LAMBDA d : Np(d[1]), Keep(NpTypes, LAMBDA d : d[1] # "|O"))
              \o Map(Py, <<"int", "float", "complex", "bool", "str", "bytes", "object", "datetime", "timedelta">>)
         ELSE IF Backend = "P" THEN Map(Np, TorchTypes) \o Map(Py, <<"int", "float", "bool", "bytes">>)
         ELSE Map(Np, TfTypes) \o Map(Py, <<"int", "float", "complex", "bool", "bytes", "str">>)
Arrays(sh) == IF Backend = "A" THEN Map(LAMBDA d : NpArr(d, sh), NpTypes)
              ELSE IF Backend = "P" THEN Map(LAMBDA d : PtArr(d, sh), TorchTypes)
              ELSE Map(LAMBDA d : TfArr(d, sh), TfTypes)
Values == Arrays(<<>>) \o Arrays(<<2>>) \o Arrays(<<2, 3>>) \o Arrays(<<0>>) \o Map(Derived, Sieve(Arrays(<<2>>), 3, 1))
ShapeParts == << <<Unit>>, <<I(2)>>, <<W>>, <<Ell>>, <<I(2), I(3)>>, <<Ell, I(3)>>, <<X>>, <<X, XplusN(1)>>, <<I(0)>> >>
Items == Map(LAMBDA d : Item(<<d>>, "l", <<>>, <<>>, FALSE), Parts)
         \o Map(LAMBDA c : Item(<<c[1]>>, "l", c[2], <<>>, FALSE), Cross(Parts, ShapeParts))
\* the same hints refined: the parts given one after the other, in both orders
Two(c) == << <<Mk(Backend, Item(<<c[1]>>, "l", <<>>, <<>>, FALSE)), Refine(1, Dims(c[2]))>>,
             <<Mk(Backend, Dims(c[2])), Refine(1, Item(<<c[1]>>, "l", <<>>, <<>>, FALSE))>> >>
Some(n) == Sieve(Values, 5, n)
ASSUME Write(
    Map(LAMBDA it : Plan(<<Mk(Backend, it)>> \o Map(LAMBDA v : IsInst(H(1), v), Values)
                         \o <<IsInst(H(1), Arr(<<2>>)), IsInst(H(1), NoneObj), IsInst(Root(Backend), Values[3])>>), Items)
    \o Cat(Map(LAMBDA c : Map(LAMBDA two : Plan(two \o Map(LAMBDA v : IsInst(H(2), v), Some(1))
                                                \o Map(LAMBDA v : IsInst(H(1), v), Some(3))), Two(c)),
               Cross(Parts, Sieve(ShapeParts, 2, 1)))))
=============================================================================
