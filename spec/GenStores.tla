------------------------------ MODULE GenStores -----------------------------
(***************************************************************************)
(* Histories of dims and shapes: every sequence of assignments (valid and  *)
(* refused) and reads, with functions whose hints were written before, in  *)
(* between and after; then every function is called with several shapes.   *)
(*   dims, shapes  the functions' arguments                                *)
(*   body          assignments from inside the body, before the result     *)
(*   names         reads and assignments only, over more names             *)
(***************************************************************************)
EXTENDS GenLib
CONSTANTS Kind, Before, After, Every, Backend
Late(d) == Item(<<>>, "l", <<d>>, <<>>, TRUE)
Fn(h) == DefF(<<Param("x", "pk", <<AnnH(h)>>, <<>>)>>, <<>>)
V(sh) == Val(Backend, sh)
Probe(fs, shs) == Cat(Map(LAMBDA c : <<Call(c[1], 1, <<V(c[2])>>, <<>>), Ret(1, NoneObj)>>, Cross(fs, shs)))
Numbers(n) == [j \in 1..n |-> j]

DimOps == <<SetDim(1, 1), SetDim(1, 3), SetDim(2, 2), SetDim(1, 0), BadDim(1, "str"), BadDim(2, "none"), GetDim(1)>>
DimHints == <<Dims(<<DimV(1)>>), Dims(<<DimPlus(1, 1)>>), Dims(<<DimHalf(1)>>), Dims(<<DimPlus(1, -2)>>), Dims(<<DimSym(1)>>),
              Dims(<<DimSum>>), Dims(<<DimV(2), DimV(1)>>), Dims(<<DimFloor(1)>>)>>
DimShapes == <<<<0>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<2, 3>>>>

ShapeOps == <<SetShape(1, <<>>), SetShape(1, <<2>>), SetShape(1, <<2, 3>>), SetShape(2, <<1>>), BadShape(1, "list"), BadShape(2, "floats"),
              GetShape(1)>>
ShapeHints == <<Dims(<<Sv(1)>>), Dims(<<I(2), Sv(1)>>), Dims(<<Sv(1), X>>), Dims(<<Con(<<Sv(1), Sv(2)>>)>>),
                Dims(<<Con(<<Tup(<<I(2)>>), Sv(1)>>)>>), Dims(<<Con(<<Sv(1), Tup(<<X>>)>>)>>), Dims(<<Ell, Sv(1)>>), Dims(<<Sv(1), Sv(1)>>)>>
ShapeShapes == <<<<>>, <<1>>, <<2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 2, 3>>>>

\* ops s, then a hint from the variable as it then is, then ops t
Plans(ops, hints, late, shapes) ==
    LET fs == Numbers(Len(hints) + 1)
        one(c) == Plan(Map(LAMBDA it : Mk(Backend, it), hints) \o Map(Fn, Numbers(Len(hints))) \o c[1]
                       \o <<Mk(Backend, late), Fn(Len(hints) + 1)>> \o c[2] \o Probe(fs, shapes))
    IN Map(one, Sieve(Cross(UpTo(ops, Before), UpTo(ops, After)), Every, 1))

\* The body assigns: the arguments were checked with the old values, the result is with the new ones.
BodyOps == <<SetDim(1, 1), SetDim(1, 2), SetShape(1, <<1>>), SetShape(1, <<2, 2>>), BadDim(1, "str"), BadShape(1, "list")>>
Body == Map(LAMBDA c : Plan(<<Mk(Backend, Dims(<<DimV(1)>>)), Mk(Backend, Dims(<<Sv(1)>>)), Mk(Backend, Dims(<<DimV(1), Sv(1)>>)),
                DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(1)>>), DefF(<<Param("x", "pk", <<AnnH(2)>>, <<>>)>>, <<AnnH(2)>>),
                DefF(<<>>, <<AnnH(3)>>), SetDim(1, 2), SetShape(1, <<1>>)>>
                \o Cat(Map(LAMBDA r : <<Call(1, 1, <<V(<<2>>)>>, <<>>)>> \o c \o <<Ret(1, V(r)), SetDim(1, 2), SetShape(1, <<1>>)>>, <<<<1>>, <<2>>>>))
                \o Cat(Map(LAMBDA r : <<Call(2, 1, <<V(<<1>>)>>, <<>>)>> \o c \o <<Ret(1, V(r)), SetDim(1, 2), SetShape(1, <<1>>)>>, <<<<1>>, <<2, 2>>>>))
                \o Cat(Map(LAMBDA r : <<Call(3, 1, <<>>, <<>>)>> \o c \o <<Ret(1, V(r)), SetDim(1, 2), SetShape(1, <<1>>)>>,
                           <<<<1, 1>>, <<2, 1>>, <<1, 2, 2>>, <<2, 2, 2>>>>))
                \* the body raises: what it assigned stays
                \o <<Call(1, 1, <<V(<<2>>)>>, <<>>)>> \o c \o <<Raise(1), GetDim(1), GetShape(1)>> \o Probe(<<1>>, <<<<1>>, <<2>>>>)),
            UpTo(BodyOps, After))

NameOps == <<SetDim(1, 2), SetDim(2, 5), SetDim(1, 7), GetDim(1), GetDim(2), SetShape(1, <<2>>), SetShape(2, <<>>), GetShape(1), GetShape(2), GetShape(3)>>
           \o Map(LAMBDA k : BadDim(1, k), <<"float", "str", "none", "tuple", "npint", "sym", "list", "frac", "cplx", "bytes", "nparr", "dict",
                     "npfloat", "npuint", "range", "type", "ell">>)
           \o Map(LAMBDA k : BadShape(1, k), <<"list", "int", "floats", "strs", "none", "sym", "nested", "mixed", "npints", "str", "mid", "midnone",
                     "last", "set", "bytes", "range", "arr", "dims", "shape", "nest2", "ell", "dict", "fourth", "ninth">>)
           \o <<GetSym("d", 1), GetSym("s", 1), GetSym("x", 1)>>
Reads == <<GetDim(1), GetDim(2), GetShape(1), GetShape(2), GetSym("d", 1), GetSym("s", 1)>>
NamesPlans == Cat(Map(LAMBDA st : Map(LAMBDA s : [evs |-> s \o Reads, names |-> st], Sieve(UpTo(NameOps, After), Every, 1 + (st % Every))), <<0, 1, 2, 3>>))

ASSUME Write(CASE Kind = "dims" -> Plans(DimOps, DimHints, Late(DimV(1)), DimShapes)
               [] Kind = "shapes" -> Plans(ShapeOps, ShapeHints, Late(Sv(1)), ShapeShapes)
               [] Kind = "body" -> Body
               [] Kind = "names" -> NamesPlans)
=============================================================================
