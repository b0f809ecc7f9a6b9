----------------------------- MODULE GenBackends ----------------------------
(***************************************************************************)
(* Every use of every exported class with every kind of operand, alone and *)
(* before, after and between uses of Array.                                *)
(***************************************************************************)
EXTENDS GenLib
Ways == <<"name", "sub", "eq", "req", "ne", "same", "repr", "str", "format", "isinst", "in", "call", "ret">>
Use(b, w, k) == [op |-> "use", b |-> b, w |-> w, k |-> k]
Uses == Map(LAMBDA c : Use(c[1][1], c[1][2], c[2]), Cross(Cross(<<"A", "T", "P">>, Ways), <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>))
Once == Map(LAMBDA c : Use(c[1], c[2], 0), Cross(<<"A", "T", "P">>, Ways))
ArrayWork == <<Mk("A", Dims(<<X, I(2)>>)), IsInst(H(1), Arr(<<3, 2>>)), IsInst(H(1), Arr(<<3>>)),
               DefF(<<Param("x", "pk", <<AnnH(1)>>, <<>>), Param("y", "pk", <<AnnH(1)>>, <<>>)>>, <<AnnH(1)>>),
               Call(1, 1, <<Arr(<<3, 2>>), Arr(<<3, 2>>)>>, <<>>), Ret(1, Arr(<<3, 2>>)),
               Call(1, 1, <<Arr(<<3, 2>>), Arr(<<4, 2>>)>>, <<>>), Ret(1, Arr(<<3, 2>>)),
               Call(1, 1, <<Arr(<<3, 2>>), Arr(<<3, 2>>)>>, <<>>), Ret(1, Arr(<<5, 2>>))>>
ASSUME Write(Map(LAMBDA u : Plan(<<u>>), Uses)
             \o Map(LAMBDA c : Plan(<<c[1], c[2]>>), Cross(Once, Once))
             \o Map(LAMBDA u : Plan(<<u>> \o ArrayWork \o <<u>>), Once))
=============================================================================
