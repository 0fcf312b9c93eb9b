-------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* A second, independent meaning for expressions: the tree of operations   *)
(* that built them, evaluated at points.  Nothing here knows about         *)
(* exponents, like terms or normal forms; sums and products are those of   *)
(* numbers, derivatives are taken by the rules of calculus on the tree and *)
(* substitution evaluates the tree at another point.  SymbolicMath.tla     *)
(* checks that the polynomial arithmetic of Poly.tla and Arrays.tla agrees *)
(* with it for every behaviour of the model.                               *)
(*                                                                         *)
(*   <<"k", d>>       the number d                                         *)
(*   <<"v", i>>       the variable i                                       *)
(*   <<"+", a, b>>    <<"*", a, b>>                                        *)
(*   <<"d", a, v>>    derivative of a with respect to v                    *)
(*   <<"s", a, f>>    a with every v in DOMAIN f replaced by f[v]          *)
(***************************************************************************)
EXTENDS Poly

TK(d) == <<"k", d>>
TV(i) == <<"v", i>>
TAdd(a, b) == <<"+", a, b>>
TMul(a, b) == <<"*", a, b>>
TNeg(a) == TMul(TK(<<-1, 0>>), a)
TSub(a, b) == TAdd(a, TNeg(b))

\* the derivative of a tree, as a tree
RECURSIVE TDiff(_, _)
TDiff(t, v) ==
  CASE t[1] = "k" -> TK(DZero)
    [] t[1] = "v" -> TK(IF t[2] = v THEN DOne ELSE DZero)
    [] t[1] = "+" -> TAdd(TDiff(t[2], v), TDiff(t[3], v))
    [] t[1] = "*" -> TAdd(TMul(TDiff(t[2], v), t[3]), TMul(t[2], TDiff(t[3], v)))
    [] t[1] = "d" -> TDiff(TDiff(t[2], t[3]), v)
    [] t[1] = "s" ->      \* chain rule
         FoldSet(LAMBDA w, acc : TAdd(acc, TMul(<<"s", TDiff(t[2], w), t[3]>>, TDiff(t[3][w], v))),
                 IF v \in DOMAIN t[3] THEN TK(DZero) ELSE <<"s", TDiff(t[2], v), t[3]>>,
                 DOMAIN t[3])

\* the value of a tree at a point
RECURSIVE TEval(_, _)
TEval(t, pt) ==
  CASE t[1] = "k" -> t[2]
    [] t[1] = "v" -> pt[t[2]]
    [] t[1] = "+" -> DAdd(TEval(t[2], pt), TEval(t[3], pt))
    [] t[1] = "*" -> DMul(TEval(t[2], pt), TEval(t[3], pt))
    [] t[1] = "d" -> TEval(TDiff(t[2], t[3]), pt)
    [] t[1] = "s" -> TEval(t[2], TLCEval([i \in Slots |-> IF i \in DOMAIN t[3] THEN TEval(t[3][i], pt) ELSE pt[i]]))
=============================================================================
