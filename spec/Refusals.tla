------------------------------ MODULE Refusals ------------------------------
(***************************************************************************)
(* The library answers a request or refuses it with an "unsupported input" *)
(* error naming the kinds.  This module lists, per operation and kind of   *)
(* the first operand, the kinds of second operand that are answered; for   *)
(* every other pair a refusal is allowed (an answer must still be right).  *)
(* SupCol is the same for operands of which one is a matrix with a single  *)
(* column.  Constraints: the kinds of the two sides.  Operations that are  *)
(* not listed are answered for all kinds.                                  *)
(***************************************************************************)
EXTENDS Sequences

Sup == [
  plus |-> [
    K |-> {"D", "K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VD", "VM", "VV", "Var", "f64", "int", "pD", "pVD"},
    Var |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "int", "pVD"},
    Mon |-> {"K", "Mon", "Pol", "Var", "f64"},
    Pol |-> {"K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VM", "VV", "Var", "f64"},
    KV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    VV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "int", "pVD"},
    MV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var", "f64", "int"},
    PV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var", "f64"},
    KM |-> {"D", "K", "KM", "MM", "PM", "VM", "Var", "f64", "pD"},
    VM |-> {"K", "KM", "MM", "PM", "VM", "f64"},
    MM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64"},
    PM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64"}
  ],
  minus |-> [
    K |-> {"D", "K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VD", "VM", "VV", "Var", "f64", "pD", "pVD"},
    Var |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    Mon |-> {"K", "Mon", "Pol", "Var", "f64"},
    Pol |-> {"D", "K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VD", "VM", "VV", "Var", "f64", "pD", "pVD"},
    KV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    VV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    MV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    PV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    KM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64", "pD"},
    VM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64", "pD"},
    MM |-> {"D", "K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64", "pD"},
    PM |-> {"D", "K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64", "pD"}
  ],
  minusfn |-> [
    K |-> {"K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VM", "VV", "Var"},
    Var |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var"},
    Mon |-> {"K", "Mon", "Pol", "Var"},
    Pol |-> {"K", "KM", "KV", "MM", "MV", "Mon", "PM", "PV", "Pol", "VM", "VV", "Var"},
    KV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var"},
    VV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var"},
    MV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var"},
    PV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var"},
    KM |-> {"K", "KM", "MM", "PM", "VM"},
    VM |-> {"K", "KM", "MM", "PM", "VM"},
    MM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var"},
    PM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var"}
  ],
  mul |-> [
    K |-> {"K", "Mon", "Pol", "Var", "f64", "int"},
    Var |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VD", "VV", "Var", "f64", "int", "pVD"},
    Mon |-> {"K", "Mon", "Pol", "Var", "f64", "int"},
    Pol |-> {"K", "KM", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var", "f64"},
    KV |-> {"K", "KV", "Mon", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    VV |-> {"K", "KV", "MV", "Mon", "PV", "Pol", "VV", "Var", "f64"},
    MV |-> {"K", "Mon", "Pol", "Var", "f64"},
    PV |-> {"K", "PV", "Pol", "f64"},
    KM |-> {"D", "K", "KM", "MM", "PM", "Pol", "VM", "VV", "f64", "pD", "pVD"},
    VM |-> {"D", "K", "KM", "KV", "MM", "PM", "VD", "VM", "VV", "f64", "pD", "pVD"},
    MM |-> {"K", "KM", "MM", "PM", "VM", "VV", "f64"},
    PM |-> {"K", "KM", "MM", "PM", "VM", "VV", "f64"}
  ],
  cmp |-> [
    K |-> {"K", "KV", "Mon", "Pol", "VD", "VV", "Var", "f64", "pVD"},
    Var |-> {"K", "Mon", "Pol", "Var", "f64", "int"},
    Mon |-> {"K", "Mon", "Pol", "Var", "f64", "int"},
    Pol |-> {"K", "Mon", "Pol", "Var", "f64", "int"},
    KV |-> {"K", "KV", "MV", "PV", "VD", "VV", "f64", "int", "pVD"},
    VV |-> {"KV", "MV", "PV", "VD", "VV", "pVD"},
    MV |-> {"K", "KV", "MV", "VV", "f64"},
    PV |-> {"K", "KV", "MV", "PV", "VD", "VV", "f64", "pVD"},
    KM |-> {"D", "K", "KM", "MM", "PM", "VM", "pD"},
    VM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64"},
    MM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64", "pD"},
    PM |-> {"D", "K", "KM", "f64", "pD"}
  ],
  cassimp |-> [
    K |-> {"K", "Mon", "Pol", "Var"},
    Var |-> {"K", "Mon", "Pol", "Var"},
    Mon |-> {"K", "Mon", "Pol", "Var"},
    Pol |-> {"K", "Mon", "Pol", "Var"},
    KV |-> {"KV", "MV", "PV", "VV"},
    VV |-> {"KV", "MV", "PV", "VV"},
    MV |-> {"KV", "MV", "PV", "VV"},
    PV |-> {"KV", "MV", "PV", "VV"},
    KM |-> {"KM", "MM", "PM", "VM"},
    VM |-> {"KM", "MM", "PM", "VM"},
    MM |-> {"KM", "MM", "PM", "VM"},
    PM |-> {"KM", "MM", "PM", "VM"}
  ]
]
SupCol == [
  plus |-> [
    K |-> {"D", "KM", "MM", "PM", "VM", "pD"},
    Var |-> {},
    Mon |-> {},
    Pol |-> {"KM", "MM", "PM", "VM"},
    KV |-> {},
    VV |-> {},
    MV |-> {},
    PV |-> {},
    KM |-> {"D", "K", "KM", "MM", "PM", "VM", "Var", "f64", "pD"},
    VM |-> {"K", "KM", "MM", "PM", "VM", "f64"},
    MM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64"},
    PM |-> {"K", "KM", "MM", "Mon", "PM", "Pol", "VM", "Var", "f64"}
  ],
  minus |-> [
    K |-> {"D", "KM", "MM", "PM", "VM", "pD"},
    Var |-> {"PM"},
    Mon |-> {},
    Pol |-> {"D", "KM", "MM", "PM", "VM", "pD"},
    KV |-> {},
    VV |-> {"PM"},
    MV |-> {"PM"},
    PV |-> {"PM"},
    KM |-> {"D", "K", "KM", "MM", "VM", "f64", "pD"},
    VM |-> {"D", "K", "KM", "MM", "VM", "f64", "pD"},
    MM |-> {"D", "K", "KM", "MM", "Mon", "Pol", "VM", "Var", "f64", "pD"},
    PM |-> {"D", "K", "KM", "MM", "Mon", "Pol", "VM", "Var", "f64", "pD"}
  ],
  minusfn |-> [
    K |-> {"KM", "PM", "VM"},
    Var |-> {},
    Mon |-> {},
    Pol |-> {"KM", "PM"},
    KV |-> {"PM"},
    VV |-> {"PM"},
    MV |-> {"PM"},
    PV |-> {"PM"},
    KM |-> {"K", "KM"},
    VM |-> {"K", "VM"},
    MM |-> {"MM", "Mon", "VM", "Var"},
    PM |-> {"K", "Mon", "Pol", "Var"}
  ],
  mul |-> [
    K |-> {},
    Var |-> {},
    Mon |-> {},
    Pol |-> {"KM"},
    KV |-> {},
    VV |-> {},
    MV |-> {},
    PV |-> {},
    KM |-> {"D", "K", "KM", "MM", "PM", "Pol", "VM", "VV", "f64", "pD", "pVD"},
    VM |-> {"D", "K", "KM", "KV", "MM", "PM", "VD", "VM", "VV", "f64", "pD", "pVD"},
    MM |-> {"K", "KM", "MM", "PM", "VM", "VV", "f64"},
    PM |-> {"K", "KM", "MM", "PM", "VM", "VV", "f64"}
  ],
  cmp |-> [
    K |-> {},
    Var |-> {},
    Mon |-> {},
    Pol |-> {},
    KV |-> {},
    VV |-> {},
    MV |-> {},
    PV |-> {},
    KM |-> {"D", "K", "KM", "MM", "PM", "VM", "pD"},
    VM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64"},
    MM |-> {"D", "K", "KM", "MM", "PM", "VM", "f64", "pD"},
    PM |-> {"D", "K", "KM", "f64", "pD"}
  ],
  cassimp |-> [
    K |-> {},
    Var |-> {},
    Mon |-> {},
    Pol |-> {},
    KV |-> {},
    VV |-> {},
    MV |-> {},
    PV |-> {},
    KM |-> {"KM", "MM", "VM"},
    VM |-> {"KM", "MM", "VM"},
    MM |-> {"KM", "MM", "VM"},
    PM |-> {"PM"}
  ]
]

\* col: an operand is a matrix with one column
MayRefuse(op, k1, k2, col) ==
  /\ op \in DOMAIN Sup
  /\ \/ k1 \notin DOMAIN Sup[op]
     \/ k2 \notin (IF col THEN SupCol ELSE Sup)[op][k1]
=============================================================================
