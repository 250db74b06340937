------------------------------- MODULE MC_Tree -------------------------------
(***************************************************************************)
(* Every tree of three binary operators over four operands, in all five    *)
(* shapes, with no or one unary operator somewhere: written with as few    *)
(* brackets as possible it parses back to itself, and brackets around the  *)
(* whole change nothing.  Replayed as parse calls.                         *)
(***************************************************************************)
EXTENDS Forms
VARIABLES chunk, bad

Ops == << "=", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "AND", "OR" >>
NOps == Len(Ops)
Leaves == << NField(Codes("a")), MkLit(VInt(NumOf(2))), NField(Codes("b.c")), MkLit(VDec(MkDec(NumOf(15), 1))), MkLit(VStr(Codes("x y"))), MkLit(VBool(TRUE)),
             MkLit(VVer(Codes("1.2.3"))), MkLit(VDate(2024, 2, 29)), MkLit(VLong(NumOf(2147483647))) >>
Leaf(k) == Leaves[1 + (k % 8)]
Decorations == 15

\* decoration d: a unary operator on the operand or subtree it belongs to
Dec1(n, d, k) == IF d = k THEN MkNeg(n) ELSE IF d = k + 7 THEN MkNot(n) ELSE n
Tree(i) ==
  LET o1 == Ops[1 + Digit(i, 1, NOps)] o2 == Ops[1 + Digit(i, NOps, NOps)] o3 == Ops[1 + Digit(i, NOps * NOps, NOps)]
      sh == Digit(i, NOps * NOps * NOps, 5)
      d == Digit(i, NOps * NOps * NOps * 5, Decorations)
      l(k) == Dec1(Leaf(i \div 7 + 3 * k), d, k)
      bin(k, op, x, y) == Dec1(MkBin(op, x, y), d, k)
  IN CASE sh = 0 -> bin(7, o3, bin(6, o2, bin(5, o1, l(1), l(2)), l(3)), l(4))
       [] sh = 1 -> bin(7, o1, l(1), bin(6, o2, l(2), bin(5, o3, l(3), l(4))))
       [] sh = 2 -> bin(7, o2, bin(6, o1, l(1), l(2)), bin(5, o3, l(3), l(4)))
       [] sh = 3 -> bin(7, o3, bin(6, o1, l(1), bin(5, o2, l(2), l(3))), l(4))
       [] sh = 4 -> bin(7, o1, l(1), bin(6, o3, bin(5, o2, l(2), l(3)), l(4)))

TreeCount == NOps * NOps * NOps * 5 * Decorations
TreeVectors(i) == << Call("P", Show(Tree(i), 0), << >>, << >>) >>
TreeBroken(i) ==
  LET t == Tree(i) x == Show(t, 0) p == Parse(x, << >>) q == Parse(Paren(x), << >>) IN
  (IF p = Ok(t) THEN {} ELSE {"parsing inverts writing"}) \cup (IF q = p THEN {} ELSE {"brackets around the whole"})

INSTANCE Grid WITH Count <- TreeCount, Vectors <- TreeVectors, Broken <- TreeBroken
=============================================================================
