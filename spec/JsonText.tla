------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON values, the operations that build them, and JSON text.                *)
(*                                                                           *)
(* A value is [t, v]: "z" null, "b" boolean, "i" and "u" integers (decimal     *)
(* numerals), "r" real (in decimal), "s" string (its bytes), "a" array, "o"     *)
(* object (members <<key, value>> by increasing keys). A text is a sequence of   *)
(* bytes. What a text means is the grammar below; its verdict is                 *)
(*   good  it is JSON: it has to be read, as this value                          *)
(*   odd   JSON up to what this reader takes on purpose (comments, raw control     *)
(*         characters, bytes no text has, what follows the value, nesting above a thousand): if it     *)
(*         is read, and nothing follows, it is this value                            *)
(*   any   a number written in no way JSON knows, out of the range of reals, or        *)
(*         an unpaired surrogate: reading it is not specified                            *)
(*   bad   everything else: it has to be refused                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, XM
Null == [t |-> "z", v |-> 0]
A(q) == [t |-> "a", v |-> q]
Ob(q) == [t |-> "o", v |-> q]

\* ------------------------------------------------------------------- objects
RECURSIVE Below(_, _, _)
Below(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Below(a, b, i + 1)
KeyLt(a, b) == Below(a, b, 1)
Put(o, k, x) ==
  LET n == Cardinality({i \in 1 .. Len(o) : KeyLt(o[i][1], k)})
      old == n < Len(o) /\ o[n + 1][1] = k
  IN SubSeq(o, 1, n) \o <<<<k, x>>>> \o SubSeq(o, IF old THEN n + 2 ELSE n + 1, Len(o))
Find(o, k) == {i \in 1 .. Len(o) : o[i][1] = k}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* --------------------------------------------------------------------- texts
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Quote == 34
Back == 92
Slash == 47
Star == 42
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Eol(_, _)
Eol(t, i) == IF i > Len(t) THEN i ELSE IF t[i] \in {10, 13} THEN i + 1 ELSE Eol(t, i + 1)
RECURSIVE Unstar(_, _)
Unstar(t, i) == IF i + 1 > Len(t) THEN 0 ELSE IF t[i] = Star /\ t[i + 1] = Slash THEN i + 2 ELSE Unstar(t, i + 1)
\* <<position of what follows blanks and comments (0: a comment without end), whether there were comments>>
RECURSIVE Skip(_, _, _)
Skip(t, i, odd) ==
  IF At(t, i) \in {32, 9, 10, 13} THEN Skip(t, i + 1, odd)
  ELSE IF At(t, i) = Slash THEN IF At(t, i + 1) = Slash THEN Skip(t, Eol(t, i + 2), TRUE)
                                ELSE IF At(t, i + 1) = Star /\ Unstar(t, i + 2) # 0 THEN Skip(t, Unstar(t, i + 2), TRUE) ELSE <<0, TRUE>>
  ELSE <<i, odd>>
Res(q, v, i) == [q |-> q, v |-> v, i |-> i]
Bad == Res("bad", Null, 0)
AnyR == Res("any", Null, 0)
Worse(p, q) == IF "odd" \in {p, q} THEN "odd" ELSE "good"

Hex(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(t, i) == LET d == [k \in 0 .. 3 |-> Hex(At(t, i + k))] IN IF \E k \in 0 .. 3 : d[k] < 0 THEN -1 ELSE d[0] * 4096 + d[1] * 256 + d[2] * 16 + d[3]
Utf8(u) ==
  IF u < 128 THEN <<u>>
  ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
  ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
  ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Esc == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
\* the string whose bytes begin at i; acc: what is decoded so far
RECURSIVE Str(_, _, _, _)
Str(t, i, acc, q) ==
  LET c == At(t, i) IN
  IF c = -1 THEN Bad
  ELSE IF c = Quote THEN Res(q, [t |-> "s", v |-> acc], i + 1)
  ELSE IF c # Back THEN Str(t, i + 1, Eager(Append(acc, c)), IF c < 32 \/ c >= 248 THEN "odd" ELSE q)
  ELSE LET e == At(t, i + 1) IN
       IF e \in DOMAIN Esc THEN Str(t, i + 2, Eager(Append(acc, Esc[e])), q)
       ELSE IF e # 117 THEN Bad
       ELSE LET u == Hex4(t, i + 2) IN
            IF u < 0 THEN Bad
            ELSE IF u >= 56320 /\ u <= 57343 THEN AnyR
            ELSE IF u >= 55296 /\ u <= 56319 THEN
              LET w == IF At(t, i + 6) = Back /\ At(t, i + 7) = 117 THEN Hex4(t, i + 8) ELSE -2 IN
              IF w >= 56320 /\ w <= 57343 THEN Str(t, i + 12, Eager(acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320))), q)
              ELSE IF w = -1 THEN Bad ELSE AnyR
            ELSE Str(t, i + 6, Eager(acc \o Utf8(u)), q)

\* numbers: the run of characters that numbers are made of
RECURSIVE RunEnd(_, _)
RunEnd(t, i) == IF Digit(At(t, i)) \/ At(t, i) \in {43, 45, 46, 69, 101} THEN RunEnd(t, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(t, i) == IF Digit(At(t, i)) THEN Digits(t, i + 1) ELSE i
\* <<end, whether it is an integer>>; end 0: not the grammar of numbers
NumForm(t, i) ==
  LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
      b == Digits(t, a)
      okInt == b > a /\ (t[a] = 48 => b = a + 1)
      c == IF At(t, b) = 46 THEN Digits(t, b + 1) ELSE b
      okFrac == c = b \/ c > b + 1
      e0 == IF At(t, c) \in {69, 101} THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      e == IF e0 = c THEN c ELSE Digits(t, e0)
      okExp == e0 = c \/ e > e0
  IN IF okInt /\ okFrac /\ okExp THEN <<e, e = b>> ELSE <<0, FALSE>>
MaxU == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
MinI == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
MaxInt == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
NumLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~KeyLt(b, a))
Num(t, i) ==
  LET f == NumForm(t, i) r == RunEnd(t, i) IN
  IF r = i + 1 /\ t[i] = 45 THEN Bad
  ELSE IF f[1] # r THEN AnyR
  ELSE LET neg == t[i] = 45
           d == SubSeq(t, IF neg THEN i + 1 ELSE i, r - 1)
           x == FText(SubSeq(t, i, r - 1))
       IN IF f[2] /\ NumLe(d, IF neg THEN MinI ELSE MaxU)
          THEN Res("good", [t |-> IF ~neg /\ ~NumLe(d, MaxInt) THEN "u" ELSE "i", v |-> IF neg /\ d = <<48>> THEN "0" ELSE x], r)
          ELSE IF FFinite(x) THEN Res("good", [t |-> "r", v |-> x], r) ELSE AnyR

Word(t, i, w) == \A k \in 1 .. Len(w) : At(t, i + k - 1) = w[k]
\* the value that begins at i, blanks and comments skipped
RECURSIVE Val(_, _, _)
RECURSIVE Elems(_, _, _, _, _)
RECURSIVE Mems(_, _, _, _, _)
Val(t, i, depth) ==
  LET s == Skip(t, i, FALSE) q == IF s[2] THEN "odd" ELSE "good" p == s[1] c == At(t, p) IN
  IF p = 0 THEN Bad
  ELSE IF depth > 900 THEN AnyR
  ELSE IF c = 91 THEN LET e == Skip(t, p + 1, FALSE) IN
       IF e[1] # 0 /\ At(t, e[1]) = 93 THEN Res(IF s[2] \/ e[2] THEN "odd" ELSE "good", A(<<>>), e[1] + 1) ELSE Elems(t, p + 1, <<>>, q, depth + 1)
  ELSE IF c = 123 THEN LET e == Skip(t, p + 1, FALSE) IN
       IF e[1] # 0 /\ At(t, e[1]) = 125 THEN Res(IF s[2] \/ e[2] THEN "odd" ELSE "good", Ob(<<>>), e[1] + 1) ELSE Mems(t, p + 1, <<>>, q, depth + 1)
  ELSE LET r == CASE c = Quote -> Str(t, p + 1, <<>>, "good")
                  [] Digit(c) \/ c = 45 -> Num(t, p)
                  [] c = 116 /\ Word(t, p, <<116, 114, 117, 101>>) -> Res("good", [t |-> "b", v |-> TRUE], p + 4)
                  [] c = 102 /\ Word(t, p, <<102, 97, 108, 115, 101>>) -> Res("good", [t |-> "b", v |-> FALSE], p + 5)
                  [] c = 110 /\ Word(t, p, <<110, 117, 108, 108>>) -> Res("good", Null, p + 4)
                  [] OTHER -> Bad
       IN IF r.i = 0 THEN r ELSE [r EXCEPT !.q = Worse(@, q)]
Elems(t, i, acc, q, depth) ==
  LET r == Val(t, i, depth) IN
  IF r.i = 0 THEN r
  ELSE LET s == Skip(t, r.i, FALSE) a == Eager(Append(acc, r.v)) w == Worse(Worse(q, r.q), IF s[2] THEN "odd" ELSE "good") IN
       IF s[1] = 0 THEN Bad
       ELSE IF At(t, s[1]) = 44 THEN Elems(t, s[1] + 1, a, w, depth)
       ELSE IF At(t, s[1]) = 93 THEN Res(w, A(a), s[1] + 1) ELSE Bad
Mems(t, i, acc, q, depth) ==
  LET s == Skip(t, i, FALSE) IN
  IF s[1] = 0 \/ At(t, s[1]) # Quote THEN Bad
  ELSE LET k == Str(t, s[1] + 1, <<>>, "good") IN
       IF k.i = 0 THEN k
       ELSE LET c == Skip(t, k.i, FALSE) IN
            IF c[1] = 0 \/ At(t, c[1]) # 58 THEN Bad
            ELSE LET r == Val(t, c[1] + 1, depth) IN
                 IF r.i = 0 THEN r
                 ELSE LET e == Skip(t, r.i, FALSE) o == Eager(Put(acc, k.v.v, r.v))
                          w == Worse(Worse(Worse(q, k.q), r.q), IF s[2] \/ c[2] \/ e[2] THEN "odd" ELSE "good")
                      IN IF e[1] = 0 THEN Bad
                         ELSE IF At(t, e[1]) = 44 THEN Mems(t, e[1] + 1, o, w, depth)
                         ELSE IF At(t, e[1]) = 125 THEN Res(w, Ob(o), e[1] + 1) ELSE Bad
\* what a text means; "after": something follows the value
Parse(t) ==
  LET r == Val(t, 1, 1) IN
  IF r.i = 0 THEN r
  ELSE LET s == Skip(t, r.i, FALSE) IN
       IF s[1] # Len(t) + 1 THEN [r EXCEPT !.q = "any"] ELSE [r EXCEPT !.q = IF s[2] THEN "odd" ELSE @]

\* ---------------------------------------------------------------- comparison
IsInt(x) == x.t \in {"i", "u"}
\* the same value: numbers by what they are worth, whatever type holds them
RECURSIVE Fits(_, _)
Fits(x, y) ==
  CASE IsInt(x) /\ IsInt(y) -> x.v = y.v
    [] (x.t = "r" /\ IsInt(y)) \/ (IsInt(x) /\ y.t = "r") \/ (x.t = "r" /\ y.t = "r") -> FEq(x.v, y.v)
    [] x.t = "a" /\ y.t = "a" -> Len(x.v) = Len(y.v) /\ \A i \in 1 .. Len(x.v) : Fits(x.v[i], y.v[i])
    [] x.t = "o" /\ y.t = "o" -> Len(x.v) = Len(y.v) /\ \A i \in 1 .. Len(x.v) : x.v[i][1] = y.v[i][1] /\ Fits(x.v[i][2], y.v[i][2])
    [] x.t = y.t -> x.v = y.v
    [] OTHER -> FALSE
\* and of the same type
RECURSIVE Equal(_, _)
Equal(x, y) ==
  IF x.t # y.t THEN FALSE
  ELSE CASE x.t = "r" -> FEq(x.v, y.v)
         [] x.t = "a" -> Len(x.v) = Len(y.v) /\ \A i \in 1 .. Len(x.v) : Equal(x.v[i], y.v[i])
         [] x.t = "o" -> Len(x.v) = Len(y.v) /\ \A i \in 1 .. Len(x.v) : x.v[i][1] = y.v[i][1] /\ Equal(x.v[i][2], y.v[i][2])
         [] OTHER -> x.v = y.v
RECURSIVE Weight(_)
Weight(x) == LET RECURSIVE Sum(_, _)
                 Sum(q, i) == IF i > Len(q) THEN 0 ELSE Weight(IF x.t = "o" THEN q[i][2] ELSE q[i]) + Sum(q, i + 1)
             IN IF x.t \in {"a", "o"} THEN 1 + Sum(x.v, 1) ELSE 1
RECURSIVE HasNull(_)
HasNull(x) == CASE x.t = "z" -> TRUE
                [] x.t = "a" -> \E i \in 1 .. Len(x.v) : HasNull(x.v[i])
                [] x.t = "o" -> \E i \in 1 .. Len(x.v) : HasNull(x.v[i][2])
                [] OTHER -> FALSE

\* ---------------------------------------------------------------- operations
Ok(s, v) == [st |-> s, r |-> [k |-> "ok", v |-> v]]
Exc(s) == [st |-> s, r |-> [k |-> "exc", v |-> 0]]
Is(x, k) == x.t \in {"z", k}
Items(x) == IF x.t \in {"a", "o"} THEN x.v ELSE <<>>
Pad(q, n) == [i \in 1 .. (IF n > Len(q) THEN n ELSE Len(q)) |-> IF i <= Len(q) THEN q[i] ELSE Null]
B(c) == IF c THEN 1 ELSE 0
Apply(st, op) ==
  LET x == st[op.s] Set(y) == [st EXCEPT ![op.s] = y] IN
  CASE op.o = "set" -> Ok(Set(op.v), 0)
    [] op.o = "copy" -> Ok(Set(st[op.k]), 0)
    [] op.o = "swap" -> Ok([st EXCEPT ![op.s] = st[op.k], ![op.k] = x], 0)
    [] op.o = "append" -> IF Is(x, "a") THEN Ok(Set(A(Append(Items(x), st[op.k]))), 0) ELSE Exc(st)
    [] op.o = "setidx" -> IF Is(x, "a") THEN Ok(Set(A([Pad(Items(x), op.i + 1) EXCEPT ![op.i + 1] = st[op.k]])), 0) ELSE Exc(st)
    [] op.o = "setkey" -> IF Is(x, "o") THEN Ok(Set(Ob(Put(Items(x), op.key, st[op.k]))), 0) ELSE Exc(st)
    [] op.o = "rmkey" -> IF ~Is(x, "o") THEN Exc(st)
                         ELSE IF Find(Items(x), op.key) = {} THEN Ok([st EXCEPT ![op.k] = Null], 0)
                         ELSE LET i == CHOOSE j \in Find(x.v, op.key) : TRUE
                              IN Ok([Set(Ob(Drop(x.v, i))) EXCEPT ![op.k] = x.v[i][2]], 0)
    [] op.o = "rmidx" -> IF x.t = "a" /\ op.i < Len(x.v) THEN Ok(Set(A(Drop(x.v, op.i + 1))), 1) ELSE Ok(st, 0)
    [] op.o = "resize" -> IF Is(x, "a") THEN Ok(Set(A(IF op.n <= Len(Items(x)) THEN SubSeq(Items(x), 1, op.n) ELSE Pad(Items(x), op.n))), 0) ELSE Exc(st)
    [] op.o = "clear" -> IF x.t \in {"z", "a", "o"} THEN Ok(Set(IF x.t = "z" THEN x ELSE [x EXCEPT !.v = <<>>]), 0) ELSE Exc(st)
    [] op.o = "getidx" -> IF Is(x, "a") THEN Ok([st EXCEPT ![op.k] = IF op.i < Len(Items(x)) THEN x.v[op.i + 1] ELSE Null], 0) ELSE Exc(st)
    [] op.o = "getkey" -> IF Is(x, "o") THEN Ok([st EXCEPT ![op.k] = IF Find(Items(x), op.key) = {} THEN Null ELSE x.v[CHOOSE j \in Find(x.v, op.key) : TRUE][2]], 0) ELSE Exc(st)
    [] op.o = "member" -> IF Is(x, "o") THEN Ok(st, B(Find(Items(x), op.key) # {})) ELSE Exc(st)
    [] op.o = "size" -> Ok(st, Len(Items(x)))
    [] op.o = "equal" -> Ok(st, B(Equal(x, st[op.k])))
    \* comments belong to no value
    [] op.o = "comment" -> Ok(st, 0)
    [] op.o = "write" -> Ok([st EXCEPT ![op.k] = Eager(x)], 0)
    [] op.o = "read" -> LET p == Parse(op.text) IN Ok(Set(IF p.q \in {"good", "odd"} THEN p.v ELSE Null), 0)
=============================================================================
