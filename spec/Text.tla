--------------------------------- MODULE Text ---------------------------------
(* Values as text, as sequences of character codes. *)
EXTENDS Big
RECURSIVE Digits(_)
Digits(v) == IF BLt(v, "10") THEN <<48 + BInt(v)>> ELSE Append(Digits(BDiv(v, "10")), 48 + BInt(BMod(v, "10")))
Dec(v) == IF BSgn(v) < 0 THEN <<45>> \o Digits(BNeg(v)) ELSE Digits(v)
\* an integer given by its two's complement bytes, low first
IntOf(signed, bytes) == IF signed THEN BSigned(BLE(bytes), 8 * Len(bytes)) ELSE BLE(bytes)
UpToNul(q) == LET z == {j \in 1..Len(q) : q[j] = 0} IN IF z = {} THEN q ELSE SubSeq(q, 1, (CHOOSE j \in z : \A m \in z : j <= m) - 1)
T_Open == <<91>>
T_Sep == <<44, 32>>
T_Close == <<93>>
T_True == <<35, 60, 84, 62>>
T_False == <<35, 60, 70, 62>>
T_Nil == <<35, 60, 110, 105, 108, 62>>
T_Enum == <<35, 60, 101, 110, 117, 109, 32>>
T_Ptr == <<35, 60, 112, 116, 114, 32>>
\* a value: <<"int", signed, bytes>>  <<"bool", b>>  <<"char", code>>  <<"enum", signed, bytes>>  <<"nil">>  <<"ptr", address>>
\*          <<"cstr", codes>> (text of any length)  <<"carr", codes>> (char array: text up to its NUL or its end)
\*          <<"list", values>> (array or vector, of any values, lists included)
RECURSIVE Render(_), RenderAll(_, _)
Render(v) ==
    CASE v[1] = "int"  -> Dec(IntOf(v[2], v[3]))
      [] v[1] = "bool" -> IF v[2] THEN T_True ELSE T_False
      [] v[1] = "char" -> <<v[2]>>
      [] v[1] = "enum" -> T_Enum \o Dec(IntOf(v[2], v[3])) \o <<62>>
      \* enumerators of a type over char or bool: the character, or the truth value
      [] v[1] = "enumof" -> T_Enum \o Render(v[2]) \o <<62>>
      [] v[1] = "nil"  -> T_Nil
      [] v[1] = "ptr"  -> T_Ptr \o Dec(v[2]) \o <<62>>
      [] v[1] = "cstr" -> v[2]
      [] v[1] = "carr" -> UpToNul(v[2])
      [] v[1] = "list" -> T_Open \o RenderAll(v[2], 1) \o T_Close
RenderAll(q, j) == IF j > Len(q) THEN <<>> ELSE (IF j > 1 THEN T_Sep ELSE <<>>) \o Render(q[j]) \o RenderAll(q, j + 1)
\* several values one after the other
RECURSIVE Concat(_, _)
Concat(q, j) == IF j > Len(q) THEN <<>> ELSE Render(q[j]) \o Concat(q, j + 1)
\* inside as_string a C string gives at most 1024 characters, unless it is the only argument
Cut(v) == IF v[1] = "cstr" /\ Len(v[2]) > 1024 THEN <<"cstr", SubSeq(v[2], 1, 1024)>> ELSE v
AsString(q) == IF Len(q) = 1 THEN Concat(q, 1) ELSE Concat([j \in 1..Len(q) |-> Cut(q[j])], 1)
=============================================================================
