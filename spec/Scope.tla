-------------------------------- MODULE Scope --------------------------------
(* Scoped changes of variables: opening a scope saves the value of one variable and sets it, closing the innermost
   scope - for whatever reason - puts back the value saved.  val: values, open: stack of <<variable, saved value>>. *)
EXTENDS Integers, Sequences
VARIABLES val, open
scVars == <<val, open>>
ScInit(v)  == val = v /\ open = <<>>
Set(k, x)  == val' = [val EXCEPT ![k] = x] /\ UNCHANGED open
Let(k, x)  == val' = [val EXCEPT ![k] = x] /\ open' = Append(open, <<k, val[k]>>)
Close      == /\ open # <<>>
              /\ LET t == open[Len(open)] IN val' = [val EXCEPT ![t[1]] = t[2]] /\ open' = SubSeq(open, 1, Len(open) - 1)
\* a scope that can not be opened changes nothing
Fail       == UNCHANGED scVars
=============================================================================
