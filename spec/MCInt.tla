-------------------------------- MODULE MCInt --------------------------------
(* BigInt: histories over signed operands made of boundary limbs *)
EXTENDS Calculator

CONSTANTS Limbs, LenX, LenY
OfX == {I(x) : x \in PlusMinus(OfLimbs(Limbs, LenX))}
OfY == {I(x) : x \in PlusMinus(OfLimbs(Limbs, LenY))}
OfZ == {I(ZNeg(M32))}

MinI == ZNeg(H32)
MaxI32 == ZSub(H32, ZOne)
InI(n, c) == In("i", n, <<1>>, c)
In2(n) == In("i", n, <<1, 2>>, <<>>)
AskI(n, a, c) == Ask("i", n, a, c)
MovesI == {In2(n) : n \in {"add", "sub", "mul", "div", "rem"}}
          \cup {To("i", n, <<2, 1>>, <<>>, 2) : n \in {"sub", "div", "rem"}}
          \cup {InI("neg", <<>>), InI("abs", <<>>), InI("add_i32", <<N(MinI)>>), InI("sub_i32", <<N(ZOne)>>), InI("mul_i32", <<N(MinI)>>),
                InI("div_i32", <<N(Z(-3))>>), InI("rem_i32", <<N(MinI)>>), InI("shift_right", <<N(ZOne)>>)}

BigLooks(n) == <<AskI(n, <<1, 2>>, <<>>), AskI(n, <<2, 1>>, <<>>), AskI(n, <<1, 1>>, <<>>), In2(n)>>
SmallLooks(n) == Flat([k \in 1..6 |-> LET c == <<N(<<ZZero, ZOne, Z(-1), MaxI32, MinI, Z(-7)>>[k])>>
                                      IN  <<AskI(n, <<1>>, c), InI(n, c)>>])
ShiftLooks(n) == Flat([k \in 1..3 |-> <<AskI(n, <<1>>, <<N(Z(k - 1))>>), InI(n, <<N(Z(k - 1))>>)>>])
LooksInt == Each(BigLooks, <<"add", "sub", "mul", "div", "rem">>) \o Each(SmallLooks, <<"add_i32", "sub_i32", "mul_i32", "div_i32", "rem_i32">>)
            \o Each(ShiftLooks, <<"shift_left", "shift_right">>)
            \o <<AskI("neg", <<1>>, <<>>), InI("neg", <<>>), AskI("abs", <<1>>, <<>>), InI("abs", <<>>), AskI("pow_u32", <<1>>, <<N(Z(3))>>), InI("pow_u32", <<N(Z(2))>>),
                 AskI("is_neg", <<1>>, <<>>), AskI("is_zero", <<1>>, <<>>), AskI("is_one", <<1>>, <<>>)>>
LooksOrder == OrderLooks("i") \o SmallCmps32("i", "i32", <<ZZero, ZOne, Z(-1), MaxI32, MinI>>)
Machine == <<"as_u8", "as_u16", "as_u32", "as_u64", "as_u128", "as_i8", "as_i16", "as_i32", "as_i64", "as_i128", "to_i32", "to_i64", "to_i128", "own_i32", "own_i64", "own_i128">>
LooksMachine == [k \in 1..Len(Machine) |-> AskI(Machine[k], <<1>>, <<>>)]
Texts == <<"dec", "hex", "oct", "bin", "hexp", "octp", "binp", "fmt_x", "fmt_xp", "fmt_o", "fmt_b">>
LooksText == [k \in 1..Len(Texts) |-> AskI(Texts[k], <<1>>, <<>>)]
LooksFuncs == <<AskI("gcd", <<1, 2>>, <<>>), AskI("gcd", <<2, 1>>, <<>>), AskI("sqrt", <<1>>, <<>>), AskI("log2", <<1>>, <<>>), AskI("log2_accurate", <<1>>, <<>>)>>

LawsInt == LawInt(regs[1], regs[2])
LawsOrder == LawOrder("i", regs[1], regs[2], regs[3])
LawsMachine == LawMachine("i", regs[1])
LawsText == LawText("i", regs[1])
LawsNone == TRUE
=============================================================================
