------------------------------- MODULE MCUint -------------------------------
(* UBigInt: histories over two registers, from operands made of boundary limbs *)
EXTENDS Calculator

CONSTANTS Limbs, LenX, LenY
OfX == {U(x) : x \in OfLimbs(Limbs, LenX)}
OfY == {U(x) : x \in OfLimbs(Limbs, LenY)}
OfZ == {U(M32)}

InU(n, c) == In("u", n, <<1>>, c)
In2(n) == In("u", n, <<1, 2>>, <<>>)
AskU(n, a, c) == Ask("u", n, a, c)
MovesU == {In2(n) : n \in {"add", "sub", "mul", "div", "rem"}}
          \cup {To("u", n, <<2, 1>>, <<>>, 2) : n \in {"add", "abs_diff", "div", "rem"}}
          \cup {InU("shift_left", <<N(ZOne)>>), InU("shift_right", <<N(ZOne)>>), InU("mul_u32", <<N(M32)>>), InU("div_u32", <<N(H32)>>),
                InU("add_u32", <<N(ZOne)>>), InU("sub_u32", <<N(ZOne)>>), InU("pow_u32", <<N(ZTwo)>>)}

SmallLooks(n) == <<AskU(n, <<1>>, <<N(ZZero)>>), AskU(n, <<1>>, <<N(ZOne)>>), AskU(n, <<1>>, <<N(H32)>>), AskU(n, <<1>>, <<N(M32)>>),
                   InU(n, <<N(ZZero)>>), InU(n, <<N(ZOne)>>), InU(n, <<N(H32)>>), InU(n, <<N(M32)>>)>>
BigLooks(n) == <<AskU(n, <<1, 2>>, <<>>), AskU(n, <<2, 1>>, <<>>), AskU(n, <<1, 1>>, <<>>), In2(n)>>
ShiftLooks(n) == Flat([k \in 1..4 |-> <<AskU(n, <<1>>, <<N(Z(k - 1))>>), InU(n, <<N(Z(k - 1))>>)>>])
LooksAdd == Each(BigLooks, <<"add", "sub">>) \o Each(SmallLooks, <<"add_u32", "sub_u32">>)
            \o <<AskU("abs_diff", <<1, 2>>, <<>>), AskU("abs_diff", <<2, 1>>, <<>>), AskU("abs_diff_u32", <<1>>, <<N(M32)>>), AskU("sum", <<1, 2, 3, 1>>, <<>>)>>
LooksMul == Each(BigLooks, <<"mul">>) \o Each(SmallLooks, <<"mul_u32">>) \o Each(ShiftLooks, <<"shift_left", "shift_right">>)
            \o <<AskU("pow_u32", <<1>>, <<N(Z(3))>>), AskU("pow_u32", <<1>>, <<N(Z(4))>>), InU("pow_u32", <<N(Z(5))>>),
                 AskU("mul_pow2", <<1>>, <<N(Z(33))>>), InU("mul_pow2", <<N(Z(31))>>), AskU("product", <<1, 2, 1>>, <<>>)>>
LooksDiv == Each(BigLooks, <<"div", "rem">>) \o Each(SmallLooks, <<"div_u32", "rem_u32">>)
LooksOrder == OrderLooks("u") \o SmallCmps32("u", "u32", <<ZZero, ZOne, H32, M32>>)
Machine == <<"as_u8", "as_u16", "as_u32", "as_u64", "as_u128", "as_i32", "as_i64", "as_i128", "to_u32", "to_u64", "to_u128", "own_u32", "own_u64", "own_i64">>
LooksMachine == [k \in 1..Len(Machine) |-> AskU(Machine[k], <<1>>, <<>>)]
Texts == <<"dec", "hex", "oct", "bin", "hexp", "octp", "binp", "fmt_x", "fmt_xp", "fmt_o", "fmt_b">>
LooksText == [k \in 1..Len(Texts) |-> AskU(Texts[k], <<1>>, <<>>)]
LooksFuncs == <<AskU("gcd", <<1, 2>>, <<>>), AskU("gcd", <<2, 1>>, <<>>), AskU("sqrt", <<1>>, <<>>), AskU("log2", <<1>>, <<>>),
                AskU("log2_accurate", <<1>>, <<>>), AskU("sqrt", <<2>>, <<>>)>>

LawsAdd == LawAddU(regs[1], regs[2])
LawsMul == LawMulU(regs[1], regs[2])
LawsDiv == LawDivU(regs[1], regs[2])
LawsOrder == LawOrder("u", regs[1], regs[2], regs[3])
LawsMachine == LawMachine("u", regs[1])
LawsText == LawText("u", regs[1])
LawsFuncs == LawFuncs(regs[1], regs[2])
LawsNone == TRUE
=============================================================================
