------------------------------- MODULE MCRatio -------------------------------
(* Ratio: histories over small fractions and fractions of boundary limbs *)
EXTENDS Calculator

CONSTANTS Nums, Dens
SmallNum == {Z(k) : k \in -3..3}
WideNum == PlusMinus({ZZero, ZOne, Z(3), H32, M32, N32, ZAdd(N32, ZOne)})
SmallDen == {Z(k) : k \in 1..4}
WideDen == {ZOne, ZTwo, Z(3), H32, M32, N32, ZMul(M32, Z(3))}
OfX == {R(n, d) : n \in Nums, d \in Dens}
OfZ == {R(Z(-7), Z(6))}

MinI == ZNeg(H32)
InR(n, c) == In("r", n, <<1>>, c)
In2(n) == In("r", n, <<1, 2>>, <<>>)
AskR(n, a, c) == Ask("r", n, a, c)
MovesR == {In2(n) : n \in {"add", "sub", "mul", "div"}}
          \cup {To("r", n, <<2, 1>>, <<>>, 2) : n \in {"sub", "div"}}
          \cup {InR("neg", <<>>), InR("reci", <<>>), InR("abs", <<>>), InR("frac", <<>>), InR("truncate", <<>>), To("r", "floor", <<1>>, <<>>, 1), To("r", "round", <<1>>, <<>>, 1),
                InR("add_i32", <<N(Z(-1))>>), InR("mul_i32", <<N(Z(-6))>>), InR("div_i32", <<N(MinI)>>), InR("pow_i32", <<N(Z(-2))>>)}

BigLooks(n) == <<AskR(n, <<1, 2>>, <<>>), AskR(n, <<2, 1>>, <<>>), AskR(n, <<1, 1>>, <<>>), In2(n)>>
SmallLooks(n) == Flat([k \in 1..5 |-> LET c == <<N(<<ZZero, ZOne, Z(-1), Z(6), MinI>>[k])>>
                                      IN  <<AskR(n, <<1>>, c), InR(n, c)>>])
OneLooks(n) == <<AskR(n, <<1>>, <<>>), InR(n, <<>>)>>
PowLooks(k) == <<AskR("pow_i32", <<1>>, <<N(Z(k))>>), InR("pow_i32", <<N(Z(k))>>)>>
LooksRatio == Each(BigLooks, <<"add", "sub", "mul", "div">>) \o Each(SmallLooks, <<"add_i32", "sub_i32", "mul_i32", "div_i32">>)
              \o Each(OneLooks, <<"neg", "abs", "reci">>) \o Each(PowLooks, <<-3, -1, 0, 1, 4>>)
              \o <<AskR("numer", <<1>>, <<>>), AskR("denom", <<1>>, <<>>), AskR("pair", <<1>>, <<>>), AskR("common_denom", <<1, 2>>, <<>>),
                   AskR("is_zero", <<1>>, <<>>), AskR("is_one", <<1>>, <<>>), AskR("is_neg", <<1>>, <<>>)>>
LooksRound == Each(OneLooks, <<"truncate", "frac">>)
              \o <<AskR("floor", <<1>>, <<>>), AskR("round", <<1>>, <<>>), AskR("floor_bi", <<1>>, <<>>), AskR("round_bi", <<1>>, <<>>), AskR("truncate_bi", <<1>>, <<>>), AskR("truncate_and_frac", <<1>>, <<>>), AskR("is_integer", <<1>>, <<>>)>>
LooksOrder == OrderLooks("r") \o SmallCmps32("r", "i32", <<ZZero, ZOne, Z(-1), MinI>>) \o <<AskR("lt_one", <<1>>, <<>>), AskR("gt_one", <<1>>, <<>>)>>
Machine == <<"as_u8", "as_u16", "as_u32", "as_u64", "as_u128", "as_i8", "as_i16", "as_i32", "as_i64", "as_i128">>
LooksMachine == [k \in 1..Len(Machine) |-> AskR(Machine[k], <<1>>, <<>>)] \o <<AskR("as_f32", <<1>>, <<>>), AskR("as_f64", <<1>>, <<>>)>>
LooksText == <<AskR("ratio_string", <<1>>, <<>>), AskR("to_string", <<1>>, <<>>)>>
             \o [k \in 1..12 |-> AskR("approx", <<1>>, <<N(Z(2 * k))>>)] \o [k \in 1..6 |-> AskR("sci", <<1>>, <<N(Z(2 * k))>>)]

LawsRatio == LawRatio(regs[1], regs[2], regs[3])
LawsRound == LawRound(regs[1])
LawsOrder == LawOrder("r", regs[1], regs[2], regs[3])
LawsMachine == LawMachine("r", regs[1])
LawsNone == TRUE
=============================================================================
