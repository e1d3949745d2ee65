------------------------------- MODULE MCColor ------------------------------
\* All chains of conversions from all colours over a few component values.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Values, Keys, Alphas, Shares, MaxSteps
VARIABLES c, k, n, op
C == INSTANCE Color
View == <<c, k, n>>
Black == <<1, <<0, 0, 0>>, 255>>
Init == c = Black /\ k = Black /\ n = 0 /\ op = <<"new">>
\* one conversion among those the description allows: the nearest component
Round(a, b) == (2 * a + b) \div (2 * b)
ToGrey(x) == IF x[1] = C!Grey THEN x ELSE <<C!Grey, <<Round(C!Weighted(C!AsRgb(x)), 10000)>>, 255>>
ToCmyk(x) == CASE x[1] = C!Cmyk -> x
               [] x[1] = C!Grey -> <<C!Cmyk, <<0, 0, 0, 255 - x[2][1]>>, 255>>
               [] OTHER -> LET m == C!Max3(x[2])
                           IN <<C!Cmyk, [i \in 1..4 |-> IF i = 4 THEN 255 - m ELSE IF m = 0 THEN 0 ELSE Round(255 * (m - x[2][i]), m)], 255>>
Some == {<<1, q, 255>> : q \in [1..3 -> Values]} \cup {<<1, q, a>> : q \in [1..3 -> {0, 200}], a \in Alphas}
        \cup {<<0, <<g>>, 255>> : g \in Values} \cup {<<2, q, 255>> : q \in [1..4 -> Keys]}
Others == {<<1, <<0, 0, 0>>, 255>>, <<1, <<9, 130, 251>>, 255>>} \cup {<<1, <<10, 250, 77>>, a>> : a \in Alphas}
Step == n > 0 /\ n < MaxSteps /\ n' = n + 1
Next ==
    \/ n = 0 /\ n' = 1 /\ UNCHANGED k /\ \E x \in Some : c' = x /\ op' = <<"a", x[1], x[2], x[3]>>
    \/ Step /\ k = Black /\ c[1] = C!Rgb /\ n = 1 /\ UNCHANGED c /\ \E x \in Others : k' = x /\ op' = <<"b", x[1], x[2], x[3]>>
    \/ Step /\ UNCHANGED k /\ c' = C!ToRgb(c) /\ op' = <<"rgb">>
    \/ Step /\ UNCHANGED k /\ c' = ToGrey(c) /\ op' = <<"grey">>
    \/ Step /\ UNCHANGED k /\ c' = ToCmyk(c) /\ op' = <<"cmyk">>
    \/ Step /\ UNCHANGED c /\ k' = c /\ op' = <<"copy">>
    \/ Step /\ c[1] = k[1] /\ k # Black /\ UNCHANGED k /\ c' = C!Plus(c, k) /\ op' = <<"plus">>
    \/ Step /\ c[1] = k[1] /\ k # Black /\ UNCHANGED k /\ c' = C!Minus(c, k) /\ op' = <<"minus">>
    \/ n > 0 /\ UNCHANGED <<c, k, n>> /\ op' = <<"same">>
    \/ n > 0 /\ UNCHANGED <<c, k, n>> /\ op' = <<"white">>
    \/ n > 0 /\ UNCHANGED <<c, k, n>> /\ op' = <<"hsv">>
    \/ n > 0 /\ UNCHANGED <<c, k, n>> /\ op' = <<"viahsv">>
    \/ n > 0 /\ k # Black /\ c[1] = C!Rgb /\ k[1] = C!Rgb /\ UNCHANGED <<c, k, n>> /\ \E a \in Shares : op' = <<"blend", a>>
    \/ n > 0 /\ k # Black /\ c[1] = C!Rgb /\ k[1] = C!Rgb /\ UNCHANGED <<c, k, n>> /\ \E a \in {0, 1, 4, 8} : op' = <<"mix", a>>
    \/ c' = Black /\ k' = Black /\ n' = 0 /\ op' = <<"new">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Typed == C!IsColor(c) /\ C!IsColor(k)
\* the conversions are among the allowed ones, and white and black stay what they are
Allowed == C!IsGreyOf(c, ToGrey(c)) /\ C!IsCmykOf(c, ToCmyk(c))
Kept == /\ C!White(c) => C!White(C!ToRgb(c)) /\ C!White(ToGrey(c)) /\ C!White(ToCmyk(c))
        /\ C!AsRgb(c) = <<0, 0, 0>> => ToGrey(c)[2] = <<0>> /\ C!AsRgb(ToCmyk(c)) = <<0, 0, 0>>
\* a shade of grey survives every way round
Greys == C!AsRgb(c)[1] = C!AsRgb(c)[2] /\ C!AsRgb(c)[2] = C!AsRgb(c)[3] =>
           /\ ToGrey(c)[2][1] = C!AsRgb(c)[1]
           /\ C!AsRgb(ToGrey(ToCmyk(ToGrey(c)))) = C!AsRgb(c)
           /\ C!AsRgb(ToCmyk(C!ToRgb(c))) = C!AsRgb(c)
\* conversions do nothing the second time
Once == ToGrey(ToGrey(c)) = ToGrey(c) /\ ToCmyk(ToCmyk(c)) = ToCmyk(c) /\ C!ToRgb(C!ToRgb(c)) = C!ToRgb(c)
Group == c[1] = k[1] => C!Minus(C!Plus(c, k), k) = c
=============================================================================
