-------------------------------- MODULE Color -------------------------------
\* Colours: <<mode, components, alpha>>, components and alpha in 0..255. Conversions that need a division are
\* described by the exact rational value; the code stores whole numbers, so a component may be off by one.
EXTENDS Integers, Sequences
Grey == 0
Rgb == 1
Cmyk == 2
Size(m) == CASE m = Grey -> 1 [] m = Rgb -> 3 [] m = Cmyk -> 4
Byte == 0..255
IsColor(c) == c[1] \in {Grey, Rgb, Cmyk} /\ Len(c[2]) = Size(c[1]) /\ (\A i \in DOMAIN c[2] : c[2][i] \in Byte) /\ c[3] \in Byte
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Max3(q) == Max2(q[1], Max2(q[2], q[3]))
Min3(q) == Min2(q[1], Min2(q[2], q[3]))
Abs(x) == IF x < 0 THEN -x ELSE x
\* v lies at most `off' (in units) from the rational n/d
Near(v, n, d, off) == Abs(v * d - n) <= off * d

\* the components as red, green, blue (exact, PDF reference 6.2.4)
AsRgb(c) ==
    CASE c[1] = Rgb -> c[2]
      [] c[1] = Grey -> <<c[2][1], c[2][1], c[2][1]>>
      [] c[1] = Cmyk -> [i \in 1..3 |-> 255 - Min2(255, c[2][i] + c[2][4])]
ToRgb(c) == <<Rgb, AsRgb(c), c[3]>>

\* 10000 times the brightness
Weighted(q) == 2126 * q[1] + 7152 * q[2] + 722 * q[3]
White(c) == CASE c[1] = Grey -> c[2][1] = 255
              [] c[1] = Rgb -> c[2] = <<255, 255, 255>>
              [] c[1] = Cmyk -> c[2] = <<0, 0, 0, 0>>
IsGreyOf(c, r) ==
    /\ r[1] = Grey
    /\ IF c[1] = Grey THEN r = c
       ELSE \E q \in {AsRgb(c)} :
              /\ Near(r[2][1], Weighted(q), 10000, 1)
              /\ q = <<255, 255, 255>> => r[2][1] = 255
              /\ q = <<0, 0, 0>> => r[2][1] = 0
\* the key is what the strongest component leaves, the others are relative to it
IsCmykOf(c, r) ==
    /\ r[1] = Cmyk
    /\ CASE c[1] = Cmyk -> r = c
         [] c[1] = Grey -> r[2] = <<0, 0, 0, 255 - c[2][1]>>
         [] c[1] = Rgb ->
              \E m \in {Max3(c[2])} :
                 /\ Abs(r[2][4] - (255 - m)) <= 1
                 /\ m = 0 => r[2] = <<0, 0, 0, 255>>
                 /\ m > 0 => \A i \in 1..3 : Near(r[2][i], 255 * (m - c[2][i]), m, 1)
                 /\ White(c) => White(r)

\* hue in degrees, saturation and value in parts of one, all given here times 1000
IsHsvOf(c, h) ==
    \E q \in {AsRgb(c)} : \E mx \in {Max3(q)}, mn \in {Min3(q)} :
       LET d == mx - mn
           n == CASE mx = q[1] -> 60 * (q[2] - q[3])
                  [] mx = q[2] -> 120 * d + 60 * (q[3] - q[1])
                  [] OTHER -> 240 * d + 60 * (q[1] - q[2])
           \* the hue in [0, 360)
           w == IF n < 0 THEN n + 360 * d ELSE n
       IN /\ Near(h[3], 1000 * mx, 255, 1)
          /\ IF d = 0 THEN h[1] = 0 /\ h[2] = 0
             ELSE /\ Near(h[2], 1000 * d, mx, 1)
                  /\ Near(h[1], 1000 * w, d, 2)
\* the colour of a hue (degrees), saturation and value (percent)
IsFromHsv(h, s, v, al, r) ==
    LET hi == h \div 60
        f == h % 60
        p == v * (100 - s) * 60
        q == v * (6000 - s * f)
        t == v * (6000 - s * (60 - f))
        w == v * 6000
        \* times 600000 / 255
        e == CASE hi \in {0, 6} -> <<w, t, p>>
               [] hi = 1 -> <<q, w, p>>
               [] hi = 2 -> <<p, w, t>>
               [] hi = 3 -> <<p, q, w>>
               [] hi = 4 -> <<t, p, w>>
               [] hi = 5 -> <<w, p, q>>
    IN /\ r[1] = Rgb
       /\ \A i \in 1..3 : Near(r[2][i], 255 * (e[i] \div 100), 6000, 2)
       /\ Near(r[3], 255 * al, 100, 1)

\* background b, foreground f (both red-green-blue)
IsBlend(b, f, al, r) ==
    /\ r[1] = Rgb
    /\ IF b[3] = 255 /\ f[3] = 255
       THEN /\ r[3] = 255
            /\ \A i \in 1..3 : Near(r[2][i], al * f[2][i] + (255 - al) * b[2][i], 255, 1)
            /\ al = 255 => r[2] = f[2]
            /\ al = 0 => r[2] = b[2]
       \* Porter and Duff, foreground over background
       ELSE \E n \in {255 * f[3] + (255 - f[3]) * b[3]} :
              /\ Near(r[3], n, 255, 1)
              /\ n > 0 => \A i \in 1..3 : Near(r[2][i], 255 * f[3] * f[2][i] + (255 - f[3]) * b[3] * b[2][i], n, 1)
\* a share of pc/8 on the way from c to e
IsInterpolation(c, e, pc, r) ==
    /\ r[1] = Rgb
    /\ \A i \in 1..3 : Near(r[2][i], 8 * c[2][i] + pc * (e[2][i] - c[2][i]), 8, 1)
    /\ Near(r[3], 8 * c[3] + pc * (e[3] - c[3]), 8, 1)
    /\ pc = 0 => r = c
    /\ pc = 8 => r = e
\* component by component, beginning anew after 255
Plus(c, e) == <<c[1], [i \in DOMAIN c[2] |-> (c[2][i] + e[2][i]) % 256], (c[3] + e[3]) % 256>>
Minus(c, e) == <<c[1], [i \in DOMAIN c[2] |-> (c[2][i] - e[2][i]) % 256], (c[3] - e[3]) % 256>>
=============================================================================
