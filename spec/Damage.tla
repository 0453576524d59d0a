------------------------------- MODULE Damage -------------------------------
(* What one damage instance deals.

   Input record x (everything an integer; *3: thousandths, *4: 1e-4 units):
     cls   class of damage          pot   potency3          sdm  the action's own factor3
     L     constants of the level   jm    job modifier      role "tank" "mag" "phys"   sks: uses skill speed
     wd dly main det dhs crs spd ten str roles              the character (dly ms, str: strength of casters)
     msm   <<factor3, ..>> on main stat, msa added          mult <<factor3, ..>> on damage
     ca da added critical / direct hit chance4              gc gd <<action, press, buffs, debuffs>> each 0, 1 yes, 2 no
     trait factor3 of the job, or the action's own          pjm (NONE: the job's) psc3   for pets

   The implementation computes in floating point.  Where an intermediate value
   is an integer in exact arithmetic, its float may lie just below it, so
   truncation may yield either side: truncations are set-valued there.  All
   other values must come out exactly. *)
EXTENDS Prim, BigNat

\* ------------------------------------------------ characters: step functions
Det(L, s)      == (L.det * (s - L.main)) \div L.div + 1000
DetDh(L, s, d) == Det(L, s) + (L.det * (d - L.sub)) \div L.div
Tnc(L, s)      == (L.ten * (s - L.sub)) \div L.div + 1000
Spd(L, s)      == (L.spc * (s - L.sub)) \div L.div + 1000
CritStep(L, s) == (L.crit[1] * (s - L.sub)) \div L.div
CritRate(L, s) == CritStep(L, s) + L.crit[2]
CritBonus(L, s) == CritStep(L, s) + L.crit[3]
DhRate(L, s)   == (L.dh * (s - L.sub)) \div L.div
AP(L, m, tank) == ((IF tank THEN L.fapt ELSE L.fap) * (m - L.main)) \div L.main + 100
WD(L, w, jm)   == (L.main * jm) \div 1000 + w
AutoMult(L, w, dly, jm) == (WD(L, w, jm) * dly) \div 3000
\* a time of t ms for a speed stat
Ceil(n, d) == -((-n) \div d)
SpeedTime(L, t, s) == 10 * ((t * (1000 + Ceil(L.spc * (L.sub - s), L.div))) \div 10000)

\* ------------------------------------------------ truncation
RECURSIVE DivAll(_, _, _, _)
DivAll(a, ds, i, exact) == IF i > Len(ds) THEN [q |-> a, exact |-> exact]
                           ELSE LET d == DivS(a, ds[i]) IN DivAll(d.q, ds, i + 1, exact /\ d.r = 0)
Trunc1(a, ds) == LET d == DivAll(a, ds, 1, TRUE) IN IF d.exact /\ d.q # <<>> THEN {d.q, Sub(d.q, <<1>>)} ELSE {d.q}
\* truncation of S * k / (d1 * d2 * ...)
Trunc(S, k, ds) == UNION {Trunc1(MulS(a, k), ds) : a \in S}
RECURSIVE MulAll(_, _, _)
MulAll(a, ks, i) == IF i > Len(ks) THEN a ELSE MulAll(MulS(a, ks[i]), ks, i + 1)
Thousands(ks) == [i \in DOMAIN ks |-> 1000]
TruncAll(S, ks) == UNION {Trunc1(MulAll(a, ks, 1), Thousands(ks)) : a \in S}
FloorEither(n, d) == IF n % d = 0 THEN {n \div d, n \div d - 1} ELSE {n \div d}

\* ------------------------------------------------ guarantees and chances
Forced(g)   == \E i \in DOMAIN g : g[i] = 1
Forbidden(g) == \E i \in DOMAIN g : g[i] = 2
Contradiction(x) == (Forced(x.gc) /\ Forbidden(x.gc)) \/ (Forced(x.gd) /\ Forbidden(x.gd))
CritChance(x) == IF Forced(x.gc) THEN 10000 ELSE IF Forbidden(x.gc) THEN 0 ELSE 10 * CritRate(x.L, x.crs) + x.ca
DhChance(x)   == IF Forced(x.gd) THEN 10000 ELSE IF Forbidden(x.gd) THEN 0 ELSE 10 * DhRate(x.L, x.dhs) + x.da

\* ------------------------------------------------ base damage
MainBeforeParty(x, m) == {ToInt(a) + x.msa : a \in IF x.msm = <<>> THEN {Nat2(m)} ELSE TruncAll({Nat2(m)}, x.msm)}
MainStat(x) == UNION {FloorEither(m * (100 + x.roles), 100) : m \in MainBeforeParty(x, x.main)}
DetOf(x) == IF Forced(x.gd) THEN DetDh(x.L, x.det, x.dhs) ELSE Det(x.L, x.det)
Pot(x) == Nat2(x.pot)

\* potency and attack power, determination, tenacity (hundredths)
Common(x, ap) == LET a == Trunc({MulS(Pot(x), ap)}, 1, <<1000, 100>>)
                     b == Trunc(a, DetOf(x), <<1000>>)
                 IN IF x.role = "tank" THEN Trunc(b, Tnc(x.L, x.ten), <<1000>>) ELSE b

Direct(x, ap) ==
    LET w == WD(x.L, x.wd, x.jm) IN
    IF x.role = "mag"
    THEN LET a == Trunc({Nat2(ap)}, DetOf(x), <<1000>>)
             p == Trunc({MulS(Pot(x), w)}, 1, <<1000, 100>>)
         IN UNION {Trunc1(Mul(u, v), <<100>>) : u \in a, v \in p}
    ELSE Trunc(Common(x, ap), w, <<100>>)

MagicalDot(x, ap) ==
    LET a == Trunc(Trunc({MulS(Pot(x), WD(x.L, x.wd, x.jm))}, 1, <<1000>>), 1, <<100>>)
        b == {MulS(MulS(u, ap), Spd(x.L, x.spd)) : u \in a}
        c == Trunc(b, DetOf(x), <<1000>>)
        d == IF x.role = "tank" THEN Trunc(c, Tnc(x.L, x.ten), <<1000>>) ELSE c
    IN Trunc(Trunc(d, 1, <<1000>>), 1, <<100>>)

PhysicalDot(x, ap) ==
    LET a == Trunc({MulS(MulS(Pot(x), ap), DetOf(x))}, 1, <<1000, 100>>)     \* thousandths
        s == Spd(x.L, x.spd)
        b == IF x.role = "tank" THEN Trunc(Trunc(a, Tnc(x.L, x.ten), <<1000, 1000>>), s, <<1>>)
             ELSE Trunc(a, s, <<1000>>)
        c == Trunc(b, 1, <<1000>>)
    IN Trunc(Trunc(c, WD(x.L, x.wd, x.jm), <<1>>), 1, <<100>>)

Auto(x, ap) ==
    LET s == IF x.sks THEN Spd(x.L, x.spd) ELSE 1000
        b == Trunc(Common(x, ap), s, <<100>>)                                \* tenths
    IN Trunc(Trunc(b, AutoMult(x.L, x.wd, x.dly, x.jm), <<10>>), 1, <<100>>)

Pet(x, ap) == Trunc(Common(x, ap), WD(x.L, x.wd, IF x.pjm = NONE THEN x.jm ELSE x.pjm), <<100>>)

APs(x) == CASE x.cls = "PET" ->
                  LET j    == IF x.pjm = NONE THEN x.jm ELSE x.pjm
                      diff == (x.L.main * x.jm) \div 100 - (x.L.main * j) \div 100
                  IN UNION {{a + 100 : a \in FloorEither(x.L.fap * (m * x.psc - 1000 * x.L.main), 1000 * x.L.main)}
                            : m \in MainBeforeParty(x, x.main - diff)}
            [] x.cls = "AUTO" /\ x.role = "mag" ->
                  {a + 100 : a \in FloorEither(x.L.fap * (x.str * (100 + x.roles) - 100 * x.L.main), 100 * x.L.main)}
            [] OTHER -> {AP(x.L, m, x.role = "tank") : m \in MainStat(x)}

Formula(x, ap) == CASE x.cls = "DIRECT" -> Direct(x, ap)
                    [] x.cls = "MAGICAL_DOT" -> MagicalDot(x, ap)
                    [] x.cls = "PHYSICAL_DOT" -> PhysicalDot(x, ap)
                    [] x.cls = "AUTO" -> Auto(x, ap)
                    [] OTHER -> Pet(x, ap)

\* chances that a guaranteed hit cannot use become damage
Surplus(x, b) ==
    LET d == IF Forced(x.gd) /\ x.da > 0 THEN Trunc({b}, 25 * x.da, <<1000, 1000>>) ELSE {<<>>}
        c == IF Forced(x.gc) /\ x.ca > 0 THEN UNION {Trunc1(MulS(MulS(b, CritBonus(x.L, x.crs)), x.ca), <<10000, 1000>>)} ELSE {<<>>}
    IN {Add(b, Add(u, v)) : u \in d, v \in c}

\* base damage, in thousandths
AtLeastOne(a) == IF Leq(a, <<1000>>) THEN <<1000>> ELSE a
BaseDamage(x) ==
    IF x.pot = 0 THEN {<<>>}
    ELSE UNION {IF ap <= 0 THEN {<<1000>>}
                ELSE {AtLeastOne(MulS(b, x.sdm)) : b \in UNION {Surplus(x, u) : u \in Formula(x, ap)}}
                : ap \in APs(x)}

\* ------------------------------------------------ one roll and its outcome
Outcomes == <<<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>>>   \* <<critical, direct>>
Chain(x, R, o) ==
    LET a == IF o[1] THEN UNION {{Add(r, u) : u \in Trunc({r}, CritBonus(x.L, x.crs), <<1000>>)} : r \in R} ELSE R
        b == IF o[2] THEN UNION {{Add(r, u) : u \in Trunc({r}, 1, <<4>>)} : r \in a} ELSE a
        c == Trunc(b, x.trait, <<1000>>)
    IN IF x.mult = <<>> THEN Trunc(c, 1, <<1>>) ELSE TruncAll(c, x.mult)
Low(b3)  == Trunc({b3}, 95, <<1000, 100>>)
High(b3) == Trunc({b3}, 105, <<1000, 100>>)
LowOf(x, b3, o)  == Chain(x, Low(b3), o)
HighOf(x, b3, o) == Chain(x, High(b3), o)

\* outcome probabilities, in 1e-8
Prob(x, o) == (IF o[1] THEN CritChance(x) ELSE 10000 - CritChance(x)) * (IF o[2] THEN DhChance(x) ELSE 10000 - DhChance(x))

\* a damage s is reachable from a roll r in lo..hi: Chain is monotone in r
MaxB(S) == CHOOSE a \in S : \A c \in S : Leq(c, a)
RECURSIVE FirstAtLeast(_, _, _, _, _)
FirstAtLeast(x, o, s, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF Leq(s, MaxB(Chain(x, {Nat2(m)}, o))) THEN FirstAtLeast(x, o, s, lo, m) ELSE FirstAtLeast(x, o, s, m + 1, hi)
Reachable(x, b3, o, s) ==
    LET lo == ToInt(CHOOSE a \in Low(b3) : \A c \in Low(b3) : Leq(a, c))
        hi == ToInt(MaxB(High(b3)))
        r  == FirstAtLeast(x, o, s, lo, hi)
    IN \E k \in {r, r + 1, r + 2} : k <= hi /\ s \in Chain(x, {Nat2(k)}, o)
=============================================================================
