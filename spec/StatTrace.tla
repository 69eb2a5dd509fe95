----------------------------- MODULE StatTrace ------------------------------
(***************************************************************************)
(* Validates recorded frequencies: one training sample given n times to    *)
(* the same learned state, with generators that go on. The counts of what  *)
(* changed must be those of the laws stated here, within a bound that      *)
(* correct code misses with probability below 2 exp(-24) each (Hoeffding). *)
(* Draws.tla derives the laws from the draws by counting all outcomes.     *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

VARIABLES l, M

Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Newton(_, _)
Newton(k, r) == IF r * r <= k THEN r ELSE Newton(k, (r + (k \div r)) \div 2)
Isqrt(k) == Newton(k, IF k < 46000 THEN k ELSE 46000)

\* is `count` that of n events of probability num/den, made of `trials` draws?
Near(count, n, num, den, trials) == Abs(count * den - n * num) <= den * (Isqrt(12 * trials) + 2)

\* clauses in whose rows nothing is near the ends
Roomy(m, o) ==
    \A r \in {PosRow(o), NegRow(o)} : \A j \in DOMAIN m.rows[r] :
        \* (a hundred hits of one literal out of thousands do not happen)
        m.rows[r][j] - Min2(SetMax(m.H) * 4, 100) >= -m.N /\ m.rows[r][j] + 4 < m.N

\* the literals of a clause that gets exactly one reinforcing feedback a time
ForgetLaw(m, e, o, sn, sd) ==
    LET fires == FiresT(m, e.x, o)
        n == e.reps
        row(r) == m.rows[r]
        dr == n * Max2(1, SetMax(m.H))
        true(r, j) == Lit(IF r = PosRow(o) THEN 0 ELSE 1, e.x[j]) = 1
        tossed(r) == [ j \in DOMAIN row(r) |-> IF fires /\ true(r, j) THEN n - e.up[r][j] ELSE e.down[r][j] ]
    IN \A r \in {PosRow(o), NegRow(o)} :
         /\ \A j \in DOMAIN row(r) :
              IF fires /\ true(r, j)
              THEN /\ e.down[r][j] = 0
                   /\ IF m.boost THEN e.up[r][j] = n ELSE Near(e.up[r][j], n, sn - sd, sn, n)
              ELSE e.up[r][j] = 0 /\ Near(e.down[r][j], n, sd, sn, IF fires THEN n ELSE dr)
         \* as many draws per polarity as features/s, on average
         /\ (fires /\ m.boost) \/ Near(SumOver(tossed(r)), n, m.F * sd, sn, n)

\* sums over runs of e.blk neighbouring literals, of a silent clause: too few
\* repetitions to judge each literal
Runs(total, k) == [ b \in 1 .. (total + k - 1) \div k |-> IF b * k <= total THEN k ELSE total - (b - 1) * k ]
ForgetRuns(m, e, o, sn, sd) ==
    \A r \in {PosRow(o), NegRow(o)} :
        \A b \in DOMAIN Runs(m.F, e.blk) :
            /\ e.up[r][b] = 0
            /\ Near(e.down[r][b], e.reps * Runs(m.F, e.blk)[b], sd, sn, e.reps * Max2(Runs(m.F, e.blk)[b], SetMax(m.H)))

\* do events that happened a and b times of n, together ab times, look independent?
Apart(ab, a, b, n) == Abs(n * ab - a * b) <= 3 * n * (Isqrt(12 * n) + 2)

\* forgetting draws anew for every row; all pairs of literals of a row alike.
\* `rows` have certain feedback
ForgetFree(m, e, x, rows) ==
    LET open(r, j) == ~FiresT(m, x, (r - 1) \div 2) \/ Lit((r - 1) % 2, x[j]) = 0
        pairs(r) == { p \in (1 .. m.F) \X (1 .. m.F) : p[1] < p[2] /\ open(r, p[1]) /\ open(r, p[2]) }
        cj(r, p) == e.cj[r][(p[1] - 1) * m.F + p[2]]
    IN /\ \A r \in rows : \A q \in rows : r < q => \A j \in 1 .. m.F :
            \* (the rows of a clause may share how many literals are hit, which shows when they are few)
            ((m.F >= 4 \/ (r - 1) \div 2 # (q - 1) \div 2) /\ open(r, j) /\ open(q, j)) => Apart(e.rj[r][(q - 1) * m.F + j], e.hit[r][j], e.hit[q][j], e.reps)
       /\ \A r \in rows : \A j \in 1 .. m.F : open(r, j) => Apart(e.clag[r][j], e.hit[r][j], e.hit[r][j], e.reps)
       /\ \A r \in rows : \A ps \in { pairs(r) } : ps # {} =>
            LET cs == { cj(r, p) : p \in ps } IN SetMax(cs) - SetMin(cs) <= 2 * (Isqrt(12 * e.reps) + 2)

RegrStat(m, e, c) ==
    LET fire == { o \in 0 .. m.outs - 1 : FiresT(m, e.x, o) }
        n == e.reps
        err == RegressorScore(fire, m.w, m.outs, m.T) - e.y
        hits == RegressorHits(m.loss, m.ca, m.cb, err, m.T, m.outs, m.bm)
        h == SetMax(hits)
        \* a clause whose weight counts its updates
        counts(o) == m.wt /\ o \in fire /\ IF err < 0 THEN WeightOf(m.w, o) + h < m.maxw - 1 ELSE WeightOf(m.w, o) >= h
        all == \A o \in 0 .. m.outs - 1 : counts(o)
        total == SumOver([ o \in 1 .. m.outs |-> e.wsum[o] ])
        q == CHOOSE q \in LossTimes(m.loss, m.ca, m.cb, err, m.T, m.outs) : TRUE
        \* clearly less than half an update wanted
        chance == ~m.bm /\ hits = {0, 1} /\ 200 * q[1] < 99 * q[2]
    IN /\ Need(e, <<"choice of clauses", e.wsum, "updates a time", hits>>,
               (Cardinality(hits) = 1 /\ err # 0) => \A o \in 0 .. m.outs - 1 : counts(o) => Near(e.wsum[o + 1], n * h, 1, m.outs, n * h))
          /\ Need(e, <<"number of updates", total, "wanted", n * h>>, (Cardinality(hits) = 1 /\ all) => total = n * h)
          \* less than half an update: one, that often
          /\ Need(e, <<"chance of an update", total, "of", n, "wanted", q>>,
               IF chance /\ all THEN Near(total, n, q[1], q[2], n) ELSE TRUE)
          /\ Need(e, <<"choice of clause for a chance update", e.wsum>>,
               IF chance /\ all THEN \A o \in 1 .. m.outs : Near(e.wsum[o], n, q[1], q[2] * m.outs, n) ELSE TRUE)
          \* the randomised option: that many on average, the normal
          \* approximation being off by less than one half
          /\ Need(e, <<"average of the randomised number of updates", total, "of", n, "wanted", q>>,
               IF m.bm /\ all /\ q[1] > 0 /\ q[1] < q[2] * m.outs
               THEN Abs(total * q[2] - n * q[1]) * 2 <= q[2] * n + 2 * q[2] * (Isqrt(12 * n) + 2) * m.outs ELSE TRUE)
          /\ Need(e, <<"choice of clauses, randomised option", e.wsum>>,
               IF m.bm /\ all THEN \A o \in 1 .. m.outs : Abs(e.wsum[o] * m.outs - total) <= m.outs * (Isqrt(12 * total) + 2) ELSE TRUE)
          /\ Need(e, <<"forgetting", e.down, e.up>>,
               IF m.outs = 1 /\ hits = {1} /\ err < 0 /\ Roomy(m, 0) /\ c.sn > 0 THEN (IF e.blk = 0 THEN ForgetLaw(m, e, 0, c.sn, c.sd) ELSE 0 \in fire \/ ForgetRuns(m, e, 0, c.sn, c.sd)) ELSE TRUE)
          /\ Need(e, "forgetting of one row, literal or step tied to that of another",
               (e.cells = 1 /\ m.outs = 1 /\ hits = {1} /\ err < 0 /\ Roomy(m, 0) /\ c.sn > 0) => ForgetFree(m, e, e.x, {1, 2}))

Stat(e) ==
    LET m == M[e.m]
        n == e.reps
        c == e.cfg
    IN IF m.clf
       THEN LET y == e.y
                v == [ k \in 0 .. m.L - 1 |-> TrainScore(m, e.x, k) ]
                own == ClausesOf(m, y)
                sure(o) == LeavesMark(m, e.x, o, Reinforced(m, y, o))
                \* in twentieths of a large threshold, for 32-bit arithmetic
                unit == IF m.T <= 1000 THEN 1 ELSE m.T \div 20
                T == m.T \div unit
                u == [ q \in DOMAIN v |-> IF unit = 1 THEN v[q] ELSE (v[q] \div unit) + (IF v[q] % unit > unit \div 2 THEN 1 ELSE 0) ]
                num(q) == IF q = y THEN T - u[y] ELSE T + u[q]
                den(q) == 2 * T
                pick(q) == IF q = y THEN 1 ELSE m.L - 1
            IN /\ \A o \in 0 .. m.outs - 1 :
                    LET q == LabelOf(m, o) IN
                    /\ Need(e, <<"frequency of feedback to clause", o, "is", e.any[o + 1], "of", n, "wanted", num(q), "of", den(q) * pick(q)>>,
                            IF sure(o) THEN Near(e.any[o + 1], n, num(q), den(q) * pick(q), n)
                            \* no more than that in any case
                            ELSE e.any[o + 1] * den(q) * pick(q) <= n * num(q) + den(q) * pick(q) * (Isqrt(12 * n) + 2))
                    \* from one step to the next: no memory (pairs of steps overlap: twice the trials)
                    /\ Need(e, <<"feedback to clause", o, "in successive steps", e.lag[o + 1]>>,
                            (sure(o) /\ pick(q) <= 16) => Near(e.lag[o + 1], n, num(q) * num(q), den(q) * den(q) * pick(q) * pick(q), 2 * n))
                    \* independently of the other clauses
                    /\ \A p \in o + 1 .. m.outs - 1 :
                         Need(e, <<"joint frequency of feedback to clauses", o, p>>,
                            LET q2 == LabelOf(m, p) IN
                            CASE m.outs > 64 -> TRUE
                              [] q # y /\ q2 # y /\ q # q2 -> e.joint[o + 1][p + 1] = 0
                              [] OTHER -> (sure(o) /\ sure(p)) =>
                                    Near(e.joint[o + 1][p + 1], n, num(q) * num(q2), den(q) * den(q2) * Max2(pick(q), pick(q2)), n))
                    /\ Need(e, <<"forgetting of clause", o, e.down[PosRow(o)], e.up[PosRow(o)], e.down[NegRow(o)], e.up[NegRow(o)]>>,
                            IF Reinforced(m, y, o) /\ num(q) = den(q) /\ pick(q) = 1 /\ Roomy(m, o) /\ c.sn > 0
                            THEN (IF e.blk = 0 THEN ForgetLaw(m, e, o, c.sn, c.sd) ELSE FiresT(m, e.x, o) \/ ForgetRuns(m, e, o, c.sn, c.sd)) ELSE TRUE)
               /\ Need(e, "forgetting of one row, literal or step tied to that of another",
                       e.cells = 0 \/ num(y) # den(y) \/
                       ForgetFree(m, e, e.x, UNION { {PosRow(o), NegRow(o)} : o \in { o \in own : Reinforced(m, y, o) /\ Roomy(m, o) /\ c.sn > 0 } }))
               \* the other label: each as often
               /\ IF e.lblk <= 1
                  THEN \A q \in (0 .. m.L - 1) \ {y} :
                         Need(e, <<"choice of the other label", q, e.lab>>,
                              IF num(q) = den(q) /\ (\E o \in ClausesOf(m, q) : sure(o)) THEN Near(e.lab[q + 1], n, 1, m.L - 1, n) ELSE TRUE)
                  ELSE \A b \in DOMAIN Runs(m.L, e.lblk) :
                         LET qs == { q \in (b - 1) * e.lblk .. (b - 1) * e.lblk + Runs(m.L, e.lblk)[b] - 1 : q # y }
                             in == IF y \in (b - 1) * e.lblk .. (b - 1) * e.lblk + Runs(m.L, e.lblk)[b] - 1 /\ num(y) > 0 THEN n ELSE 0 IN
                         Need(e, <<"choice of the other label, run", b, e.lab>>,
                              IF (\A q \in qs : num(q) = den(q) /\ \E o \in ClausesOf(m, q) : sure(o)) /\ num(y) \in {0, den(y)}
                              THEN Near(e.lab[b] - in, n, Cardinality(qs), m.L - 1, n) ELSE TRUE)
       ELSE RegrStat(m, e, c)

---------------------------------------------------------------------------
(* One call with e.n copies of a sample and e.ep epochs, of a state that     *)
(* keeps the chances as they are: what each step draws anew adds up.         *)

Steps(e) == e.n * e.ep

\* nothing is learned or forgotten, and no end reached, in n steps
Calm(m, n) ==
    LET d == n * (SetMax(m.H) + 1) IN
    \A r \in DOMAIN m.rows : \A j \in DOMAIN m.rows[r] :
        LET a == m.rows[r][j] IN (a >= d \/ a < -d) /\ a - d >= -m.N /\ a + d < m.N

\* chance of feedback to the clauses of label q as a fraction, or none if it varies
ChanceOf(m, x, y, q, n) ==
    LET cs == ClausesOf(m, q)
        sum(par) == SumOver([ o \in { o \in cs : o % 2 = par /\ FiresT(m, x, o) } |-> WeightOf(m.w, o) ])
        raw == sum(0) - sum(1)
        v == IF q = y THEN -raw ELSE raw
        d == n * Cardinality(cs)
        k == IF q = y THEN 1 ELSE m.L - 1
    IN CASE v >= m.T + d -> { <<1, k>> }
         [] v <= -m.T - d -> { <<0, k>> }
         [] Abs(v) + d <= m.T \div 4096 -> { <<1, 2 * k>> }
         [] OTHER -> {}

ClfRun(m, e, c) ==
    LET n == Steps(e)
        y == e.y
        ch == [ q \in 0 .. m.L - 1 |-> ChanceOf(m, e.x, y, q, n) ]
        \* positive clauses of the own label and negative ones of others gain weight
        gains(o) == Reinforced(m, y, o)
        counts(o) == m.wt /\ FiresT(m, e.x, o) /\ IF gains(o) THEN WeightOf(m.w, o) + n < m.maxw - 1 ELSE WeightOf(m.w, o) > n
        cnt(o) == IF gains(o) THEN e.w[o + 1] - m.w[o + 1] ELSE m.w[o + 1] - e.w[o + 1]
        diff(r, up) == [ j \in 1 .. m.F |-> Max2(0, IF up THEN e.rows[r][j] - m.rows[r][j] ELSE m.rows[r][j] - e.rows[r][j]) ]
        flat == [ x |-> e.x, reps |-> n, blk |-> 0,
                  up |-> [ r \in DOMAIN m.rows |-> diff(r, TRUE) ], down |-> [ r \in DOMAIN m.rows |-> diff(r, FALSE) ] ]
    IN /\ \A o \in 0 .. m.outs - 1 : \A p \in ch[LabelOf(m, o)] :
            Need(e, <<"feedback to clause", o, "in one call", IF m.wt THEN cnt(o) ELSE 0, "of", n, "wanted", p>>,
                 counts(o) => cnt(o) \in 0 .. n /\ Near(cnt(o), n, p[1], p[2], n))
       /\ \A q \in DOMAIN ch : \A o \in ClausesOf(m, q) : \A p \in ClausesOf(m, q) :
            Need(e, <<"certain feedback of one label in one call", o, p>>,
                 (o < p /\ ch[q] = { <<1, IF q = y THEN 1 ELSE m.L - 1>> } /\ counts(o) /\ counts(p)) => cnt(o) = cnt(p))
       /\ LET others == (0 .. m.L - 1) \ {y}
              one(q) == CHOOSE o \in ClausesOf(m, q) : counts(o) IN
          Need(e, <<"one other label a step", m.w, e.w>>,
               (\A q \in others : ch[q] = { <<1, m.L - 1>> } /\ \E o \in ClausesOf(m, q) : counts(o)) =>
                    SumOver([ q \in others |-> cnt(one(q)) ]) = n)
       /\ \A o \in ClausesOf(m, y) :
            Need(e, <<"forgetting of clause in one call", o, m.rows[PosRow(o)], e.rows[PosRow(o)], m.rows[NegRow(o)], e.rows[NegRow(o)]>>,
                 (gains(o) /\ ch[y] = { <<1, 1>> } /\ c.sn > 0) => ForgetLaw(m, flat, o, c.sn, c.sd))

RegrRun(m, e, c) ==
    LET n == Steps(e)
        fire == { o \in 0 .. m.outs - 1 : FiresT(m, e.x, o) }
        hits == SetMax(RegressorHits(m.loss, m.ca, m.cb, RegressorScore(fire, m.w, m.outs, m.T) - e.y, m.T, m.outs, m.bm))
        \* too many votes, that stay too many; or none at all
        steady == IF fire = {} THEN e.y > 0 ELSE SumOver([ o \in fire |-> WeightOf(m.w, o) ]) >= m.T + n * hits /\ \A o \in fire : WeightOf(m.w, o) > n * hits
        diff(r, up) == [ j \in 1 .. m.F |-> Max2(0, IF up THEN e.rows[r][j] - m.rows[r][j] ELSE m.rows[r][j] - e.rows[r][j]) ]
        flat == [ sid |-> e.sid, ev |-> "run", x |-> e.x, y |-> e.y, reps |-> n, blk |-> 0, cells |-> 0,
                  wsum |-> [ o \in 1 .. m.outs |-> IF m.wt THEN Abs(e.w[o] - m.w[o]) ELSE 0 ],
                  up |-> [ r \in DOMAIN m.rows |-> diff(r, TRUE) ], down |-> [ r \in DOMAIN m.rows |-> diff(r, FALSE) ] ]
    IN steady => RegrStat(m, flat, c)

Run(e) ==
    LET m == M[e.m] IN Calm(m, Steps(e)) => IF m.clf THEN ClfRun(m, e, e.cfg) ELSE RegrRun(m, e, e.cfg)

StatEv(e) ==
    /\ Need(e, "training refused or failed", e.st = "OK")
    /\ Stat(e) = TRUE     \* as a value: TLC would go through an action clause by clause, recursively
    /\ UNCHANGED M

RunEv(e) ==
    /\ Need(e, "training refused or failed", e.st = "OK")
    /\ Run(e) = TRUE
    /\ UNCHANGED M

\* untrained states of e.n seeds: every automaton on either side of its
\* boundary, whatever side others are on or the last seed put it
StartsEv(e) ==
    LET sides(f) == \A i \in DOMAIN f : Near(f[i], e.n, 1, 2, e.n) IN
    /\ Need(e, "cannot make model", e.st = "OK" /\ Len(e.inc) = e.cells)
    /\ Need(e, <<"sides of the boundary", e.inc>>, sides(e.inc))
    /\ Need(e, <<"sides of neighbours", e.nxt>>, e.cells > 1 => sides(e.nxt))
    /\ Need(e, <<"sides under successive seeds", e.lag>>, sides(e.lag))
    /\ UNCHANGED M

Inject(e) ==
    /\ Need(e, "cannot set up model", e.st = "OK")
    /\ M' = (e.m :> NewModel(e)) @@ M

Init == l = 1 /\ M = [ s \in {} |-> 0 ]

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> M' = [ s \in {} |-> 0 ]
           [] e.ev = "inject" -> Inject(e)
           [] e.ev = "stat" -> StatEv(e)
           [] e.ev = "run" -> RunEv(e)
           [] e.ev = "starts" -> StartsEv(e)
           [] OTHER -> Need(e, "crashed", FALSE) /\ UNCHANGED M
    /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, M>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
