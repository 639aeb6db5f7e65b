(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.random_seed 1)
(set-option :smt.arith.solver 6)
(declare-sort Str 0)
(declare-sort F64 0)
; ---- references
(declare-fun rt (Int) Int)
(declare-fun kind (Int) Int)
(declare-fun elt (Int Int) Int)
(declare-fun eltbase (Int) Int)
(declare-fun eltidx (Int) Int)
(assert (forall ((b Int) (i Int)) (! (and (= (eltbase (elt b i)) b) (= (eltidx (elt b i)) i) (= (rt (elt b i)) (rt b)) (= (kind (elt b i)) 1000000) (=> (> b 0) (> (elt b i) 0))) :pattern ((elt b i)))))
; ---- strings (finite sequences of bytes 0..255)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun sunit (Int) Str)
(declare-fun sdiff (Str Str) Int)
(declare-fun sempty () Str)
(assert (= (slen sempty) 0))
(assert (forall ((s Str)) (! (and (>= (slen s) 0) (<= (slen s) 1099511627776)) :pattern ((slen s)))))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (>= (sat s i) 0) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
(assert (forall ((a Str)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))))
(assert (forall ((a Str)) (! (= (scat sempty a) a) :pattern ((scat sempty a)))))
(assert (forall ((c Int)) (! (and (= (slen (sunit c)) 1) (=> (and (<= 0 c) (<= c 255)) (= (sat (sunit c) 0) c))) :pattern ((sunit c)))))
(assert (forall ((s Str) (lo Int) (hi Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (slen s))) (= (slen (ssub s lo hi)) (- hi lo))) :pattern ((ssub s lo hi)))))
(assert (forall ((s Str) (lo Int) (hi Int) (i Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (slen s)) (<= 0 i) (< i (- hi lo))) (= (sat (ssub s lo hi) i) (sat s (+ lo i)))) :pattern ((sat (ssub s lo hi) i)))))
(assert (forall ((s Str) (lo Int) (hi Int)) (! (=> (and (= lo 0) (= hi (slen s))) (= (ssub s lo hi) s)) :pattern ((ssub s lo hi)))))
(assert (forall ((s Str) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen s)) (<= 0 c) (<= c d) (<= d (- b a))) (= (ssub (ssub s a b) c d) (ssub s (+ a c) (+ a d)))) :pattern ((ssub (ssub s a b) c d)))))
(assert (forall ((s Str) (a Int) (b Int) (b2 Int) (c Int)) (! (=> (and (= b b2) (<= 0 a) (<= a b) (<= b c) (<= c (slen s))) (= (scat (ssub s a b) (ssub s b2 c)) (ssub s a c))) :pattern ((scat (ssub s a b) (ssub s b2 c))))))
(assert (forall ((s Str) (a Int) (b Int) (c Int)) (! (=> (and (= c (sat s b)) (<= 0 a) (<= a b) (< b (slen s))) (= (scat (ssub s a b) (sunit c)) (ssub s a (+ b 1)))) :pattern ((scat (ssub s a b) (sunit c))))))
(assert (forall ((a Str) (b Str)) (! (or (= a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((sdiff a b)))))
; string built from a byte array segment
(declare-fun bstr ((Array Int Int) Int Int) Str)
(assert (forall ((m (Array Int Int)) (o Int) (n Int)) (! (=> (and (<= 0 n) (<= n 1099511627776)) (= (slen (bstr m o n)) n)) :pattern ((bstr m o n)))))
(assert (forall ((m (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select m (+ o i))) (<= (select m (+ o i)) 255)) (= (sat (bstr m o n) i) (select m (+ o i)))) :pattern ((sat (bstr m o n) i)))))
; rune to string (UTF-8)
(declare-fun runestr (Int) Str)
(assert (forall ((r Int)) (! (=> (and (<= 0 r) (< r 128)) (= (runestr r) (sunit r))) :pattern ((runestr r)))))
(assert (forall ((r Int)) (! (=> (and (<= 128 r) (< r 2048)) (= (runestr r) (scat (sunit (+ 192 (div r 64))) (sunit (+ 128 (mod r 64)))))) :pattern ((runestr r)))))
(assert (forall ((r Int)) (! (and (<= 1 (slen (runestr r))) (<= (slen (runestr r)) 4)) :pattern ((runestr r)))))
; bit operations the term builder could not reduce
(declare-fun bor (Int Int) Int)
(declare-fun band (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= a (bor a b)) (<= b (bor a b)) (<= (bor a b) (+ a b)))) :pattern ((bor a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (band a b)) (<= (band a b) a) (<= (band a b) b))) :pattern ((band a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b)) (and (<= 0 (bxor a b)) (<= (bxor a b) (+ a b)))) :pattern ((bxor a b)))))
