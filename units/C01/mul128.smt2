; (h1*2^64+l1)*(h2*2^64+l2) = l1*l2 + (h1*l2+l1*h2)*2^64 + h1*h2*2^128: equal modulo 2^128
(set-logic QF_NIA)
(declare-const h1 Int)(declare-const l1 Int)(declare-const h2 Int)(declare-const l2 Int)
(assert (not (= (* (+ (* h1 18446744073709551616) l1) (+ (* h2 18446744073709551616) l2))
  (+ (* l1 l2) (* 18446744073709551616 (+ (* h1 l2) (* l1 h2))) (* 340282366920938463463374607431768211456 (* h1 h2))))))
(check-sat)
