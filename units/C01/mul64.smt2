; u*v for u = u1*2^32+u0, v = v1*2^32+v0 is the sum of the partial products
(set-logic QF_NIA)
(declare-const u0 Int)(declare-const u1 Int)(declare-const v0 Int)(declare-const v1 Int)
(assert (not (= (* (+ (* u1 4294967296) u0) (+ (* v1 4294967296) v0))
  (+ (* u0 v0) (* 4294967296 (* u1 v0)) (* 4294967296 (* u0 v1)) (* 18446744073709551616 (* u1 v1))))))
(check-sat)
