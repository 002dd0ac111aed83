@file approxeq.rs
@fn ApproxEq<f64>forf64::approx_eq_eps
@props C12
@subst f64=E
@inherent
@name approx_eq_eps_64
@ensures
  r == e_lt(e_abs(e_sub(*self, *other)), *approx_epsilon),
@fn ApproxEq<f64>forf64::approx_eq
@props C12
@subst f64=E,approx_eq_eps=approx_eq_eps_64
@inherent
@name approx_eq_64
@ensures
  r == e_lt(e_abs(e_sub(*self, *other)), e_litv(1real / 1000000real)),
@fn ApproxEq<f64>forf64::approx_epsilon
@props C12
@subst f64=E
@inherent
@name approx_epsilon_64
@ensures
  r == e_litv(1real / 1000000real),
@fn ApproxEq<f32>forf32::approx_eq_eps
@props C12
@subst f32=E
@inherent
@name approx_eq_eps_32
@ensures
  r == e_lt(e_abs(e_sub(*self, *other)), *approx_epsilon),
@fn ApproxEq<f32>forf32::approx_eq
@props C12
@subst f32=E,approx_eq_eps=approx_eq_eps_32
@inherent
@name approx_eq_32
@ensures
  r == e_lt(e_abs(e_sub(*self, *other)), e_litv(1real / 1000000real)),
@fn ApproxEq<f32>forf32::approx_epsilon
@props C12
@subst f32=E
@inherent
@name approx_epsilon_32
@ensures
  r == e_litv(1real / 1000000real),
@end
