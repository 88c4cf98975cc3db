//@ rewrite max ( $$a , $$b ) => VxMax::vx_max($$a, $$b)
//@ rewrite min ( $$a , $$b ) => VxMax::vx_min($$a, $$b)
//@ verus
//once minmax
// ---- std::cmp::max and min on integers ---------------------------------------
trait VxMax: Sized {
    spec fn vx_int(self) -> int;
    fn vx_max(a: Self, b: Self) -> (r: Self)
        ensures r.vx_int() == (if a.vx_int() > b.vx_int() { a.vx_int() } else { b.vx_int() });
    fn vx_min(a: Self, b: Self) -> (r: Self)
        ensures r.vx_int() == (if a.vx_int() < b.vx_int() { a.vx_int() } else { b.vx_int() });
}
impl VxMax for i32 {
    spec fn vx_int(self) -> int { self as int }
    fn vx_max(a: Self, b: Self) -> (r: Self) { if a > b { a } else { b } }
    fn vx_min(a: Self, b: Self) -> (r: Self) { if a < b { a } else { b } }
}
impl VxMax for usize {
    spec fn vx_int(self) -> int { self as int }
    fn vx_max(a: Self, b: Self) -> (r: Self) { if a > b { a } else { b } }
    fn vx_min(a: Self, b: Self) -> (r: Self) { if a < b { a } else { b } }
}
