#[allow(unused_imports)]
use whippyunits::quantity::*;
/// Reads the exponents, storage type and brand of a quantity type.
#[allow(dead_code)]
pub trait Probe { const S: [i16; 4]; const D: [i16; 8]; type T; type B; }
impl<const A: i16, const B: i16, const C: i16, const E: i16, const D0: i16, const D1: i16, const D2: i16, const D3: i16, const D4: i16, const D5: i16, const D6: i16, const D7: i16, T, Br> Probe
    for Quantity<Scale<_2<A>, _3<B>, _5<C>, _Pi<E>>, Dimension<_M<D0>, _L<D1>, _T<D2>, _I<D3>, _Θ<D4>, _N<D5>, _J<D6>, _A<D7>>, T, Br>
{ const S: [i16; 4] = [A, B, C, E]; const D: [i16; 8] = [D0, D1, D2, D3, D4, D5, D6, D7]; type T = T; type B = Br; }
/// Exact bit image of a stored number.
#[allow(dead_code)]
pub trait Img: Copy { fn img(self) -> String; }
impl Img for f64 { fn img(self) -> String { format!("d{:016x}", self.to_bits()) } }
impl Img for f32 { fn img(self) -> String { format!("s{:08x}", self.to_bits()) } }
macro_rules! imgi { ($($t:ident),*) => {$(impl Img for $t { fn img(self) -> String { format!("{}:{}", stringify!($t), self) } })*} }
imgi!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
#[allow(dead_code)]
pub fn show<Q: Probe>(k: &str, v: impl Img) {
    use std::io::Write;
    let o = std::io::stdout(); let mut o = o.lock();
    let _ = writeln!(o, "{}\t{:?}\t{:?}\t{}\t{}", k, Q::S, Q::D, v.img(), core::any::type_name::<Q::B>());
}
#[allow(dead_code)]
pub fn showq<A, B, T: Img, Br>(k: &str, q: Quantity<A, B, T, Br>) where Quantity<A, B, T, Br>: Probe {
    show::<Quantity<A, B, T, Br>>(k, q.unsafe_value)
}
/// Runs a case, reporting a panic as a result instead of dying.
#[allow(dead_code)]
pub fn guard(k: &str, f: impl FnOnce()) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("{}\tPANIC\t{}", k, m.replace('\n', " "));
    }
}
#[allow(dead_code)]
pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
