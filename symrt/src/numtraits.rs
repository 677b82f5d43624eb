use crate::f::F;
/// Replacement for num_traits::ToPrimitive with lifted floats.
pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>;
    fn to_u64(&self) -> Option<u64>;
    fn to_isize(&self) -> Option<isize> {
        self.to_i64().map(|x| x as isize)
    }
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().map(|x| x as usize)
    }
    fn to_i32(&self) -> Option<i32> {
        self.to_i64().map(|x| x as i32)
    }
    fn to_u32(&self) -> Option<u32> {
        self.to_u64().map(|x| x as u32)
    }
    fn to_f32(&self) -> Option<F> {
        self.to_f64().map(|x| x.to_f32())
    }
    fn to_f64(&self) -> Option<F> {
        self.to_i64().map(|x| F::C(x as f64))
    }
}
