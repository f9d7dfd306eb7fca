//! Offline stand-in for the parts of `bytemuck` that the prover's adapter uses.
pub use bytemuck_derive::{Pod, Zeroable};
/// # Safety
/// All-zero bytes are a value.
pub unsafe trait Zeroable: Sized {}
/// # Safety
/// Any bytes are a value, and there is no padding.
pub unsafe trait Pod: Zeroable + Copy + 'static {}
pub fn bytes_of_mut<T: Pod>(t: &mut T) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(t as *mut T as *mut u8, std::mem::size_of::<T>()) }
}
pub fn bytes_of<T: Pod>(t: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()) }
}
