//! Where sources and destinations lie. Under the interpreter every buffer is an allocation of exactly its size;
//! on WebAssembly it either ends where the linear memory ends or lies between marks; translated code has memory
//! that begins and ends at unmapped pages besides.

use alloc::boxed::Box;
#[cfg(any(target_arch = "wasm32", sim_embedded))]
use alloc::format;
use alloc::string::String;
#[cfg(any(target_arch = "wasm32", sim_embedded))]
use alloc::vec;
use core::mem::MaybeUninit;

#[cfg(not(any(target_arch = "wasm32", sim_embedded)))]
mod boxed {
    use super::*;

    pub struct Src(Box<[u8]>);
    impl Src {
        pub fn new(b: &[u8], _place: u8) -> Self {
            Src(b.into())
        }
        pub fn get(&self) -> &[u8] {
            &self.0
        }
    }

    pub struct Dst(Box<[MaybeUninit<u8>]>);
    impl Dst {
        pub fn new(n: usize, _place: u8) -> Self {
            let mut v = alloc::vec::Vec::with_capacity(n);
            unsafe { v.set_len(n) };
            Dst(v.into_boxed_slice())
        }
        pub fn get(&mut self) -> &mut [MaybeUninit<u8>] {
            &mut self.0
        }
        pub fn intact(&self) -> Result<(), String> {
            Ok(())
        }
    }
}
#[cfg(not(any(target_arch = "wasm32", sim_embedded)))]
pub use boxed::{Dst, Src};

#[cfg(any(target_arch = "wasm32", sim_embedded))]
mod placed {
    use super::*;
    const AROUND: usize = 64;
    const MARK: u8 = 0xb7;

    #[derive(Clone, Copy, PartialEq)]
    enum At {
        Heap,
        End,
        Start,
    }

    /// the memory in which the source (or else the destination) may lie at either end, if there is any
    #[cfg(target_arch = "wasm32")]
    fn room(_source: bool) -> (usize, usize) {
        let end = core::arch::wasm32::memory_size(0) * 65536;
        // the address space ends here, or nearly: nothing lies behind it that could be read
        (end.wrapping_sub(60000), end)
    }
    #[cfg(target_arch = "wasm32")]
    fn place(source: bool, p: u8) -> At {
        if (p & 1 != 0) == source {
            At::End
        } else {
            At::Heap
        }
    }
    #[cfg(target_arch = "wasm32")]
    fn protect(_on: bool) {}

    #[cfg(sim_embedded)]
    extern "C" {
        /// 0, 1: source memory from, to; 2, 3: destination memory
        fn host_room(which: usize) -> usize;
        fn host_protect(on: usize);
    }
    #[cfg(sim_embedded)]
    fn room(source: bool) -> (usize, usize) {
        let k = if source { 0 } else { 2 };
        unsafe { (host_room(k), host_room(k + 1)) }
    }
    #[cfg(sim_embedded)]
    fn place(source: bool, p: u8) -> At {
        [At::End, At::Start, At::Heap, At::End][(p >> (if source { 0 } else { 2 })) as usize & 3]
    }
    /// makes the source memory read-only
    #[cfg(sim_embedded)]
    fn protect(on: bool) {
        unsafe { host_protect(on as usize) }
    }

    pub struct Buf {
        at: *mut u8,
        n: usize,
        _heap: Option<Box<[u8]>>,
        before: usize,
        after: usize,
    }

    impl Buf {
        fn new(n: usize, source: bool, p: u8) -> Self {
            let (from, to) = room(source);
            let at = place(source, p);
            let b = if at == At::Heap || n + AROUND > to.wrapping_sub(from) {
                let mut h = vec![MARK; n + 2 * AROUND].into_boxed_slice();
                Buf { at: unsafe { h.as_mut_ptr().add(AROUND) }, n, _heap: Some(h), before: AROUND, after: AROUND }
            } else if at == At::End {
                Buf { at: to.wrapping_sub(n) as *mut u8, n, _heap: None, before: AROUND, after: 0 }
            } else {
                Buf { at: from as *mut u8, n, _heap: None, before: 0, after: AROUND }
            };
            unsafe {
                for i in 0..b.before {
                    b.at.wrapping_sub(i + 1).write(MARK);
                }
                for i in 0..n {
                    b.at.wrapping_add(i).write(0x5a);
                }
                for i in 0..b.after {
                    b.at.wrapping_add(n + i).write(MARK);
                }
            }
            b
        }
        fn slice(&self) -> &[u8] {
            unsafe { core::slice::from_raw_parts(self.at, self.n) }
        }
        fn slice_mut(&mut self) -> &mut [MaybeUninit<u8>] {
            unsafe { core::slice::from_raw_parts_mut(self.at.cast(), self.n) }
        }
        fn intact(&self) -> Result<(), String> {
            unsafe {
                for i in 0..self.before {
                    if self.at.wrapping_sub(i + 1).read_volatile() != MARK {
                        return Err(format!("wrote {} bytes before its buffer", i + 1));
                    }
                }
                for i in 0..self.after {
                    if self.at.wrapping_add(self.n + i).read_volatile() != MARK {
                        return Err(format!("wrote {} bytes behind its buffer", i + 1));
                    }
                }
            }
            Ok(())
        }
    }

    pub struct Src(Buf);
    impl Src {
        pub fn new(b: &[u8], p: u8) -> Self {
            protect(false);
            let mut s = Buf::new(b.len(), true, p);
            for (x, y) in s.slice_mut().iter_mut().zip(b) {
                x.write(*y);
            }
            protect(p >> 6 == 0);
            Src(s)
        }
        pub fn get(&self) -> &[u8] {
            self.0.slice()
        }
    }

    pub struct Dst(Buf);
    impl Dst {
        pub fn new(n: usize, p: u8) -> Self {
            Dst(Buf::new(n, false, p))
        }
        pub fn get(&mut self) -> &mut [MaybeUninit<u8>] {
            self.0.slice_mut()
        }
        pub fn intact(&self) -> Result<(), String> {
            self.0.intact()
        }
    }
}
#[cfg(any(target_arch = "wasm32", sim_embedded))]
pub use placed::{Dst, Src};
