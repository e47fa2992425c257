//! Stand-in for risc0-zkvm. Guest side: input frames come from, and the journal goes to, the calling thread.
//! Host side: an executor that runs what the harness installs in place of the guest images.
pub mod host;
pub use host::*;
pub mod guest {
    pub mod env {
        use std::cell::RefCell;
        use std::collections::VecDeque;
        #[derive(Default)]
        pub struct Io {
            pub frames: VecDeque<Vec<u8>>,
            pub commits: Vec<Vec<u8>>,
            pub frames_read: usize,
        }
        thread_local! { pub static IO: RefCell<Io> = RefCell::default(); }

        pub fn log(_: &str) {}
        pub fn cycle_count() -> u64 {
            0
        }
        pub fn read_frame() -> Vec<u8> {
            IO.with(|io| {
                let mut io = io.borrow_mut();
                io.frames_read += 1;
                io.frames.pop_front().expect("no further input frame")
            })
        }
        pub fn read<T: serde::de::DeserializeOwned>() -> T {
            bincode::deserialize(&read_frame()).unwrap()
        }
        pub fn commit_slice(b: &[u8]) {
            IO.with(|io| io.borrow_mut().commits.push(b.to_vec()))
        }
        pub fn commit<T: serde::Serialize>(v: &T) {
            commit_slice(&bincode::serialize(v).unwrap())
        }
        /// Runs a guest on the given frames; what it committed until it ended.
        pub fn with_io(frames: Vec<Vec<u8>>, f: impl FnOnce()) -> Io {
            IO.with(|io| *io.borrow_mut() = Io { frames: frames.into(), ..Default::default() });
            f();
            IO.with(|io| std::mem::take(&mut *io.borrow_mut()))
        }
    }
    #[doc(hidden)]
    #[macro_export]
    macro_rules! __entry {
        ($main:ident) => {
            pub fn __run() {
                $main()
            }
        };
    }
    pub use crate::__entry as entry;
}
