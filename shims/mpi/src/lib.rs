//! A model of the parts of the `mpi` crate (rsmpi 0.7) that subsweep uses, for symbolic execution.
//! One rank runs the real code; the rest of the world is the harness: it sets the size of the
//! world and this rank, fills the inboxes, answers collectives, decides which requests are
//! complete, and looks at what was sent. A transfer moves exactly the bytes which the datatype
//! (`Equivalence::equivalent_datatype`) covers.
#![allow(static_mut_refs)]
pub mod model;

pub type Rank = i32;
pub type Tag = i32;
pub type Count = i32;
pub type Address = isize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Threading {
    Single,
    Funneled,
    Serialized,
    Multiple,
}

pub fn initialize_with_threading(t: Threading) -> Option<(environment::Universe, Threading)> {
    Some((environment::Universe, t))
}

pub fn initialize() -> Option<environment::Universe> {
    Some(environment::Universe)
}

pub mod internal {
    pub mod memoffset {
        pub use core::mem::offset_of;
    }
}

pub mod environment {
    pub struct Universe;
    impl Universe {
        pub fn world(&self) -> crate::topology::SimpleCommunicator {
            crate::topology::SimpleCommunicator
        }
        pub fn set_buffer_size(&mut self, _n: usize) {}
    }
}

pub mod datatype {
    use crate::Address;
    use crate::Count;

    /// The set of bytes (up to 256) that a datatype covers, and its extent.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct TypeMap {
        pub bytes: [u128; 2],
        pub extent: usize,
    }

    impl TypeMap {
        pub const fn empty() -> Self {
            TypeMap { bytes: [0, 0], extent: 0 }
        }
        pub const fn dense(n: usize) -> Self {
            let mut t = TypeMap::empty();
            if n >= 256 {
                t.bytes = [u128::MAX, u128::MAX];
            } else if n > 128 {
                t.bytes = [u128::MAX, (1u128 << (n - 128)) - 1];
            } else if n == 128 {
                t.bytes = [u128::MAX, 0];
            } else {
                t.bytes = [(1u128 << n) - 1, 0];
            }
            t.extent = n;
            t
        }
        pub fn add(&mut self, offset: usize, o: &TypeMap) {
            assert!(offset + o.extent <= 256, "datatype beyond the model");
            let (mut a, mut b) = (o.bytes[0], o.bytes[1]);
            let mut k = offset;
            if k >= 128 {
                b = a;
                a = 0;
                k -= 128;
            }
            if k > 0 {
                b = (b << k) | (a >> (128 - k));
                a <<= k;
            }
            self.bytes[0] |= a;
            self.bytes[1] |= b;
            if offset + o.extent > self.extent {
                self.extent = offset + o.extent;
            }
        }
        pub fn covers(&self, i: usize) -> bool {
            if i < 128 {
                (self.bytes[0] >> i) & 1 == 1
            } else {
                (self.bytes[1] >> (i - 128)) & 1 == 1
            }
        }
    }

    pub trait TypeMapped {
        fn type_map(&self) -> TypeMap;
    }

    #[derive(Clone, Copy, Debug)]
    pub struct SystemDatatype(pub usize);
    impl TypeMapped for SystemDatatype {
        fn type_map(&self) -> TypeMap {
            TypeMap::dense(self.0)
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct UserDatatype(pub TypeMap);
    impl TypeMapped for UserDatatype {
        fn type_map(&self) -> TypeMap {
            self.0
        }
    }
    pub type DatatypeRef<'a> = &'a UserDatatype;

    impl UserDatatype {
        pub fn contiguous<D: TypeMapped>(count: Count, d: &D) -> Self {
            let t = d.type_map();
            let mut r = TypeMap::empty();
            let mut i = 0;
            while i < count {
                r.add(i as usize * t.extent, &t);
                i += 1;
            }
            UserDatatype(r)
        }
        pub fn structured<D: TypeMapped>(
            blocklengths: &[Count],
            displacements: &[Address],
            types: &[D],
        ) -> Self {
            assert_eq!(blocklengths.len(), displacements.len());
            assert_eq!(blocklengths.len(), types.len());
            let mut r = TypeMap::empty();
            let mut i = 0;
            while i < types.len() {
                let t = types[i].type_map();
                let mut j = 0;
                while j < blocklengths[i] {
                    r.add(displacements[i] as usize + j as usize * t.extent, &t);
                    j += 1;
                }
                i += 1;
            }
            UserDatatype(r)
        }
    }

    pub struct PartitionMut<'a, T> {
        pub buf: &'a mut Vec<T>,
        pub counts: &'a [Count],
        pub displs: &'a [Count],
    }
    impl<'a, T> PartitionMut<'a, T> {
        pub fn new(buf: &'a mut Vec<T>, counts: &'a [Count], displs: &'a [Count]) -> Self {
            // As in rsmpi: every block has to lie inside of the buffer.
            assert_eq!(counts.len(), displs.len());
            let mut i = 0;
            while i < counts.len() {
                assert!(counts[i] >= 0 && displs[i] >= 0);
                assert!((counts[i] + displs[i]) as usize <= buf.len());
                i += 1;
            }
            PartitionMut { buf, counts, displs }
        }
    }
    pub use crate::traits::Equivalence;
}

pub mod traits {
    pub use mpi_macros::Equivalence;

    use crate::datatype::*;
    use crate::model;
    use crate::topology::*;
    use crate::*;

    pub unsafe trait Equivalence {
        type Out: MatchesRaw + TypeMapped;
        fn equivalent_datatype() -> Self::Out;
    }
    pub trait MatchesRaw {}
    impl<T> MatchesRaw for T {}
    pub trait AsRaw {
        type Raw;
        fn as_raw(&self) -> Self::Raw;
    }
    impl AsRaw for SimpleCommunicator {
        type Raw = i32;
        fn as_raw(&self) -> i32 {
            0
        }
    }

    macro_rules! sys {
        ($($t:ty),*) => { $( unsafe impl Equivalence for $t {
            type Out = SystemDatatype;
            fn equivalent_datatype() -> SystemDatatype { SystemDatatype(core::mem::size_of::<$t>()) }
        } )* }
    }
    sys!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, bool);

    unsafe impl<T: Equivalence, const N: usize> Equivalence for [T; N] {
        type Out = UserDatatype;
        fn equivalent_datatype() -> UserDatatype {
            UserDatatype::contiguous(N as Count, &T::equivalent_datatype())
        }
    }
    macro_rules! tup {
        ($($t:ident $i:tt),*) => {
            unsafe impl<$($t: Equivalence),*> Equivalence for ($($t,)*) {
                type Out = UserDatatype;
                fn equivalent_datatype() -> UserDatatype {
                    let mut r = TypeMap::empty();
                    $( r.add(core::mem::offset_of!(Self, $i), &$t::equivalent_datatype().type_map()); )*
                    UserDatatype(r)
                }
            }
        }
    }
    tup!(A 0);
    tup!(A 0, B 1);
    tup!(A 0, B 1, C 2);
    tup!(A 0, B 1, C 2, D 3);

    pub trait Communicator {
        fn rank(&self) -> Rank;
        fn size(&self) -> Rank;
        fn process_at_rank(&self, r: Rank) -> Process;
        fn pack<T: Equivalence>(&self, t: &T) -> Vec<u8>;
        unsafe fn unpack_into<T: Equivalence>(&self, b: &[u8], t: &mut T, position: Count) -> Count;
        fn abort(&self, code: i32) -> ! {
            panic!("MPI_Abort({code})")
        }
    }

    impl Communicator for SimpleCommunicator {
        fn rank(&self) -> Rank {
            model::rank()
        }
        fn size(&self) -> Rank {
            model::size()
        }
        fn process_at_rank(&self, r: Rank) -> Process {
            assert!(r >= 0 && r < model::size(), "process_at_rank: no such rank");
            Process(r)
        }
        fn pack<T: Equivalence>(&self, t: &T) -> Vec<u8> {
            let m = T::equivalent_datatype().type_map();
            let p = t as *const T as *const u8;
            let mut v = Vec::new();
            let mut i = 0;
            while i < m.extent {
                if m.covers(i) {
                    v.push(unsafe { *p.add(i) });
                }
                i += 1;
            }
            v
        }
        unsafe fn unpack_into<T: Equivalence>(&self, b: &[u8], t: &mut T, position: Count) -> Count {
            let m = T::equivalent_datatype().type_map();
            let p = t as *mut T as *mut u8;
            let mut k = position as usize;
            let mut i = 0;
            while i < m.extent {
                if m.covers(i) {
                    *p.add(i) = b[k];
                    k += 1;
                }
                i += 1;
            }
            k as Count
        }
    }

    pub trait CommunicatorCollectives {
        fn barrier(&self);
        fn all_gather_into<T: Equivalence>(&self, send: &T, recv: &mut [T]);
        fn all_gather_varcount_into<T: Equivalence>(&self, send: &[T], p: &mut PartitionMut<T>);
        fn all_reduce_into<T: Equivalence + 'static>(
            &self,
            send: &T,
            recv: &mut T,
            op: crate::collective::SystemOperation,
        );
    }

    impl CommunicatorCollectives for SimpleCommunicator {
        fn barrier(&self) {
            crate::model::world().barriers += 1;
        }
        fn all_gather_into<T: Equivalence>(&self, send: &T, recv: &mut [T]) {
            model::collective_started();
            let n = model::size() as usize;
            assert_eq!(recv.len(), n, "MPI_Allgather: receive buffer has the wrong size");
            let me = model::rank() as usize;
            unsafe {
                let mut r = 0;
                while r < n {
                    let dst = recv.as_mut_ptr().add(r);
                    if r == me {
                        core::ptr::copy_nonoverlapping(send as *const T, dst, 1);
                    } else {
                        model::gathered(r as Rank, send, dst);
                    }
                    r += 1;
                }
            }
        }
        fn all_gather_varcount_into<T: Equivalence>(&self, send: &[T], p: &mut PartitionMut<T>) {
            model::collective_started();
            let n = model::size() as usize;
            assert_eq!(p.counts.len(), n, "MPI_Allgatherv: wrong number of counts");
            let me = model::rank() as usize;
            assert_eq!(send.len(), p.counts[me] as usize, "MPI_Allgatherv: count of this rank");
            unsafe {
                let base = p.buf.as_mut_ptr();
                let mut r = 0;
                while r < n {
                    let mut i = 0;
                    while i < p.counts[r] as usize {
                        let dst = base.add(p.displs[r] as usize + i);
                        if r == me {
                            core::ptr::copy_nonoverlapping(send.as_ptr().add(i), dst, 1);
                        } else {
                            model::gathered_var(r as Rank, i, dst);
                        }
                        i += 1;
                    }
                    r += 1;
                }
            }
        }
        fn all_reduce_into<T: Equivalence + 'static>(
            &self,
            send: &T,
            recv: &mut T,
            op: crate::collective::SystemOperation,
        ) {
            model::collective_started();
            unsafe { model::reduced(send, recv, op) }
        }
    }

    pub trait Destination {
        fn send_with_tag<T: Equivalence>(&self, data: &[T], tag: Tag);
        fn immediate_send_with_tag<'a, T: Equivalence, Sc: crate::request::Scope<'a>>(
            &self,
            scope: Sc,
            data: &'a [T],
            tag: Tag,
        ) -> crate::request::Request<'a, [T], Sc>;
    }
    impl Destination for Process {
        fn send_with_tag<T: Equivalence>(&self, data: &[T], tag: Tag) {
            model::sent(self.0, tag, data, true);
        }
        fn immediate_send_with_tag<'a, T: Equivalence, Sc: crate::request::Scope<'a>>(
            &self,
            scope: Sc,
            data: &'a [T],
            tag: Tag,
        ) -> crate::request::Request<'a, [T], Sc> {
            let id = model::sent(self.0, tag, data, false);
            crate::request::Request { id, data, scope }
        }
    }

    pub trait Source {
        fn matched_probe_with_tag(&self, tag: Tag) -> crate::point_to_point::Message;
        fn immediate_matched_probe_with_tag(
            &self,
            tag: Tag,
        ) -> Option<crate::point_to_point::Message>;
    }
    impl Source for Process {
        fn matched_probe_with_tag(&self, tag: Tag) -> crate::point_to_point::Message {
            crate::point_to_point::Message(model::probe_blocking(self.0, tag))
        }
        fn immediate_matched_probe_with_tag(
            &self,
            tag: Tag,
        ) -> Option<crate::point_to_point::Message> {
            model::probe_nonblocking(self.0, tag).map(crate::point_to_point::Message)
        }
    }

    pub trait MatchedReceiveVec {
        fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, crate::point_to_point::Status);
    }
    impl MatchedReceiveVec for crate::point_to_point::Message {
        fn matched_receive_vec<T: Equivalence>(self) -> (Vec<T>, crate::point_to_point::Status) {
            (model::take::<T>(self.0), crate::point_to_point::Status)
        }
    }
}

pub mod collective {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum SystemOperation {
        Sum,
        Min,
        Max,
    }
    impl SystemOperation {
        pub fn sum() -> Self {
            SystemOperation::Sum
        }
        pub fn min() -> Self {
            SystemOperation::Min
        }
        pub fn max() -> Self {
            SystemOperation::Max
        }
    }
}

pub mod point_to_point {
    pub struct Message(pub usize);
    pub struct Status;
}

pub mod topology {
    pub use crate::Rank;
    #[derive(Clone, Copy)]
    pub struct SimpleCommunicator;
    impl SimpleCommunicator {
        pub fn world() -> Self {
            SimpleCommunicator
        }
    }
    pub struct Process(pub Rank);
    pub use crate::traits::Communicator;
}

pub mod request {
    use core::marker::PhantomData;

    use crate::model;

    pub struct LocalScope<'a>(PhantomData<&'a ()>);
    #[derive(Clone, Copy)]
    pub struct StaticScope;
    pub unsafe trait Scope<'a> {}
    unsafe impl<'a, 'b> Scope<'a> for &'b LocalScope<'a> {}
    unsafe impl Scope<'static> for StaticScope {}

    pub fn scope<'a, F, R>(f: F) -> R
    where
        F: FnOnce(&LocalScope<'a>) -> R,
    {
        f(&LocalScope(PhantomData))
    }

    pub struct Request<'a, D: ?Sized, S> {
        pub(crate) id: crate::ffi::MPI_Request,
        pub(crate) data: &'a D,
        pub(crate) scope: S,
    }
    impl<'a, D: ?Sized, S: Scope<'a>> Request<'a, D, S> {
        pub unsafe fn into_raw(self) -> (crate::ffi::MPI_Request, &'a D, S) {
            (self.id, self.data, self.scope)
        }
        pub unsafe fn from_raw(id: crate::ffi::MPI_Request, data: &'a D, scope: S) -> Self {
            Request { id, data, scope }
        }
        pub fn wait(self) -> crate::point_to_point::Status {
            model::wait(self.id);
            crate::point_to_point::Status
        }
        pub fn wait_without_status(self) {
            model::wait(self.id);
        }
        pub fn test(self) -> Result<crate::point_to_point::Status, Self> {
            if model::test(self.id) {
                Ok(crate::point_to_point::Status)
            } else {
                Err(self)
            }
        }
    }

    pub struct WaitGuard<'a, D: ?Sized, S: Scope<'a>>(Option<Request<'a, D, S>>);
    impl<'a, D: ?Sized, S: Scope<'a>> Drop for WaitGuard<'a, D, S> {
        fn drop(&mut self) {
            if let Some(r) = self.0.take() {
                r.wait();
            }
        }
    }
    impl<'a, D: ?Sized, S: Scope<'a>> From<Request<'a, D, S>> for WaitGuard<'a, D, S> {
        fn from(r: Request<'a, D, S>) -> Self {
            WaitGuard(Some(r))
        }
    }
}

#[allow(non_camel_case_types, non_snake_case)]
pub mod ffi {
    pub type MPI_Request = usize;
    #[repr(C)]
    #[derive(Clone, Copy, Default)]
    pub struct MPI_Status {
        pub source: i32,
    }
    pub unsafe fn MPI_Test(r: *mut MPI_Request, flag: *mut i32, status: *mut MPI_Status) -> i32 {
        *flag = crate::model::test(*r) as i32;
        *status = MPI_Status { source: 0 };
        0
    }
    pub unsafe fn MPI_Wait(r: *mut MPI_Request, status: *mut MPI_Status) -> i32 {
        crate::model::wait(*r);
        *status = MPI_Status { source: 0 };
        0
    }
}
