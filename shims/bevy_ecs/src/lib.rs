//! Stand-in for `bevy_ecs` (a git dependency that is not available here): systems are plain functions that
//! the harness calls; queries and commands work on a small store.
pub mod component {
    pub use bevy_ecs_macros::Component;
    pub trait Component: 'static {}
    pub struct Components;
}
pub mod bundle {
    pub use bevy_ecs_macros::Bundle;
    pub trait Bundle {
        fn put(self, row: &mut crate::store::Row);
    }
    impl<C: crate::component::Component> Bundle for C {
        fn put(self, row: &mut crate::store::Row) {
            row.put(self)
        }
    }
}
pub mod schedule {
    pub use bevy_ecs_macros::StageLabel;
    pub use bevy_ecs_macros::SystemLabel;
    pub trait StageLabel {}
    pub trait SystemLabel {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SystemLabelId;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct StageLabelId;
    pub struct SystemDescriptor;
    pub trait IntoSystemDescriptor<P>: Sized {
        fn into_descriptor(self) -> SystemDescriptor { unimplemented!() }
        fn after<M>(self, _m: M) -> SystemDescriptor { unimplemented!() }
        fn before<M>(self, _m: M) -> SystemDescriptor { unimplemented!() }
        fn label<M>(self, _m: M) -> SystemDescriptor { unimplemented!() }
        fn ambiguous_with<M>(self, _m: M) -> SystemDescriptor { unimplemented!() }
        fn with_run_criteria<M>(self, _m: M) -> SystemDescriptor { unimplemented!() }
    }
    impl<T> IntoSystemDescriptor<()> for T {}
    pub trait StateData {}
    pub struct ReportExecutionOrderAmbiguities;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ShouldRun {
        Yes,
        No,
        YesAndCheckAgain,
        NoAndCheckAgain,
    }
    pub trait Stage {}
    pub struct SystemStage;
    pub struct SystemSet;
    pub struct Schedule;
}
pub mod entity {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub struct Entity {
        generation: u32,
        index: u32,
    }
    impl core::fmt::Debug for Entity {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            write!(f, "{}v{}", self.index, self.generation)
        }
    }
    impl Entity {
        pub const fn from_raw(index: u32) -> Self {
            Entity { index, generation: 0 }
        }
        pub const fn to_bits(self) -> u64 {
            (self.generation as u64) << 32 | self.index as u64
        }
        pub const fn from_bits(bits: u64) -> Self {
            Entity { generation: (bits >> 32) as u32, index: bits as u32 }
        }
        pub const fn index(self) -> u32 {
            self.index
        }
    }
}
pub mod system {
    pub use bevy_ecs_macros::Resource;
    use core::marker::PhantomData;
    use core::ops::Deref;
    use core::ops::DerefMut;
    pub trait Resource {}
    pub trait AsSystemLabel<M> {
        fn as_system_label(&self) -> crate::schedule::SystemLabelId { unimplemented!() }
    }
    impl<T> AsSystemLabel<()> for T {}
    pub struct EntityCommandsMarker;

    macro_rules! res {
        ($n:ident, $($m:tt)*) => {
            pub struct $n<'w, T: ?Sized> { inner: &'w $($m)* T }
            impl<'w, T: ?Sized> $n<'w, T> {
                pub fn from_ref(inner: &'w $($m)* T) -> Self { $n { inner } }
            }
            impl<'w, T: ?Sized> Deref for $n<'w, T> {
                type Target = T;
                fn deref(&self) -> &T { self.inner }
            }
        }
    }
    res!(Res,);
    res!(ResMut, mut);
    res!(NonSend,);
    res!(NonSendMut, mut);
    impl<'w, T: ?Sized> DerefMut for ResMut<'w, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner
        }
    }
    impl<'w, T: ?Sized> DerefMut for NonSendMut<'w, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner
        }
    }

    pub trait WorldQuery {
        type Item<'a>;
        type ReadItem<'a>;
        fn fetch<'a>(row: &crate::store::Row) -> Option<Self::Item<'a>>;
        fn fetch_read<'a>(row: &crate::store::Row) -> Option<Self::ReadItem<'a>>;
    }
    impl<'x, T: 'static> WorldQuery for &'x T {
        type Item<'a> = &'a T;
        type ReadItem<'a> = &'a T;
        fn fetch<'a>(row: &crate::store::Row) -> Option<&'a T> {
            row.get::<T>().map(|p| unsafe { &*p })
        }
        fn fetch_read<'a>(row: &crate::store::Row) -> Option<&'a T> {
            row.get::<T>().map(|p| unsafe { &*p })
        }
    }
    impl<'x, T: 'static> WorldQuery for &'x mut T {
        type Item<'a> = &'a mut T;
        type ReadItem<'a> = &'a T;
        fn fetch<'a>(row: &crate::store::Row) -> Option<&'a mut T> {
            row.get::<T>().map(|p| unsafe { &mut *p })
        }
        fn fetch_read<'a>(row: &crate::store::Row) -> Option<&'a T> {
            row.get::<T>().map(|p| unsafe { &*p })
        }
    }
    impl WorldQuery for crate::entity::Entity {
        type Item<'a> = crate::entity::Entity;
        type ReadItem<'a> = crate::entity::Entity;
        fn fetch<'a>(row: &crate::store::Row) -> Option<Self::Item<'a>> {
            Some(row.entity)
        }
        fn fetch_read<'a>(row: &crate::store::Row) -> Option<Self::ReadItem<'a>> {
            Some(row.entity)
        }
    }
    impl<Q: WorldQuery> WorldQuery for Option<Q> {
        type Item<'a> = Option<Q::Item<'a>>;
        type ReadItem<'a> = Option<Q::ReadItem<'a>>;
        fn fetch<'a>(row: &crate::store::Row) -> Option<Self::Item<'a>> {
            Some(Q::fetch(row))
        }
        fn fetch_read<'a>(row: &crate::store::Row) -> Option<Self::ReadItem<'a>> {
            Some(Q::fetch_read(row))
        }
    }
    macro_rules! tup {
        ($($t:ident),*) => {
            impl<$($t: WorldQuery),*> WorldQuery for ($($t,)*) {
                type Item<'a> = ($($t::Item<'a>,)*);
                type ReadItem<'a> = ($($t::ReadItem<'a>,)*);
                fn fetch<'a>(row: &crate::store::Row) -> Option<Self::Item<'a>> {
                    Some(($($t::fetch(row)?,)*))
                }
                fn fetch_read<'a>(row: &crate::store::Row) -> Option<Self::ReadItem<'a>> {
                    Some(($($t::fetch_read(row)?,)*))
                }
            }
            impl<$($t: Filter),*> Filter for ($($t,)*) {
                fn matches(row: &crate::store::Row) -> bool {
                    $($t::matches(row))&&*
                }
            }
            impl<$($t: crate::bundle::Bundle),*> crate::bundle::Bundle for ($($t,)*) {
                fn put(self, row: &mut crate::store::Row) {
                    #[allow(non_snake_case)]
                    let ($($t,)*) = self;
                    $($t.put(row);)*
                }
            }
        }
    }
    tup!(A);
    tup!(A, B);
    tup!(A, B, C);
    tup!(A, B, C, D);
    tup!(A, B, C, D, E);
    tup!(A, B, C, D, E, F);
    tup!(A, B, C, D, E, F, G);
    tup!(A, B, C, D, E, F, G, H);
    tup!(A, B, C, D, E, F, G, H, I);
    tup!(A, B, C, D, E, F, G, H, I, J);

    pub trait Filter {
        fn matches(row: &crate::store::Row) -> bool;
    }
    impl Filter for () {
        fn matches(_: &crate::store::Row) -> bool {
            true
        }
    }
    pub struct With<T>(PhantomData<T>);
    pub struct Without<T>(PhantomData<T>);
    impl<T: 'static> Filter for With<T> {
        fn matches(row: &crate::store::Row) -> bool {
            row.get::<T>().is_some()
        }
    }
    impl<T: 'static> Filter for Without<T> {
        fn matches(row: &crate::store::Row) -> bool {
            row.get::<T>().is_none()
        }
    }
    /// All entities of the store that match, in the order in which they were spawned.
    pub struct Query<'w, 's, Q: WorldQuery, F = ()> {
        _m: PhantomData<(&'w (), &'s (), fn() -> (Q, F))>,
    }
    impl<'w, 's, Q: WorldQuery, F> Query<'w, 's, Q, F> {
        pub fn of_store() -> Self {
            Query { _m: PhantomData }
        }
    }
    impl<'w, 's, Q: WorldQuery, F: Filter> Query<'w, 's, Q, F> {
        pub fn iter<'a>(&'a self) -> std::vec::IntoIter<Q::ReadItem<'a>> {
            crate::store::rows().iter().filter(|r| F::matches(r)).filter_map(|r| Q::fetch_read(r)).collect::<Vec<_>>().into_iter()
        }
        pub fn iter_mut<'a>(&'a mut self) -> std::vec::IntoIter<Q::Item<'a>> {
            crate::store::rows().iter().filter(|r| F::matches(r)).filter_map(|r| Q::fetch(r)).collect::<Vec<_>>().into_iter()
        }
        pub fn get<'a>(&'a self, e: crate::entity::Entity) -> Result<Q::ReadItem<'a>, QueryEntityError> {
            crate::store::rows().iter().find(|r| r.entity == e).filter(|r| F::matches(r)).and_then(|r| Q::fetch_read(r)).ok_or(QueryEntityError)
        }
        pub fn get_mut<'a>(&'a mut self, e: crate::entity::Entity) -> Result<Q::Item<'a>, QueryEntityError> {
            crate::store::rows().iter().find(|r| r.entity == e).filter(|r| F::matches(r)).and_then(|r| Q::fetch(r)).ok_or(QueryEntityError)
        }
        pub fn is_empty(&self) -> bool {
            self.iter().next().is_none()
        }
        pub fn get_single<'a>(&'a self) -> Result<Q::ReadItem<'a>, QueryEntityError> {
            self.iter().next().ok_or(QueryEntityError)
        }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct QueryEntityError;
    /// Commands are applied when the harness calls `store::apply`.
    pub struct Commands<'w, 's>(PhantomData<(&'w (), &'s ())>);
    pub struct EntityCommands(crate::entity::Entity);
    impl EntityCommands {
        pub fn insert<T: crate::bundle::Bundle + 'static>(&mut self, t: T) -> &mut Self {
            let e = self.0;
            crate::store::later(move || t.put(crate::store::row(e)));
            self
        }
        pub fn remove<T: 'static>(&mut self) -> &mut Self {
            let e = self.0;
            crate::store::later(move || crate::store::row(e).remove::<T>());
            self
        }
        pub fn despawn(&mut self) {
            let e = self.0;
            crate::store::later(move || crate::store::despawn(e));
        }
        pub fn id(&self) -> crate::entity::Entity {
            self.0
        }
    }
    impl<'w, 's> Commands<'w, 's> {
        pub fn of_store() -> Self {
            Commands(PhantomData)
        }
        pub fn insert_resource<R: Resource + 'static>(&mut self, r: R) {
            crate::store::later(move || crate::store::insert_resource(r));
        }
        pub fn remove_resource<R: Resource>(&mut self) {
            unimplemented!()
        }
        pub fn spawn<T: crate::bundle::Bundle + 'static>(&mut self, t: T) -> EntityCommands {
            let mut e = self.spawn_empty();
            e.insert(t);
            e
        }
        pub fn spawn_empty(&mut self) -> EntityCommands {
            let e = crate::store::reserve();
            crate::store::later(move || crate::store::add(e));
            EntityCommands(e)
        }
        pub fn entity(&mut self, e: crate::entity::Entity) -> EntityCommands {
            EntityCommands(e)
        }
        pub fn spawn_batch<T>(&mut self, _t: T) {
            unimplemented!()
        }
    }
}
/// A small store of entities, components and resources.
pub mod store {
    use crate::entity::Entity;
    use std::any::TypeId;
    pub struct Row {
        pub entity: Entity,
        // components are never freed: references to them may still be around
        comps: Vec<(TypeId, *mut u8)>,
    }
    impl Row {
        pub fn get<T: 'static>(&self) -> Option<*mut T> {
            let t = TypeId::of::<T>();
            for (k, p) in self.comps.iter() {
                if *k == t {
                    return Some(*p as *mut T);
                }
            }
            None
        }
        pub fn put<T: 'static>(&mut self, c: T) {
            self.remove::<T>();
            self.comps.push((TypeId::of::<T>(), Box::into_raw(Box::new(c)) as *mut u8));
        }
        pub fn remove<T: 'static>(&mut self) {
            let t = TypeId::of::<T>();
            self.comps.retain(|(k, _)| *k != t);
        }
    }
    static mut ROWS: Vec<Row> = Vec::new();
    static mut NEXT: u32 = 0;
    static mut LATER: Vec<Box<dyn FnOnce()>> = Vec::new();
    static mut RESOURCES: Vec<(TypeId, *mut u8)> = Vec::new();
    pub fn reset() {
        unsafe {
            ROWS = Vec::new();
            NEXT = 0;
            LATER = Vec::new();
            RESOURCES = Vec::new();
        }
    }
    pub fn rows() -> &'static mut Vec<Row> {
        unsafe { &mut *core::ptr::addr_of_mut!(ROWS) }
    }
    pub fn row(e: Entity) -> &'static mut Row {
        rows().iter_mut().find(|r| r.entity == e).expect("a command for an entity that does not exist")
    }
    pub fn reserve() -> Entity {
        unsafe {
            NEXT += 1;
            Entity::from_raw(NEXT - 1)
        }
    }
    pub fn add(e: Entity) {
        rows().push(Row { entity: e, comps: Vec::new() });
    }
    pub fn spawn<B: crate::bundle::Bundle>(b: B) -> Entity {
        let e = reserve();
        add(e);
        b.put(row(e));
        e
    }
    pub fn despawn(e: Entity) {
        row(e);
        rows().retain(|r| r.entity != e);
    }
    pub fn later(f: impl FnOnce() + 'static) {
        unsafe { (*core::ptr::addr_of_mut!(LATER)).push(Box::new(f)) }
    }
    /// applies the commands in the order in which they were given
    pub fn apply() {
        let l = unsafe { std::mem::take(&mut *core::ptr::addr_of_mut!(LATER)) };
        for f in l {
            f();
        }
    }
    pub fn get<T: 'static>(e: Entity) -> Option<&'static mut T> {
        rows().iter().find(|r| r.entity == e).and_then(|r| r.get::<T>()).map(|p| unsafe { &mut *p })
    }
    pub fn insert_resource<R: 'static>(r: R) {
        let v = unsafe { &mut *core::ptr::addr_of_mut!(RESOURCES) };
        let t = TypeId::of::<R>();
        v.retain(|(k, _)| *k != t);
        v.push((t, Box::into_raw(Box::new(r)) as *mut u8));
    }
    pub fn resource<R: 'static>() -> Option<&'static mut R> {
        let v = unsafe { &mut *core::ptr::addr_of_mut!(RESOURCES) };
        let t = TypeId::of::<R>();
        v.iter().find(|(k, _)| *k == t).map(|(_, p)| unsafe { &mut *(*p as *mut R) })
    }
}
pub mod archetype {
    pub struct Archetypes;
}
pub mod world {
    pub struct World;
    pub struct Mut<'a, T>(pub &'a mut T);
}
pub mod event {
    use core::marker::PhantomData;
    pub trait Event {}
    impl<T> Event for T {}
    /// The events are provided by the harness.
    pub struct EventReader<'w, 's, T: 'static>(pub &'w [T], pub PhantomData<&'s ()>);
    impl<'w, 's, T> EventReader<'w, 's, T> {
        pub fn iter(&mut self) -> core::slice::Iter<'w, T> {
            self.0.iter()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
    pub struct EventWriter<'w, 's, T: 'static>(pub &'w mut Vec<T>, pub PhantomData<&'s ()>);
    impl<'w, 's, T> EventWriter<'w, 's, T> {
        pub fn send(&mut self, t: T) {
            self.0.push(t)
        }
    }
}
pub mod prelude {
    pub use crate::event::*;
    pub use crate::world::*;
    pub use crate::bundle::*;
    pub use crate::component::*;
    pub use crate::entity::*;
    pub use crate::schedule::*;
    pub use crate::system::*;
}
