use super::*;
use crate::vp_api::*;
use bevy_ecs::store;
use mpi::model;
use bevy_ecs::prelude::Query;

/// for the harness in the decomposition
pub fn outgoing(n: usize, me: i32) -> OutgoingEntities {
    OutgoingEntities(DataByRank::from_size_and_rank(n, me))
}
#[derive(Component, Clone, Equivalence, Copy)]
struct A(u64);
#[derive(Component, Clone, Equivalence, Copy)]
struct B(u64);

/// particles that are sent away are gone here, those that arrive have all of their components
#[no_mangle]
pub extern "C" fn c26_exchange() {
    store::reset();
    let n = 3;
    let me = pick(n) as i32;
    model::reset(n as i32, me);
    // local particles and where they go
    let num = pick(3);
    let mut out = outgoing(n, me);
    let mut local = vec![];
    for _ in 0..num {
        let (a, b) = (any_u64(), any_u64());
        let e = store::spawn((LocalParticle, A(a), B(b)));
        let to = pick(n) as i32;
        if to != me {
            out.add(to, e);
        }
        local.push((e, a, b, to));
    }
    // what comes from the others
    let others: Vec<i32> = (0..n as i32).filter(|r| *r != me).collect();
    let nums: Vec<usize> = others.iter().map(|r| if *r == others[0] { pick(3) } else { 1 }).collect();
    let ina: Vec<Vec<A>> = nums.iter().map(|k| (0..*k).map(|_| A(any_u64())).collect()).collect();
    let inb: Vec<Vec<B>> = nums.iter().map(|k| (0..*k).map(|_| B(any_u64())).collect()).collect();
    let counts: Vec<Vec<NumEntities>> = nums.iter().map(|k| vec![NumEntities(*k)]).collect();
    let mut spawned = SpawnedEntities(DataByRank::from_size_and_rank(n, me));
    for (i, r) in others.iter().enumerate() {
        model::deliver(*r, &counts[i], true);
    }
    use bevy_ecs::prelude::Commands;
    spawn_incoming_entities_system(Commands::of_store(), ResMut::from_ref(&mut spawned), Res::from_ref(&out));
    for (i, r) in others.iter().enumerate() {
        model::deliver(*r, &ina[i], true);
    }
    let mut buf = ExchangeBuffers::<A>(DataByRank::from_size_and_rank(n, me));
    ExchangeDataPlugin::<A>::fill_buffers_system(Res::from_ref(&out), Query::of_store(), ResMut::from_ref(&mut buf));
    ExchangeDataPlugin::<A>::exchange_buffers_system(Commands::of_store(), ResMut::from_ref(&mut buf), Res::from_ref(&spawned));
    ExchangeDataPlugin::<A>::reset_buffers_system(ResMut::from_ref(&mut buf), Res::from_ref(&WorldSize(n)), Res::from_ref(&WorldRank(me)));
    must(buf.size() == 0, "nothing is left in the buffers");
    for (i, r) in others.iter().enumerate() {
        model::deliver(*r, &inb[i], true);
    }
    let mut buf = ExchangeBuffers::<B>(DataByRank::from_size_and_rank(n, me));
    ExchangeDataPlugin::<B>::fill_buffers_system(Res::from_ref(&out), Query::of_store(), ResMut::from_ref(&mut buf));
    // what goes out, in the order of the particles
    for r in others.iter() {
        let want: Vec<u64> = local.iter().filter(|l| l.3 == *r).map(|l| l.2).collect();
        must(buf[*r].len() == want.len() && buf[*r].iter().zip(want.iter()).all(|(x, y)| x.0 == *y), "the components of exactly the particles that go to a process are sent there, in one order");
    }
    ExchangeDataPlugin::<B>::exchange_buffers_system(Commands::of_store(), ResMut::from_ref(&mut buf), Res::from_ref(&spawned));
    despawn_outgoing_entities_system(Commands::of_store(), Res::from_ref(&out));
    reset_outgoing_entities_system(ResMut::from_ref(&mut out), Res::from_ref(&WorldSize(n)), Res::from_ref(&WorldRank(me)));
    must(out.size() == 0, "the same particles are not sent twice");
    store::apply();
    // the counts that were sent
    let w = model::world();
    for r in others.iter() {
        let sent: Vec<_> = w.sent.iter().filter(|s| s.dest == *r).collect();
        must(sent.len() == 3, "three messages to every other process");
        let first = sent[0];
        must(first.len == 1, "first the number of particles");
    }
    for (e, a, b, to) in local.iter() {
        let here = store::get::<A>(*e);
        if *to == me {
            must(here.map(|x| x.0) == Some(*a) && store::get::<B>(*e).map(|x| x.0) == Some(*b), "particles that stay keep their components");
        } else {
            must(here.is_none(), "particles that were sent away are gone");
        }
    }
    let stay = local.iter().filter(|l| l.3 == me).count();
    must(store::rows().len() == stay + nums.iter().sum::<usize>(), "there is one new particle for each one that arrived");
    for (i, r) in others.iter().enumerate() {
        must(spawned[*r].len() == nums[i], "as many particles arrive as were sent");
        for (j, e) in spawned[*r].iter().enumerate() {
            must(store::get::<LocalParticle>(*e).is_some(), "particles that arrived are local");
            must(store::get::<A>(*e).map(|x| x.0) == Some(ina[i][j].0) && store::get::<B>(*e).map(|x| x.0) == Some(inb[i][j].0), "all components of a particle arrive at the same particle");
        }
    }
    cover(num == 2 && local.iter().all(|l| l.3 != me) && nums[0] == 2, "two leave, two arrive");
}
