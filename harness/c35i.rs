use super::*;
pub const REQUEST: usize = std::mem::size_of::<IdLookupRequest>();
pub fn parse_request(p: *const u8, i: usize) -> u64 {
    unsafe { std::ptr::read_unaligned((p as *const IdLookupRequest).add(i)).id.0 }
}
pub fn parse_reply(p: *const u8, i: usize) -> (u64, ParticleId) {
    let r = unsafe { std::ptr::read_unaligned((p as *const IdLookupReply).add(i)) };
    (r.request_id.0, r.id)
}
/// a message of another process: none of its memory is freed
pub fn deliver_requests(source: Rank, ids: &[u64]) {
    let v: Vec<IdLookupRequest> = ids.iter().map(|i| IdLookupRequest { id: UniqueParticleId(*i) }).collect();
    mpi::model::deliver(source, Box::leak(v.into_boxed_slice()), true);
}
pub fn deliver_replies(source: Rank, l: &[(u64, ParticleId)]) {
    let v: Vec<IdLookupReply> = l.iter().map(|(r, i)| IdLookupReply { request_id: UniqueParticleId(*r), id: *i }).collect();
    mpi::model::deliver(source, Box::leak(v.into_boxed_slice()), true);
}
