//! C21–C23, C25: the async twin, driven by an executor, clock and network the explorer decides.
#[path = "../../mc/src/advmodel.rs"]
#[allow(dead_code)]
mod advmodel;
#[path = "../../mc/src/conv.rs"]
#[allow(dead_code)]
mod conv;
#[path = "../../mc/src/pool.rs"]
#[allow(dead_code)]
mod pool;

mod aadv;
mod adisc;
mod ares;
mod exec;
mod sock;

#[global_allocator]
static G: vcore::alloc::Guard = vcore::alloc::Guard;

fn main() {
    let mut v = vec![];
    v.extend(ares::props());
    v.extend(adisc::props());
    v.extend(aadv::props());
    v.extend(sock::props());
    vcore::explore::main(v);
}
