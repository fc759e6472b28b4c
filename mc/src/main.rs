mod adv;
mod advmodel;
mod codec;
mod conv;
mod disc;
mod e2e;
mod hdr;
mod helpers;
mod names;
mod pool;
mod print;
mod res;
mod svc;
mod tap;
mod walk;

#[global_allocator]
static G: vcore::alloc::Guard = vcore::alloc::Guard;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("conform") {
        std::process::exit(vcore::conform::main());
    }
    let mut v = vec![];
    v.extend(codec::props());
    v.extend(hdr::props());
    v.extend(names::props());
    v.extend(adv::props());
    v.extend(disc::props());
    v.extend(res::props());
    v.extend(svc::props());
    v.extend(print::props());
    v.extend(e2e::props());
    v.extend(tap::props());
    v.extend(helpers::props());
    vcore::explore::main(v);
}
