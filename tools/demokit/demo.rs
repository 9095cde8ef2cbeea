#[path = "rt.rs"]
mod rt;
#[path = "lab.rs"]
mod lab;
use lab::*;
fn main() {
    let mut l = Lab::new();
    for u in ["a", "b"] { assert!(l.join(u)); }
    assert!(l.deposit("a", 100, ThreeMonths, "a"), "{}", l.last);
    assert!(l.deposit("b", 100, Flex, "a"));
    assert!(l.fill(1000, T0 + 10 * DAY), "{}", l.last);
    l.days(1);
    assert!(l.distribute(), "{}", l.last);
    println!("{} {} {} {:?} {:?}", l.total(), l.avail(), l.others("a"), l.boosts("a"), l.pool_boosts());
    println!("{:?} {:?} {}", l.claim("a"), l.claim("b"), l.tokens("a"));
}
