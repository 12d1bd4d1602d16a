mod sim;
use sim::*;
fn main() {
    for mode in 0..3u8 {
        let mut w = World::new();
        let c = Cfg::new(mode, 0, vec![reg(1_000_000, 10, 500_000, 500)]);
        let s = w.sale(0, &c);
        let b = w.open(&s, 1);
        w.deposit(&s, &b, 5000).unwrap();
        if mode != 2 { w.withdraw(&s, &b, 100).unwrap(); }
        w.set_time(T0 + 1000);
        w.claim(&s, &b).unwrap();
        w.collect_fee(&s).unwrap();
        w.creator_withdraw(&s, s.creator_quote, s.quote_vault, s.quote_mint).unwrap();
        if mode == 0 { w.unsold(&s).unwrap(); } else { let _ = w.unsold(&s); }
        if mode == 1 { w.refund(&s, &b).unwrap(); }
        println!("{mode}: {} {} {}", w.balance(&s.base_vault), w.balance(&s.quote_vault), w.balance(&b.base));
        w.refresh(&s, &b).unwrap();
        w.close(&s, &b).unwrap();
        println!("{}", w.exists(&b.escrow));
    }
}
