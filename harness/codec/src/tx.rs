//! Envelope, Context, Transaction and SpawnAccount: round trip and documented layout.
use crate::{blob, round_trip, text};
use svm_codec::Codec;
use svm_types::*;

fn addr(n: &str) -> Address {
    Address(vp::bytes::<20>(n))
}
fn state(n: &str) -> State {
    State(vp::bytes::<32>(n))
}
pub fn put_str(out: &mut Vec<u8>, s: &str) {
    out.push(s.len() as u8);
    out.extend_from_slice(s.as_bytes());
}
pub fn put_blob(out: &mut Vec<u8>, s: &[u8]) {
    out.push(s.len() as u8);
    out.extend_from_slice(s);
}

vp::entry! {
    fn h_tx_envelope() {
        let (a, amount, nonce, gas, fee) = (addr("principal"), vp::u64("amount"), vp::u128("nonce"), vp::u64("gas"), vp::u64("fee"));
        let g = if gas == 0 { Gas::new() } else { Gas::with(gas) };
        let e = Envelope::new(a.clone(), amount, nonce, g, fee);
        let b = round_trip(&e);
        let mut want = a.0.to_vec();
        want.extend_from_slice(&amount.to_be_bytes());
        want.extend_from_slice(&nonce.to_be_bytes());
        want.extend_from_slice(&gas.to_be_bytes());
        want.extend_from_slice(&fee.to_be_bytes());
        vp::check(b == want, "envelope layout");
        let (d, _) = crate::dec::<Envelope>(&b).unwrap();
        vp::check(*d.principal() == a && d.amount() == amount && d.nonce() == nonce && d.gas_limit() == g && d.gas_fee() == fee, "envelope field");
        vp::reach("end");
    }
    fn h_tx_context() {
        let (t, l, s) = (TransactionId(vp::bytes::<32>("tx")), vp::u64("layer"), state("state"));
        let c = Context::new(t.clone(), Layer(l), s.clone());
        let b = round_trip(&c);
        let mut want = t.0.to_vec();
        want.extend_from_slice(&l.to_be_bytes());
        want.extend_from_slice(&s.0);
        vp::check(b == want, "context layout");
        let (d, _) = crate::dec::<Context>(&b).unwrap();
        vp::check(*d.tx_id() == t && d.layer().0 == l && *d.state() == s, "context field");
        vp::reach("end");
    }
    fn h_tx_call() {
        let t = Transaction {
            version: vp::u16("version"),
            target: addr("target"),
            func_name: text("function"),
            verifydata: blob("verifydata", &[0, 1, 2, 255]),
            calldata: blob("calldata", &[0, 1, 3, 254, 255]),
        };
        let b = round_trip(&t);
        let mut want = t.version.to_be_bytes().to_vec();
        want.extend_from_slice(&t.target.0);
        put_str(&mut want, &t.func_name);
        put_blob(&mut want, &t.verifydata);
        put_blob(&mut want, &t.calldata);
        vp::check(b == want, "transaction layout");
        vp::reach("end");
    }
    fn h_tx_spawn() {
        let t = SpawnAccount {
            version: vp::u16("version"),
            account: Account { name: text("name"), template_addr: TemplateAddr(vp::bytes::<20>("template")) },
            ctor_name: text("ctor"),
            calldata: blob("calldata", &[0, 1, 3, 255]),
        };
        let b = round_trip(&t);
        let mut want = t.version.to_be_bytes().to_vec();
        want.extend_from_slice(&t.account.template_addr.0);
        put_str(&mut want, &t.account.name);
        put_str(&mut want, &t.ctor_name);
        put_blob(&mut want, &t.calldata);
        vp::check(b == want, "spawn layout");
        vp::reach("end");
    }
    fn h_tx_oversized() {
        // what does not fit its length prefix is refused, never cut
        let n = 256 + vp::choose(2, "excess") * 256;
        let long = vec![b'a'; n];
        let s = String::from_utf8(long.clone()).unwrap();
        let t = Transaction { version: 0, target: addr("target"), func_name: String::new(), verifydata: vec![], calldata: vec![] };
        let sp = SpawnAccount { version: 0, account: Account { name: String::new(), template_addr: TemplateAddr([0; 20]) }, ctor_name: String::new(), calldata: vec![] };
        let r = match vp::choose(6, "field") {
            0 => { let mut t = t; t.func_name = s; vp::catch(|| t.encode_to_vec()) }
            1 => { let mut t = t; t.verifydata = long; vp::catch(|| t.encode_to_vec()) }
            2 => { let mut t = t; t.calldata = long; vp::catch(|| t.encode_to_vec()) }
            3 => { let mut t = sp; t.account.name = s; vp::catch(|| t.encode_to_vec()) }
            4 => { let mut t = sp; t.ctor_name = s; vp::catch(|| t.encode_to_vec()) }
            _ => { let mut t = sp; t.calldata = long; vp::catch(|| t.encode_to_vec()) }
        };
        vp::check(r.is_none(), "an oversized field was encoded");
        vp::reach("end");
    }
}
