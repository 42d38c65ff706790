ID="E04-wrap-old-secret"; PROP="E04"
NEEDS="a sender key whose ratchet counter wraps around, followed by a frame of a ratchet position far behind"
BREAKS="The distance between the current and the retained old ratchet position is computed without wrap-around, so after the counter wraps the old secret is kept for ever."
EDITS=[("src/rust/src/core/crypto.rs","""            .ratchet_counter
            .wrapping_sub(self.old_ratchet_counter)
""","""            .ratchet_counter
            .saturating_sub(self.old_ratchet_counter)
""")]
MAIN='''use ringrtc::core::crypto::*;
fn main() {
    let mut s = Context::new([7; 32]);
    let mut r = Context::new([9; 32]);
    for _ in 0..250 { s.advance_send_ratchet(); }
    let (c, k) = s.send_state();
    r.add_receive_secret(1, c, k);
    let mut frame = |s: &mut Context| { let mut d = vec![1, 2, 3, 4]; let mut m = Mac::default(); let (rc, fc) = s.encrypt(&mut d, &mut m).unwrap(); (rc, fc, d, m) };
    let old = frame(&mut s);
    for _ in 0..12 {
        s.advance_send_ratchet();
        let (rc, fc, mut d, m) = frame(&mut s);
        r.decrypt(1, rc, fc, &mut d, &m).unwrap();
    }
    let (rc, fc, mut d, m) = old;
    assert!(r.decrypt(1, rc, fc, &mut d, &m).is_err(), "a frame 12 ratchet positions back is still decrypted");
}
'''
